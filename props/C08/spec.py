R = 'exact real arithmetic; every finite gain, signal, limit and option below 1e6 in magnitude, time step above 1e-3; '
G = dict(lo=(-9, 0), hi=(0, 9), dt=(0.01, 2), beta=(0, .9), eps=(1e-4, .5), bt=(-1, 2), dt2=(-1, 0), gamma=(-.2, 2), alpha=(-.2, 2))
HARNESSES = [
    dict(fn='h_limits', mode='real', bounds=R + '4 (8 thorough) steps with a free mode switch at each', gen=G),
    dict(fn='h_limits_mrac', mode='real', bounds=R + '2 steps with model-reference control', gen=G),
    dict(fn='h_relimit', mode='real', bounds=R + 'limits changed between two steps', gen=G),
    dict(fn='h_defaults', mode='real', bounds=R + 'first step', gen=dict(dt=(-1, 1))),
    dict(fn='h_unset', mode='real', bounds='never configured instance'),
    dict(fn='h_refuse', mode='real', bounds=R + 'first step after refused calls', gen=G),
    dict(fn='h_fp', mode='fp', bounds='every bit pattern of kc, ki, dt, limits, w, y; one step', gen=G, cfg=dict(feas='loop')),
]
ASSUMPTIONS = ['NaN inputs and intermediate NaN (from overflow) are outside the claim', 'longer histories than the stated steps are outside the claim (the saturation is the last operation of each step)',
               'real-mode harnesses decide the property in exact real arithmetic; counterexamples are replayed in binary32']
