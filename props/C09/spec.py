R = 'exact real arithmetic; every value below 1e4 in magnitude, time step above 1e-3; '
G = dict(lo=(-90, 0), hi=(0, 90), dt=(0.05, 2), beta=(0, .9), eps=(1e-4, .5), kc=(-2, 2), ki=(-2, 2), kd=(-2, 2), gamma=(.1, 2), alpha=(.1, 2), pk=(.1, 4), pti=(.1, 4), ptd=(.1, 4))
HARNESSES = [
    dict(fn='h_default', mode='real', bounds=R + '5 (8 thorough) steps', gen=G),
    dict(fn='h_options', mode='real', bounds=R + '2 steps, all options symbolic', gen=G),
    dict(fn='h_modes', mode='real', bounds=R + '5 (8 thorough) steps, any mode sequence', gen=G),
    dict(fn='h_direction', mode='real', bounds=R + '2 steps', gen=G),
    dict(fn='h_reset', mode='real', bounds=R + '2 steps before and after the reset', gen=G),
    dict(fn='h_gains', mode='real', bounds=R + 'positive parameters', gen=G),
    dict(fn='h_regain', mode='real', bounds=R + '2 steps', gen=G),
    dict(fn='h_mrac', mode='real', bounds=R + '3 steps', gen=G),
]
ASSUMPTIONS = ['decided in exact real arithmetic: rounding of binary32 is outside the claim', 'trapezoidal integration and two-point derivative (the defaults)', 'longer histories are outside the claim']
