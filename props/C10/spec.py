R = 'exact real arithmetic; coefficients and signals below 1e3 in magnitude, leading denominator coefficient above 1e-3; '
G = dict(a=(-3, 3), b=(-3, 3), u=(-5, 5), lo=(-4, 1), hi=(-1, 4), T=(0, 9), dt=(.01, 2))
HARNESSES = [dict(fn='h_%d%d' % x, mode='real', bounds=R + '%d numerator and %d denominator coefficients, 8 (12 thorough) samples' % x, gen=G)
             for x in ((1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (4, 2), (1, 4), (4, 4))] + [
    dict(fn='h_build', mode='real', bounds=R + '4 samples', gen=G),
    dict(fn='h_states', mode='real', bounds=R + '3 samples before and after', gen=G),
    dict(fn='h_saturation', mode='real', bounds=R + '4 samples', gen=G),
    dict(fn='h_delay1', mode='real', bounds=R + '5 samples', gen=G),
    dict(fn='h_delay2', mode='real', bounds=R + '5 samples', gen=G),
    dict(fn='h_delay4', mode='real', bounds=R + '5 samples', gen=G),
    dict(fn='h_transport', mode='real', bounds='delays of 1, 2, 3 and 5 samples, 2n+3 samples', gen=G, unwind=40),
    dict(fn='h_fir', mode='real', bounds='windows of 1, 2, 3 and 5 samples', gen=G),
    dict(fn='h_refuse', mode='real', bounds='null arguments and empty numerator', gen=G),
    dict(fn='h_fromtime', mode='real', bounds='delay below 1e3 s, time step above 1e-3 s', gen=G),
]
ASSUMPTIONS = ['decided in exact real arithmetic: rounding of binary32 is outside the claim', 'at least one denominator coefficient', 'higher orders and longer signals are outside the claim']
