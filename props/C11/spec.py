R = 'exact real arithmetic; coefficients and signals below 1e3 in magnitude, leading denominator coefficient and time step above 1e-3; '
G = dict(a=(-3, 3), b=(-3, 3), u=(-5, 5), lo=(-4, 1), hi=(-1, 4), dt=(.01, 1), x=(-5, 5), p=(-5, 5), q=(-5, 5))
HARNESSES = [dict(fn='h_' + f, mode='real', bounds=R + b, gen=G) for f, b in (
    ('1', 'order 1, 5 (6 thorough) samples'), ('1rect', 'order 1, 4 (5 thorough) samples'), ('1simp', 'order 1, 4 (5 thorough) samples'),
    ('2', 'order 2, 4 (5 thorough) samples'), ('2rect', 'order 2, 4 (5 thorough) samples'), ('2simp', 'order 2, 4 (5 thorough) samples'),
    ('3', 'order 3, 3 (4 thorough) samples'), ('4', 'order 4, 3 samples'), ('build', 'order 2, 3 samples'), *[('any' + n, 'order %s, 3 samples from any state' % n[0]) for n in ('1', '2', '3', '3s', '4', '5', '6')], ('states', 'order 2, 2+3 samples'),
    ('saturation', 'order 2, 3 samples'), ('delay1', 'order 1, 5 samples'), ('delay3', 'order 1, 5 samples'), ('refuse', 'null and empty arguments'))]
ASSUMPTIONS = ['decided in exact real arithmetic: rounding of binary32 is outside the claim', 'the default (controllable form) build of the library', 'higher orders and longer signals are outside the claim']
