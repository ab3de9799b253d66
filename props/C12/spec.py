R = 'exact real arithmetic; samples below 1e3 in magnitude, parameters in (0.001, 0.999); 7 (9 thorough) samples unless stated, optional reset; '
G = dict(a=(.05, .95), x=(-9, 9), q=(.1, 9), sg=(.5, 3), c=(0, 2), n=(0, 3))
S = {'qlibs::ffmath::sqrt': 'sqrt_uf', 'qlibs::ffmath::exp': 'exp_uf'}
HARNESSES = [dict(fn='h_' + f, mode='real', bounds=R + b, gen=G, stubs=S) for f, b in [('lpf1', ''), ('lpf2', ''), ('expw', '5 samples'), ('klmn', '4 samples'), ('desf_0', ''), ('desf_1', ''), ('desf_3', ''), *[('const_' + x, '3 samples') for x in ('lpf1', 'mwm1', 'mwm2', 'mor1', 'mor2', 'gmwf', 'expw', 'klmn')]]
             + [(x, 'window size as in the name') for x in ('mwm1_1', 'mwm1_2', 'mwm1_3', 'mwm2_1', 'mwm2_2', 'mwm2_3', 'mwm2_4', 'mor1_1', 'mor1_2', 'mor1_3', 'mor2_1', 'mor2_2', 'mor2_3', 'gmwf_2', 'gmwf_3', 'alnf_1', 'alnf_2', 'alnf_m1', 'alnf_m2')]]
ASSUMPTIONS = ['decided in exact real arithmetic: rounding of binary32 is outside the claim', 'square root and exponential are uninterpreted functions (their accuracy is outside this property)',
               'larger windows and longer signals are outside the claim', 'the double exponential filter is checked against Holt recursion without the trend term in the level (see known findings)']
