R = 'exact real arithmetic; samples below 1e3 in magnitude; 4 (5 thorough) samples; '
G = dict(l=(.05, .95), x=(-9, 9), n=(0, 3))
S = {'qlibs::ffmath::sqrt': 'sqrt_uf'}
HARNESSES = [dict(fn='h_' + f, mode='real', bounds=R + 'window of %s' % f[-1], gen=G, stubs=S) for f in 'law1 law2 law3 par1 par2 par3'.split()] + [
    dict(fn='h_change', mode='real', bounds=R + 'window of 2, parameters changed after 2 samples', gen=dict(G, l=(-.5, 1.5)), stubs=S),
    dict(fn='h_again', mode='real', bounds=R + 'window of 2, 2+3 samples', gen=G, stubs=S),
    dict(fn='h_accept', bounds='bit-precise; every float parameter, windows of 0 to 3 elements', gen=dict(l=[.5, 0., 1., -1., 2.])),
    dict(fn='h_constant', mode='real', bounds=R + 'window of 3, 3 samples of one magnitude and any sign', gen=G, stubs={'qlibs::ffmath::sqrt': 'sqrt_real'}),
    dict(fn='h_nonneg', mode='real', bounds=R + 'window of 2, 3 samples', gen=G, stubs=S)]
ASSUMPTIONS = ['decided in exact real arithmetic: rounding of binary32 is outside the claim', 'the square root is an uninterpreted non-negative function (with s*s = x in h_constant)', 'larger windows and longer signals are outside the claim']
