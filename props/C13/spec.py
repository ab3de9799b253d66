G = dict(a=[.5, .25, 0., 1., -1., 2., .9], bad=(-3, 3), x=(-9, 9), lo=(-9, 0), hi=(0, 9), n=(0, 3), which=(0, 2))
F = {'qlibs::ffmath::exp': 'havoc', 'qlibs::ffmath::sqrt': 'havoc'}
S = {'qlibs::ffmath::sqrt': 'sqrt_uf', 'qlibs::ffmath::exp': 'exp_uf'}
HARNESSES = [dict(fn=f, bounds='bit-precise; every float value, windows of 0 to 3 elements, null pointers', stubs=F, gen=G, conf=0) for f in ('h_acc_scalar', 'h_acc_window', 'h_acc_gauss')] + [
    dict(fn='h_keep_' + f, mode='real', bounds='exact real arithmetic; 2 samples before and 3 after the refused setup', stubs=S, gen=G) for f in 'lpf1 lpf2 expw klmn desf mwm1 mwm2 mor1 mor2 gmwf alnf'.split()] + [
    dict(fn='h_safe_%d_%d' % (n, w), bounds='bit-precise; window of %d, %d samples of any value, reset before any of them' % (n, 2 * n + 2), stubs=F, gen=G, conf=0, **({'tier': 'thorough'} if False else {})) for n in (1, 2, 4) for w in range(1, 8)] + [
    dict(fn='h_hull_' + f, mode='real', bounds='exact real arithmetic; up to 5 samples below 1e3', stubs=S, gen=G) for f in 'lpf1 expw mwm1 mwm2 mor1 mor2'.split()]
ASSUMPTIONS = ['samples are only passed to filters that were set up', 'square root and exponential results are unconstrained in the bit-precise harnesses', 'larger windows are outside the claim']
