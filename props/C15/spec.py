G = dict(x=(-20, 20), p=(-20, 20), s=(.5, 9), b=(.3, 3.5), a=(-50, 50))
R = 'exact real arithmetic; inputs and points below 100 in magnitude, distinct points at least 1/16 apart'
B = 'bit-precise; '
E = {'qlibs::ffmath::exp': 'exp_uf', 'qlibs::ffmath::cos': 'cos_uf', 'qlibs::ffmath::pow': 'pow_uf'}
HARNESSES = [dict(fn='h_' + f, mode='real', bounds=R, gen=G, stubs=E, cfg=dict(feas='all')) for f in 'tri trap s z pi lins linz conc gauss gauss2 sig dsig psig spike cos bell'.split()] + [
    dict(fn='h_edge%d' % i, bounds=B + 'every corner within 1000', cfg=dict(feas='all')) for i in range(6)] + [ dict(fn='h_rect', bounds=B + 'every interval, inputs within 1000'), dict(fn='h_step', bounds=B + 'corner and input within 1000'),
    dict(fn='h_range', bounds=B + 'every value of a membership function, height and input'), dict(fn='h_clip', bounds=B + 'every input, ranges within 1000')]
ASSUMPTIONS = ['formulas are decided in exact real arithmetic: rounding of binary32 is outside the claim', 'exponential, cosine and power are uninterpreted functions with elementary facts (sign, value at zero, bounds)', 'points in the order the shape requires']
