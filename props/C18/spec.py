B = 'exact real arithmetic; table values below 100, point spacing above 1/16, input below 200 and at least 1/128 away from the points unless it is one; '
G = dict(tx=(-20, 20), ty=(-20, 20), x=(-25, 25), la=(-5, 5), s=(0, 3), tz=(-9, 9), n=(0, 5), m=(9, 15))
S = {'qlibs::ffmath::cos': 'cos_uf'}
NAMES = dict(next='INTERP1_NEXT', prev='INTERP1_PREVIOUS', near='INTERP1_NEAREST', lin='INTERP1_LINEAR', sine='INTERP1_SINE', cub='INTERP1_CUBIC', her='INTERP1_HERMITE', spl='INTERP1_SPLINE', csp='INTERP1_CONSTRAINED_SPLINE')
LAWS = []
for k, v in NAMES.items():
    for n in (4, 5):
        for i in range(-1, n):
            if k == 'csp':
                LAWS += [('h_csp%d_%s_%d' % (n, 'L' if i < 0 else i, f), n, i, v) for f in (1, 2, 3)]
                continue
            LAWS.append(('h_%s%d_%s' % (k, n, 'L' if i < 0 else i), n, i, v))
HARNESSES = [dict(fn='h_knot_' + k, mode='real', bounds=B + 'tables of 4 points (5 and 2 where named)', gen=G, stubs=S) for k in
             ('next', 'prev', 'near', 'lin', 'lin2', 'sine', 'cub', 'cub5', 'her', 'spl', 'spl5', 'csp', 'csp5')] + [
    dict(fn=f, mode='real', bounds=B + 'table of %d points, interval %d' % (n, i), gen=G, stubs=S) for f, n, i, v in LAWS] + [
    dict(fn='h_line_' + k, mode='real', bounds=B + 'table of 4 points on a line, any interval', gen=G, stubs=S) for k in ('lin', 'her', 'spl', 'csp')] + [
    dict(fn='h_overshoot', mode='real', bounds='slopes within three secants', gen=G),
    dict(fn='h_slopes', mode='real', bounds=B + '4 points', gen=G),
    dict(fn='h_refuse', bounds='bit-precise; tables of 0 to 5 points, null pointers, any method code below 16', gen=G),
    dict(fn='h_small', bounds='bit-precise; tables of 0 to 3 points, null pointers, every method', gen=G, stubs={'qlibs::ffmath::cos': 'havoc'})]
ASSUMPTIONS = ['decided in exact real arithmetic: rounding of binary32 is outside the claim', 'strictly ascending table', 'the cosine is uninterpreted with values 1 at 0 and -1 at pi', 'constrained spline: three fixed sets of unevenly spaced abscissae, every ordinate, consecutive table values differ', 'the cubic method is specified as the library defines it: end slopes are differences of consecutive values']
