G = dict(a=(-9, 9), b=(-9, 9), s=(-9, 9))
B = 'exact real arithmetic; elements and scalars below 50 in magnitude; '
HARNESSES = [dict(fn='h_elem_%d%d' % (r, c), mode='real', bounds=B + '%dx%d' % (r, c), gen=G) for r, c in ((2, 2), (2, 3), (3, 1), (1, 4), (3, 3))] + [
    dict(fn='h_comp_%d%d' % (r, c), mode='real', bounds=B + '%dx%d' % (r, c), gen=G) for r, c in ((2, 2), (2, 3), (3, 1))] + [
    dict(fn='h_prod_%s' % k, mode='real', bounds=B + '%s x %s by %s x %s' % (k[0], k[1], k[1], k[2]), gen=G) for k in ('222', '232', '321', '123', '312', '333')] + [
    dict(fn='h_square%d' % n, mode='real', bounds=B + '%dx%d' % (n, n), gen=G) for n in (1, 2, 3)] + [
    dict(fn='h_list', mode='real', bounds=B + '2x3 and 3x2', gen=G)] + [
    dict(fn='h_norm_%d%d' % (r, c), mode='real', bounds=B + '%dx%d' % (r, c), gen=G) for r, c in ((2, 2), (2, 3), (3, 2), (1, 3), (3, 1), (3, 3))] + [
    dict(fn='h_inv%d' % n, mode='real', bounds=B + 'every %dx%d matrix with a determinant above 1/16 in magnitude' % (n, n), gen=G, cfg=dict(nomerge='.', feas='all'), **({'tier': 'thorough'} if n == 3 else {})) for n in (1, 2, 3)] + [
    dict(fn='h_inv3_%s' % k, mode='real', bounds=B + '3x3 with one symbolic row or column and a determinant above 1/16 in magnitude', gen=G, cfg=dict(nomerge='.', feas='all')) for k in ('r0', 'r1', 'r2', 'c0', 'c1', 'c2', 's0', 's1', 's2')]
ASSUMPTIONS = ['decided in exact real arithmetic: rounding of binary32 is outside the claim', 'element indexes inside the matrix', 'matrices up to 3x3 (4 columns for row vectors)']
