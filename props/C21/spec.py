B = 'bit-precise; '
G = dict(exp2_ends=(129, 300), tanh_ends=(51, 90), erf_ends=(7, 90))
HARNESSES = [dict(fn='h_domain%d' % i, stubs={'qlibs::ffmath::sqrt': 'sqrt_nan'}, gen=dict(x=((2, 90), (-90, -2))[i - 4]), bounds=B + 'every float beyond 1 in magnitude, up to 1e30') for i in (4, 5)] + [
    dict(fn='h_erf_low', gen=dict(e=(132, 137)), bounds=B + 'numbers from -32 to -2048, 32 mantissas'), dict(fn='h_erfc', bounds=B + '16 arguments up to 3')] + [dict(fn='h_' + f, gen=dict(x=G.get(f, (-9, 9)), k=(2, 254)), bounds=B + b) for f, b in (('domain', 'every negative float'), ('domain2', 'every negative float'), ('domain3', 'every float below 1'), ('poles', 'both zeros'), ('exp2_ends', 'every float outside of (-126, 128]'), ('pow2', 'every whole exponent of normal numbers'), ('tanh_ends', 'every float beyond 50 in magnitude'), ('erf_ends', 'every float from 6.912 on'), ('erf', '16 arguments up to 3'))] + [
    dict(fn='h_' + f, bounds=B + 'any exponent, 32 mantissas') for f in 'sqrt rsqrt'.split()] + [dict(fn='h_' + f, gen=dict(e=(126, 128)), bounds=B + 'numbers between 1/2 and 4, 32 mantissas') for f in 'cbrt rcbrt'.split()] + [
    dict(fn='h_' + f, bounds=B + 'grid of 64 arguments') for f in 'sin cos atan exp2 log2 pow atan2'.split()] + [
    dict(fn='h_' + f, bounds=B + 'grid of 16 arguments') for f in 'tan asin acos exp10 expm1 log10 log1p sinh cosh asinh acosh exp log tanh atanh'.split()]
ASSUMPTIONS = ['accuracy is decided on the grids stated, with the tolerances of the approximations in use', 'the error function is known to one fifth, zero at zero, and by its limits', 'infinite, subnormal and not-a-number arguments are outside the claim']
