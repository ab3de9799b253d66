G = dict(x=(-20, 20), px=(-20, 20), py=(-20, 20), k=(1, 99))
F = 'bit-precise; every binary32 pattern'
R = 'exact real arithmetic; '
FT = {'qlibs::ffmath::floor': 'floor_uf', 'qlibs::ffmath::trunc': 'trunc_uf'}
HARNESSES = [dict(fn=f, bounds=F) for f in ('h_equal', 'h_coerce', 'h_midpoint', 'h_lerp0', 'h_lerp1', 'h_lerpe', 'h_lerpf', 'h_modz', 'h_wrapz0', 'h_wrapz1', 'h_wrapz2')] + [
    dict(fn='h_hypot_cls', bounds=F, stubs={'qlibs::ffmath::sqrt': 'sqrt_range'}), dict(fn='h_hypot_sym', bounds=F, tier='thorough', stubs={'qlibs::ffmath::sqrt': 'sqrt_range'}),
    dict(fn='h_hypot_fin', bounds=F + ' up to 1e38, not both below 1e-30', stubs={'qlibs::ffmath::sqrt': 'sqrt_range'})] + [
    dict(fn='h_wrapr%d' % i, bounds='bit-precise; angles up to 1e5 in magnitude') for i in range(4)] + [
    dict(fn=f, mode='real', bounds=R + 'values below 100', gen=G) for f in ('h_map', 'h_lerpr', 'h_lerpm', 'h_midr', 'h_circle')] + [
    dict(fn='h_midl', mode='real', bounds=R + 'every finite magnitude', gen=dict(x=(-3e38, 3e38))), dict(fn='h_mod', mode='real', bounds=R + 'values below 100, divisor above 1/16', gen=G, stubs=FT)] + [
    dict(fn='h_tri%d' % i, mode='real', bounds=R + 'triangles with one fixed side, corner below 50, points below 60 off the edges', gen=G) for i in (1, 2, 3, 4)] + [
    dict(fn=f, mode='real', bounds=R + 'one fixed polygon, points below 20 off its edges and diagonal', gen=G) for f in ('h_quad', 'h_dart', 'h_square')] + [
    dict(fn='h_outside', mode='real', bounds=R + 'any four corners below 50', gen=G)]
ASSUMPTIONS = ['claims in exact real arithmetic do not model binary32 rounding', 'limits in order', 'points on the edges of a polygon are not specified']
