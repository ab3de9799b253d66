G = dict(g=(0, 1), k=(-1.5, 2.5), idx=(0, 2))
R = 'exact real arithmetic; '
B = 'bit-precise; '
C = dict(feas='all')
HARNESSES = [dict(fn='h_' + f, mode='real', bounds=R + 'two inputs, three sets, four rules with up to three premises, every grade', gen=G, cfg=C) for f in 'min_max prod_max min_por prod_por'.split()] + [
    dict(fn='h_outputs', mode='real', bounds=R + 'two outputs, three rules, every grade, weights from -2 to 3', gen=G, cfg=C),
    dict(fn='h_any3', mode='real', bounds=R + 'three premises, every choice of set, negation and connector, every grade', gen=G),
    dict(fn='h_unit', bounds=B + 'every binary32 grade, both operators of each connector', gen=G)] + [
    dict(fn='h_' + f, bounds=B + 'every content of a rule array of %s elements that ends with the end mark' % f.strip('parseo')) for f in 'parse4 parse7 parse7o parse10 parse10o'.split()] + [
    dict(fn='h_rules2', bounds=B + 'every content of a rule array of 7 elements, two rules announced'),
    dict(fn='h_tags', bounds=B + 'every 8-bit tag and shape'), dict(fn='h_params', bounds=B + 'every parameter, value, type and method'), dict(fn='h_setup', bounds=B + 'every combination of missing arguments')]
ASSUMPTIONS = ['rule arrays end with the end mark', 'strengths are decided in exact real arithmetic', 'more premises, rules and outputs are outside the claim', 'evaluation of the conclusions of a rule set that inference refused is outside the claim']
