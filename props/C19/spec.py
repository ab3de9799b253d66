B = 'bit-precise; every binary32 pattern'
HARNESSES = [dict(fn=f, bounds=B) for f in ('h_classify', 'h_sign', 'h_floor', 'h_ceil', 'h_trunc', 'h_round', 'h_frac', 'h_next', 'h_rexp', 'h_minmax')] + [
    dict(fn='h_ldexp_' + k, bounds=B + ', powers ' + t) for k, t in (('mid', '-126 to 127'), ('up', 'above 127'), ('dn', '-300 to -127'), ('min', 'below -300'))]
ASSUMPTIONS = ['round to nearest even, subnormals supported (no flush to zero)', 'decomposition of infinities and not-a-number is not specified', 'the sign and payload of a not-a-number result are not compared']
