B = 'bit-precise; '
HARNESSES = [dict(fn='h_' + f, bounds=B + 'every 32-bit pattern but the overflow mark') for f in 'toint double tofloat round sign order'.split()] + [
    dict(fn='h_int', bounds=B + 'every 16-bit integer'), dict(fn='h_fromdouble', bounds=B + 'every double within 32767.9999', gen=dict(d=(-30000, 30000))), dict(fn='h_fromfloat', bounds=B + 'every float within the range', gen=dict(d=(-30000, 30000))), dict(fn='h_const', bounds='constants')]
ASSUMPTIONS = ['floating-point values outside the range of the type are outside the claim', 'doubles are converted to the nearest value within one part in ten million of a unit']
