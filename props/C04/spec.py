B = 'bit-precise; '
G = dict(k=(1, 255), x=(0, 4294967295), y=(0, 4294967295))
HARNESSES = [dict(fn='h_' + f, bounds=B + 'every pair of operands but the overflow mark', cfg=dict(mulsplit=True)) for f in 'add sub inc mul_full'.split()] + [
    dict(fn='h_by_%d' % f, unwind=40, cfg=dict(feas_nodes=20), bounds=B + 'every dividend, one divisor', **(dict(tier='thorough', timeout=1200) if f == 6 else {})) for f in range(9)] + [
    dict(fn='h_ops', unwind=40, cfg=dict(feas_nodes=20), bounds=B + 'multiples of 1/512 up to 64 and the operand 3'),
    dict(fn='h_small', unwind=40, cfg=dict(feas_nodes=20, mulsplit=True), bounds=B + 'every dividend and divisor below 256/65536')]
ASSUMPTIONS = ['operands are not the overflow mark', 'division: every dividend for the divisors 1/65536, 1, 3, -0.625, 32767.99998, -7/65536, 2, -6 (thorough: also -65537/65536), and every pair of operands below 256/65536; division by zero is not specified', 'rounding mode and saturation as built (rounding on, saturation off): no interface changes them']
