B = 'bit-precise; '
C = dict(feas_nodes=20)
HARNESSES = [dict(fn='h_sqrt_domain', unwind=40, bounds=B + 'every negative number and zero')] + [dict(fn='h_sqrt_' + f, unwind=40, cfg=C, bounds=B + b) for f, b in (('a', 'raw values below 256'), ('b', 'raw values from 256 to 65535'), ('c', 'integers up to 255'), ('d', 'multiples of 256'), ('e', 'the 256 largest values'))] + [
    dict(fn='h_wrap180', unwind=60, bounds=B + 'angles up to ten turns'), dict(fn='h_wrappi', unwind=60, bounds=B + 'angles up to ten turns'), dict(fn='h_degrees', unwind=60, bounds=B + 'every sixth angle up to half a turn'), dict(fn='h_degrees_all', tier='thorough', timeout=600, unwind=60, cfg=dict(mulsplit=True), bounds=B + 'angles up to half a turn'), dict(fn='h_radians', unwind=60, cfg=dict(mulsplit=True), bounds=B + 'angles up to half a turn')] + [
    dict(fn='h_' + f, unwind=40, bounds=B + 'every value, the stated number of decimals') for f in 'text0 text1 text2 text5 text5a text5b text9 textm over'.split()]
ASSUMPTIONS = ['square root: raw arguments up to 65535, integers up to 255, multiples of 256, the 256 largest values', 'angles up to ten and a half turns (thorough: every angle of half a turn for degrees, quick: every sixth)', 'radians: the constant pi/180 is represented with 1 part in 4000', 'value of texts with 5 decimals: integer parts 0 and -20406, all fractions; format: every value']
