B = 'delay lines of 1..5 elements, 2n+1 (3n+2 thorough) insertions of arbitrary floats with an optional flush at any step, every query index'
HARNESSES = [dict(fn='h_n%d' % i, bounds=B, gen=dict(query=(0, i - 1), flushAt=(0, 8), bad=[-2 & 0xffffffff, 7, 100]), unwind=60) for i in range(1, 6)]
ASSUMPTIONS = ['longer lines and longer histories are outside the claim', 'delay index below the number of delays for getAtIndex']
