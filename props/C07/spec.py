B = 'bit-precise; 32-bit signed elements, any values; array sizes as in the name, any valid inclusive range'
G = dict(v=(0, 4), w=(0, 4), key=(0, 4), x=(0, 4), y=(0, 4), first=(0, 4), last=(0, 4), k=(0, 9))
HARNESSES = [dict(fn='h_' + f, unwind=40, bounds=B, gen=G) for f in
    ('sort1 sort2 sort3 sort4 sort4r sort5 sort5r cmp2 cmp3 cmp4 cmp4b cmp5 reverse1 reverse4 reverse5 rotate1 rotate2 rotate3 rotate4 rotate5 scan1 scan3 scan5 '
     'fill replace replace_if for_each bs1 bs2 bs3 bs5 swap').split()]
ASSUMPTIONS = ['ranges are inclusive [first,last] as the default arguments imply, with first <= last < n', 'element type int32_t; comparison functions and predicates as in the harness', 'larger arrays are outside the claim']
