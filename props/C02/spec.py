B = 'area of 3 (4 thorough) 32-bit slots with arbitrary contents, every bit index inside it, every width and value'
G = dict(index=(0, 95), probe=(0, 95), nbits=(1, 32), op=(0, 5), n=(0, 14))
HARNESSES = [dict(fn=f, bounds=B, gen=G, unwind=140) for f in ('h_read', 'h_write', 'h_roundtrip', 'h_bitops', 'h_float', 'h_dump')] + \
            [dict(fn='h_unset', bounds='uninitialised instance, every argument; widths above 32', gen=dict(nbits=(33, 99), index=(0, 95)), unwind=140)]
ASSUMPTIONS = ['areas are made with the library\'s area alias: whole 32-bit slots, suitably aligned', 'bit index inside the area (the API documents no other contract)',
               'little-endian x86-64 layout', 'a one-bit wide n-bit write stores "value is non-zero"']
