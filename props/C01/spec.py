B = 'symbolic message of 1..%s bytes (all values), symbolic poly/init/xorOut (32 bit) and reflection flags'
HARNESSES = [
    dict(fn='h_gen8', unwind=70, bounds=B % '4 (8 thorough)'),
    dict(fn='h_gen16', unwind=70, bounds=B % '4 (8 thorough)'),
    dict(fn='h_gen32', unwind=70, bounds=B % '4 (8 thorough)'),
    dict(fn='h_long8', unwind=2200, bounds='message of 264 (2100 thorough) bytes, last two bytes symbolic'),
    dict(fn='h_long16', unwind=2200, bounds='message of 264 (2100 thorough) bytes, last two bytes symbolic'),
    dict(fn='h_long32', unwind=2200, bounds='message of 264 (2100 thorough) bytes, last two bytes symbolic'),
    dict(fn='h_edge', unwind=40, bounds='null / empty / defaulted arguments, all modes'),
] + [dict(fn=f, unwind=40, bounds='42 named variants, symbolic message of 1..3 (6 thorough) bytes')
     for f in ('h_named8_0', 'h_named8_1', 'h_named16_0', 'h_named16_1', 'h_named16_2', 'h_named16_3', 'h_named32_0', 'h_named32_1')]
ASSUMPTIONS = ['clang -O0 IR of the working tree; x86-64 data layout', 'CRC-16/DNP is checked against the standard polynomial 0x3D65 (the comment in the header has a typo)',
               'messages longer than the stated sizes are outside the claim']
