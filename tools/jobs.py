"""Which harness runs make up the check of each property."""
ALL = list(range(1, 15))
PREFIX = list(range(0, 12)) + [14]      # 0: the will properties of a connect
PROPS = list(range(1, 12)) + [14]       # types with a property section
OTHERS = ['boxed_string', 'cow_string', 'binary_string']
CODES = [2, 4, 5, 6, 7, 9, 11, 14]      # types with a reason code


def but(l, *x):
    return [t for t in l if t not in x]


def J(name, types=ALL, variants=(0,), bound=0):
    return [(name, t | v << 4 | bound << 8) for v in variants for t in types]


# bytes of any content: after the fixed header of a frame, and from the property section on
WHOLE = {1: 14, 2: 8, 3: 10, 4: 14, 5: 14, 6: 14, 7: 14, 8: 12, 9: 6, 10: 14, 11: 7, 12: 6, 13: 6, 14: 11}
SECTION = {0: 8, 1: 8, 2: 7, 3: 8, 4: 12, 5: 12, 6: 12, 7: 12, 8: 10, 9: 4, 10: 12, 11: 5, 14: 10}


def JB(name, table, less=0):
    return [(name, t | max(b - less, 4) << 8) for t, b in table.items()]


def quick():
    q = {}
    q['C01'] = J('c01_roundtrip', variants=(1, 0, 2, 7))
    q['C02'] = J('c02_sizes', variants=(1, 0, 2, 7))
    q['C03'] = (J('c03_bytes', variants=(0, 1), bound=4) + J('c03_frame', bound=6) + JB('c03_frame', WHOLE)
                + J('c03_flip', types=but(ALL, 1)) + J('c21_cut', types=but(ALL, 1)))
    q['C04'] = J('c04_frames') + J('c04_bytes', variants=(0,), bound=4) + J('c04_bytes', variants=(1,), bound=6)
    q['C05'] = J('c05_frames', variants=(0, 2)) + J('c05_header')
    q['C06'] = J('c06_append', variants=(1, 0, 7)) + J('c06_states')
    q['C07'] = (J('c07_remaining', [3]) + J('c07_section', PROPS, (1, 0)) + J('c07_decode')
                + J('c07_subid', [3, 8]) + J('c07_inner', PROPS, (0,)) + J('c07_inner', [3, 8], (1,)))
    q['C08'] = J('c08_wire', variants=(1, 0, 2, 7))
    q['C09'] = J('c09_read', variants=(1, 0, 2, 3, 7)) + J('c09_flip', but(ALL, 1)) + JB('c09_short', WHOLE)
    q['C10'] = J('c10_read', CODES) + J('c10_write', CODES)
    q['C11'] = {c: J('c11_text', PROPS, (0, 2), 4) + J('c09_read') for c in OTHERS}
    q['C11']['default'] = (J('c11_text', PROPS, (0,), 6) + J('c11_text', PROPS, (1, 2, 3), 4) + J('c11_model', [3], bound=6)
                           + J('c09_read') + J('c14_publish', [3]))
    q['C12'] = J('c12_long') + J('c07_remaining', [3]) + J('c07_subid', [3, 8])
    q['C13'] = J('c13_item', PREFIX) + JB('c13_section', SECTION) + J('c13_flip', but(ALL, 1))
    q['C14'] = J('c14_publish', [3]) + J('c14_write', [3]) + J('c14_options', [8])
    q['C15'] = {c: J('c15_connect', [1], (0, 1, 2)) for c in ['default'] + OTHERS}
    q['C16'] = J('c16_hostile')
    q['C17'] = (J('c17_frames', variants=(1, 0, 2, 7)) + J('c17_flip', but(ALL, 1)) + JB('c17_section', SECTION)
                + JB('c17_bytes', WHOLE, 1))
    q['C18'] = {'default+' + c: J('c18_write', variants=(0, 1, 2, 4, 7)) + J('c18_read', variants=(0, 1, 2, 7))
                + J('c18_text', PROPS, (0, 2), 4) + JB('c18_bytes', WHOLE, 4)
                + J('c18_flip', but(ALL, 1)) + J('c18_connect', [1], (0, 1, 2))
                for c in OTHERS}
    q['C19'] = J('c19_stream', variants=(0, 1, 2, 3, 4), bound=3) + J('c19_bytewise')
    q['C20'] = J('c20_trace')
    q['C21'] = J('c21_cut', variants=(1,)) + J('c21_cut', but(ALL, 1)) + JB('c21_short', WHOLE)
    q['C22'] = (J('c22_read', variants=(0, 2)) + J('c22_flip', but(ALL, 1)) + J('c22_check', bound=5) + J('c22_write')
                + J('c22_check', bound=7))
    q['C23'] = J('c23_new')
    q['C24'] = J('c24_frames', variants=(0, 2)) + J('c24_flip', but(ALL, 1)) + J('c24_inner', PROPS, (0, 3)) + J('c24_header')
    q['C25'] = (J('c25_flip', but(ALL, 1)) + JB('c25_short', WHOLE) + J('c25_short', [0, 15], bound=6)
                + JB('c25_section', SECTION) + J('c25_connect', [1], (0, 1, 2)) + J('c25_write'))
    return q


def thorough():
    q = quick()
    q['C01'] += J('c01_roundtrip', variants=(3, 5))
    q['C02'] += J('c02_sizes', variants=(3, 5))
    q['C03'] += J('c03_flip', [1]) + J('c03_flip', but(ALL, 1, 3), (2,))
    q['C08'] += J('c08_wire', variants=(3, 5))
    q['C12'] += J('c12_long', variants=(1,))
    q['C09'] += J('c09_flip', [1])
    q['C13'] += J('c13_flip', [1])
    q['C25'] += J('c25_flip', [1]) + J('c25_write', variants=(1,))
    q['C16'] += J('c16_hostile', variants=(1,))
    q['C17'] += J('c17_flip', [1])
    q['C20'] += J('c20_trace', variants=(1,))
    return q


# what every run has to reach: markers the harnesses set past their assertions
COVERS = {
    'c01_roundtrip': [1], 'c02_sizes': [1, 2], 'c08_wire': [1], 'c09_read': [1], 'c03_bytes': [1, 2],
    'c03_frame': [1, 2], 'c03_flip': [1, 2], 'c04_bytes': [1, 2, 3], 'c04_frames': [1, 3], 'c05_header': [1, 2],
    'c05_frames': [1, 2], 'c06_append': [1, 2], 'c06_states': [1], 'c07_remaining': [1, 2, 3, 4, 5],
    'c07_section': [1], 'c07_decode': [1, 2, 3, 4, 5, 6], 'c07_subid': [1, 2, 3, 4, 5], 'c07_inner': [1, 2],
    'c10_read': [1, 2], 'c10_write': [1], 'c11_text': [1, 2], 'c11_model': [1, 2], 'c12_long': [1, 2], 'c16_hostile': [1, 2],
    'c20_trace': [1, 2], 'c13_section': [1, 2], 'c13_item': [1, 2], 'c13_flip': [1, 2],
    'c14_publish': [1, 2, 3, 5], 'c14_write': [1, 2], 'c14_options': [1, 2], 'c15_connect': [1, 2],
    'c17_bytes': [1, 2], 'c17_section': [1, 2], 'c17_flip': [1, 2], 'c17_frames': [1], 'c18_write': [1, 2], 'c18_read': [1], 'c18_text': [1, 2], 'c18_bytes': [1, 2], 'c18_flip': [1, 2], 'c18_connect': [1, 2],
    'c19_stream': [1], 'c19_bytewise': [1], 'c21_cut': [1, 2], 'c21_short': [1, 2],
    'c22_read': [1], 'c22_flip': [1, 2, 3], 'c22_check': [1, 2], 'c22_write': [1, 2], 'c23_new': [1],
    'c24_frames': [1], 'c24_flip': [1, 2, 3], 'c24_inner': [1, 2], 'c24_header': [3],
    'c25_flip': [1, 2], 'c25_short': [1, 2], 'c25_section': [1, 2], 'c25_connect': [1, 2], 'c25_write': [1, 2],
    'c09_flip': [1, 2], 'c09_short': [1, 2],
}

ASSUMPTIONS = [
    'The IR is what rustc emits for the harness crate (opt-level 1, overflow checks on, panic=abort) and for /repo, bytes '
    'and std as linked; later code generation is not examined, except by replaying sampled paths natively.',
    'Allocation succeeds and returns memory of the requested size; no other thread touches the packet or the buffer.',
    'std::str::from_utf8 is represented by its definition over the bytes (RFC 3629) where the text is not constant; c11_text '
    'compares it with an independent decision procedure, and sampled paths are replayed on the real function.',
    'The symbolic executor, its simplifications and z3 are trusted; every counterexample and a sample of paths are replayed natively.',
]


def bounds(pid, tier):
    q = (thorough() if tier == 'thorough' else quick())[pid]
    g = q if isinstance(q, dict) else {'default': q}
    d = {}
    for c, js in g.items():
        for n, p in js:
            d.setdefault((c, n, p >> 4 & 15, p >> 8), []).append(p & 15)
    return ['%s [%s] variant %d%s, packet types %s: %s' % (n, c, v, ', bound %d' % b if b else '', ' '.join(map(str, sorted(ts))),
                                                           WHAT.get((n, v), WHAT.get(n, '')))
            for (c, n, v, b), ts in sorted(d.items())]


FAM = {
    0: 'no, each single and all optional members; strings and binaries of any 1..65535 bytes (any UTF-8 text), each empty in turn; '
       'lists of up to two; empty property sets',
    1: 'every pair of optional members present and every single one missing; strings of any 1..65535 bytes',
    2: 'no, each single and all optional members; text of any 1..4 bytes of well-formed UTF-8',
    3: 'every subset of optional members; strings of 1..40 bytes',
    4: 'no, each single and all optional members; strings of 1..40 bytes',
    5: 'three of everything that repeats',
    7: 'none or all of the optional members; lists of 3, 5, 8, 9, 16 .. 18, 32, 33, 64, 100, 127 .. 129, 255 .. 257, 300 (user '
       'properties, subscription identifiers of two bytes, filters, reason codes), texts of one byte',
}
WHAT = {}
for _v, _t in [(0, FAM[0] + ', one of each in a list'), (1, FAM[1]), (2, 'strings up to 70000 bytes, values the protocol forbids'),
               (3, FAM[3]), (4, 'all reasons, QoS and options, no properties'), (5, FAM[5]), (7, FAM[7])]:
    WHAT[('c18_write', _v)] = _t
for _n in ['c01_roundtrip', 'c02_sizes', 'c08_wire', 'c12_long', 'c16_hostile', 'c20_trace']:
    for _v in FAM:
        WHAT[(_n, _v)] = FAM[_v]
for _n in ['c12_long', 'c16_hostile', 'c20_trace']:
    for _v in FAM:
        WHAT[(_n, _v)] = FAM[_v] + '; but lengths up to 70000' + (
            '' if _n == 'c12_long' else ', payloads up to 300 million bytes, values the protocol forbids')
for _v, _t in [(0, 'one property of each kind alone, all in order; strings up to 65535 bytes'),
               (1, 'every ordered pair of allowed properties'), (2, 'text of any up to 4 bytes of UTF-8'),
               (3, 'strings up to 40 bytes'), (7, 'long lists (as many as 300) of texts of one byte')]:
    WHAT[('c09_read', _v)] = 'conforming frames: ' + _t
    WHAT[('c22_read', _v)] = WHAT[('c24_frames', _v)] = WHAT[('c18_read', _v)] = 'conforming frames: ' + _t
    WHAT[('c05_frames', _v)] = 'conforming frames, complete or cut anywhere behind the fixed header, any limit: ' + _t
WHAT['c15_connect'] = WHAT['c18_connect'] = (
    'any name (variant 0: of four bytes, 1: of zero to six, 2: of up to 65535, beginning with MQTT), level and flags; '
    'fields up to 60 bytes, or empty')
WHAT.update({
    'c03_bytes': 'any bytes of any length up to the bound' ,
    'c03_frame': 'complete frames of any content with that many bytes after the fixed header',
    'c03_flip': 'conforming frames in which any one byte is replaced by any value',
    'c13_flip': 'conforming frames in which any one byte is replaced by any value',
    'c17_flip': 'conforming frames in which any one byte is replaced by any value',
    'c04_bytes': 'any bytes of any length up to the bound',
    'c04_frames': 'conforming frames cut anywhere, or followed by 1..70000 bytes of anything',
    'c05_header': 'any flags, any one to four length bytes, any limit, any amount of data that is legal for them',
    'c06_append': 'any buffer content of 0..70000 bytes; any fields (up to 70000 bytes)',
    'c06_states': 'six states of the buffer',
    'c07_remaining': 'publish payloads of 0..300000000 bytes',
    'c07_section': 'one user property of any size, alone (0) or behind sixteen that fill two megabytes (1)',
    'c07_decode': 'any five bytes as remaining length',
    'c07_subid': 'any 64-bit subscription identifier',
    'c07_inner': 'any five bytes as property length (0) or as subscription identifier (1)',
    'c10_read': 'any byte as reason code, with and without properties, in lists of one to three',
    'c10_write': 'every reason the type has, with and without properties, in lists of up to three',
    'c11_text': 'conforming frames one text field of which is any bytes up to the bound, or (variants 2, 3) any 1..65535 bytes of '
                'ASCII one of which is replaced by 0xff',
    'c11_model': 'std::str::from_utf8 as modelled, on any bytes up to the bound (replayed on the real one)',
    'c13_section': 'any bytes, as many as the bound, as property section and rest',
    'c13_item': 'any property identifier, alone or behind another property, any announced length up to 127, any rest',
    'c14_publish': 'any flags and identifier, topic up to 300 and payload up to 300 bytes',
    'c14_write': 'any identifier and QoS',
    'c14_options': 'any options byte, in lists of one to three filters',
    'c18_flip': 'conforming frames in which any one byte is replaced by any value',
    'c17_bytes': 'complete frames of any content with that many bytes after the fixed header',
    'c17_section': 'any bytes, as many as the bound, as property section and rest',
    'c17_frames': 'conforming frames; properties repeated (1); UTF-8 (2); long lists (7); up to five bytes behind the last field; padded lengths',
    'c19_stream': 'two packets (strings of up to 40, 8 and 8 bytes) and every way to cut them in two (0) or three (1, 2) pieces; '
                  'strings of any 1..65535 bytes cut behind each of the first eight bytes (3, 4)',
    'c19_bytewise': 'two packets, strings of three bytes, byte by byte',
    'c21_cut': 'conforming frames cut at any byte by the announced length',
    'c22_flip': 'conforming frames in which any one byte is replaced by any value',
    'c24_flip': 'conforming frames in which any one byte is replaced by any value',
    'c22_check': 'any bytes of any length up to the bound, any limit',
    'c22_write': FAM[0] + '; but lengths up to 70000 and values the protocol forbids',
    'c23_new': 'texts of 0..65535 bytes, any identifiers, QoS, reasons; no, each single and all optional properties',
    'c24_inner': 'any four (variant 3: seven) bytes where the property section starts',
    'c24_header': 'any flags, any one to four length bytes, any smaller amount of data up to 70000 bytes',
    'c18_text': 'conforming frames one text field of which is any bytes up to the bound, or (variant 2) any 1..65535 bytes of '
                'ASCII one of which is replaced by 0xff',
    'c18_bytes': 'complete frames of any content with that many bytes after the fixed header',
    'c25_flip': 'conforming frames in which any one byte is replaced by any value',
    'c09_flip': 'conforming frames in which any one byte is replaced by any value',
    'c25_short': 'any bytes up to the bound as frame body',
    'c09_short': 'any bytes up to the bound as frame body',
    'c25_section': 'any bytes, as many as the bound, as property section and rest',
    'c25_connect': WHAT['c15_connect'],
    'c25_write': FAM[0] + '; but lengths up to 70000, payloads up to 300 million bytes, values the protocol forbids',
    'c21_short': 'any bytes up to the bound as frame body',
})
