"""The cases of each check: an entry of harness/src with its concrete arguments (the bounds)."""


class Case:
    def __init__(self, entry, args, reach=(1,), timeout=200, tier='q', cost=None, bound='', stack=None, stackok=False, allow=None, **opts):
        self.entry, self.args, self.reach, self.timeout, self.tier = entry, list(args), list(reach), timeout, tier
        self.cost = cost if cost is not None else sum(self.args)
        self.bound, self.stack, self.stackok, self.opts = bound, stack, stackok, opts
        self._allow = allow

    def allow(self, v):
        return bool(self._allow and self._allow(v))

    def name(self):
        return '%s(%s)' % (self.entry, ','.join(map(str, self.args)))


ASSUME = [
    'the executed IR is what rustc and LLVM produce from the sources with overflow checks and debug assertions on; the engine implements the LLVM semantics of the instructions used (cross-checked by replaying sampled paths natively)',
    'allocation never fails below 1 GiB and panics abort the path; unwinding is not modelled',
    'z3, cvc5 and the term rewriter are trusted for unsat answers',
]
NOTES = {}
LEVEL = {}
CASES = {}


def C(*a, **k):
    return Case(*a, **k)


KINDS = ['old palette 4', 'old palette 17', 'layer', 'cel', 'cel extra', 'colour profile', 'external files', 'mask', 'path', 'tags', 'palette', 'user data', 'slice', 'tileset', 'unknown', 'type 0']
S01 = {0: 6, 2: 18, 3: 18, 5: 16, 6: 16, 9: 28, 10: 26, 11: 7, 12: 34}
CASES['C01'] = [C('h01_chunk', [k, n], reach=[], cost=n * (5 if k in (2, 11, 12) else 1), bound='every %s payload of %d bytes' % (KINDS[k], n)) for k in range(16) for n in sorted({0, 1, 2, 3, 7, 12, 16} | ({18, 20} if k != 11 else set()) | {0: {30}, 1: {30}, 2: {22, 24}, 3: {24, 37, 48, 60}, 4: {30}, 5: {24, 30}, 6: {26, 30}, 7: {22}, 9: {28, 30, 33}, 10: {26, 28, 32, 38}, 12: {22}, 13: {34, 38, 42}}.get(k, set()))] + \
    [C('h01_raw', [n, v], reach=[2] if n < 144 else [1, 2], bound='every input of %d bytes, entry point %d' % (n, v)) for n in (0, 1, 5, 6, 64, 127, 128, 130, 144, 150) for v in (0, 1, 2)] + \
    [C('h01_body', [n, v, f], reach=[2] if n < 16 or f == 2 and n < 32 else [1, 2], cost=n * 20, bound='every %d bytes after a header for %d frames, entry point %d' % (n, f, v)) for n, f in ((0, 0), (0, 1), (8, 1), (16, 1), (22, 1), (24, 1), (28, 1), (20, 0), (24, 2)) for v in (0, 1, 2)] + \
    [C('h01_second', [k, n, 2], reach=[], cost=400, bound='every %s payload of %d bytes in a second frame, any colour depth' % (KINDS[k], n)) for k, n in ((0, 6), (0, 12), (1, 6), (2, 17), (2, 18), (3, 17), (3, 18), (3, 22), (3, 48), (4, 20), (5, 18), (6, 16), (7, 18), (8, 3), (9, 20), (9, 28), (10, 20), (10, 30), (11, 8), (11, 12), (12, 20), (12, 34), (13, 36), (14, 3), (15, 0))] + \
    [C('h01_two', [k, S01[k], l, S01[l]], reach=[], cost=800 if 10 in (k, l) else 100, tier='t' if (k, l) in ((10, 10), (10, 12), (12, 10), (12, 12), (2, 2), (2, 10), (10, 2), (2, 12), (12, 2)) else 'q', timeout=300, bound='every %s payload of %d and every %s payload of %d bytes in one frame' % (KINDS[k], S01[k], KINDS[l], S01[l])) for k in S01 for l in S01] + \
    [C('h01_body', [36, 2, 2], reach=[1, 2], tier='t', timeout=1200, bound='every 36 bytes after a header for 2 frames'), C('h01_body', [34, 2, 1], reach=[1, 2], tier='t', timeout=1200, bound='every 34 bytes after a header')] + \
    [C('h01_second', [k, n, 2], reach=[], tier='t', timeout=900, max_paths=3000000, bound='every %s payload of %d bytes in a second frame' % (KINDS[k], n)) for k, n in ((2, 22), (9, 36), (10, 34), (11, 16), (12, 42))]

CASES['C02'] = [C('h02_header', [k], reach=[1, 2], bound='every 128-byte header, one empty frame, entry point %s' % n) for k, n in enumerate(['parse_raw_file', 'parse_file', 'AsepriteFile::load'])] + [
    C('h02_short', [n], bound='every input of %d bytes' % n) for n in (0, 1, 5, 6, 64, 127, 128, 131, 132, 143)]

CASES['C03'] = [C('h03_any', [n], reach=[2] if n < 16 else [1, 2], bound='every %d bytes after a fixed header' % n) for n in (0, 4, 8, 15, 16, 20, 24, 30)] + \
    [C('h03_any', [n], reach=[1, 2], tier='t', timeout=900, bound='every %d bytes after a fixed header' % n) for n in (36, 40)] + \
    [C('h03_surplus', [k, s, p], bound='chunk kind %d with %d surplus bytes and %d bytes of frame padding' % (k, s, p)) for k in range(19) for s, p in ((0, 0), (1, 3), (5, 7))] + \
    [C('h03_big', [s, p], bound='chunk of %d and frame padding of %d bytes' % (s, p)) for s, p in ((300, 0), (65530, 0), (65536, 1), (70000, 70000))] + \
    [C('h03_counts', [n, m], reach=[1, 2] if m == 0 else [1], bound='%d chunks, symbolic old and new counts' % n) for n, m in ((0, 0), (1, 0), (3, 0), (8, 0), (20, 0), (300, 1), (300, 2))]

CASES['C04'] = [C('h04_any', [n, 7 if n < 26 else 3], reach=[2] if n < 18 else [1, 2], bound='every layer payload of %d bytes (names longer than %d bytes ASCII)' % (n, 7 if n < 26 else 3)) for n in (0, 1, 7, 12, 15, 17, 18, 19, 20, 22, 24, 26, 30)] + \
    [C('h04_any', [n, 9], reach=[1, 2], tier='t', timeout=900, max_paths=3000000, bound='every layer payload of %d bytes (names longer than 9 bytes ASCII)' % n) for n in (26, 30, 40)] + \
    [C('h04_name', [n, t, c, e], reach=[1, 2] if c == 0 else [2], bound='name of %d bytes, 3 of them symbolic' % (n + 3)) for n in (6, 254, 300, 65532) for t in (0, 1) for c, e in ((0, 0), (0, 2), (1, 0))]

CASES['C05'] = [C('h05_any', [n], reach=[2] if n < 16 else [1, 2] if n < 44 else [1, 10, 11, 12, 14] if n < 48 else [1, 10, 11, 12, 13, 14], bound='every cel payload of %d bytes' % n) for n in (0, 3, 8, 15, 16, 17, 18, 19, 20, 24, 30, 37, 47, 48, 50, 60)] + \
    [C('h05_big', [n, t], bound='cel type %d with %d payload bytes' % (t, n)) for n in (300, 65536, 70000) for t in (0, 2, 3, 4, 0x102)]

CASES['C06'] = [C('h06_tags_any', [n, 4 if n < 47 else 1], reach=[2] if n < 10 else [1, 2], bound='every tags payload of %d bytes (names longer than %d bytes ASCII)' % (n, 4 if n < 47 else 1)) for n in (0, 9, 10, 28, 29, 31, 33, 47, 48, 49, 52)] + \
    [C('h06_tags_any', [n, f], reach=[1, 2], tier='t', timeout=900, max_paths=3000000, bound='every tags payload of %d bytes (names longer than %d bytes ASCII)' % (n, f)) for n, f in ((49, 4), (52, 3), (67, 1), (72, 1))] + \
    [C('h06_tags_many', a, bound='%d tags, every %d-th symbolic, names of %d letters' % (a[0], a[1], a[2]), reach=[2] if a[3] else [1, 2]) for a in ([3, 1, 2, 0], [4, 1, 300, 0], [300, 100, 1, 0], [300, 100, 1, 1], [3, 1, 2, 1], [2, 1, 65535, 0])] + \
    [C('h06_slice_any', [n], reach=[2] if n < 14 else [1, 2], bound='every slice payload of %d bytes' % n) for n in (0, 11, 13, 14, 16, 20, 34, 42, 54, 58, 62)] + \
    [C('h06_slice_any', [n], reach=[1, 2], tier='t', timeout=900, bound='every slice payload of %d bytes' % n) for n in (80, 104)] + \
    [C('h06_slice_many', a, bound='%d slice keys under symbolic flags' % a[0], reach=[2] if a[3] else [1]) for a in ([3, 1, 2, 0], [300, 50, 300, 0], [3, 1, 2, 1], [300, 50, 3, 1])]

CASES['C07'] = [C('h07_any', [n], reach=[2] if n < 26 else [1, 2], bound='every palette payload of %d bytes' % n) for n in (0, 11, 19, 20, 25, 26, 28, 30, 32, 34, 38)] + \
    [C('h07_any', [n], reach=[1, 2], tier='t', timeout=900, bound='every palette payload of %d bytes' % n) for n in (44, 50)] + \
    [C('h07_many', a, reach=[2] if a[3] else [1], bound='%d entries from index %d' % (a[1], a[0])) for a in ([0, 256, 60, 0], [0, 256, 300, 1], [255, 1, 1, 0], [3, 5, 2, 0], [7, 3, 1, 0], [100, 156, 50, 0])] + \
    [C('h07_old_any', [t, n], reach=[2] if n < 2 else [1, 2], bound='every old palette (%d) payload of %d bytes' % (t, n)) for t in (4, 17) for n in (0, 1, 2, 6, 7, 9, 12, 17, 20)] + \
    [C('h07_old_many', [t] + a, reach=[2] if a[2] else [1], bound='%d packets of %d stored colours' % (a[0], a[1])) for t in (4, 17) for a in ([1, 0, 0], [1, 0, 1], [2, 0, 0], [3, 7, 0], [1, 255, 0], [300, 1, 0])]

CASES['C09'] = [C('h09_any', [k, n, 2 if (k, n) > (1, 38) and k == 1 else 4], reach=[2] if n < mn else [1, 2] if k < 4 else [1], bound='every %s payload of %d bytes' % (nm, n))
                for k, nm, mn, ns in ((0, 'tileset', 34, (0, 17, 33, 34, 36, 38, 42, 46, 48, 50)), (1, 'external files', 12, (0, 11, 12, 25, 26, 28, 40, 42)), (2, 'colour profile', 16, (0, 15, 16, 19, 20, 24, 30)), (3, 'mask', 18, (0, 17, 18, 20, 24)), (4, 'cel extra', 20, (0, 19, 20, 25))) for n in ns] + \
    [C('h09_long', a, reach=[2] if a[2] else [1], bound='chunk kind %d with names and blobs of %d bytes' % (a[0], a[1])) for k in range(5) for a in ([k, 300, 0, 0], [k, 300, 0, 5], [k, 66000 if k != 1 else 2000, 0, 0]) + (([k, 300, 1, 0],) if k not in (3, 4) else ())]

CASES['C10'] = [C('h10_depth', [e], reach=[1, 2, 3, 4], bound='every colour depth code') for e in (0, 1, 2)] + \
    [C('h10_layer', [], bound='every blend mode and layer type code'), C('h10_cel', [40], reach=[10, 11, 12, 13, 14], bound='every cel type code')] + \
    [C('h10_misc', [k], bound='every direction / profile type / external file type code') for k in (0, 1, 2)] + \
    [C('h10_chunk', [n], reach=[1, 2, 3] if n < 30 else [1, 2], bound='every chunk type code over %d payload bytes' % n) for n in (0, 1, 6, 26, 64)]

CASES['C08'] = [C('h08_any', [n, 3], reach=[2] if n < 4 else [1, 2, 10] if n > 4 else [1, 2, 10], bound='every user data payload of %d bytes' % n) for n in (0, 3, 4, 6, 8, 10, 12, 14, 16, 20)] + \
    [C('h08_value', [n, 2, f], reach=[1, 12] if n < 3 else [1, 12, 13], bound='one map with one property, type and value of every %d bytes' % n) for n, f in ((0, 4), (1, 7), (2, 4), (3, 7), (4, 4), (6, 4), (8, 4), (10, 7), (12, 4))] + \
    [C('h08_type', [t, n, e], reach=[1], bound='property type %#x with every %d content bytes' % (t, n)) for t in list(range(1, 0x14)) + [0, 0x14] for n, e in (((16, 3),) if t not in (0x11, 0x12) else ((10, 2),))] + \
    [C('h08_type', [t, n, 0], reach=[1], bound='property type %#x with every %d content bytes' % (t, n)) for t, n in ((1, 0), (3, 1), (2, 1), (4, 1), (6, 3), (8, 7), (0xa, 4), (0x10, 15), (0x13, 15))] + \
    [C('h08_vec', [t, n], reach=[1], bound='vector of any length, element type %#x, %d content bytes' % (t, n)) for t in range(0, 0x15) for n in ((8, ) if t in (0, 0x11, 0x12, 0xd) else (16, 33))] + \
    [C('h08_big', a, reach=[1] if not a[1] else [], bound='two maps with all types, symbolic values and ids, variant %d' % a[0]) for a in ([0, 0], [0, 1], [0, 30], [1, 0], [2, 0])] + \
    [C('h08_long', a, reach=[13], bound='%d properties with names of %d letters' % tuple(a)) for a in ([300, 3], [2, 300], [1, 65535])] + \
    [C('h08_text', [n, c], reach=[1, 2] if not c else [2], bound='text of %d bytes, 3 of them symbolic' % (n + 3)) for n in (3, 300, 65532) for c in (0, 5)]

CASES['C11'] = [C('h11_mix', a, reach=[1, 2], bound='every sequence of %d palette records of 3 styles (2 packets or %d entries each) and every frame break' % (a[0], a[1])) for a in ([1, 2, 0], [2, 3, 0], [3, 2, 0], [2, 1, 1])] + \
    [C('h11_index', a, reach=[1] if a[0] == 1 else [1, 2], bound='every first index, %d entries, second record of %d' % (a[1], a[2])) for a in ([1, 1, 0], [1, 3, 2], [2, 1, 0], [2, 3, 2], [3, 2, 3])] + \
    [C('h11_transparent', a, reach=[1], bound='every transparent index, %d entries of style %d' % (a[1], a[0])) for a in ([1, 256], [1, 10], [2, 256], [3, 256], [2, 200])] + \
    [C('h11_none', [k], reach=[1, 2], bound='no, empty or overlong palettes for every colour depth') for k in range(6)]

CASES['C12'] = [C('h12_cels', a, reach=[1, 2] if a[0] else [2], bound='%d layers, %d frames with %d cels on any layer index' % tuple(a[:3])) for a in ([0, 1, 1, 0], [1, 1, 1, 0], [2, 1, 2, 0], [3, 2, 2, 3], [5, 1, 3, 3], [255, 1, 1, 0], [256, 1, 1, 1], [300, 1, 1, 2])] + \
    [C('h12_seq', [n], reach=[1, 2] if n > 1 else [1], bound='every sequence of %d records of 7 kinds' % n) for n in (1, 2, 3, 4)] + \
    [C('h12_many', a, reach=[1], bound='%d layers, %d frames, %d tags, %d slices' % tuple(a)) for a in ([3, 300, 2, 2], [300, 2, 0, 300], [1, 1, 300, 0], [1000, 1, 0, 0])]

CASES['C13'] = [C('h13_seq', [n, k], reach=[1], bound='every sequence of %d records of %d kinds' % (n, k or 16)) for n, k in ((1, 0), (2, 0), (3, 0), (4, 10))] + \
    [C('h13_seq', [n, k], reach=[1], tier='t', timeout=900, max_paths=3000000, bound='every sequence of %d records of %d kinds' % (n, k or 16)) for n, k in ((4, 0), (5, 10))] + \
    [C('h13_pairs', [n], reach=[1], bound='%d records of 9 kinds each with 0 to 4 user data records' % n) for n in (1, 2)] + \
    [C('h13_content', [k], reach=[1], bound='user data of any flags, text and colour after record kind %d' % k) for k in (1, 2, 3, 4, 7)]

CASES['C14'] = [C('h14_links', [l, f, k, 0], reach=[1, 2], bound='%d layers, %d frames, every cel empty, image or link to any existing or several missing frames' % (l, f)) for l, f, k in ((1, 1, 3), (1, 2, 3), (1, 3, 3), (2, 2, 3))] + \
    [C('h14_layers', [n, c], reach=[1], bound='%d layers of any type, flags, level and blend mode' % n) for n, c in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 0), (4, 2))] + \
    [C('h14_kinds', [], reach=[], bound='every unknown cel type'), C('h14_tags', [1], bound='1 tag'), C('h14_tags', [3], bound='3 tags')] + \
    [C('h14_many', a, bound='%d frames, %d layers' % tuple(a)) for a in ([20, 2], [300, 1], [3, 40])]

CASES['C15'] = [C('h15_pixels', [d, w, h, m], bound='%d x %d image, every pixel value, %s' % (w, h, 'zlib' if m else 'raw')) for d in (0, 1, 2) for w, h, m in ((0, 0, 0), (1, 1, 0), (3, 2, 0), (1, 1, 100), (3, 2, 100), (2, 1, 3))] + \
    [C('h15_index', [m], bound='every index of a full palette') for m in (0, 1)] + \
    [C('h15_large', [d, w, h, m], bound='%d x %d image' % (w, h)) for d in (0, 1, 2) for w, h, m in ((300, 2, 0), (200, 200, 0), (257, 257, 0), (70, 3, 65535))] + \
    [C('h15_rle', [d, w, h, 0], bound='%d x %d image of one repeated pixel in a well compressed stream' % (w, h)) for d in (0, 1, 2) for w, h in ((3, 2), (40, 30), (257, 257))]

CASES['C16'] = [C('h16_sizes', [d, n, t, 0], reach=r, bound='every image size, %d raw bytes, target of %d bytes' % (n, t)) for d, n, t, r in ((0, 0, 0, [1, 2]), (0, 4, 4, [1, 2]), (0, 4, 3, [2]), (0, 8, 9, [1, 2]), (0, 7, 30, [2]), (1, 0, 4, [1, 2]), (1, 2, 4, [1, 2]), (1, 3, 12, [2]), (1, 4, 9, [1, 2]), (1, 4, 7, [2]), (2, 0, 3, [1, 2]), (2, 1, 4, [1, 2]), (2, 3, 12, [1, 2]), (2, 3, 11, [2]))] + \
    [C('h16_sizes', a, reach=r, bound='every image size, %d bytes in stored blocks of %d, target of %d bytes' % (a[1], a[3], a[2])) for a, r in (([0, 4, 5, 9], [1, 2]), ([1, 4, 9, 50], [1, 2]), ([2, 2, 9, 1], [1, 2]), ([1, 3, 12, 50], [2]), ([2, 0, 4, 50], [1, 2]))] + \
    [C('h16_stored', a, reach=[1, 2] if a[2] + a[3] >= a[1] * (4 >> a[0]) else [2], bound='stored block with any length fields and any checksum, %d payload bytes, %d wide image' % (a[2], a[1])) for a in ([0, 1, 4, 0], [0, 1, 3, 0], [0, 2, 8, 0], [1, 2, 3, 6], [1, 2, 4, 0], [2, 3, 5, 2], [2, 2, 2, 0])] + \
    [C('h16_damage', a, reach=[2], bound='stream with one byte changed to any value' if a[3] else 'stream cut anywhere') for a in ([0, 1, 100, 0], [0, 1, 100, 1], [1, 3, 4, 0], [1, 3, 4, 1], [2, 5, 2, 0], [2, 5, 2, 1])] + \
    [C('h16_any', a, reach=[1, 2] if a[1] == 0 and a[2] >= 8 else [2], bound='every stream of %d bytes after %d fixed ones' % (a[2] - a[3], a[3])) for a in ([0, 1, 0, 0], [0, 1, 1, 0], [0, 1, 2, 0], [0, 1, 3, 0], [1, 1, 4, 3], [0, 0, 8, 4], [2, 1, 8, 4], [1, 0, 9, 4], [2, 0, 7, 4])] + \
    [C('h16_depth', a, reach=[2], bound='every unknown colour depth') for a in ([0, 8, 9], [1, 8, 7], [0, 2, 8], [1, 4, 8], [0, 4, 12])] + \
    [C('h16_large', [d, w, h, k], reach=[1, 2] if k & 7 == 0 else [2], bound='%d x %d image, targets one byte short, exact and larger' % (w, h)) for d in (0, 1, 2) for w, h, k in ((9, 8, 0), (9, 8, 1), (9, 8, 2), (9, 8, 9), (9, 8, 10), (9, 8, 11), (9, 8, 12), (200, 200, 8), (200, 200, 13), (300, 2, 4), (300, 2, 3))] + \
    [C('h16_rle', [d, w, h, k], bound='well compressed streams with too few, enough or too many bytes for a %d x %d image%s' % (w, h, ', cut at the end' if k else ''), reach=[1, 2]) for d in (0, 1, 2) for w, h, k in ((3, 2, 0), (40, 30, 1), (180, 190, 0), (257, 257, 0))] + \
    [C('h16_any', [0, 0, 4, 2], reach=[2], tier='t', timeout=1500, bound='every stream of 2 bytes after 2 fixed ones'), C('h16_stored', [1, 4, 8, 1], reach=[1, 2], tier='t', timeout=900, bound='stored block with any length fields and any checksum')]

CASES['C17'] = [C('h17_any', a, bound='%d x %d canvas, %d x %d cel at every position' % tuple(a)) for a in ([1, 1, 1, 1], [4, 3, 3, 2], [3, 4, 5, 6], [1, 1, 5, 1], [1, 7, 2, 2], [0, 0, 1, 1], [0, 3, 2, 2], [3, 3, 0, 0], [16, 12, 9, 11])] + \
    [C('h17_big', a, timeout=300, bound='%d x %d canvas, %d x %d cel at the extreme positions' % tuple(a)) for a in ([300, 2, 1, 1], [40000, 1, 300, 1], [33000, 1, 40000, 1], [65535, 1, 1, 1], [1, 60000, 1, 50], [1, 300, 1, 33000], [300, 250, 3, 2], [3, 2, 300, 270])] + \
    [C('h17_big', a, tier='t', timeout=900, bound='%d x %d canvas, %d x %d cel at the extreme positions' % tuple(a)) for a in ([300, 300, 20, 20], [300, 300, 310, 270], [2, 2, 65535, 1], [1, 65535, 1, 65535], [65535, 1, 65535, 1])] + \
    [C('h17_frames', a, bound='three frames, four cels, any position along one axis, colour depth %d, %s' % (a[0], 'zlib' if a[1] else 'raw')) for a in ([d, z] for d in (0, 1, 2) for z in (0, 1))] + \
    [C('h17_short', a, reach=[1, 2], bound='every canvas size, target of %d bytes' % a[0]) for a in ([0, 0], [0, 1], [4, 1], [7, 1], [20, 0], [24, 1], [60, 1])]

CASES['C18'] = [C('h18_layers', a, bound='every %d layers of %d kinds, levels and flags, selection kind %d' % tuple(a)) for a in [[n, 3, h] for n in (1, 2, 3) for h in (0, 1, 2, 3)] + [[4, 2, 0], [4, 3, 0], [4, 2, 3]]] + \
    [C('h18_layers', a, tier='t', timeout=1200, max_paths=3000000, bound='every %d layers of %d kinds, levels and flags, selection kind %d' % tuple(a)) for a in ([4, 2, 2], [4, 3, 2], [5, 2, 0], [5, 3, 0])] + \
    [C('h18_tree', [s, h], bound='group tree %d with any flags, selection kind %d' % (s, h)) for s in range(6) for h in (0, 2)] + \
    [C('h18_deep', [n], bound='%d nested groups, any one hidden' % n) for n in (1, 5, 40)] + \
    [C('h18_many', a, bound='%d layers, mask of %d entries' % tuple(a)) for a in ([300, 300], [300, 30], [2, 300], [70, 66])] + \
    [C('h18_names', a, bound='%d layers and %d names of symbolic letters' % tuple(a)) for a in ([1, 0], [2, 1], [4, 2], [4, 3])]

CASES['C19'] = [C('h19_order', [n, k], cost=100 * n * n, bound='%d overlapping cels with any z-index%s' % (n, ['', ', interleaved with groups and tilemap layers', ', cel records reversed', ', interleaved and reversed'][k])) for n, k in ((1, 0), (2, 0), (2, 3), (3, 0), (3, 1), (3, 2), (3, 3), (4, 1))] + \
    [C('h19_order', [n, k], tier='t', timeout=900, bound='%d overlapping cels with any z-index' % n) for n, k in ((4, 0), (4, 2), (4, 3), (5, 0))] + \
    [C('h19_many', a, bound='%d layers, number %d with any z-index' % tuple(a[:2])) for a in ([6, 2, 1], [6, 0, 3], [12, 0, 2], [30, 15, 3], [30, 29, 0])] + \
    [C('h19_many', a, tier='t', timeout=900, bound='%d layers, number %d with any z-index' % tuple(a[:2])) for a in ([60, 30, 5], [300, 150, 3])] + \
    [C('h19_opacity', [m, p], reach=[1, 2, 3], cost=200, bound='blend mode %d, every header flags, %s' % (m, ['layer opacity, source and backdrop', 'layer and cel opacity, transparent backdrop', 'layer and cel opacity, opaque backdrop', 'cel opacity, source and backdrop', 'cel opacity, source and backdrop under layer opacity 0'][p])) for m, p in ((0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (1, 0), (1, 3), (10, 1), (10, 2), (10, 4), (2, 0), (12, 1))] + \
    [C('h19_two', [a, b, p], bound='two cels of blend modes %d and %d on each other' % (a, b)) for a, b in ((0, 0), (0, 1), (1, 0), (10, 17)) for p in range(4)] + \
    [C('h19_linked', [k], bound='two linked cels with any z-index and opacity') for k in (0, 1)]

CASES['C20'] = [C('h20_mode', [m], timeout=120, cost=1000, bound='blend mode %d: every backdrop, source and opacity (72 symbolic bits)' % m) for m in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 16, 17, 18)] + \
    [C('h20_pair', [m, 0], timeout=250, cost=500, bound='blend mode %d: any two of backdrop channel, source channel, alphas and opacity' % m) for m in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 16, 17, 18)] + \
    [C('h20_pair', [m, s], tier='t', timeout=250, bound='blend mode %d: any two of backdrop channel, source channel, alphas and opacity' % m) for m in (0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 16, 17, 18) for s in (1, 2, 3)]

CASES['C21'] = [C('h20_mode', [9], timeout=120, cost=1000, bound='soft light: every backdrop, source and opacity (72 symbolic bits)'), C('h20_pair', [9, 0], timeout=250, cost=500, bound='soft light: any two of backdrop channel, source channel, alphas and opacity')] + \
    [C('h20_hsl', [m, s], cost=300, bound='blend mode %d: any two of the six channels, the others from colour set %d, two sets of alphas' % (m, s)) for m in (12, 13, 14, 15) for s in (0, 1, 2, 3)] + \
    [C('h20_alpha', [m, s], cost=100, bound='blend mode %d: every alpha and opacity, colour set %d' % (m, s)) for m in (12, 13, 14, 15) for s in (0, 1)] + \
    [C('h20_pair', [m, s], tier='t', timeout=250, bound='blend mode %d: any two of backdrop channel, source channel, alphas and opacity' % m) for m in (9, 12, 13, 14, 15) for s in (0, 1, 2, 3)]

CASES['C22'] = [C('h22_layer', a, cost=100, reach=r, bound='a layer of any type, flags, blend mode and opacity with a %d x %d cel of %d bytes, any colour depth, target of %d bytes, 5 selections' % (a[2], a[3], a[0], a[1])) for a, r in (([4, 8, 1, 1], [1, 2, 3, 4]), ([1, 8, 1, 1], [1, 2, 3, 4]), ([2, 9, 1, 1], [1, 2, 3, 4]), ([4, 7, 1, 1], [2, 3, 4]), ([2, 8, 2, 1], [1, 2, 3, 4]), ([0, 8, 0, 1], [1, 2, 3, 4]), ([3, 8, 1, 1], [1, 2, 4]), ([12, 20, 3, 1], [1, 2, 3, 4]))] + \
    [C('h22_cel', [n, d, p], reach=[5] if n < 20 and d != 3 and n != 18 and n != 19 else ([1, 3, 5] if d < 3 else [2, 4, 5]) if n > 17 else [5], cost=150, bound='every cel payload of %d bytes, depth %d, at %s' % (n, d, 'positions near the canvas' if p else 'every position')) for n, d, p in ((15, 0, 0), (17, 0, 0), (18, 0, 0), (19, 0, 0), (20, 0, 0), (20, 1, 0), (20, 2, 0), (20, 3, 0), (21, 2, 1), (22, 1, 1), (23, 2, 1), (24, 0, 1), (24, 1, 1), (28, 1, 1), (28, 3, 1), (48, 0, 1))] + \
    [C('h22_seq', a, reach=[1, 3, 5] if a[1] < 3 else [2, 4, 5], cost=2000, timeout=300, bound='every %d and %d records of 9 kinds in two frames, depth %d' % (a[0], a[3], a[1])) for a in ([1, 0, 8, 1], [1, 1, 8, 1], [1, 3, 7, 1], [2, 2, 8, 1])] + \
    [C('h22_seq', a, tier='t', timeout=900, max_paths=3000000, reach=[1, 3, 5], bound='every %d and %d records of 9 kinds in two frames, depth %d' % (a[0], a[3], a[1])) for a in ([1, 1, 8, 2], [2, 0, 8, 1], [2, 1, 8, 2])] + \
    [C('h22_large', a, bound='%d x %d cel with 0 to 3 data bytes at any position' % (a[1], a[2])) for a in ([0, 65535, 1, 0], [0, 1, 65535, 1], [0, 65535, 0, 0], [1, 0, 65535, 1], [1, 300, 300, 0], [1, 300, 300, 1], [2, 40000, 3, 1], [2, 40000, 3, 0], [3, 3, 3, 0], [0, 9000, 9000, 0], [2, 256, 256, 0])]

CASES['C23'] = [C('h23_layers', a, reach=[1, 2] if a[1] >= 8 else [2], bound='%d layers of %d kinds, any flags, levels and blend modes, target of %d bytes' % (a[0], a[2], a[1])) for a in ([1, 8, 3], [1, 7, 3], [2, 8, 3], [2, 12, 2], [3, 8, 2], [2, 0, 2])] + \
    [C('h23_cel', a, reach=r, cost=50, bound='a cel at any position with %d data bytes, depth %d, target of %d bytes' % (a[1], a[0], a[3])) for a, r in (([0, 8, 0, 16], [1]), ([0, 8, 1, 17], [1]), ([0, 7, 0, 16], [2]), ([0, 7, 1, 16], [2]), ([1, 4, 1, 16], [1]), ([1, 4, 0, 15], [2]), ([2, 2, 0, 16], [1]), ([2, 3, 0, 16], [2]), ([3, 2, 0, 16], [2]))] + \
    [C('h23_equal', [n], bound='two frames with the same %d cels of any position and opacity' % n) for n in (0, 1, 2, 3)] + \
    [C('h23_differ', [w, n, a], cost=200, bound='frames of %d cels that differ in %s of cel %d' % (n, ['opacity', 'low byte of x', 'high byte of x', 'low byte of y', 'high byte of y', 'x against 7 values', 'y against 7 values', 'exchanged x and y', 'image', 'width', 'layer'][w], a)) for w in range(11) for n, a in ((1, 0),) + (((2, 1),) if w in (0, 1, 3, 8, 9) else ((2, 0),) if w == 10 else ())] + \
    [C('h23_fields', [k], bound='layer index, size or image of a listed cel replaced') for k in (0, 1, 2)]

D24 = dict(max_depth=5000, stack=1 << 20)
CASES['C24'] = [C('h24_levels', [n, k], reach=[1] if n <= 32 else [], bound='%d levels of nesting, pattern %d, any leaf value' % (n, k), **D24) for n in (0, 1, 2, 5, 16, 31, 32, 33, 63, 64, 65, 66, 100) for k in ((0, 1, 2, 3, 11, 12, 20) if n in (5, 32, 65) else (12, 20))] + \
    [C('h24_levels', [n, 13], reach=[1], bound='%d levels of nesting, every pattern of period 3, any leaf value' % n, **D24) for n in (6, 32)] + \
    [C('h24_deep', [n, k, v, c], bound='%d levels of nesting, pattern %d, entry point %d' % (n, k, v), **D24) for n, k, c in ((20000, 11, 0), (20000, 20, 1), (20000, 12, 1), (2000, 12, 2), (200, 13, 0), (20000, 20, 0)) for v in range(5)] + \
    [C('h24_deep', [20000, 13, v, 1], tier='t', timeout=900, bound='20000 levels of nesting, every pattern of period 3, entry point %d' % v, **D24) for v in range(5)] + \
    [C('h24_any', [n, k, b], reach=[1, 2] if n < 32 else [2], bound='every %d bytes below %d levels of nesting' % (b, n), **D24) for n, k, b in ((0, 0, 8), (1, 1, 10), (20, 20, 8), (31, 12, 8), (62, 20, 10), (63, 0, 8), (63, 2, 12), (64, 20, 6), (64, 1, 6), (64, 3, 9), (100, 0, 4))]
# the sample file with changed bytes: 996, 982 and 975 bytes by depth, the first 128 are the header
DEPTHS = ['RGBA', 'grayscale', 'indexed']


def mut(entry, w, size, depth, first=128, reach=(), tier=None, skip=()):
    t = tier or ('q' if depth == 2 else 't')
    return [C(entry, [p, size, w, depth], reach=reach, tier='t' if p in skip else t, cost=3000 if p in (908, 934) else 1000 if w == 1 else 300, timeout=200 if t == 'q' and p not in skip else 900,
              bound='an %s sprite with records of all kinds, %s at any position from %d to %d' % (DEPTHS[depth], 'any byte' if w == 1 else 'any %d bytes outside of sizes and lengths' % w, p, p + size - 1)) for p in range(first, 1000, size)]


CASES['C01'] += [C('h01_names', [n, w, d], bound='strings of %d bytes of %d byte characters, %s' % (n, w, DEPTHS[d])) for n in (0, 4, 40, 300) for w in (1, 2, 3, 4) for d in (0, 1, 2)] + \
    [C('h01_names', [n, w, 0], cost=500, bound='strings of %d bytes of %d byte characters' % (n, w)) for n in (65000, 65532) for w in (1, 3)] + \
    [C('h01_many', [k, n], tier='q' if n < 66000 or k != 0 else 't', cost=n // 60, bound='%d records, case %d' % (n, k)) for k in range(10) for n in (300, 66000) if n == 300 or k in (0, 6, 9)] + \
    [x for d in (0, 1, 2) for x in mut('h01_mut', 1, 26, d) + mut('h01_mut', 3, 52, d)]
CASES['C22'] += mut('h22_mut', 1, 26, 2, 518) + mut('h22_mut', 2, 52, 2, skip=(596,)) + [x for d in (0, 1) for x in mut('h22_mut', 1, 26, d) + mut('h22_mut', 2, 52, d)]

CASES['C13'] += [C('h13_many', [n, k], reach=[1], bound='%d %s, any number of user data records or any one without' % (n, ['tags', 'layers', 'cels in several frames', 'slices'][k])) for n in (17, 40, 300) for k in (0, 1, 2, 3)] + \
    [C('h13_many', [3000, k], tier='t', timeout=900, reach=[1], bound='3000 %s, several numbers of user data records' % ['tags', 'layers', 'cels in several frames', 'slices'][k]) for k in (0, 1, 2, 3)]
CASES['C16'] += [C('h16_header', [d, w, k, z], reach=[1, 2] if k == 0 else [2], bound='%s stream under %s, %s' % (['a stored', 'a compressed'][z], ['every zlib header', 'no header, with or without checksum', 'a gzip header'][k], DEPTHS[d])) for d, w in ((0, 2), (1, 3), (2, 3)) for k in (0, 1, 2) for z in (0, 1)]
CASES['C16'] += [C('h16_direct', [n, t, k], reach=[1, 2] if n == t else [2], bound='decompress with a target of %d bytes: %s of %d bytes, cut near the end or followed by up to 2 bytes' % (t, ['a stored stream', 'a stored stream in blocks of 2', 'a compressed stream'][k], n)) for n, t, k in ((4, 4, 0), (4, 4, 1), (5, 4, 1), (4, 5, 0), (0, 0, 0), (0, 1, 0), (700, 700, 2), (700, 701, 2), (700, 699, 2))]
CASES['C23'] += [C('h23_fields', [3], bound='another cel added once or twice')] + [C('h23_order', [n], bound='two frames with the same %d cels, any two in exchanged order' % n) for n in (2, 4)]
CASES['C25'] = [C(e, [d, v] + r, reach=[1], bound='an %s sprite with records of all kinds: %s' % (DEPTHS[d], t % ('parsed', 'loaded and rendered')[v - 1])) for d in (0, 1, 2) for v in (1, 2) for e, r, t in (
    ('h25_reserved', [], 'any bytes in reserved fields and in the header, %s'), ('h25_count', [], 'any old chunk count, %s'),
    ('h25_unknown', [1, 19], 'a chunk of any unknown type with up to 2 bytes in any of 19 places, %s'), ('h25_surplus', [1, 20], '1 to 7 surplus bytes at the end of any of 18 chunks and 2 frames, %s'))]

CASES['C26'] = [C('h26_any', a, cost=c, timeout=300, tier=t, reach=[1], bound='every sequence of %d calls of %d kinds on six sprites of two frames, %s' % (a[0], a[2], ['loaded once', 'loaded anew for every call'][a[1]])) for a, c, t in (([1, 1, 5], 1, 'q'), ([2, 0, 5], 30, 'q'), ([2, 1, 5], 60, 'q'), ([3, 0, 3], 300, 'q'), ([3, 0, 4], 300, 't'), ([3, 1, 4], 300, 't'))] + \
    [C('h26_again', [8, s], reach=[1], bound='8 alternating renderings of sprite %d and any other' % s) for s in range(6)]

NOTES['C01'] = ['a build without overflow checks is covered indirectly: on every path the checked build never reaches an overflow panic, so wrapping arithmetic is never observable',
                'the checks on this property are the panic, abort, out-of-bounds and unreachable branches of the executed code itself']
