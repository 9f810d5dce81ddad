"""
Wire formats of the frames the package reads, as bit positions (what the data recorders write).
A field is the list of its bits, least significant first, as ('f', byte of the frame, bit of the byte).
"""


def be(byte, n):
    """n byte big-endian integer"""
    return tuple(('f', b, k) for b in range(byte + n - 1, byte - 1, -1) for k in range(8))


def le(byte, n):
    return tuple(('f', b, k) for b in range(byte, byte + n) for k in range(8))


def lebits(word, lo, n):
    """n bits from bit lo of the little-endian 32 bit word at byte 4*word"""
    return tuple(('f', 4 * word + (lo + k) // 8, (lo + k) % 8) for k in range(n))


M5C = {0: 0xDE, 1: 0xC0, 2: 0xDE, 3: 0x5C}

_drx = {('header', 'frame_count'): be(5, 3), ('header', 'drx_id'): be(4, 1), ('header', 'second_count'): be(8, 4), ('header', 'decimation'): be(12, 2),
        ('header', 'time_offset'): be(14, 2), ('payload', 'timetag'): be(16, 8), ('payload', 'tuning_word'): be(24, 4), ('payload', 'flags'): be(28, 4)}

FORMATS = {
    'drx': {'sync': M5C, 'ints': _drx, 'after_sync_error': 'consumed'},
    'drx8': {'sync': M5C, 'ints': _drx, 'after_sync_error': 'consumed'},
    'tbx': {'sync': M5C, 'signed': (('payload', 'timetag'),), 'after_sync_error': 'start', 'ints': {
        ('header', 'frame_id'): be(4, 1), ('header', 'frame_count'): be(5, 3), ('header', 'second_count'): be(8, 4), ('header', 'first_chan'): be(12, 4),
        ('header', 'nstand'): be(16, 2), ('header', 'nchan'): be(18, 2), ('payload', 'timetag'): be(20, 8)}},
    'cor': {'sync': M5C, 'signed': (('header', 'first_chan'), ('header', 'gain'), ('payload', 'navg'), ('payload', 'stand0'), ('payload', 'stand1'), ('payload', 'timetag')), 'after_sync_error': 'start', 'ints': {
        ('header', 'adp_id'): be(4, 1), ('header', 'frame_count'): be(5, 3), ('header', 'second_count'): be(8, 4), ('header', 'first_chan'): be(12, 2),
        ('header', 'gain'): be(14, 2), ('payload', 'timetag'): be(16, 8), ('payload', 'navg'): be(24, 4), ('payload', 'stand0'): be(28, 2),
        ('payload', 'stand1'): be(30, 2)}},
    'drspec': {'sync': {0: 0xDE, 1: 0xC0, 2: 0xDE, 3: 0xC0, 72: 0x0C, 73: 0xED, 74: 0x0C, 75: 0xED}, 'after_sync_error': 'start', 'ints': {
        ('header', 'beam'): le(44, 1), ('header', 'format'): le(45, 1), ('header', 'decimation'): le(14, 2), ('header', 'time_offset'): le(12, 2),
        ('header', 'nints'): le(52, 4), ('payload', 'timetag'): le(4, 8)},
        'lists': {('payload', 'tuning_words'): [le(16, 4), le(20, 4)], ('payload', 'fills'): [le(24 + 4 * k, 4) for k in range(4)],
                  ('payload', 'errors'): [le(40 + k, 1) for k in range(4)], ('payload', 'saturations'): [le(56 + 4 * k, 4) for k in range(4)]}},
    'vdif': {'sync': {}, 'length': ('header', 'frame_length'), 'after_sync_error': 'start', 'ints': {
        ('header', 'seconds_from_epoch'): lebits(0, 0, 30), ('header', 'is_legacy'): lebits(0, 30, 1), ('header', 'is_invalid'): lebits(0, 31, 1),
        ('header', 'frame_in_second'): lebits(1, 0, 24), ('header', 'ref_epoch'): lebits(1, 24, 6), ('header', 'frame_length'): lebits(2, 0, 24),
        ('header', 'version'): lebits(2, 29, 3), ('header', 'station_id'): lebits(3, 0, 16), ('header', 'thread_id'): lebits(3, 16, 10),
        ('header', 'is_complex'): lebits(3, 31, 1)},
        'exprs': {('header', 'nchan'): ('shl', 32, ('bits', (1,)), ('bits', lebits(2, 24, 5))),
                  ('header', 'bits_per_sample'): ('add', 32, ('bits', lebits(3, 26, 5)), ('bits', (1,))),
                  ('header', 'extended_data_1'): ('alt', frozenset([('bits', ()), ('bits', le(16, 4))])),
                  ('header', 'extended_data_2'): ('alt', frozenset([('bits', ()), ('bits', le(20, 4))])),
                  ('header', 'extended_data_3'): ('alt', frozenset([('bits', ()), ('bits', le(24, 4))])),
                  ('header', 'extended_data_4'): ('alt', frozenset([('bits', ()), ('bits', le(28, 4))]))}},
}


# Frame geometries of the formats that come in several sizes: total size in bytes and the bits that identify the geometry.
def _word(byte, vals):
    return {('f', byte + b, k): (v >> k) & 1 for b, v in vals.items() for k in range(8)}


def _be16(byte, v):
    return {('f', byte + 1 - k // 8, k % 8): (v >> k) & 1 for k in range(16)}


def _merge(*ds):
    r = {}
    for d in ds:
        r.update(d)
    return r


def _cor_modes():
    """a COR frame tells its size only through the sync word of the frame after it, at the first place where there is one"""
    import itertools
    ns = (33, 72, 112, 192)
    out = []
    for k, n in enumerate(ns):
        for rest in itertools.product((False, True), repeat=len(ns) - 1 - k):
            here = (False,) * k + (True,) + rest
            out.append(('%d channels' % n, 32 + 32 * n, _merge(_word(0, M5C), *[
                _word(32 + 32 * m, M5C if h else dict.fromkeys(M5C, 0)) for m, h in zip(ns, here)])))
    return out


FORMATS['cor']['modes'] = _cor_modes()
FORMATS['tbx']['modes'] = [('%d stands, %d channels' % (s, c), 28 + 2 * s * c, _merge(_word(0, M5C), _be16(16, s), _be16(18, c)))
                           for s in (64, 128, 256) for c in (4, 8, 12, 16)]


def _vdif_length(x):
    """bytes after the header, from (frame length / 8, legacy flag); None: no such frame"""
    n = 8 * x[0] - (16 if x[1] else 32)
    return n if n >= 0 else None


FORMATS['vdif']['data'] = ([lebits(2, 0, 24), lebits(0, 30, 1)], _vdif_length)
FORMATS['drspec']['data'] = ([le(45, 1), le(48, 4)], lambda x: 8 * bin(x[0]).count('1') * x[1])


def stem(src):
    return src.rsplit('/', 1)[-1].split('.')[0]
