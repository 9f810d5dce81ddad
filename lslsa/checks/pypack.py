"""
C13: words and frames that the Python code composes and takes apart have the documented bit layout.

Each obligation names a public function, what its inputs are, and where every bit of its result has to come from.  The
source of the function (and of the helpers it calls) is put through the bit-provenance dataflow of lslsa/py/pybits.py;
bits whose origin it cannot express are counted as undecided.
"""
import ast
import warnings
from ..common import Result, Finding
from ..py import mods, nominal
from ..py import pybits as P


class Job(object):
    def __init__(self, repo, res):
        self.repo, self.res, self.nom = repo, res, nominal.Nominal(repo)
        self.n = dict(obligations=0, bits_decided=0, bits_undecided=0, functions_analysed=0)
        self.funcs, self.und, self.seen = set(), [], set()

    def func(self, mod, qual):
        for f in self.repo.funcs():
            if f.mod.name == mod and f.qual == qual:
                return f
        return None

    def method(self, mod, cls, name):
        m = self.repo[mod]
        c = m.classes.get(cls) if m is not None else None
        return (c, self.repo.method(c, name)) if c is not None else (None, None)

    def bad(self, rule, f, what, msg):
        k = (rule, f, what)
        if k in self.seen:
            return
        self.seen.add(k)
        self.res.add([Finding(rule, '%s:%s:%s' % (f.mod.rel, f.qual, what), '%s:%d' % (f.mod.rel, f.node.lineno), msg)])

    def undecided(self, f, what):
        self.und.append('%s:%s' % (f.qual, what))
        self.n['bits_undecided'] += 1

    def done(self, m):
        self.funcs |= m.visited

    def bits(self, rule, f, what, got, want, names):
        """compare the low bits of got with the list want; a wanted bit may be a set of alternatives, or None for anything"""
        self.n['obligations'] += 1
        if isinstance(got, P.V):
            g = got.bits
        else:
            g = None
        for k, w in enumerate(want):
            if w is None:
                continue
            b = g[k] if g is not None else None
            r = self.match(b, w if isinstance(w, (set, frozenset)) else {w}, names)
            if r is True:
                self.n['bits_decided'] += 1
            elif r is None:
                self.undecided(f, what)
            else:
                self.bad(rule, f, what, '%s: bit %d is %s where the format has %s' % (what, k, self.show(b), ' or '.join(sorted(self.show(x) for x in (w if isinstance(w, (set, frozenset)) else {w})))))
                return False
        return True

    def match(self, b, want, names):
        if b is None:
            return None
        if b in want:
            return True
        if b in (0, 1):
            return False
        if b[0] == 'ite':
            x, y = self.match(b[2], want, names), self.match(b[3], want, names)
            zero = {w[0] for w in want if isinstance(w, tuple)}
            if b[1] in zero and b[3] == 0 or b[1] in {'%s NotEq 0' % z for z in zero} and b[3] == 0:
                y = True        # an input that is zero
            if b[1] in {'not %s' % z for z in zero} | {'%s Eq 0' % z for z in zero} and b[2] == 0:
                x = True
            return True if x is True and y is True else False if x is False or y is False else None
        if b[0] == 'not':
            return False if self.known(b[1], names) else None
        return False if self.known(b, names) else None

    def known(self, b, names):
        """is this a bit of an input, or of an input put through plain arithmetic?"""
        if not isinstance(b, tuple) or b[0] in ('ite',):
            return False
        if b[0] == 'not':
            return self.known(b[1], names)
        nm = b[0]
        if nm in names:
            return True
        t = nm
        for x in sorted(names, key=len, reverse=True):
            t = t.replace(x, '')
        return set(t) <= set('()+-*/% 0123456789') and t != nm

    @staticmethod
    def show(b):
        if b in (0, 1):
            return str(b)
        if isinstance(b, tuple) and len(b) == 2 and b[0] == 'not':
            return 'not ' + Job.show(b[1])
        if isinstance(b, tuple) and len(b) == 2:
            return 'bit %s of %s' % (b[1], b[0])
        return str(b)[:80]

    def cells(self, arr, n):
        """the first n cells as one long list of bits, byte by byte"""
        out = []
        for k in range(n):
            c = arr.cells.get(P.lin_key({(): k}), P.const(0) if '?' not in arr.cells else None)
            for key, v in arr.cells.items():
                if isinstance(key, tuple) and key and key[0] == 'slice':
                    c = None
            out.append(c)
        return out


def be(name, n, off=0):
    """n bytes of the input, most significant first, as bytes of bits"""
    return [[(name, 8 * (n - 1 - k) + j) for j in range(8)] for k in range(n)]


def drx_frame(J):
    f = J.func('lsl.sim.drx', 'frame_to_frame')
    if f is None:
        return
    m = P.Machine(J.repo, J.nom)
    r = put(J, m, f)
    x = f.node.args.args[0].arg if f.node.args.args else 'frame'
    names = {x + p for p in ('.header.drx_id', '.header.frame_count', '.header.second_count', '.header.decimation', '.header.time_offset', '.payload.timetag',
                             '.payload.tuning_word', '.payload.flags', '.payload.data[re]', '.payload.data[im]')}
    want = [[(c >> j) & 1 for j in range(8)] for c in (0xDE, 0xC0, 0xDE, 0x5C)]
    for nm, n in (('header.drx_id', 1), ('header.frame_count', 3), ('header.second_count', 4), ('header.decimation', 2), ('header.time_offset', 2), ('payload.timetag', 8),
                  ('payload.tuning_word', 4), ('payload.flags', 4)):
        want += be('%s.%s' % (x, nm), n)
    if not isinstance(r, P.Arr):
        J.undecided(f, 'frame')
        return
    for k, c in enumerate(J.cells(r, 32)):
        J.bits('wire-layout', f, 'byte %d' % k, c, want[k], names)
    # a frame without a tuning word of its own has it in the upper half of the flags
    m2 = P.Machine(J.repo, J.nom, given={x + '.payload.tuning_word': None})
    r2 = put(J, m2, f)
    if isinstance(r2, P.Arr):
        w2 = be('%s.payload.flags' % x, 8)
        for k, c in list(enumerate(J.cells(r2, 32)))[24:]:
            J.bits('wire-layout', f, 'byte %d without a tuning word' % k, c, w2[k - 24], names)
    d = r.cells.get(('from', 32))
    got = d.bits if isinstance(d, P.V) else None
    J.n['obligations'] += 1
    if got is None:
        J.undecided(f, 'samples')
        return
    for k in range(8):
        part = ('im', 'imag') if k < 4 else ('re', 'real')
        verdict = sample_bit(got[k], k % 4, part)
        if verdict is None:
            J.undecided(f, 'samples')
        elif verdict is False:
            J.bad('wire-layout', f, 'samples', 'samples: bit %d is %s where the format has bit %d of the %s part' % (k, J.show(got[k]), k % 4, part[1]))
            break
        else:
            J.n['bits_decided'] += 1


def sample_bit(b, k, part):
    if b is None:
        return None
    if b in (0, 1):
        return False
    if b[0] == 'ite':
        x, y = sample_bit(b[2], k, part), sample_bit(b[3], k, part)
        return True if x is True and y is True else False if x is False or y is False else None
    if b[0] == 'not':
        return None
    nm, j = b
    which = [p for p in ('re', 'im', 'real', 'imag') if '[%s]' % p in nm or '.%s' % p in nm + '.' and ('.%s.' % p in nm + '.' or '.%s|' % p in nm)]
    if not which:
        return None
    if not set(which) & set(part) or set(which) - set(part):
        return False
    if j != k:
        return False
    if '.trunc' in nm or '.narrow' in nm and ('clip' in nm or nm.endswith('.narrow')):
        return False
    if ('.real' in nm or '.imag' in nm) and 'clip' in nm and '(-8, 7)' not in nm and '|(' in nm:
        return False
    return True


def put(J, m, f, args=(), me=None):
    try:
        r = m.call(f, args, me=me)
    except (P.Undecided, RecursionError):
        r = P.TOP
        m.last = None
    J.done(m)
    return r


def drx_id(J):
    want = lambda fmt, b, t, p: [(b, 0), (b, 1), (b, 2), (t, 0), (t, 1), (t, 2), fmt, (p, 0)]
    c, f = J.method('lsl.sim.drx', 'SimFrame', '_update')
    if f is not None:
        m = P.Machine(J.repo, J.nom)
        put(J, m, f, me=P.Obj('self', c))
        v = m.last.env.get('self.header.drx_id') if m.last is not None else None
        J.bits('id-layout', f, 'drx_id', v, want(0, 'self.beam', 'self.tune', 'self.pol'), {'self.beam', 'self.tune', 'self.pol'})
    for cls, fmt in (('DRXFrameBuffer', 0), ('DRX8FrameBuffer', 1)):
        c, f = J.method('lsl.reader.buffer', cls, 'create_fill')
        if f is None or len(f.node.args.args) != 3:
            continue
        m = P.Machine(J.repo, J.nom)
        p = f.node.args.args[2].arg
        put(J, m, f, me=P.Obj('self', c))
        vs = [v for k, v in m.last.env.items() if k.endswith('.drx_id')] if m.last is not None else []
        nm = ['%s[%d]' % (p, k) for k in range(3)]
        J.bits('id-layout', f, 'drx_id', vs[0] if len(vs) == 1 else None, want(fmt, *nm), set(nm))
    for mod, fmt in (('lsl.reader.drx', 0), ('lsl.reader.drx8', 1)):
        c, f = J.method(mod, 'FrameHeader', 'id')
        if f is not None:
            m = P.Machine(J.repo, J.nom)
            r = put(J, m, f, me=P.Obj('self', c))
            d = 'self.drx_id'
            for k, (what, w) in enumerate((('beam', [(d, 0), (d, 1), (d, 2), 0, 0, 0, 0, 0, 0]), ('tune', [(d, 3), (d, 4), (d, 5), 0, 0, 0, 0, 0, 0]), ('pol', [(d, 7), 0, 0, 0, 0, 0, 0, 0, 0]))):
                J.bits('id-layout', f, what, m.num(r[k]) if isinstance(r, tuple) and len(r) == 3 and r[k] is not P.TOP else None, w, {d})
        for nm, on in (('is_drx', 0), ('is_drx8', 1)):
            c, f = J.method(mod, 'FrameHeader', nm)
            if f is None:
                continue
            J.n['obligations'] += 1
            for v in range(256):
                m = P.Machine(J.repo, J.nom, given={'self.drx_id': v})
                r = put(J, m, f, me=P.Obj('self', c))
                t = m.truth(r)
                if t is None:
                    J.undecided(f, nm)
                    break
                if t != (((v >> 6) & 1) == on):
                    J.bad('id-layout', f, nm, '%s answers %s for the identifier 0x%02x' % (nm, t, v))
                    break
                J.n['bits_decided'] += 1


def vdif_frame(J):
    c, f = J.method('lsl.writer.vdif', 'Frame', 'create_raw_frame')
    if f is None:
        return
    for bits in (1, 2, 4, 8):
        for real in (0, 1):
            m = P.Machine(J.repo, J.nom, given={'self.bits': bits, 'self.dataReal': real}, elements={'self.data': bits})
            r = put(J, m, f, me=P.Obj('self', c))
            if not isinstance(r, P.Arr):
                J.undecided(f, 'frame')
                continue
            ln = 'len(%s)' % r.name
            S, E, F, T = 'self.seconds', 'self.epoch', 'self.frame', 'self.stand'
            names = {S, E, F, T, ln}
            w = [(S, k) for k in range(30)] + [0, 0]
            w += [(F, k) for k in range(24)] + [(E, k) for k in range(6)] + [0, 0]
            w += [(ln, k + 3) for k in range(24)] + [0] * 5 + [1, 0, 0]
            w += [(T, k) for k in range(16)] + [0] * 10 + [((bits - 1) >> k) & 1 for k in range(5)] + [1 - real]
            cells = J.cells(r, 20)
            for k in range(16):
                J.bits('wire-layout', f, 'byte %d' % k, cells[k], w[8 * k:8 * k + 8], names)
            # the sampling rate in kHz, as the reader of the extended header expects it
            src = [b for x in cells[16:19] if isinstance(x, P.V) for b in x.bits[:8] if isinstance(b, tuple) and b[0] not in ('ite', 'not')]
            nm = {b[0] for b in src}
            if len(nm) == 1:
                q = nm.pop()
                rl = m.intof.get(q)
                if rl is not None and set(k for k in rl if k != ()) == {'self.sample_rate'}:
                    J.n['obligations'] += 1
                    if abs(float(rl['self.sample_rate']) - 1e-3) > 1e-9 or rl.get((), 0):
                        J.bad('wire-layout', f, 'sample rate', 'the sample rate is stored as %g times its value in Hz, but the header says kHz' % float(rl['self.sample_rate']))
                ww = [(q, k) for k in range(23)] + [frozenset([0, (q, 23)])]
                for k in range(3):
                    J.bits('wire-layout', f, 'byte %d' % (16 + k), cells[16 + k], ww[8 * k:8 * k + 8], {q})
                J.bits('wire-layout', f, 'byte 19', cells[19], [1, 0, 0, 0, 0, 0, 0, 0], set())
            else:
                J.undecided(f, 'sample rate')
            # the samples: the cells written in one trip through the loop
            spw = 32 // bits
            trips = {k2 for key in r.cells if isinstance(key, tuple) for k2, _ in [x for x in key if isinstance(x, tuple) and len(x) == 2] if isinstance(k2, str) and k2.startswith('trip@')}
            if len(trips) != 1:
                J.undecided(f, 'samples')
                continue
            t = trips.pop()
            for j in range(4):
                cell = r.cells.get(P.lin_key({(): 32 + j, t: 4}))
                ww = []
                for b in range(8):
                    pos = 8 * j + b
                    ww.append(('self.data[%s]' % ','.join('%s*%s' % kc for kc in P.lin_key({(): pos // bits, t: spw})), pos % bits))
                J.bits('wire-layout', f, 'data byte %d' % j, cell, ww, {b[0] for b in ww} | set(m.widths))
    c, f = J.method('lsl.writer.vdif', 'Frame', '_data_adjust')
    if f is None:
        return
    for bits in (1, 2, 4, 8):
        for real in (0, 1):
            m = P.Machine(J.repo, J.nom, given={'self.bits': bits, 'self.dataReal': real})
            put(J, m, f, me=P.Obj('self', c))
            v = m.last.env.get('self.data') if m.last is not None else None
            todo = []
            if real:
                todo = [(v, 'self.data')]
            elif isinstance(v, P.Arr):
                for key, x in v.cells.items():
                    if isinstance(key, tuple) and key[0] == 'slice':
                        first = key[2].split(':')[0].strip() or '0'
                        todo.append((x, 'self.data.' + {'0': 'real', '1': 'imag'}.get(first, '?')))
                if len(todo) != 2:
                    todo = []
            if not todo:
                J.undecided(f, 'offset binary')
            for x, nm in todo:
                J.bits('wire-layout', f, 'offset binary (%d bits)' % bits, m.num(x) if x is not P.TOP else None, [(nm, k) for k in range(bits - 1)] + [('not', (nm, bits - 1)), 0, 0, 0],
                       {'self.data', 'self.data.real', 'self.data.imag'})


def vdif_extended(J):
    c, f = J.method('lsl.reader.vdif', 'FrameHeader', 'extended_user_data')
    if f is None:
        return
    A, B, C, D = ['self.extended_data_%d' % k for k in (1, 2, 3, 4)]
    fld = lambda w, lo, n: [(w, lo + k) for k in range(n)] + [0] * 4
    both = lambda hi, lo: [(lo, k) for k in range(32)] + [(hi, k) for k in range(32)]
    spec = {
        0x01: {'sample_rate': fld(A, 0, 23), 'sync_pattern': fld(B, 0, 32), 'station_name': both(D, C)},
        0x02: {'sync_word': fld(A, 0, 16), 'pic_status_word': fld(B, 0, 32), 'packet_serial_number': both(D, C)},
        0x03: {'sample_rate': fld(A, 0, 23), 'sync_pattern': fld(B, 0, 32), 'tuning_word': fld(C, 0, 32), 'dbe_unit': fld(D, 24, 4), 'if_input_number': fld(D, 20, 4), 'subband': fld(D, 17, 3)},
        0xAB: {'sync_word': fld(A, 0, 32), 'years_from_2000': fld(B, 28, 4), 'user_specified_data': fld(B, 16, 12), 'data_from_internal_tvg': fld(B, 15, 1), 'frame_in_second': fld(B, 0, 15)},
    }
    for edv, fields in sorted(spec.items()):
        m = P.Machine(J.repo, J.nom, widths={A: 32, B: 32, C: 32, D: 32})
        top = [(edv >> k) & 1 for k in range(8)]
        m.given[A] = P.V(tuple((A, k) if k < 24 else top[k - 24] if k < 32 else 0 for k in range(P.N)), None, (edv << 24, (edv << 24) + (1 << 24) - 1), A)
        r = put(J, m, f, me=P.Obj('self', c))
        if not isinstance(r, dict):
            J.undecided(f, 'version %#x' % edv)
            continue
        for name, w in sorted(fields.items()):
            if name not in r:
                J.undecided(f, name)
                continue
            if w[:1] and w[0] == (A, 0) and len(w) > 32:
                w = [(A, k) for k in range(24)] + top + [0] * 4
            v = r[name]
            J.bits('field-layout', f, '%s (extended data version %#x)' % (name, edv), m.num(v) if v is not P.TOP else None, w, {A, B, C, D})
        tests = {0x01: [('sample_rate_units', 'MHz', 'kHz', (A, 23))], 0x03: [('sample_rate_units', 'MHz', 'kHz', (A, 23)), ('electronic_sideband', 'USB', 'LSB', (D, 16))]}.get(edv, ())
        for name, yes, no, (w, k) in tests:
            J.n['obligations'] += 1
            for bit in (0, 1):
                for other in (0, 1):
                    m2 = P.Machine(J.repo, J.nom, widths={A: 32, B: 32, C: 32, D: 32})
                    val = sum(((bit if j == k else other) << j) for j in range(32))
                    if w == A:
                        val = (val & 0xFFFFFF) | (edv << 24)
                    else:
                        m2.given[A] = edv << 24
                    m2.given[w] = val
                    r2 = put(J, m2, f, me=P.Obj('self', c))
                    got = r2.get(name) if isinstance(r2, dict) else None
                    if not isinstance(got, str):
                        J.undecided(f, name)
                    elif got != (yes if bit else no):
                        J.bad('field-layout', f, name, '%s is %r although bit %d of the word is %d' % (name, got, k, bit))
                    else:
                        J.n['bits_decided'] += 1
        if edv == 0xAB:
            # the VLBA time code: eight decimal digits and four more after the point, nothing else
            v = r.get('vlba_timecode')
            rl = m.rform(v) if isinstance(v, (P.V, float)) else None
            J.n['obligations'] += 1
            if rl is None or any(not isinstance(k, tuple) for k in rl):
                J.undecided(f, 'vlba_timecode')
            else:
                want = {}
                for d in range(8):
                    for k in range(4):
                        want[(C, 28 - 4 * d + k)] = 10.0 ** (7 - d) * (1 << k)
                for d in range(4):
                    for k in range(4):
                        want[(D, 28 - 4 * d + k)] = 10.0 ** (-1 - d) * (1 << k)
                for k in sorted(set(want) | set(rl), key=str):
                    if k == ():
                        continue
                    a, b = float(rl.get(k, 0)), want.get(k, 0.0)
                    if abs(a - b) > 1e-9 * max(1.0, abs(b)):
                        J.bad('field-layout', f, 'vlba_timecode', 'the time code gives %s the weight %g instead of %g' % (J.show(k), a, b))
                        break
                    J.n['bits_decided'] += 1


def words(J):
    near = lambda a, b: abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
    fS = 196e6
    for mod, to, back, swap in (('lsl.common.ndp', 'delay_to_ndpd', 'ndpd_to_delay', True), ('lsl.common.mcs', 'delay_to_mcsd', 'mcsd_to_delay', False)):
        f, g = J.func(mod, to), J.func(mod, back)
        order = [(k + 8) % 16 for k in range(16)] if swap else list(range(16))
        if f is not None:
            m = P.Machine(J.repo, J.nom)
            r = put(J, m, f)
            x = f.node.args.args[0].arg
            J.n['obligations'] += 1
            v = m.num(r) if r is not P.TOP else None
            if v is None or v.bits is None:
                J.undecided(f, 'delay word')
            else:
                for k in range(16):
                    b = v.bits[order[k]]
                    rl = m.intof.get(b[0]) if isinstance(b, tuple) and len(b) == 2 else None
                    if b in (0, 1):
                        J.bad('word-layout', f, 'bit %d' % k, 'bit %d of the delay word is always %s' % (k, b))
                        break
                    if rl is None or b[0] == 'not':
                        J.undecided(f, 'delay word')
                        continue
                    c = float(rl.get(x, 0))
                    rest = [q for q in rl if q not in (x, ()) and rl[q]]
                    scale = c / (fS / 1e9)
                    # bit j of int(16*samples) is bit k; bit j of int(samples) is bit j+4
                    pos = b[1] + (0 if near(scale, 16) else 4 if near(scale, 1) else 100)
                    if pos != k or near(scale, 1) and rest:
                        J.bad('word-layout', f, 'bit %d' % k, 'bit %d of the delay word is %s' % (k, J.show(b)))
                        break
                    J.n['bits_decided'] += 1
        if g is not None:
            real_inverse(J, g, order, [2.0 ** (k - 4) * 1e9 / fS for k in range(16)], 'delay')
    for mod, to, back, swap in (('lsl.common.ndp', 'gain_to_ndpg', 'ndpg_to_gain', True), ('lsl.common.mcs', 'gain_to_mcsg', 'mcsg_to_gain', False)):
        f, g = J.func(mod, to), J.func(mod, back)
        order = [(k + 8) % 16 for k in range(16)] if swap else list(range(16))
        if f is not None:
            m = P.Machine(J.repo, J.nom)
            r = put(J, m, f)
            x = f.node.args.args[0].arg
            v = m.num(r) if r is not P.TOP else None
            J.n['obligations'] += 1
            for k in range(16):
                b = v.bits[order[k]] if v is not None and v.bits is not None else None
                rl = m.intof.get(b[0]) if isinstance(b, tuple) and len(b) == 2 else None
                if b in (0, 1):
                    J.bad('word-layout', f, 'bit %d' % k, 'bit %d of the gain word is always %s' % (k, b))
                    break
                if rl is None:
                    J.undecided(f, 'gain word')
                elif b[1] != k or not near(rl.get(x, 0), 32767) or [q for q in rl if q not in (x, ()) and rl[q]]:
                    J.bad('word-layout', f, 'bit %d' % k, 'bit %d of the gain word is %s' % (k, J.show(b)))
                    break
                else:
                    J.n['bits_decided'] += 1
        if g is not None:
            real_inverse(J, g, order, [2.0 ** k / 32767.0 for k in range(16)], 'gain')


def real_inverse(J, g, order, weights, what):
    x = g.node.args.args[0].arg
    m = P.Machine(J.repo, J.nom, widths={x: 16})
    r = put(J, m, g)
    J.n['obligations'] += 1
    v = m.num(r) if isinstance(r, P.Obj) else r
    rl = m.rform(v) if isinstance(v, (P.V, float)) else None
    if rl is None or any(k != () and not (isinstance(k, tuple) and k[0] == x) for k in rl):
        if rl is not None and set(k for k in rl if k != ()) == {x}:
            # not split up at all: only right when the bytes are in order
            rl = {(x, k): rl[x] * (1 << k) for k in range(16)}
        else:
            J.undecided(g, what + ' word')
            return
    for k in range(16):
        a, b = float(rl.get((x, order[k]), 0)), weights[k]
        if abs(a - b) > 1e-9 * max(1.0, abs(b)):
            J.bad('word-layout', g, 'bit %d' % k, 'bit %d of the %s word counts as %g instead of %g' % (k, what, a, b))
            return
        J.n['bits_decided'] += 1


def same(J, m, f, what, got, name, names):
    """the value got is the input `name`"""
    v = m.num(got) if got is not P.TOP and got is not None else None
    J.n['obligations'] += 1
    lo, hi = m.ranges[name]
    if lo == hi:
        if v is None or not P.is_const(v):
            J.undecided(f, what)
        elif v.rng[0] != lo:
            J.bad('baseline-code', f, what, 'what comes back for %s is %d instead of %d' % (what, v.rng[0], lo))
        else:
            J.n['bits_decided'] += 1
        return
    if v is not None and isinstance(v.lin, dict) and P.lin_key(v.lin) == P.lin_key({name: 1}):
        J.n['bits_decided'] += 1
        return
    if v is None:
        J.undecided(f, what)
        return
    n = max(1, int(hi).bit_length())
    if v.bits is not None and any(isinstance(b, tuple) and b[0] == 'ite' for b in v.bits):
        J.undecided(f, what)        # which packing is used is not settled for the range as a whole; the corner values decide
        return
    if isinstance(v.lin, dict) and v.bits is not None and None in v.bits[:n]:
        if all(k == () or k in names for k in v.lin):
            J.bad('baseline-code', f, what, 'what comes back for %s is %s' % (what, {str(k): c for k, c in v.lin.items() if c}))
            return
    J.bits('baseline-code', f, what, v, [(name, k) for k in range(n)] + [0] * 4, names)


def baselines(J):
    for mod in ('lsl.writer.fitsidi', 'lsl.writer.measurementset'):
        f, g = J.func(mod, 'merge_baseline'), J.func(mod, 'split_baseline')
        if f is None or g is None:
            continue
        for shift in (8, 16):
            a, b = [x.arg for x in f.node.args.args[:2]]
            for u in (1, 2, 1 << (shift - 1), (1 << shift) - 1):
                for v in (1, 2, 1 << (shift - 1), (1 << shift) - 1):
                    m = P.Machine(J.repo, J.nom, ranges={a: (u, u), b: (v, v)})
                    r = put(J, m, g, [put(J, m, f, [P.const(u), P.const(v), P.const(shift)]), P.const(shift)])
                    for k, nm in enumerate((a, b)):
                        same(J, m, g, '%s (shift %d, antennas %d and %d)' % (nm, shift, u, v), r[k] if isinstance(r, tuple) and len(r) == 2 else None, nm, {a, b})
            m = P.Machine(J.repo, J.nom, ranges={a: (0, (1 << shift) - 1), b: (0, (1 << shift) - 1)})
            code = put(J, m, f, [m.input(a), m.input(b), P.const(shift)])
            r = put(J, m, g, [code, P.const(shift)])
            for k, nm in enumerate((a, b)):
                same(J, m, g, '%s (shift %d)' % (nm, shift), r[k] if isinstance(r, tuple) and len(r) == 2 else None, nm, {a, b})
    f, g = J.func('lsl.writer.uvfits', 'merge_baseline'), J.func('lsl.writer.uvfits', 'split_baseline')
    uv = J.repo['lsl.imaging.utils']
    if f is not None and g is not None:
        a, b = [x.arg for x in f.node.args.args[:2]]
        # whole ranges first, then the values at which one of the two packings takes over from the other
        corners = (1, 2, 31, 32, 254, 255, 256, 257, 2046, 2047)
        cases = [((1, 255), (1, 255)), ((256, 2047), (1, 2047)), ((1, 2047), (256, 2047))] + [((x, x), (y, y)) for x in corners for y in corners]
        for ra, rb in cases:
            rs = {a: ra, b: rb}
            m = P.Machine(J.repo, J.nom, ranges=rs)
            code = put(J, m, f, [P.const(r[0]) if r[0] == r[1] else m.input(n) for n, r in ((a, ra), (b, rb))])
            tag = 'antennas %d-%d and %d-%d' % (ra + rb)
            r = put(J, m, g, [code])
            for k, nm in enumerate((a, b)):
                same(J, m, g, '%s (%s)' % (nm, tag), r[k] if isinstance(r, tuple) and len(r) == 2 else None, nm, {a, b})
            reader(J, 'CorrelatedDataUV', rs, code, (a, b), tag, {})
    f = J.func('lsl.writer.fitsidi', 'merge_baseline')
    if f is not None:
        a, b = [x.arg for x in f.node.args.args[:2]]
        for cls, ext in (('Idi', 0), ('Aips', 0), ('ExtendedIdi', 1)):
            c = J.repo['lsl.writer.fitsidi'].classes.get(cls)
            shift = classconst(J.repo, c, '_PACKING_BIT_SHIFT') if c is not None else None
            if shift is None:
                continue
            top = classconst(J.repo, c, '_MAX_ANTS') or (1 << shift) - 1
            rs = {a: (1, top), b: (1, top)}
            m = P.Machine(J.repo, J.nom, ranges=rs)
            code = put(J, m, f, [m.input(a), m.input(b), P.const(shift)])
            reader(J, 'CorrelatedDataIDI', rs, code, (a, b), cls, {'self.extended': ext})
            writes(J, c, f, shift)


def writes(J, c, merge, shift):
    """the writer's own calls use the packing of its format"""
    for k in J.repo.mro(c)[0]:
        for name, ms in k.methods.items():
            for g in ms:
                for x in ast.walk(g.node):
                    if not (isinstance(x, ast.Call) and J.repo.dotted(g.mod, x.func, ()) == ('func', merge)):
                        continue
                    m = P.Machine(J.repo, J.nom)
                    e = x.args[2] if len(x.args) > 2 else next((q.value for q in x.keywords if q.arg == merge.node.args.args[2].arg), None)
                    if e is None:
                        d = merge.node.args.defaults
                        e = d[-1] if d else None
                    if e is None or not g.node.args.args:
                        continue
                    v = m.num(m.ev(e, P.State({g.node.args.args[0].arg: P.Obj('self', c)}), g))
                    J.n['obligations'] += 1
                    if v is None or not P.is_const(v):
                        J.undecided(g, 'packing')
                    elif v.rng[0] != shift:
                        J.bad('baseline-code', g, 'packing of %s' % c.name, 'baselines are packed with a shift of %d, but the format of %s has %d' % (v.rng[0], c.name, shift))
                    else:
                        J.n['bits_decided'] += 1


def classconst(repo, c, name):
    for k in repo.mro(c)[0]:
        for s in k.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and isinstance(s.value, ast.Constant):
                return s.value.value
    return None


def reader(J, cls, ranges, code, ab, tag, given):
    """what the reader of the file takes the antenna numbers from, for a code the writer has stored"""
    mod = J.repo['lsl.imaging.utils']
    c = mod.classes.get(cls) if mod is not None else None
    if c is None or not isinstance(code, P.V):
        return
    for ms in c.methods.values():
        for f in ms:
            for loop in ast.walk(f.node):
                if not isinstance(loop, ast.For) or any(isinstance(x, ast.For) for s in loop.body for x in ast.walk(s)):
                    continue
                uses = [k for k, s in enumerate(loop.body) if any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == 'stand_map' and isinstance(x.ctx, ast.Load) for x in ast.walk(s))]
                if not uses:
                    continue
                # which value holds the code: the one the antenna numbers are computed from
                found = None
                for attempt in (0, 1):
                    m = P.Machine(J.repo, J.nom, ranges=dict(ranges), given=dict(given))
                    m.watch = {'.stand_map': []}
                    if found:
                        m.given[found] = code
                        m.ranges[found] = code.rng
                    st = P.State({'self': P.Obj('self', c)})
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Name) and x.id != 'self':
                            if J.repo.dotted(f.mod, x, ()) is None:
                                st.env.setdefault(x.id, P.Obj(x.id))
                    try:
                        m.block(loop.body[:uses[-1] + 1], st, f)
                    except P.Undecided:
                        pass
                    J.done(m)
                    idx = [m.num(i) for i in m.watch['.stand_map'] if i is not P.TOP]
                    if attempt == 0:
                        src = {b[0] for v in idx if v is not None and v.bits for b in flat(v.bits) if isinstance(b, tuple)} | {k for v in idx if v is not None and isinstance(v.lin, dict) for k in v.lin if isinstance(k, str)}
                        src = {s for s in src if '[' in s or s.isidentifier()}
                        src = {s for s in src if not any(ch in s for ch in '+/ ')}
                        if len(src) != 1:
                            J.undecided(f, 'baseline code')
                            return
                        found = src.pop()
                if len(idx) != 2:
                    J.undecided(f, 'baseline code')
                    return
                for v, nm in zip(idx, ab):
                    same(J, m, f, '%s as stored by the writer (%s)' % (nm, tag), v, nm, set(ab))
                return


def flat(bits):
    for b in bits:
        if isinstance(b, tuple) and b and b[0] == 'ite':
            for x in flat(b[2:]):
                yield x
        elif isinstance(b, tuple) and b and b[0] == 'not':
            for x in flat(b[1:]):
                yield x
        else:
            yield b


def products(J):
    c, f = J.method('lsl.reader.drspec', 'FrameHeader', 'data_products')
    if f is None:
        return
    names = ['XX', 'XY_real', 'XY_imag', 'YY', 'I', 'Q', 'U', 'V']
    J.n['obligations'] += 1
    for v in range(256):
        m = P.Machine(J.repo, J.nom, given={'self.format': v})
        r = put(J, m, f, me=P.Obj('self', c))
        if not isinstance(r, (list, tuple)) or any(not isinstance(x, str) for x in r):
            J.undecided(f, 'data_products')
            return
        if list(r) != [n for k, n in enumerate(names) if (v >> k) & 1]:
            J.bad('field-layout', f, 'data_products', 'the format 0x%02x is taken for %s' % (v, list(r)))
            return
        J.n['bits_decided'] += 1


def run_all(repo, res):
    J = Job(repo, res)
    for step in (drx_frame, drx_id, vdif_frame, vdif_extended, words, baselines, products):
        try:
            step(J)
        except Exception as e:      # code in a form the interpreter has no rule for: no answer for this part
            J.und.append('%s: %s' % (step.__name__, type(e).__name__))
            J.n['bits_undecided'] += 1
    J.n['functions_analysed'] = len(J.funcs)
    res.count(**J.n)
    return J


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    J = run_all(mods.load(), res)
    res.undecided = sorted(set(J.und))
    return res
