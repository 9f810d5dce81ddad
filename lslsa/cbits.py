"""
Bit provenance: a forward dataflow analysis that tells, for every integer value of a frame
reader, which bit of which byte of the frame each of its bits is (through memcpy, in-place byte
swaps, bit fields, shifts, masks and sign extension), and with which values the reader fills the
attributes of the frame object.  Bits are 0, 1, ('f', byte, bit) = bit of the frame counted from
its first byte, ('r', read, byte, bit) = bit of a later read whose position is not constant,
('i', atom, bit) = bit of an index value, or None (unknown).
"""
from . import capi
from .common import AnalysisError

BYTES = ('PyBytes_AS_STRING', 'PyBytes_AsString')
SIZES = ('PyBytes_GET_SIZE', 'PyBytes_Size')


def width(ty):
    if ty == 'ptr':
        return 64
    if ty == 'float':
        return 32
    if ty == 'double':
        return 64
    if ty.startswith('i') and ty[1:].isdigit():
        return int(ty[1:])
    return None


def const_bits(v, w):
    return tuple((v >> k) & 1 for k in range(w))


class Frame(object):
    """analysis of one function"""

    def __init__(self, u, fn):
        self.u, self.fn = u, fn
        self.bits_of = {}
        self.memo = {}          # for users of the finished analysis
        self.cn = {}
        for i in fn.instrs():
            if i.op in ('call', 'invoke'):
                self.cn[i.v] = capi.callee_name(u, i)
        self._reads()
        self.sets = {}          # attribute -> list of (description)
        self.items = {}         # list object -> {index: value}
        self.loads = {}
        self._globals()
        self._run()

    def _globals(self):
        """loop counters 0..255 (look-up table construction): their bits are index bits"""
        self.indvar = {}
        for i in self.fn.instrs():
            if i.op != 'phi' or width(i.ty) is None or i.ty == 'ptr' or len(i.inc) != 2:
                continue
            st = [v for v, _ in i.inc if v.k == 'cint' and v.v == 0]
            nx = [v for v, _ in i.inc if v.k == 'inst' and v.op == 'add' and v.ops[0] is i and v.ops[1].k == 'cint' and v.ops[1].v == 1]
            if not st or not nx:
                continue
            for c in self.fn.instrs():
                if c.op == 'icmp' and c.ops[1].k == 'cint' and c.ops[1].v == 256 and (
                        (c.ops[0] is nx[0] and c.pred in ('eq', 'ne', 'ult', 'slt')) or (c.ops[0] is i and c.pred in ('ult', 'slt', 'eq', 'ne'))):
                    self.indvar[i.v] = True

    # ------------------------------------------------------------- reads
    def _reads(self):
        self.reads = {}          # site -> {'size': const or None, 'call': ins}
        asbytes = {}
        for i in self.fn.instrs():
            if i.op == 'call' and self.cn[i.v] in BYTES + SIZES and i.ops[0].k == 'inst' and i.ops[0].op == 'call':
                self.reads.setdefault(i.ops[0].v, {'size': None, 'call': i.ops[0], 'pos': 'unset'})
        for i in self.fn.instrs():
            if i.op == 'icmp':
                for a, b in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
                    if a.k == 'inst' and a.op == 'call' and self.cn.get(a.v) in SIZES and b.k == 'cint' and a.ops[0].k == 'inst' \
                            and a.ops[0].v in self.reads:
                        self.reads[a.ops[0].v]['size'] = b.v

    # ------------------------------------------------------------- address resolution
    def addr(self, v, d=0):
        """('A', alloca, off) | ('D', read site, off) | ('M', malloc site, off) | ('G', global, off) | ('P', array call, off) ; off None = variable"""
        off = 0
        while d < 40:
            d += 1
            if v.k == 'inst':
                if v.op == 'gep':
                    if v.gidx:
                        off = None
                    elif off is not None:
                        off += v.goff
                    v = v.ops[0]
                    continue
                if v.op in ('bitcast', 'freeze'):
                    v = v.ops[0]
                    continue
                if v.op == 'alloca':
                    return ('A', v.v, off)
                if v.op == 'call':
                    n = self.cn.get(v.v)
                    if n in BYTES and v.ops[0].k == 'inst' and v.ops[0].v in self.reads:
                        return ('D', v.ops[0].v, off)
                    if n in capi.ALLOC:
                        return ('M', v.v, off)
                    if n in ('PyArray_DATA', 'PyArray_BYTES'):
                        return ('P', v.ops[0].v if v.ops[0].k == 'inst' else None, off)
                return None
            if v.k == 'global':
                return ('G', v.v, off)
            if v.k == 'cexpr' and v.v == 'gep':
                if v.x[1]:
                    off = None
                elif off is not None:
                    off += v.x[0]
                v = v.ops[0]
                continue
            return None
        return None

    # ------------------------------------------------------------- values
    def bits(self, v):
        w = width(v.ty)
        if v.k == 'cint':
            return const_bits(v.v, w)
        if v.k == 'null' and w:
            return (0,) * w
        if v.k == 'inst':
            r = self.bits_of.get(v.v)
            if r is not None:
                return r
        return (None,) * (w or 1)

    def compute(self, i, mem):
        w = width(i.ty)
        if w is None:
            return None
        op = i.op
        if op == 'load':
            return self.load(i, mem, w)
        o = i.ops
        if op == 'phi' and i.v in self.indvar:
            return tuple(('i', 'x', k) if k < 8 else 0 for k in range(w))
        if op == 'phi':
            bs = [self.bits(v) for v, _ in i.inc if not (v.k == 'undef') and (v.k != 'inst' or v.v in self.bits_of)]
            if not bs:
                return None
            return tuple(x[0] if all(y == x[0] for y in x) else None for x in zip(*bs))
        if op == 'select':
            a, b = self.bits(o[1]), self.bits(o[2])
            return tuple(x if x == y else None for x, y in zip(a, b))
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            b = self.bits(o[0])
            return b if len(b) == w else (None,) * w
        if op == 'trunc':
            return self.bits(o[0])[:w]
        if op == 'zext':
            b = self.bits(o[0])
            return b + (0,) * (w - len(b))
        if op == 'sext':
            b = self.bits(o[0])
            return b + (b[-1],) * (w - len(b))
        if op in ('shl', 'lshr', 'ashr') and o[1].k == 'cint':
            b, s = self.bits(o[0]), o[1].v
            if op == 'shl':
                return ((0,) * s + b)[:w]
            fill = 0 if op == 'lshr' else b[-1]
            return b[s:] + (fill,) * s
        if op in ('and', 'or', 'xor'):
            a, b = self.bits(o[0]), self.bits(o[1])
            out = []
            for x, y in zip(a, b):
                if op == 'and':
                    r = 0 if (x == 0 or y == 0) else y if x == 1 else x if y == 1 else x if x == y else None
                elif op == 'or':
                    r = 1 if (x == 1 or y == 1) else y if x == 0 else x if y == 0 else x if x == y else None
                else:
                    r = y if x == 0 else x if y == 0 else ('n', x) if y == 1 and x is not None else ('n', y) if x == 1 and y is not None else None
                    if isinstance(r, tuple) and r[0] == 'n' and r[1] in (0, 1):
                        r = 1 - r[1]
                    if isinstance(r, tuple) and r[0] == 'n' and isinstance(r[1], tuple) and r[1][0] == 'n':
                        r = r[1][1]
                out.append(r)
            return tuple(out)
        if op == 'add':
            a, b = self.bits(o[0]), self.bits(o[1])
            if all(x == 0 or y == 0 for x, y in zip(a, b)):
                return tuple(y if x == 0 else x for x, y in zip(a, b))
            # (x ^ 2^(n-1)) - 2^(n-1): sign extension
            if o[1].k == 'cint' and o[1].v < 0:
                m = -o[1].v
                n = m.bit_length()
                if m == 1 << (n - 1) and all(x == 0 for x in a[n:]) and isinstance(a[n - 1], tuple) and a[n - 1][0] == 'n':
                    return a[:n - 1] + (a[n - 1][1],) * (w - n + 1)
            return (None,) * w
        if op == 'sub':
            a, b = self.bits(o[0]), self.bits(o[1])
            if all(y == 0 for y in b):
                return a
            nz = [k for k, y in enumerate(b) if y != 0]
            # x - ((x & 2^(p-1)) << 1): sign extension of a p bit number
            if len(nz) == 1 and nz[0] > 0 and b[nz[0]] == a[nz[0] - 1] and b[nz[0]] is not None and all(x == 0 for x in a[nz[0]:]):
                p = nz[0]
                return a[:p] + (a[p - 1],) * (w - p)
            # modulo 2^w the subtracted bit falls off / lands on the sign: i - ((i & 128) << 1) in 8 bits is i
            return (None,) * w
        if op == 'mul' and o[1].k == 'cint' and o[1].v > 0 and o[1].v & (o[1].v - 1) == 0:
            s = o[1].v.bit_length() - 1
            return ((0,) * s + self.bits(o[0]))[:w]
        if op == 'call':
            n = self.cn.get(i.v) or ''
            if n.startswith('llvm.bswap'):
                b = self.bits(o[0])
                return tuple(x for k in range(w // 8 - 1, -1, -1) for x in b[8 * k:8 * k + 8])
            if n.startswith(('llvm.fshl', 'llvm.fshr')) and o[2].k == 'cint':
                a, b, s = self.bits(o[0]), self.bits(o[1]), o[2].v % w
                if n.startswith('llvm.fshr'):
                    s = (w - s) % w
                c = b + a          # 2w bits, lsb first
                return c[w - s:2 * w - s] if s else a
        return None

    def src(self, site, byte):
        p = self.reads[site]['pos']
        if isinstance(p, int):
            return tuple(('f', p + byte, k) for k in range(8))
        return tuple(('r', site, byte, k) for k in range(8))

    def load(self, i, mem, w):
        a = self.addr(i.ops[0])
        if a is None or a[2] is None or w % 8:
            return None
        n = w // 8
        if a[0] == 'D':
            return tuple(x for k in range(n) for x in self.src(a[1], a[2] + k))
        if a[0] in ('A', 'M'):
            out = ()
            for k in range(n):
                out += self.rd(mem, a[1], a[2] + k)
            return out
        return None

    @staticmethod
    def _empty():
        return ((), {})

    def rd(self, mem, reg, byte):
        maps, ov = mem.get(reg, ((), {}))
        if byte in ov:
            return ov[byte]
        for lo, hi, site, delta in maps:
            if lo <= byte and (hi is None or byte < hi):
                if site is None:
                    return (None,) * 8
                return self.src(site, byte + delta)
        return (None,) * 8

    # ------------------------------------------------------------- dataflow
    def _run(self):
        fn = self.fn
        order = self._rpo()
        inst = {fn.blocks[0].id: ({}, 0)}
        work = [b.id for b in order]
        rank = {b.id: k for k, b in enumerate(order)}
        byid = {b.id: b for b in fn.blocks}
        pend = {fn.blocks[0].id}
        rounds = 0
        while pend:
            rounds += 1
            if rounds > 20000:
                raise AnalysisError('bit provenance does not converge in %s' % fn.name)
            bid = min(pend, key=lambda x: rank.get(x, 1 << 30))
            pend.discard(bid)
            mem, pos = inst[bid]
            mem = {k: (m, dict(o)) for k, (m, o) in mem.items()}
            b = byid[bid]
            changed = False
            for i in b.ins:
                c, pos = self.step(i, mem, pos)
                changed = changed or c
            for s in b.succs:
                old = inst.get(s.id)
                new = (mem, pos) if old is None else self.join(old, (mem, pos))
                if old is None or not self.same(old, new):
                    inst[s.id] = ({k: (m, dict(o)) for k, (m, o) in new[0].items()}, new[1])
                    pend.add(s.id)
                elif changed:
                    pend.add(s.id)

    def same(self, a, b):
        return a[1] == b[1] and a[0] == b[0]

    def join(self, a, b):
        mem = {}
        for r in set(a[0]) & set(b[0]):
            (ma, oa), (mb, ob) = a[0][r], b[0][r]
            if ma == mb:
                ov = {}
                for k in set(oa) | set(ob):
                    x = oa[k] if k in oa else self.rd(a[0], r, k)
                    y = ob[k] if k in ob else self.rd(b[0], r, k)
                    ov[k] = tuple(p if p == q else None for p, q in zip(x, y))
                mem[r] = (ma, ov)
            else:
                # keep only agreeing bytes
                ks = set(oa) | set(ob)
                ov = {}
                for k in ks:
                    x, y = self.rd(a[0], r, k), self.rd(b[0], r, k)
                    ov[k] = tuple(p if p == q else None for p, q in zip(x, y))
                mem[r] = ((), ov)
        for r in set(a[0]) ^ set(b[0]):
            mem[r] = ((), {})
        return (mem, a[1] if a[1] == b[1] else None)

    def _rpo(self):
        seen, out = set(), []
        st = [(self.fn.blocks[0], iter(self.fn.blocks[0].succs))]
        seen.add(self.fn.blocks[0].id)
        while st:
            b, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    st.append((s, iter(s.succs)))
                    break
            else:
                out.append(b)
                st.pop()
        out.reverse()
        return out

    def clobber(self, mem, reg):
        mem[reg] = ((), {})

    def step(self, i, mem, pos):
        changed = False
        if i.op == 'store':
            a = self.addr(i.ops[1])
            if a is not None and a[0] in ('A', 'M'):
                w = width(i.ops[0].ty)
                if a[2] is None or w is None:
                    self.clobber(mem, a[1])
                else:
                    b = self.bits(i.ops[0])
                    if w % 8:
                        b = b + (0,) * (8 - w % 8)
                    m, ov = mem.get(a[1], ((), {}))
                    for k in range(len(b) // 8):
                        ov[a[2] + k] = b[8 * k:8 * k + 8]
                    mem[a[1]] = (m, ov)
            return False, pos
        if i.op == 'call':
            n = self.cn.get(i.v) or ''
            if n.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('memcpy', 'memmove'):
                self.copy(i, mem)
            elif n.startswith('llvm.memset'):
                a = self.addr(i.ops[0])
                if a is not None and a[0] in ('A', 'M'):
                    if a[2] is None or i.ops[2].k != 'cint' or i.ops[1].k != 'cint':
                        self.clobber(mem, a[1])
                    else:
                        m, ov = mem.get(a[1], ((), {}))
                        if i.ops[2].v > 65536:
                            self.clobber(mem, a[1])
                        else:
                            for k in range(i.ops[2].v):
                                ov[a[2] + k] = const_bits(i.ops[1].v & 255, 8)
                            mem[a[1]] = (m, ov)
            elif i.v in self.reads:
                r = self.reads[i.v]
                np = pos if r['pos'] in ('unset', pos) else None
                if np != r['pos']:
                    r['pos'] = np
                    changed = True
                pos = pos + r['size'] if isinstance(pos, int) and r['size'] is not None else None
            elif n.startswith('llvm.') or n in BYTES + SIZES or n.startswith(('Py', '_Py')):
                pass
            else:
                for o in i.ops:
                    a = self.addr(o) if o.ty == 'ptr' else None
                    if a is not None and a[0] in ('A', 'M') and n not in capi.FREE:
                        self.clobber(mem, a[1])
            if n == 'PyObject_SetAttrString':
                nm = self.cstr(i.ops[1])
                if nm is not None:
                    self.sets.setdefault((self.parent(i.ops[0]), nm), {})[i.v] = (i, self.describe(i.ops[2]))
            elif n in ('PyList_SetItem', 'PyList_SET_ITEM', 'PyTuple_SetItem', 'PyTuple_SET_ITEM'):
                if i.ops[0].k == 'inst':
                    idx = i.ops[1].v if i.ops[1].k == 'cint' else None
                    self.items.setdefault(i.ops[0].v, {})[idx] = self.describe(i.ops[2])
        new = self.compute(i, mem)
        if new is not None:
            old = self.bits_of.get(i.v)
            if old is not None and old != new and i.op != 'phi' and i.op != 'load':
                pass
            if old != new:
                self.bits_of[i.v] = new
                changed = True
        elif i.v in self.bits_of:
            del self.bits_of[i.v]
            changed = True
        return changed, pos

    def copy(self, i, mem):
        d, s = self.addr(i.ops[0]), self.addr(i.ops[1])
        if d is None or d[0] not in ('A', 'M'):
            return
        if d[2] is None:
            self.clobber(mem, d[1])
            return
        n = i.ops[2].v if i.ops[2].k == 'cint' else None
        if s is None or s[2] is None or s[0] not in ('D', 'A', 'M'):
            if n is None or n > 65536:
                self.clobber(mem, d[1])
            else:
                m, ov = mem.get(d[1], ((), {}))
                for k in range(n):
                    ov[d[2] + k] = (None,) * 8
                mem[d[1]] = (m, ov)
            return
        if s[0] == 'D':
            m, ov = mem.get(d[1], ((), {}))
            hi = None if n is None else d[2] + n
            for k in [k for k in ov if k >= d[2] and (hi is None or k < hi)]:
                del ov[k]
            mem[d[1]] = (((d[2], hi, s[1], s[2] - d[2]),) + m, ov)
            if len(mem[d[1]][0]) > 6:
                mem[d[1]] = (mem[d[1]][0][:6], ov)
            return
        # region to region
        if n is None or n > 65536:
            self.clobber(mem, d[1])
            return
        vals = [self.rd(mem, s[1], s[2] + k) for k in range(n)]
        m, ov = mem.get(d[1], ((), {}))
        for k, v in enumerate(vals):
            ov[d[2] + k] = v
        mem[d[1]] = (m, ov)

    # ------------------------------------------------------------- object values
    def cstr(self, v):
        if v.k == 'cexpr' and v.ops:
            v = v.ops[0]
        if v.k == 'global' and v.v in self.u.strings:
            return self.u.strings[v.v].rstrip(b'\0').decode('latin1')
        return None

    def parent(self, v):
        if v.k == 'inst' and v.op == 'call' and self.cn.get(v.v) == 'PyObject_GetAttrString':
            return self.cstr(v.ops[1]) or '?'
        if v.k == 'inst' and v.op == 'phi':
            ps = {self.parent(x) for x, _ in v.inc if x.k == 'inst' and x is not v}
            return ps.pop() if len(ps) == 1 else '?'
        return '?' if v.k == 'inst' and v.op == 'phi' else 'frame'

    def describe(self, v):
        """what a Python object value is made of: ('int', bits, signed) | ('list', {k: ..}) | ('obj', callee)"""
        if v.k != 'inst':
            return ('?',)
        if v.op == 'phi' or v.op == 'select':
            return ('?',)
        if v.op != 'call':
            return ('?',)
        n = self.cn.get(v.v) or ''
        if n == 'Py_BuildValue':
            f = self.cstr(v.ops[0])
            if f is None:
                return ('?',)
            if len(f) == 1 and len(v.ops) == 2:
                return self.conv(f, v.ops[1])
            inner = f.strip('[]()')
            if f[:1] in '[(' and all(c in 'bBhHiIlkLKnfdO' for c in inner) and len(inner) == len(v.ops) - 1:
                return ('list', tuple(sorted((k, self.conv(c, o)) for k, (c, o) in enumerate(zip(inner, v.ops[1:])))))
            return ('?',)
        sig = {'PyLong_FromLong': True, 'PyLong_FromLongLong': True, 'PyLong_FromSsize_t': True, 'PyLong_FromUnsignedLong': False,
               'PyLong_FromUnsignedLongLong': False, 'PyLong_FromSize_t': False, 'PyBool_FromLong': None}
        if n in sig and sig[n] is not None:
            return self.integer(self.bits(v.ops[0]), sig[n], v.ops[0])
        if n in ('PyList_New', 'PyTuple_New'):
            it = self.items.get(v.v, {})
            return ('list', tuple(sorted(((-1 if k is None else k), x) for k, x in it.items())))
        if n in capi.PASSTHRU:
            return ('obj', v.ops[0].v if v.ops[0].k == 'inst' else None)
        return ('obj', v.v)

    def conv(self, f, o):
        b = self.bits(o)
        if f in 'bBhiH':
            b = (b + (None,) * 32)[:32] if len(b) < 32 else b[:32]
            return self.integer(b, f != 'H', o)
        if f == 'I':
            return self.integer(b[:32], False, o)
        if f in 'lLn':
            return self.integer(b, True, o)
        if f in 'kK':
            return self.integer(b, False, o)
        if f in 'O':
            return ('obj', o.v if o.k == 'inst' else None)
        return ('?',)

    def integer(self, b, signed, o):
        """canonical: bits lsb first, leading zeros removed; signed only when the sign bit is not known to be 0"""
        b = list(b)
        s = signed and b[-1] != 0
        while b and b[-1] == 0:
            b.pop()
        if s:
            while len(b) > 1 and b[-1] == b[-2]:
                b.pop()
        if any(x is None for x in b):
            return ('expr', self.term(o))
        return ('int', tuple(b), s)

    def term(self, v, d=0, look=None):
        """structural form of a value whose bits are not plain frame bits"""
        b = self.bits(v)
        if all(x is not None for x in b):
            b = list(b)
            while b and b[-1] == 0:
                b.pop()
            return ('bits', tuple(b))
        if v.k != 'inst' or d > 12:
            return ('?',)
        w = width(v.ty) or 64
        if look is not None:
            r = look(v)
            if r is not None:
                return ('bits', tuple((r >> k) & 1 for k in range((r & ((1 << w) - 1)).bit_length())))
        if v.op == 'phi':
            x = self.ones(v)
            if x is not None:
                return ('ctpop', w, self.term(x, d + 1, look))
        if v.op == 'call' and (self.cn.get(v.v) or '').startswith('llvm.ctpop'):
            return ('ctpop', w, self.term(v.ops[0], d + 1, look))
        if v.op in ('zext', 'freeze'):
            return self.term(v.ops[0], d + 1, look)
        if v.op == 'trunc':
            return ('trunc', w, self.term(v.ops[0], d + 1, look))
        if v.op == 'sext':
            return ('sext', w, width(v.ops[0].ty), self.term(v.ops[0], d + 1, look))
        if v.op in ('add', 'shl', 'mul', 'sub', 'or', 'and', 'xor', 'lshr', 'ashr', 'udiv', 'urem'):
            return (v.op, w, self.term(v.ops[0], d + 1, look), self.term(v.ops[1], d + 1, look))
        if v.op == 'phi':
            return ('alt', frozenset(self.term(x, d + 1, look) for x, _ in v.inc))
        if v.op == 'select':
            c = self.term(v.ops[0], d + 1, look)
            if c != ('?',):
                return ('sel', w, c) + tuple(self.term(x, d + 1, look) for x in v.ops[1:])
            return ('alt', frozenset(self.term(x, d + 1, look) for x in v.ops[1:]))
        if v.op == 'icmp':
            return ('cmp', width(v.ops[0].ty) or 64, v.pred, self.term(v.ops[0], d + 1, look), self.term(v.ops[1], d + 1, look))
        n = self.cn.get(v.v) or ''
        if v.op == 'call' and n.startswith(('llvm.fshl', 'llvm.fshr')) and v.ops[2].k == 'cint':
            k = v.ops[2].v % w
            k = (w - k) % w if n.startswith('llvm.fshr') else k
            if k:
                c = lambda x: ('bits', const_bits(x, 8))
                return ('or', w, ('shl', w, self.term(v.ops[0], d + 1, look), c(k)), ('lshr', w, self.term(v.ops[1], d + 1, look), c(w - k)))
        if v.op == 'call' and n.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            return (n[5:9], w, self.term(v.ops[0], d + 1, look), self.term(v.ops[1], d + 1, look))
        return ('?',)

    def ones(self, c):
        """x when c counts the bits set in x:  for(c=0; x; c++) x &= x - 1"""
        if len(c.inc) != 2:
            return None
        zero = [(v, p) for v, p in c.inc if v.k == 'cint' and v.v == 0]
        step = [(v, p) for v, p in c.inc if v.k == 'inst' and v.op == 'add' and v.ops[1].k == 'cint' and v.ops[1].v == 1]
        if len(zero) != 1 or len(step) != 1:
            return None
        add = step[0][0]
        if add.ops[0] is not c:
            # exit phi of a rotated loop: 0 when nothing is set, else the last count
            p = add.ops[0]
            if p.k != 'inst' or p.op != 'phi' or not any(v is add for v, _ in p.inc):
                return None
            c2 = p
        else:
            c2 = c
        hdr = [i for b in self.fn.blocks for i in b.ins if i.op == 'phi' and any(j is c2 for j in b.ins)]
        for q in hdr:
            if q is c2 or len(q.inc) != 2:
                continue
            for (nv, np_), (iv, ip) in ((q.inc[0], q.inc[1]), (q.inc[1], q.inc[0])):
                if nv.k == 'inst' and nv.op == 'and' and any(a is q and self._minus1(b, q) for a, b in ((nv.ops[0], nv.ops[1]), (nv.ops[1], nv.ops[0]))):
                    for i in self.fn.instrs():
                        if i.op == 'icmp' and i.pred in ('eq', 'ne') and (i.ops[0] is nv or i.ops[0] is q) and i.ops[1].k == 'cint' and i.ops[1].v == 0:
                            return iv
        return None

    @staticmethod
    def _minus1(b, q):
        return b.k == 'inst' and b.op == 'add' and b.ops[0] is q and b.ops[1].k == 'cint' and b.ops[1].v in (-1, 255, 0xFFFFFFFF)
