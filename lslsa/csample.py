"""
Sample rule: which payload byte each output element is decoded from, and with which code.

Every store a reader makes into an output array is expressed as
    output byte offset (affine in the loop counters)  <-  f(payload byte at an affine frame offset)
where f is the decoding applied to one byte.  Look-up tables are resolved by folding the
expressions that initialise them.  f is compared with the code of the format for all 256 byte
values, the offsets for all iterations.  What cannot be put in this form is listed as undecided.
"""
import math
import struct
from . import capi, cbits, cheader, cpoly, fspec
from .common import Finding, AnalysisError


class Unknown(Exception):
    pass


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if w and v >> (w - 1) else v


class Fold(object):
    """constant folding of expressions of one function under given loop counters / one payload byte"""

    def __init__(self, P, tables):
        self.P, self.fr, self.tables = P, P.fr, tables
        self.local = None

    def locals_(self):
        """local constant arrays: alloca <- memcpy of a constant"""
        if self.local is None:
            self.local = {}
            for i in self.P.fn.instrs():
                if i.op == 'call' and str(self.fr.cn.get(i.v)).startswith('llvm.memcpy'):
                    d, do = self.P.addr(i.ops[0])
                    s, so = self.P.addr(i.ops[1])
                    if d.k == 'inst' and d.op == 'alloca' and s.k == 'global' and not do and not so:
                        self.local[d.v] = s.v
        return self.local

    def ev(self, v, env, d=0):
        if d > 200:
            raise Unknown('deep')
        if v.k == 'cint':
            w = cbits.width(v.ty) or 64
            return v.v & ((1 << w) - 1)
        if v.k == 'cfp':
            return v.v
        if v.k != 'inst':
            raise Unknown(v.k)
        if ('i', v.v) in env:
            return env[('i', v.v)]
        E = lambda x: self.ev(x, env, d + 1)
        o, op = v.ops, v.op
        w = cbits.width(v.ty)
        m = (1 << w) - 1 if w and v.ty not in ('float', 'double') else None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = E(o[0]), E(o[1])
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (sgn(a, w) >> b) & m
            if b == 0:
                raise Unknown('/0')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            a, b = sgn(a, w), sgn(b, w)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return (q if op == 'sdiv' else a - b * q) & m
        if op in ('zext', 'freeze'):
            return E(o[0])
        if op == 'trunc':
            return E(o[0]) & m
        if op == 'sext':
            return sgn(E(o[0]), cbits.width(o[0].ty)) & m
        if op == 'sitofp':
            r = float(sgn(E(o[0]), cbits.width(o[0].ty)))
            return f32(r) if v.ty == 'float' else r
        if op == 'uitofp':
            r = float(E(o[0]))
            return f32(r) if v.ty == 'float' else r
        if op in ('fptosi', 'fptoui'):
            return int(E(o[0])) & m
        if op == 'fpext':
            return E(o[0])
        if op == 'fptrunc':
            return f32(E(o[0]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = E(o[0]), E(o[1])
            try:
                r = a + b if op == 'fadd' else a - b if op == 'fsub' else a * b if op == 'fmul' else a / b
            except ZeroDivisionError:
                raise Unknown('/0')
            return f32(r) if v.ty == 'float' else r
        if op == 'fneg':
            return -E(o[0])
        if op == 'select':
            return E(o[1]) if E(o[0]) else E(o[2])
        if op == 'icmp':
            a, b = E(o[0]), E(o[1])
            w = cbits.width(o[0].ty) or 64
            if v.pred in ('slt', 'sle', 'sgt', 'sge'):
                a, b = sgn(a, w), sgn(b, w)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[v.pred])
        if op == 'call':
            n = str(self.fr.cn.get(v.v))
            if n.startswith(('llvm.round', 'round', 'roundf')) and len(o) == 1:
                x = E(o[0])
                return math.copysign(math.floor(abs(x) + 0.5), x)
            if n.startswith(('llvm.fabs', 'fabs')):
                return abs(E(o[0]))
            if n.startswith('llvm.abs'):
                return abs(sgn(E(o[0]), w)) & m
            if n.startswith(('llvm.smin', 'llvm.smax', 'llvm.umin', 'llvm.umax')):
                a, b = E(o[0]), E(o[1])
                if n[5] == 's':
                    a, b = sgn(a, w), sgn(b, w)
                return (min(a, b) if 'min' in n else max(a, b)) & m
            raise Unknown(n)
        if op == 'load':
            return self.table(v, env, d)
        if op == 'phi':
            p = self.P.poly(v)
            if all(('k' == a[0]) for mm in p for a in mm):
                return self.pe(p, env) & (m if m else -1)
            if v.bb.id not in self.P.loops:
                return E(self.pick(v, env, d))
            raise Unknown('phi')
        raise Unknown(op)

    def pe(self, p, env):
        t = 0
        for mm, c in p.items():
            x = c
            for a in mm:
                if a in env:
                    x *= env[a]
                elif a[0] == 'v' and ('i', a[1]) in env:
                    x *= env[('i', a[1])]
                elif a[0] == 'v':
                    x *= self.ev(self.byid(a[1]), env, 0)
                else:
                    raise Unknown(str(a))
            t += x
        return t

    def byid(self, n):
        if not hasattr(self, '_ids'):
            self._ids = {i.v: i for i in self.P.fn.instrs()}
        return self._ids[n]

    def pick(self, phi, env, d):
        """the incoming value of a merge point, from the branch conditions (forward diamonds only)"""
        doms = self.P.dom[phi.bb.id] - {phi.bb.id}
        b = self.P.byid[max(doms, key=lambda x: len(self.P.dom[x]))]
        last = None
        for _ in range(60):
            if b is phi.bb:
                for v, p in phi.inc:
                    if p is last:
                        return v
                raise Unknown('phi edge')
            t = b.ins[-1]
            last = b
            if t.op == 'br' and len(t.succ) == 1:
                b = t.succ[0]
            elif t.op == 'br':
                b = t.succ[0] if self.ev(t.ops[0], env, d + 1) else t.succ[1]
            else:
                raise Unknown('branch')
        raise Unknown('long')

    def table(self, v, env, d):
        root, off = self.P.addr(v.ops[0])
        if off is None:
            raise Unknown('address')
        name = root.v if root.k == 'global' else self.locals_().get(root.v) if root.k == 'inst' else None
        if name is None or name not in self.tables:
            raise Unknown('load of %s' % (name or 'memory'))
        w = (cbits.width(v.ty) or 64) // 8
        idx = self.pe(off, env)
        t = self.tables[name]
        if isinstance(t, dict):                    # byte offset -> (width, value)
            e = t.get(idx)
            if e is None or e[0] != w:
                raise Unknown('table entry')
            return e[1]
        k, r = divmod(idx, w)
        if r or not 0 <= k < len(t):
            raise Unknown('outside table')
        x = t[k]
        return x if isinstance(x, float) else x & ((1 << (8 * w)) - 1)


def scalar(u, f, P, name, tables):
    """entries of the global array `name` as stored by function f: {byte offset: (width, value)}; None if not decidable"""
    out = {}
    F = Fold(P, tables)
    for i in f.instrs():
        if i.op != 'store':
            continue
        root, off = P.addr(i.ops[1])
        if root.k != 'global' or root.v != name:
            continue
        if off is None:
            return None
        w = (cbits.width(i.ops[0].ty) or 0) // 8
        hs = P.loops_of(i.bb)
        for env in envs(P, i.bb, hs):
            if env is None or not w:
                return None
            try:
                out[F.pe(off, env)] = (w, F.ev(i.ops[0], env))
            except Unknown:
                return None
    return out


def envs(P, blk, hs, cap=70000):
    cs = []
    n = 1
    for h in hs:
        c = P.count(h, blk)
        if not isinstance(c, int):
            yield None
            return
        cs.append((h, c))
        n *= max(c, 1)
    if n > cap:
        yield None
        return

    def rec(k, env):
        if k == len(cs):
            yield dict(env)
            return
        h, c = cs[k]
        for x in range(c):
            env[('k', h)] = x
            for e in rec(k + 1, env):
                yield e
    for e in rec(0, {}):
        yield e


def gather(units):
    """global name -> entries"""
    tabs = {}
    names = {}
    for u in units:
        for n, f in u.fns.items():
            for i in f.instrs():
                if i.op == 'store':
                    r = i.ops[1]
                    while r.k == 'inst' and r.op in ('gep', 'bitcast') or (r.k == 'cexpr' and r.ops):
                        r = r.ops[0]
                    if r.k == 'global':
                        names.setdefault(r.v, {})[f.name] = (u, f)
    for g, fs in names.items():
        ent = {}
        ok = True
        for u, f in fs.values():
            try:
                fr = cbits.Frame(u, f)
                P = cpoly.Poly(fr)
                e = scalar(u, f, P, g, dict(u.tables))
            except RecursionError:
                e = None
            if e is None:
                ok = False
                break
            ent.update(e)
        if ok and len(ent) >= 16:
            tabs[g] = ent
    return tabs


# ---------------------------------------------------------------------------------- payload access
class Src(object):
    """where memory of the reader comes from: (root, byte offset) -> ('F', frame offset poly)"""

    def __init__(self, P):
        self.P, self.fr = P, P.fr
        self.copies = []
        n = 0
        for i in P.fn.instrs():
            if i.op == 'call' and str(self.fr.cn.get(i.v)).startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                d, do = P.addr(i.ops[0])
                s, so = P.addr(i.ops[1])
                if do is None or so is None:
                    continue
                if s.k == 'inst' and s.op == 'call' and str(self.fr.cn.get(s.v)) in cbits.BYTES:
                    self.copies.append((d, do, s, so, P.poly(i.ops[2])))

    def of(self, root, off):
        """(buffer key, poly)"""
        if root.k == 'inst' and root.op == 'call' and str(self.fr.cn.get(root.v)) in cbits.BYTES:
            return ('B', root.v), off
        c = [x for x in self.copies if x[0] is root]
        if len(c) == 1 and cpoly.isconst(c[0][1]):
            d, do, s, so, n = c[0]
            return ('B', s.v), cpoly.padd(cpoly.padd(off, do, -1), so)
        return None, None


def byteload(F, S, v, seen=None, depth=0):
    """payload byte loads an expression depends on: {inst id: (buffer, poly)}"""
    out = {}
    if depth > 60 or v.k != 'inst':
        return out
    if v.op == 'load':
        root, off = F.P.addr(v.ops[0])
        if off is not None:
            b, p = S.of(root, off)
            if b is not None:
                out[v.v] = (b, p, v.ty)
                return out
        if off is not None:
            for m in off:
                for a in m:
                    if a[0] == 'v':
                        out.update(byteload(F, S, F.byid(a[1]), seen, depth + 1))
        return out
    if v.op == 'phi':
        return out
    for o in v.ops:
        out.update(byteload(F, S, o, seen, depth + 1))
    return out


def s4(x):
    return x - 16 if x & 8 else x


def s8(x):
    return x - 256 if x & 128 else x


CODES = {
    'nib': {0: lambda x: s4(x >> 4), 1: lambda x: s4(x & 15)},
    'byte': {0: s8},
}
HI = 3.3359


def vdif_code(bits, isint):
    n = 8 // bits

    def mk(c):
        def f(x):
            l = (x >> (bits * c)) & ((1 << bits) - 1)
            if bits == 1:
                return (-1, 1)[l]
            if bits == 2:
                return (-3, -1, 1, 3)[l] if isint else (-HI, -1.0, 1.0, HI)[l]
            if bits == 4:
                return l - 8 if isint else (l - 8) / 2.95
            return l - 128 if isint else (2 * l - 255) / 256.0
        return f
    return {c: mk(c) for c in range(n)}


def close(a, b):
    return abs(a - b) <= 1e-4 * max(1.0, abs(b))


def tableval(t, off, ty):
    """one table entry (as signed number) of width of ty"""
    e = t.get(off)
    if e is None:
        return None
    w, x = e
    return x if isinstance(x, float) else sgn(x, 8 * w)


def elemwrites(F, S, i, tables):
    """decompose a store / memcpy into output: list of (byte shift within the access, element width, [256 values], buffer, poly)"""
    P = F.P
    if i.op == 'store':
        v, n = i.ops[0], (cbits.width(i.ops[0].ty) or 0) // 8
        src = None
        if v.k == 'inst' and v.op == 'load':
            src = v.ops[0]
    else:
        v, n, src = None, None, i.ops[1]
        p = P.poly(i.ops[2])
        if not cpoly.isconst(p):
            raise Unknown('length')
        n = cpoly.cval(p)
    if src is not None:
        root, off = P.addr(src)
        if root.k == 'global' and root.v in tables and isinstance(tables[root.v], dict) and off is not None:
            t = tables[root.v]
            bl = {}
            for m in off:
                for a in m:
                    if a[0] == 'v':
                        bl.update(byteload(F, S, F.byid(a[1])))
            if len(bl) != 1:
                raise Unknown('table index')
            (k, (buf, bp, ty)), = bl.items()
            if ty != 'i8':
                raise Unknown('index type')
            ws = {e[0] for e in t.values()}
            if len(ws) != 1:
                raise Unknown('table')
            w = ws.pop()
            out = []
            for sh in range(0, n, w):
                vals = []
                for x in range(256):
                    o = F.pe(off, {('i', k): x}) + sh
                    vals.append(tableval(t, o, None))
                    if vals[-1] is None:
                        raise Unknown('outside the table')
                out.append((sh, w, vals, buf, bp))
            return out
    if v is None:
        raise Unknown('copy')
    bl = byteload(F, S, v)
    if len(bl) != 1:
        raise Unknown('%d payload loads' % len(bl))
    (k, (buf, bp, ty)), = bl.items()
    if ty != 'i8':
        raise Unknown('load type')
    vals = []
    w = cbits.width(v.ty)
    for x in range(256):
        r = F.ev(v, {('i', k): x})
        vals.append(r if v.ty in ('float', 'double') else sgn(r, w))
    return [(0, n, vals, buf, bp)]


def vdif_bits(fr, P, blk):
    """the bits-per-sample value that selects this block"""
    want = fspec.lebits(3, 26, 5)

    def off(x):
        if x.k == 'inst' and x.op == 'add' and x.ops[1].k == 'cint':
            r = off(x.ops[0])
            return None if r is None else r - x.ops[1].v
        while x.k == 'inst' and x.op in ('zext', 'sext', 'trunc', 'freeze'):
            if off2(x):
                return 0
            x = x.ops[0]
            if x.k == 'inst' and x.op == 'add':
                return off(x)
        return 0 if off2(x) else None

    def off2(x):
        b = list(fr.bits(x)) if x.k == 'inst' else []
        while b and b[-1] == 0:
            b.pop()
        return tuple(b) == want

    def reach(s, stop):
        seen, todo = set(), [s]
        while todo:
            b = todo.pop()
            if b.id in seen or b is stop:
                continue
            seen.add(b.id)
            todo.extend(b.succs)
        return seen
    for d in sorted(P.dom[blk.id], key=lambda x: -len(P.dom[x])):
        b = P.byid[d]
        t = b.ins[-1]
        if b is blk:
            continue
        if t.op == 'switch':
            k = off(t.ops[0])
            if k is not None:
                hit = [v.v for v, dst in t.inc if dst.id in P.dom[blk.id]]
                return hit[0] + k + 1 if len(hit) == 1 else None
        elif t.op == 'br' and len(t.succ) == 2 and t.ops[0].k == 'inst' and t.ops[0].op == 'icmp' and t.ops[0].ops[1].k == 'cint':
            k = off(t.ops[0].ops[0])
            if k is not None and t.ops[0].pred in ('eq', 'ne'):
                eq = t.succ[0] if t.ops[0].pred == 'eq' else t.succ[1]
                if eq.id in P.dom[blk.id]:
                    return t.ops[0].ops[1].v + k + 1
    return None


def outroot(fr, r):
    return r.k == 'inst' and r.op == 'call' and str(fr.cn.get(r.v)) in ('PyArray_DATA', 'PyArray_BYTES')


SLOTS = {'XX': 'A', 'I': 'A', 'XY_real': 'B', 'Q': 'B', 'XY_imag': 'C', 'U': 'C', 'YY': 'D', 'V': 'D'}
FBIT = {'XX': 0, 'XY_real': 1, 'XY_imag': 2, 'YY': 3, 'I': 4, 'Q': 5, 'U': 6, 'V': 7}


def strip(v):
    while v.k == 'inst' and v.op in ('uitofp', 'sitofp', 'zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'freeze'):
        v = v.ops[0]
    return v


def reach(f, fr, env):
    """blocks a frame with the given header bits can reach: (through decided and header-independent branches, through any branch)"""
    def flag(v, d=0):
        """does the value depend on the path taken (a flag variable)?"""
        if v.k != 'inst' or d > 8 or v.op in ('load', 'call'):
            return False
        if v.op == 'phi':
            return all(x.k in ('cint', 'undef') or x.k == 'inst' and x.op in ('phi', 'select') for x, _ in v.inc)
        return any(flag(x, d + 1) for x in v.ops)

    def edges(t, vague):
        if t.op not in ('br', 'switch') or len(t.succ) < 2:
            return t.succ or ()
        if t.v not in fr.memo:
            y = fr.term(t.ops[0])
            fr.memo[t.v] = (y, cheader.known(y) and len(cheader.alts(y)) == 1, cheader.leaves(y))
        x, ok, lv = fr.memo[t.v]
        if ok and lv and lv <= set(env):
            v = cheader.value(x, env)
            if v is not None:
                if t.op == 'br':
                    return (t.succ[0] if v & 1 else t.succ[1],)
                w = cbits.width(t.ops[0].ty) or 64
                hit = [d for c, d in t.inc if (c.v - v) & ((1 << w) - 1) == 0]
                return hit[:1] or (t.succ[0],)
        if not vague and flag(t.ops[0]) and not lv:
            return ()
        return t.succ

    def walk(vague):
        seen, todo = set(), [f.blocks[0]]
        while todo:
            b = todo.pop()
            if b.id not in seen:
                seen.add(b.id)
                todo.extend(edges(b.ins[-1], vague))
        return seen
    return walk(False), walk(True)


def dispatch(f, fr, rec, loops, bad, und):
    """for each of the 256 product selections: exactly its products are filled, from groups of as many values"""
    if any('product' in x for x in und):
        return
    n = 0
    for F in range(256):
        sure, may = reach(f, fr, {('f', 45, k): (F >> k) & 1 for k in range(8)})
        want = {SLOTS[p] for p, b in FBIT.items() if F >> b & 1} if F in FORMATS_DR else set()
        tag = '+'.join(p for p, b in FBIT.items() if F >> b & 1) or 'none'
        for i, slot, t, h, src, o, den in rec:
            if i.bb.id in sure and loops[h] != want:
                bad('product-select', 'format %s' % ('0x%02X' % F if F in FORMATS_DR else 'unsupported'), i, 'the products %s of a frame are decoded as %d products (%s)%s' % (
                    tag, len(loops[h]), ''.join(sorted(loops[h])), '' if F in FORMATS_DR else ': no such selection is produced, and the data block only holds %d' % bin(F).count('1')))
                break
        else:
            have = {(slot, t) for i, slot, t, h, src, o, den in rec if i.bb.id in may and loops[h] == want}
            if len(have) != 2 * len(want):
                bad('product-missing', 'format 0x%02X' % F, rec[0][0], 'no code fills the products %s of a frame' % tag)
            elif any(i.bb.id in may and loops[h] != want for i, slot, t, h, src, o, den in rec):
                n += 1
    if n:
        und.append('%s: product selection of %d formats' % (f.short, n))


FORMATS_DR = (0x01, 0x02, 0x04, 0x08, 0x09, 0x06, 0x0F, 0x10, 0x20, 0x40, 0x80, 0x90, 0xF0)


def components(P, v):
    """a stored value as [(byte shift, root, offset, negated)] of float loads, or None"""
    if v.k != 'inst':
        return None
    if v.op == 'insertelement':
        out = {}
        while v.k == 'inst' and v.op == 'insertelement' and v.ops[2].k == 'cint':
            c = components(P, v.ops[1])
            if c is None or len(c) != 1 or v.ops[1].ty not in ('float', 'double'):
                return None
            out.setdefault(v.ops[2].v, c[0])
            v = v.ops[0]
        return [(4 * k,) + c[1:] for k, c in sorted(out.items())] if v.k in ('undef', 'poison') else None
    neg = False
    while v.k == 'inst' and v.op == 'fneg':
        v, neg = v.ops[0], not neg
    if v.k == 'inst' and v.op == 'load':
        r, o = P.addr(v.ops[0])
        return None if o is None else [(0, r, o, neg)]
    return None


def conjugates(f, fr, P, F, S, conj, N, bad, und):
    """for auto-correlations (and only for them) YX of every channel is the conjugate of XY"""
    done = {}
    at = None
    A, B = fspec.be(28, 2), fspec.be(30, 2)
    for i, o, cs in conj:
        at = i
        es = list(envs(P, i.bb, P.loops_of(i.bb)))
        if None in es:
            und.append('%s line %s: loop range' % (f.short, i.line))
            return 0
        for env in es:
            for sh, r, so, neg in cs:
                try:
                    ob, sb = F.pe(o, env) + sh, F.pe(so, env)
                except Unknown:
                    und.append('%s line %s: conjugate address' % (f.short, i.line))
                    return 0
                if not outroot(fr, r):
                    b, p = S.of(r, so)
                    if b is None:
                        und.append('%s line %s: conjugate source' % (f.short, i.line))
                        return 0
                    sb = F.pe(p, env) - 32
                done[ob] = (sb, neg)
        # the condition
        cond = None
        for d in sorted(P.dom[i.bb.id], key=lambda x: -len(P.dom[x])):
            t = P.byid[d].ins[-1]
            if t.op != 'br' or len(t.succ) != 2 or t.ops[0].k != 'inst' or d == i.bb.id and i.bb not in t.succ:
                continue
            side = [k for k in (0, 1) if t.succ[k].id in P.dom[i.bb.id] and (d != i.bb.id)]
            c = t.ops[0]
            x = fr.term(c)
            lv = cheader.leaves(x)
            if not lv & set(A + B) or len(side) != 1:
                continue
            cond = (x, side[0] == 0, t)
            break
        if cond is None:
            bad('sample-code', 'conjugate', i, 'YX is replaced by the conjugate of XY for every baseline, not only for auto-correlations')
            return 0
        x, want, t = cond
        if not cheader.known(x) or len(cheader.alts(x)) != 1 or not cheader.leaves(x) <= set(A + B):
            und.append('%s line %s: condition of the conjugate' % (f.short, t.line))
            continue
        for a in (0, 1, 2, 255, 256, 257, 0x102, 0x201, 0x7FFF, 0x8000, 0xFFFF):
            for b in (0, 1, 2, 255, 256, 257, 0x102, 0x201, 0x7FFF, 0x8000, 0xFFFF):
                env = {q: (v >> k) & 1 for fl, v in ((A, a), (B, b)) for k, q in enumerate(fl)}
                v = cheader.value(x, env)
                if v is not None and (bool(v & 1) == want) != (a == b):
                    bad('sample-code', 'conjugate', t, 'stands %d and %d: YX is %sthe conjugate of XY' % (a, b, '' if a != b else 'not '))
                    return 0
    if at is None:
        return 0
    for k in range(N // 32):
        for w, src, neg in ((16, 8, False), (20, 12, True)):
            g = done.get(32 * k + w)
            if g is None:
                bad('sample-missing', 'conjugate', at, 'YX of channel %d of an auto-correlation is not filled in' % k)
                return 0
            if g != (32 * k + src, neg):
                bad('sample-code', 'conjugate', at, 'YX of channel %d of an auto-correlation is not the conjugate of XY (byte %d from byte %d%s)' % (k, 32 * k + w, g[0], ' negated' if g[1] else ''))
                return 0
    for ob in done:
        if not (0 <= ob < N and ob % 32 in (16, 20)):
            bad('sample-code', 'conjugate', at, 'output byte %d of an auto-correlation is replaced' % ob)
            return 0
    return len(done)


def dimensions(f, fr, P, call):
    """values stored in the dimension list an array is created with, or None"""
    n = str(fr.cn.get(call.v))
    if n not in ('PyArray_Zeros', 'PyArray_Empty', 'PyArray_New') or call.ops[0].k != 'cint' and n != 'PyArray_New':
        return None
    k = 2 if n == 'PyArray_New' else 1
    nd = call.ops[k - 1]
    if nd.k != 'cint':
        return None
    return stored(f, P, call.ops[k], nd.v, call)


def stored(f, P, ptr, n, at):
    """the n 64 bit values last stored at ptr before instruction at"""
    root, off = P.addr(ptr)
    if root.k != 'inst' or root.op != 'alloca' or off is None or not cpoly.isconst(off):
        return None
    best = {}
    for b in f.blocks:
        for j, i in enumerate(b.ins):
            if i.op != 'store':
                continue
            r, o = P.addr(i.ops[1])
            if r is not root:
                continue
            if o is None or not cpoly.isconst(o):
                return None
            q, rem = divmod(cpoly.cval(o) - cpoly.cval(off), 8)
            if b is at.bb and j > [x for x, y in enumerate(b.ins) if y is at][0]:
                continue
            if b.id not in P.dom[at.bb.id]:
                if at.bb.id in P.dom[b.id]:
                    continue                    # only after it
                return None
            if rem or i.ops[0].ty not in ('i64', 'ptr'):
                continue
            key = (len(P.dom[b.id]), j)
            if q not in best or best[q][0] < key:
                best[q] = (key, i.ops[0])
    return [best[q][1] for q in range(n)] if all(q in best for q in range(n)) else None


def itemtype(fr, call):
    n = str(fr.cn.get(call.v))
    d = call.ops[2] if n in ('PyArray_Zeros', 'PyArray_Empty') else call.ops[3]
    if d.k == 'cint':
        return d.v
    if d.k == 'inst' and d.op == 'call' and str(fr.cn.get(d.v)) == 'PyArray_DescrFromType' and d.ops[0].k == 'cint':
        return d.ops[0].v
    return None


def outarrays(fr, writes):
    """the array creations the stores go to"""
    out = {}
    for i, r, o in writes:
        a = r.ops[0]
        if a.k == 'inst' and a.op == 'call':
            out.setdefault(a.v, (a, i))
    return list(out.values())


def constsize(f, fr, P, writes, total, bad, und):
    """total: real numbers in the payload; the array made for them has exactly that many"""
    for a, i in outarrays(fr, writes):
        d, t = dimensions(f, fr, P, a), itemtype(fr, a)
        if d is None or t is None or any(x.k != 'cint' for x in d):
            und.append('%s line %s: array size' % (f.short, a.line))
            continue
        n = 2 if t in (14, 15, 16) else 1
        for x in d:
            n *= x.v
        if n != total:
            bad('output-size', 'array', a, 'the output array holds %d values, the frame %d' % (n, total))


def covers(f, fr, P, i, arr, per):
    """does the loop around store i run over all elements of the array arr (per stores of its loop step each)?"""
    d = dimensions(f, fr, P, arr) if arr.k == 'inst' and arr.op == 'call' else None
    hs = P.loops_of(i.bb)
    if not d or len(d) != 1 or len(hs) != 1:
        return None
    e = P.extent(hs[0], i.bb)
    if e is None:
        return None
    a, lim = e
    size = d[0]
    while size.k == 'inst' and size.op in ('zext', 'sext', 'trunc', 'freeze'):
        size = size.ops[0]
    if a == 1:
        p = P.poly(size)
        return True if lim == p else False if shares(lim, p) else None
    if a == per and size.k == 'inst' and (size.op == 'lshr' and size.ops[1].k == 'cint' and 1 << size.ops[1].v == per or size.op in ('udiv', 'sdiv') and size.ops[1].k == 'cint' and size.ops[1].v == per):
        p = P.poly(size.ops[0])
        return True if lim == p else False if shares(lim, p) else None
    return None


def shares(a, b):
    """are two index expressions made of (some of) the same quantities, so that different forms mean different values?"""
    return bool({m for m in a if m} & {m for m in b if m})


def vdif_sizes():
    """header values worth distinguishing, with the number of samples they mean: (bits, samples)"""
    fl, lg, bp, cx = fspec.lebits(2, 0, 24), fspec.lebits(0, 30, 1), fspec.lebits(3, 26, 5), fspec.lebits(3, 31, 1)
    for b in (1, 2, 4, 8):
        for n in list(range(4, 12)) + [129, 629, 1004, 8192 + 4, 524288 + 2, (1 << 24) - 1]:
            for l in (0, 1):
                for c in (0, 1):
                    nb = 8 * n - (16 if l else 32)
                    env = {}
                    for f, x in ((fl, n), (lg, l), (bp, b - 1), (cx, c)):
                        env.update({q: (x >> k) & 1 for k, q in enumerate(f)})
                    yield env, b, c, nb * 8 // b


def vdifshape(f, fr, P, writes, bits_of, bad, und):
    """number of samples of the arrays VDIF data are decoded to, and the shape multi-channel data get"""
    n = 0
    for a, i in outarrays(fr, writes):
        d, t = dimensions(f, fr, P, a), itemtype(fr, a)
        cplx = t in (14, 15)
        b = bits_of.get(a.v)
        x = fr.term(d[0]) if d and len(d) == 1 else ('?',)
        if t is None or not cheader.known(x) or len(cheader.alts(x)) != 1 or (b is None and not cplx):
            und.append('%s line %s: array size' % (f.short, a.line))
            continue
        for env, bp, c, ns in vdif_sizes():
            if not cheader.leaves(x) <= set(env):
                und.append('%s line %s: array size' % (f.short, a.line))
                break
            if cplx and not c or not cplx and bp != b:
                continue
            v = cheader.value(x, env)
            if v is not None and v & 0xFFFFFFFF != (ns // 2 if cplx else ns):
                bad('output-size', '%s array' % ('complex' if cplx else '%d-bit' % b), a, 'the output array holds %d values when the frame holds %d' % (v, ns // 2 if cplx else ns))
                break
        else:
            n += 1
    nch = ('shl', 32, ('bits', (1,)), ('bits', fspec.lebits(2, 24, 5)))
    for i in f.instrs():
        if i.op != 'call' or str(fr.cn.get(i.v)) not in ('PyArray_Newshape', 'PyArray_Reshape'):
            continue
        pd = stored(f, P, i.ops[1], 1, i) if str(fr.cn.get(i.v)) == 'PyArray_Newshape' else None
        order = i.ops[2].v if len(i.ops) > 2 and i.ops[2].k == 'cint' else None
        dd = stored(f, P, pd[0], 2, i) if pd and pd[0].k == 'inst' and pd[0].op == 'alloca' else None
        if not dd or order not in (0, 1):
            und.append('%s line %s: shape' % (f.short, i.line))
            continue
        isn = [cheader.known(fr.term(x)) and cheader.leaves(fr.term(x)) <= {q for q in fspec.lebits(2, 24, 5)} and cheader.differ(fr.term(x), nch) is None for x in dd]
        turned = any(j.op == 'call' and str(fr.cn.get(j.v)) in ('PyArray_Transpose', 'PyArray_SwapAxes') and j.ops[0] is i for j in f.instrs())
        if isn[0] == isn[1]:
            und.append('%s line %s: shape' % (f.short, i.line))
        elif (isn[1], order, turned) not in ((True, 0, True), (False, 1, False)):
            bad('output-size', 'channels', i, 'the samples of several channels (channel varies fastest) are given the shape %s%s' % (
                '(samples, channels)' if isn[1] else '(channels, samples)', ', transposed' if turned else ''))
        else:
            n += 1
    return n


def drspec(u, f, fr, P, S, writes, bad, und):
    """products of a spectrometer frame: position in the data block, normalisation, and the attribute each lands in"""
    NF = fspec.le(48, 4)
    name = {}
    done = 0
    for i in f.instrs():
        if i.op == 'call' and fr.cn.get(i.v) == 'PyObject_SetAttrString':
            nm = fr.cstr(i.ops[1]) or ''
            v = i.ops[2]
            while v.k == 'inst' and v.op == 'call' and fr.cn.get(v.v) == 'PyArray_Return':
                v = v.ops[0]
            if nm[:-1] in SLOTS and nm[-1] in '01' and v.k == 'inst':
                name.setdefault(v.v, set()).add((SLOTS[nm[:-1]], int(nm[-1])))
                got = None
                for d in sorted(P.dom[i.bb.id], key=lambda x: -len(P.dom[x])):
                    t = P.byid[d].ins[-1]
                    if t.op == 'br' and len(t.succ) == 2 and t.ops[0].k == 'inst' and d != i.bb.id:
                        c = t.ops[0]
                        b = fr.bits(c.ops[0]) if c.op == 'icmp' else fr.bits(c)
                        src = {x for x in b if x not in (0, 1)}
                        if src and all(isinstance(x, tuple) and x[:2] == ('f', 45) for x in src):
                            got = src
                            if c.op == 'icmp' and c.pred in ('slt', 'sgt'):
                                got = {b[-1]}
                            break
                if got is None:
                    und.append('%s: condition of %s' % (f.short, nm))
                elif got != {('f', 45, FBIT[nm[:-1]])}:
                    bad('product-select', nm, i, 'product %s is set when format bit(s) %s are set, the format has bit %d' % (nm, sorted(x[2] for x in got), FBIT[nm[:-1]]))
                else:
                    done += 1
    for a, i in outarrays(fr, writes):
        d = dimensions(f, fr, P, a)
        if d is None or len(d) != 1:
            und.append('%s line %s: array size' % (f.short, a.line))
            continue
        b = [x for x in fr.bits(d[0])]
        while b and b[-1] == 0:
            b.pop()
        if any(not (x in (0, 1) or isinstance(x, tuple) and x[:1] == ('f',)) for x in b):
            und.append('%s line %s: array size' % (f.short, a.line))
        elif b != list(NF):
            bad('output-size', 'array', a, 'the data array is not made with the channel count of the frame header')
        else:
            done += 1
    loops = {}
    rec = []
    for i, r, o in writes:
        a = r.ops[0]
        v = i.ops[0] if i.op == 'store' else None
        ids = name.get(a.v) if a.k == 'inst' else None
        if v is None or not ids or v.k != 'inst' or v.op != 'fdiv':
            und.append('%s line %s: product store' % (f.short, i.line))
            continue
        if len(ids) != 1:
            bad('product-select', 'array', i, 'one data array is stored as different products/tunings %s' % sorted(ids))
            continue
        (slot, t), = ids
        hs = P.loops_of(i.bb)
        num, den = strip(v.ops[0]), strip(v.ops[1])
        if len(hs) != 1 or num.k != 'inst' or num.op != 'load':
            und.append('%s line %s: product loop' % (f.short, i.line))
            continue
        rt, off = P.addr(num.ops[0])
        if off is None or S.of(rt, off)[0] is None:
            und.append('%s line %s: product source' % (f.short, i.line))
            continue
        loops.setdefault(hs[0], set()).add(slot)
        rec.append((i, slot, t, hs[0], S.of(rt, off)[1], o, den))

    def fac(x):
        x = strip(x)
        if x.k == 'inst' and x.op in ('mul', 'fmul'):
            return fac(x.ops[0]) + fac(x.ops[1])
        if x.k == 'inst' and x.op == 'call' and str(fr.cn.get(x.v)).startswith(('llvm.umin', 'llvm.smin')):
            return [('min', frozenset(fac(x.ops[0]) + fac(x.ops[1])))]
        if x.k == 'inst' and x.op == 'call' and str(fr.cn.get(x.v)).startswith(('llvm.umax', 'llvm.smax')):
            return [('max', frozenset(fac(x.ops[0]) + fac(x.ops[1])))]
        if x.k == 'inst' and x.op == 'select' and x.ops[0].k == 'inst' and x.ops[0].op == 'icmp':
            c = x.ops[0]
            a, b = fac(x.ops[1]), fac(x.ops[2])
            if fac(c.ops[0]) == a and fac(c.ops[1]) == b and c.pred in ('ult', 'ule', 'slt', 'sle') or fac(c.ops[0]) == b and fac(c.ops[1]) == a and c.pred in ('ugt', 'uge', 'sgt', 'sge'):
                return [('min', frozenset(a + b))]
            if {str(fac(c.ops[0])), str(fac(c.ops[1]))} == {str(a), str(b)} and c.pred not in ('eq', 'ne'):
                return [('max', frozenset(a + b))]
            return [None]
        b = list(fr.bits(x)) if x.k == 'inst' else []
        while b and b[-1] == 0:
            b.pop()
        b = tuple(b)
        if b == NF:
            return ['nF']
        for q in range(4):
            if b == fspec.le(24 + 4 * q, 4):
                return [q]
        return [None]
    dispatch(f, fr, rec, loops, bad, und)
    for i, slot, t, h, src, o, den in rec:
        K = (('k', h),)
        nf = [m for m in src if m not in ((), K)]
        n = src.get(K, 0) // 4
        atoms = [m for m in nf if m == (('bits', NF),)]
        if len(atoms) != len(nf) or src.get(K, 0) % 4 or n not in (1, 2, 4):
            und.append('%s line %s: product address' % (f.short, i.line))
            continue
        blk = src.get(atoms[0], 0) // 4 if atoms else 0
        pos = src.get((), 0) // 4
        want = {1: {slot: 0}, 4: {'A': 0, 'B': 1, 'C': 2, 'D': 3}, 2: {'A': 0, 'D': 1} if slot in 'AD' else {'B': 0, 'C': 1}}[n]
        if len(loops[h]) not in (n,):
            bad('product-order', '%s%d of %d' % (slot, t, n), i, '%d products are filled from groups of %d values' % (len(loops[h]), n))
        elif o != {K: 4}:
            bad('product-order', '%s%d of %d' % (slot, t, n), i, 'channel i of the product is stored at another place')
        elif blk != t * n or pos != want[slot]:
            bad('product-order', '%s%d of %d' % (slot, t, n), i, 'product %d of tuning %d is taken from data block offset %d*nchan, position %d; the format has %d*nchan, position %d' % (
                'ABCD'.index(slot), t, blk, pos, t * n, want[slot]))
        else:
            cnt = P.count(h, i.bb)
            if cnt is None:
                und.append('%s line %s: loop range' % (f.short, i.line))
            elif cnt != {(('bits', NF),): 1}:
                bad('product-missing', '%s%d of %d' % (slot, t, n), i, 'not every channel is filled: the loop runs %s times' % (cnt,))
            fs = fac(den)
            mn = ('min', frozenset([2 * t, 2 * t + 1]))
            ok = {'A': [2 * t, mn], 'D': [2 * t + 1, mn], 'B': [mn], 'C': [mn]}[slot]
            if None in fs:
                und.append('%s line %s: normalisation' % (f.short, i.line))
            elif sorted(map(str, fs)) not in [sorted(map(str, ['nF', q])) for q in ok]:
                bad('product-norm', '%s%d of %d' % (slot, t, n), i, 'product %s of tuning %d is normalised by %s, the format has channels x %s' % (slot, t, fs, ok))
            else:
                done += 1
    return done


def analyse(units, res):
    tables = gather(units)
    out = {}
    und = []
    nel = nst = nrd = 0
    decided = set()
    for u, f, fr, spec, st in cheader.readers(units):
        P = cpoly.Poly(fr)
        tabs = dict(u.tables)
        tabs.update(tables)
        F, S = Fold(P, tabs), Src(P)
        nrd += 1

        def bad(rule, cons, i, msg):
            k = (u.src, rule, cons)
            if k not in out:
                out[k] = Finding(rule, '%s:%s:%s' % (u.src, f.short, cons), '%s:%s' % (i.file, i.line), '%s: %s' % (f.short, msg))
        writes = []
        for i in f.instrs():
            if i.op == 'store':
                r, o = P.addr(i.ops[1])
            elif i.op == 'call' and str(fr.cn.get(i.v)).startswith(('llvm.memcpy', 'llvm.memmove')):
                r, o = P.addr(i.ops[0])
            else:
                continue
            if outroot(fr, r) and o is not None:
                writes.append((i, r, o))
        nst += len(writes)
        if st in ('drx', 'drx8', 'tbx'):
            base = 28 if st == 'tbx' else 32
            code = CODES['byte' if st == 'drx8' else 'nib']
            flen = [cpoly.cval(n) for (d, do, s, so, n) in S.copies if cpoly.isconst(n)]
            if not writes or not flen:
                und.append('%s: no stores recognised' % f.short)
                continue
            total = (max(flen) - base) * len(code)
            constsize(f, fr, P, writes, total, bad, und)
            seen = {}
            okf = True
            for i, r, o in writes:
                try:
                    ew = elemwrites(F, S, i, tabs)
                except Unknown as e:
                    und.append('%s line %s: %s' % (f.short, i.line, e))
                    okf = False
                    continue
                es = list(envs(P, i.bb, P.loops_of(i.bb)))
                if None in es:
                    und.append('%s line %s: loop range' % (f.short, i.line))
                    okf = False
                    continue
                for sh, w, vals, buf, bp in ew:
                    match = {c: all(close(a, fn(x)) for x, a in enumerate(vals)) for c, fn in code.items()}
                    for env in es:
                        try:
                            e, rem = divmod(F.pe(o, env) + sh, w)
                            b = F.pe(bp, env)
                        except Unknown as ex:
                            und.append('%s line %s: %s' % (f.short, i.line, ex))
                            okf = False
                            break
                        nel += 1
                        want_b, c = base + e // len(code), e % len(code)
                        if rem or not 0 <= e < total:
                            bad('sample-bounds', 'line', i, 'a sample is stored outside the %d output values (element %d)' % (total, e))
                        elif b != want_b:
                            bad('sample-order', 'element', i, 'output value %d is decoded from frame byte %d, the format has byte %d' % (e, b, want_b))
                        elif not match[c]:
                            x = [q for q, a in enumerate(vals) if not close(a, code[c](q))][0]
                            bad('sample-code', 'component %d' % c, i, 'byte value 0x%02X decodes to %s in output value %d, the format has %s' % (x, vals[x], e, code[c](x)))
                        seen[e] = 1
            if okf:
                decided.add(st)
                miss = total - len([e for e in seen if 0 <= e < total])
                if miss:
                    bad('sample-missing', 'coverage', writes[0][0], '%d of %d output values are never filled from the frame' % (miss, total))
        elif st == 'cor':
            flen = [cpoly.cval(o) + cpoly.cval(n) for (d, do, s, so, n) in S.copies if cpoly.isconst(n) for o in [so]]
            if not flen:
                und.append('%s: no payload copy' % f.short)
                continue
            N = max(flen) - 32
            got = {}
            conj = []
            constsize(f, fr, P, writes, N // 4, bad, und)
            for i, r, o in writes:
                if i.op == 'store':
                    cs = components(P, i.ops[0])
                    if cs is None:
                        und.append('%s line %s: stored value' % (f.short, i.line))
                        conj = None
                        continue
                    if any(neg or outroot(fr, rt) for _, rt, _, neg in cs):
                        if conj is not None:
                            conj.append((i, o, cs))
                        continue
                    if len(cs) > 1 or i.ops[0].op != 'load':
                        und.append('%s line %s: stored value' % (f.short, i.line))
                        continue
                if i.op == 'store':
                    n = (cbits.width(i.ops[0].ty) or 0) // 8
                    sr, so = P.addr(i.ops[0].ops[0])
                else:
                    p = P.poly(i.ops[2])
                    n = cpoly.cval(p) if cpoly.isconst(p) else None
                    sr, so = P.addr(i.ops[1])
                b, p = S.of(sr, so) if so is not None else (None, None)
                es = list(envs(P, i.bb, P.loops_of(i.bb)))
                if not n or b is None or None in es:
                    und.append('%s line %s: copy' % (f.short, i.line))
                    got = None
                    break
                for env in es:
                    try:
                        ob, fb = F.pe(o, env), F.pe(p, env)
                    except Unknown:
                        continue
                    for q in range(n):
                        got[ob + q] = (fb + q, i)
            nel += conjugates(f, fr, P, F, S, conj, N, bad, und) if conj is not None else 0
            if got is None:
                continue
            decided.add(st)
            nel += len(got)
            for ob, (fb, i) in got.items():
                if not 0 <= ob < N:
                    bad('sample-bounds', 'bytes', i, 'visibility byte %d is outside the %d output bytes' % (ob, N))
                elif fb != ob + 32:
                    bad('sample-order', 'bytes', i, 'output byte %d is frame byte %d, the format has byte %d' % (ob, fb, ob + 32))
            if len([b for b in got if 0 <= b < N]) < N:
                bad('sample-missing', 'coverage', writes[0][0] if writes else f.blocks[0].ins[0], '%d of %d visibility bytes are never copied' % (N - len(got), N))
        elif st == 'vdif':
            dec = 0
            bits_of = {}
            for i, r, o in writes:
                v = i.ops[0] if i.op == 'store' else None
                while v is not None and v.k == 'inst' and v.op in ('sitofp', 'fpext', 'fptrunc', 'sext', 'zext'):
                    v = v.ops[0]
                if v is not None and v.k == 'inst' and v.op == 'load' and len(P.loops_of(i.bb)) == 1:
                    r2, o2 = P.addr(v.ops[0])
                    if outroot(fr, r2) and o2 is not None:        # interleaved pairs -> complex
                        w1, w2 = cbits.width(i.ops[0].ty) // 8, cbits.width(v.ty) // 8
                        e1 = {m: c / w1 for m, c in o.items()}
                        e2 = {m: c / w2 for m, c in o2.items()}
                        nel += 1
                        full = covers(f, fr, P, i, r.ops[0], 2)
                        if full is None:
                            und.append('%s line %s: range of the complex samples' % (f.short, i.line))
                        elif not full:
                            bad('sample-missing', 'complex', i, 'not every complex sample is filled: the loop does not run over the whole array')
                        if e1 != e2:
                            bad('sample-order', 'complex', i, 'part %s of a complex sample comes from value %s of the unpacked data' % (e1, e2))
                        continue
                try:
                    ew = elemwrites(F, S, i, tabs)
                except Unknown as e:
                    und.append('%s line %s: %s' % (f.short, i.line, e))
                    continue
                hs = P.loops_of(i.bb)
                if len(hs) != 1:
                    und.append('%s line %s: loops' % (f.short, i.line))
                    continue
                h = hs[0]
                K = ('k', h)
                per = None
                for sh, w, vals, buf, bp in ew:
                    step = o.get((K,), 0)
                    if cpoly.isconst({m: c for m, c in o.items() if m != (K,)}) is False or step % w:
                        und.append('%s line %s: address' % (f.short, i.line))
                        break
                    per = step // w
                    c0, rem = divmod(cpoly.cval(o) + sh, w)
                    isint = w == 1
                    if per not in (1, 2, 4, 8):
                        bad('sample-order', 'line', i, '%d samples are stored per data byte' % per)
                        break
                    code = vdif_code(8 // per, isint)
                    nel += 256
                    if rem or c0 >= per:
                        bad('sample-order', '%d-bit' % (8 // per), i, 'samples of neighbouring bytes overlap (sample %d of %d per byte)' % (c0, per))
                    elif bp.get((K,), 0) != 1 or cpoly.cval(bp) != 0 or len(bp) > 1:
                        bad('sample-order', '%d-bit' % (8 // per), i, 'the samples of data byte i are decoded from another byte (%s)' % bp)
                    elif not all(close(a, code[c0](x)) for x, a in enumerate(vals)):
                        x = [q for q, a in enumerate(vals) if not close(a, code[c0](q))][0]
                        bad('sample-code', '%d-bit sample %d' % (8 // per, c0), i, 'byte value 0x%02X decodes to %s in sample %d of the byte, the format has %s' % (
                            x, vals[x], c0, code[c0](x)))
                else:
                    if per and {(cpoly.cval(o) + sh) // w for sh, w, _, _, _ in ew} == set(range(per)):
                        cnt = P.count(h, i.bb)
                        ln = [n for (d, do, s, so, n) in S.copies if s.v == ew[0][3][1]]
                        if cnt is None or not ln:
                            und.append('%s line %s: loop range' % (f.short, i.line))
                        elif cnt != ln[0]:
                            bad('sample-missing', '%d-bit' % (8 // per), i, 'not every data byte is decoded: the loop runs %s times over %s bytes' % (cnt, ln[0]))
                        dec += 1
                        bps = vdif_bits(fr, P, i.bb)
                        if r.ops[0].k == 'inst':
                            bits_of[r.ops[0].v] = 8 // per
                        if bps is None:
                            und.append('%s line %s: bits per sample' % (f.short, i.line))
                        elif bps != 8 // per:
                            bad('sample-code', 'dispatch', i, '%d-bit data are decoded with the %d-bit code' % (bps, 8 // per))
            nel += vdifshape(f, fr, P, writes, bits_of, bad, und)
            if dec >= 4:
                decided.add(st)
        elif st == 'drspec':
            n = drspec(u, f, fr, P, S, writes, bad, und)
            nel += n
            if n >= 40:
                decided.add(st)
    if res is not None:
        res.count(reader_instances=nrd, output_stores=nst, sample_values_checked=nel, lookup_tables=len(tables))
        res.coverage['undecided'] = und
        res.coverage['formats_decided'] = sorted(decided)
    return list(out.values()), decided
