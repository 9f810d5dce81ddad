"""
Memory bounds of the compiled routines.

Every array access of a native routine is written as (object, polynomial byte offset) over the loop
counters, the dimensions of the arrays handed in and the numeric arguments.  The largest offset is
obtained from the loop limits; the size of the object from its allocation or, for an array that comes
from the caller, from its dimensions.  Tests that the routine made on the way (shape comparisons) are
the only thing that ties the dimensions of one array to those of another.
"""
import itertools
import time
from . import capi
from .cpoly import Poly, padd, pmul, const, atom, isconst, cval
from .common import Finding

# NPY type number -> bytes per element
ITEM = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 13: 16, 14: 8, 15: 16, 16: 32, 23: 2}
WIDTH = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8, 'x86_fp80': 16, 'half': 2,
         '<2 x float>': 8, '<2 x double>': 16, '<4 x float>': 16, '<2 x i32>': 8, '<2 x i64>': 16, '<4 x i32>': 16}
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'slt': 'sge', 'sge': 'slt', 'ugt': 'ule', 'ule': 'ugt', 'sgt': 'sle', 'sle': 'sgt'}
ALLOC = {'malloc': 0, 'fftwf_malloc': 0, 'fftw_malloc': 0, '_Znwm': 0, '_Znam': 0, 'PyMem_Malloc': 0, 'PyMem_RawMalloc': 0,
         'fftwf_alloc_real': (0, 4), 'fftwf_alloc_complex': (0, 8), 'calloc': (0, 1, None), 'aligned_alloc': 1}
FROMANY = {'PyArray_FromAny', 'PyArray_CheckFromAny', 'PyArray_FROM_OTF', 'PyArray_ContiguousFromAny'}
# asked about the layout of an array: its elements may be walked in another way than one after the other
FLAGS = {'PyArray_STRIDES', 'PyArray_STRIDE', 'PyArray_FLAGS', 'PyArray_CHKFLAGS', 'PyArray_CheckStrides', 'PyArray_ISCONTIGUOUS', 'PyArray_GetPtr'}
NEW = {'PyArray_Zeros', 'PyArray_Empty'}


def atoms(p):
    return {a for m in p for a in m}


def key(p):
    return tuple(sorted(p.items(), key=repr))


def subst(p, a, q):
    """replace atom a by polynomial q"""
    r = {}
    for m, c in p.items():
        n = m.count(a)
        t = {tuple(x for x in m if x != a): c}
        for _ in range(n):
            t = pmul(t, q)
        r = padd(r, t)
    return r


class _Stub(object):
    def __init__(self, fn):
        self.fn = fn

    def bits(self, v):
        return ()


class B(Poly):
    def __init__(self, u, fn):
        Poly.__init__(self, _Stub(fn))
        self.u = u
        self.stores, self.calls, self.users = {}, [], {}
        for i in fn.instrs():
            if i.op == 'call':
                self.calls.append((capi.callee_name(u, i) or '', i))
        self.name = {i.v: n for n, i in self.calls}
        self.ins = {i.v: i for i in fn.instrs()}
        self.escape = {}
        self.named, self.edges = {}, {}
        for _ in range(2):
            st, es = self._storemap()
            self.stores, self.escape = st, es
            self.memo = {}
        self.name_extents()

    def name_extents(self):
        """a dimension or length computed with subtractions becomes a quantity of its own"""
        want = []
        for n, i in self.calls:
            if n in NEW or n == 'PyArray_New':
                r, off = self.addr(i.ops[2 if n == 'PyArray_New' else 1])
                if r.k == 'inst':
                    want += [s.ops[0] for o, s in self.stores.get(r.v, [])]
            elif n in ALLOC or n == 'posix_memalign':
                want += i.ops
        for i in self.fn.instrs():
            if i.op == 'alloca':
                want.append(i.ops[0])
        todo = {}
        while want:
            v = want.pop()
            while v.k == 'inst' and v.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
                v = v.ops[0]
            if v.k != 'inst' or v.ty == 'ptr' or v.v in todo:
                continue
            p = self.poly(v)
            if v.op == 'phi' and v.bb.id not in self.loops and any(self.takes(x) for x, _ in v.inc):
                todo[v.v] = ('e', v.v)
                continue
            if len(p) > 1 and any(c < 0 for c in p.values()) and not any(a[0] == 'k' for a in leaves(p)):
                if v.op == 'mul' or v.op == 'shl':
                    want += v.ops
                else:
                    todo[v.v] = ('e', v.v)
        self.named, self.edges = todo, {}
        self.memo = {}

    def takes(self, x):
        """computed with a subtraction, possibly inside a quotient"""
        def neg(p):
            return any(c < 0 for c in p.values()) or any(neg(dict(a[1])) for a in atoms(p) if a[0] in ('div', 'rem'))
        return x.k == 'inst' and neg(self.poly(x))

    def poly(self, v, d=0):
        if v.k == 'inst' and v.v in self.named:
            return atom(self.named[v.v])
        if v.k == 'cint' and v.ty == 'i1':
            return const(1 if v.v else 0)
        if v.k == 'inst' and v.op == 'sext' and v.ops[0].ty == 'i1':
            return padd({}, self.poly(v.ops[0], d + 1), -1)
        return Poly.poly(self, v, d)

    def _storemap(self):
        """stores through an address whose root is a local variable: alloca -> [(offset, store)]"""
        stores, escape = {}, {}
        for i in self.fn.instrs():
            if i.op == 'store':
                r, off = self.addr(i.ops[1])
                if r.k == 'inst' and r.op == 'alloca':
                    stores.setdefault(r.v, []).append((off, i))
            if i.op == 'call':
                for o in i.ops:
                    if o.k == 'inst' and o.ty == 'ptr':
                        r, off = self.addr(o)
                        if r.k == 'inst' and r.op == 'alloca':
                            escape.setdefault(r.v, []).append((off, i))
        return stores, escape

    def before(self, a, b):
        """instruction a is certain to run before b"""
        if a.bb is b.bb:
            return a.idx < b.idx
        return a.bb.id in self.dom[b.bb.id]

    # -------------------------------------------------------------- values
    def _poly(self, v, d):
        o = v.ops
        P = lambda x: self.poly(x, d + 1)
        if d < 80:
            if v.ty == 'i1':
                if v.op == 'icmp':
                    return atom(('b', v.v))
                if v.op == 'or':
                    a, b = P(o[0]), P(o[1])
                    return padd(padd(a, b), pmul(a, b), -1)
                if v.op == 'and':
                    return pmul(P(o[0]), P(o[1]))
                if v.op == 'xor' and o[1].k == 'cint':
                    return padd(const(1), P(o[0]), -1)
                if v.op == 'select':
                    return atom(('p', v.v))
            if v.op == 'call':
                n = self.name.get(v.v, '')
                if n in ('PyArray_DIM',):
                    x = self.obj(o[0])
                    if x is not None and o[1].k == 'cint':
                        return self.dim(x, o[1].v)
                if n in ('PyArray_NDIM', 'PyArray_TYPE'):
                    x = self.obj(o[0])
                    if x is not None:
                        if n == 'PyArray_TYPE' and self.made(x):
                            t = self.typenum(x)
                            if t is not None:
                                return t
                        return atom((n, x.v))
                if n in ('PyBytes_Size', 'PyBytes_GET_SIZE', 'PyBytes_AsString', 'PyList_Size', 'PyList_GET_SIZE') and n.endswith(('Size', 'SIZE')):
                    x = self.obj(o[0])
                    if x is not None:
                        return atom(('len', x.v))
                if n in ('PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsSsize_t', 'PyNumber_AsSsize_t'):
                    return atom(('num', v.v))
                if n.startswith(('llvm.smin', 'llvm.umin', 'llvm.smax', 'llvm.umax')):
                    return atom(('p', v.v))
                return atom(('v', v.v))
            if v.op == 'load':
                r, off = self.addr(o[0])
                if r.k == 'inst' and r.op == 'call' and self.name.get(r.v) == 'PyArray_DIMS' and off is not None and isconst(off) and cval(off) % 8 == 0:
                    x = self.obj(r.ops[0])
                    if x is not None:
                        return self.dim(x, cval(off) // 8)
                if r.k == 'inst' and r.op == 'alloca' and off is not None and isconst(off) and r.ops[0].k == 'cint':
                    return self.local(r, cval(off), v)
                if r.k == 'inst' and v.ty in ('i8', 'i16', 'i32', 'i64') and (r.op == 'alloca' or self.name.get(r.v) in ALLOC):
                    return atom(('t', r.v, v.v))
                return atom(('v', v.v))
            if v.op in ('fptosi', 'fptoui') and self.anynumber(o[0]):
                return atom(('num', v.v))
            if v.op in ('sdiv', 'udiv', 'srem', 'urem'):
                a, b = P(o[0]), P(o[1])
                if isconst(b) and cval(b) > 0 and v.op in ('sdiv', 'udiv') and a and all(c % cval(b) == 0 for c in a.values()):
                    return {m: c // cval(b) for m, c in a.items()}
                return atom(('div' if 'div' in v.op else 'rem', key(a), key(b)))
            if v.op == 'shl' and o[1].k == 'inst':
                A = P(o[1])
                if o[1].op == 'select' and all(x.k == 'cint' and 0 <= x.v < 40 for x in o[1].ops[1:]):
                    t, f = (1 << x.v for x in o[1].ops[1:])
                    return pmul(P(o[0]), padd(const(f), pmul(const(t - f), P(o[1].ops[0]))))
                ms = [m for m in A if m]
                if len(ms) == 1 and len(ms[0]) == 1 and self.isbool(ms[0][0]):
                    c0, c1 = cval(A), A[ms[0]]
                    if 0 <= c0 < 40 and 0 <= c0 + c1 < 40:
                        return pmul(P(o[0]), padd(const(1 << c0), pmul(const((1 << (c0 + c1)) - (1 << c0)), atom(ms[0][0]))))
            if v.op in ('ashr', 'lshr') and o[1].k == 'cint':
                a, n = P(o[0]), 1 << o[1].v
                if all(c % n == 0 for c in a.values()):
                    return {m: c // n for m, c in a.items()}
                return atom(('div', key(a), key(const(n))))
            if v.op == 'and' and o[1].k == 'cint' and o[1].v > 0 and (o[1].v & (o[1].v + 1)) == 0 and o[1].v < (1 << 30):
                return atom(('rem', key(P(o[0])), key(const(o[1].v + 1))))
            if v.op == 'phi' and v.bb.id not in self.loops:
                vals = [x for x, _ in v.inc]
                ps = [P(x) for x in vals]
                if len({key(p) for p in ps}) == 1:
                    return ps[0]
                return atom(('p', v.v))
            if v.op == 'select':
                a, b = P(o[1]), P(o[2])
                if a == b:
                    return a
                return atom(('p', v.v))
        if v.op in ('load', 'call'):
            return atom(('v', v.v))
        return Poly._poly(self, v, d)

    def anynumber(self, v, d=0):
        """a quotient of two numbers that the caller chooses freely, rounded"""
        if v.k != 'inst' or d > 8:
            return False
        if v.op == 'call' and self.name.get(v.v, '').startswith(('round', 'floor', 'ceil', 'rint', 'llvm.round', 'llvm.floor', 'llvm.ceil', 'llvm.rint')):
            return self.anynumber(v.ops[0], d + 1)
        if v.op in ('fpext', 'fptrunc', 'freeze'):
            return self.anynumber(v.ops[0], d + 1)
        if v.op == 'fdiv':
            return all(self.anynumber(x, d + 1) for x in v.ops)
        if v.op == 'load':
            r, off = self.addr(v.ops[0])
            if r.k == 'inst' and r.op == 'alloca' and off is not None and isconst(off):
                p = self.local(r, cval(off), v)
                return p == atom(('arg', r.v, cval(off)))
        return False

    def isbool(self, a):
        return a[0] == 'b' or a[0] == 'p' and self.ins[a[1]].ty == 'i1'

    def recur(self, phi):
        r = Poly.recur(self, phi)
        if r is not None or phi.ty == 'ptr':
            return r
        h = phi.bb.id
        if h not in self.loops:
            return None
        start = [x for x, p in phi.inc if p.id not in self.loops[h]]
        nxt = [x for x, p in phi.inc if p.id in self.loops[h]]
        if len(start) != 1 or not nxt:
            return None
        st = None
        for n in nxt:
            if n.k == 'inst' and n.op == 'add':
                a, b = n.ops
                inv = b if a is phi else a if b is phi else None
                if inv is None:
                    return None
                p = self.poly(inv)
                if not p or any(x[0] in ('k', 'v', 't') for x in atoms(p)) or (st is not None and st != p):
                    return None
                st = p
            else:
                return None
        return padd(self.poly(start[0]), pmul(st, atom(('k', h))))

    def extent(self, h, blk):
        """(a, lim): block blk runs for k = 0, 1, ... while a*k < lim (or fewer times)"""
        body, best = self.loops[h], None
        K = (('k', h),)
        for bid in body:
            t = self.byid[bid].ins[-1]
            if t.op != 'br' or len(t.succ) != 2 or self._inner(bid, h):
                continue
            outs = [s.id not in body for s in t.succ]
            c = t.ops[0]
            if outs[0] == outs[1] or c.k != 'inst' or c.op != 'icmp' or c.ops[0].ty == 'ptr':
                continue
            pred, p, n = c.pred, self.poly(c.ops[0]), self.poly(c.ops[1])
            if any(('k', h) in leaves({m: 1}) for m in n):
                p, n = n, p
                pred = {'ult': 'ugt', 'ugt': 'ult', 'slt': 'sgt', 'sgt': 'slt', 'ule': 'uge', 'uge': 'ule', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
            if ('k', h) not in leaves(p):
                continue                       # leaves early for another reason
            if outs[0]:
                pred = NEG[pred]
            a = p.get(K, 0)
            rest = {m: v for m, v in p.items() if m != K}
            if a <= 0 or ('k', h) in leaves(rest) or ('k', h) in leaves(n) or pred not in ('ult', 'slt', 'ule', 'sle', 'ne'):
                return None
            lim = padd(n, rest, -1)
            if pred in ('ule', 'sle'):
                lim = padd(lim, const(1))
            if not (bid in self.dom[blk.id] and bid != blk.id):
                lim = padd(lim, const(a))
            if best is not None and best != (a, lim):
                return None
            best = (a, lim)
        return best

    def local(self, a, off, at):
        """value of a local variable (alloca a, byte offset) read at `at`"""
        st = [(o, s) for o, s in self.stores.get(a.v, []) if o is None or not isconst(o) or cval(o) == off]
        if any(o is None or not isconst(o) for o, s in st):
            return atom(('v', at.v))
        esc = [(n, i) for n, i in ((self.name.get(i.v, ''), i) for _, i in self.escape.get(a.v, [])) if not n.startswith('llvm.')]
        parse = [i for n, i in esc if n.startswith(('PyArg_Parse', '_PyArg_Parse'))]
        if len(esc) == len(parse) == 1 and self.before(parse[0], at):
            if all(self.before(s, parse[0]) for _, s in st):
                return atom(('arg', a.v, off))
            defs = {s.v: s for _, s in st}
            defs[parse[0].v] = parse[0]
            r = self.reaching(defs, at)
            if r is None:
                return atom(('v', at.v))
            if len(r) == 1:
                s = defs[r.pop()]
                return atom(('arg', a.v, off)) if s is parse[0] else self.poly(s.ops[0])
            return atom(('r', a.v, off, tuple(sorted(r))))
        if parse:
            return atom(('v', at.v))
        # a plain variable kept in memory: the last store that surely happened before, with none in between
        ok = [s for _, s in st if self.before(s, at)]
        if len(st) == 1 and len(ok) == 1:
            return self.poly(ok[0].ops[0])
        if ok and len(ok) == len(st) and at.bb.id not in set().union(*self.loops.values()) if self.loops else ok and len(ok) == len(st):
            last = [s for s in ok if all(t is s or self.before(t, s) for t in ok)]
            if len(last) == 1:
                return self.poly(last[0].ops[0])
        return atom(('v', at.v))

    def reaching(self, defs, at):
        """which of the definitions reach `at`; None when one of them sits in a loop"""
        inloop = set().union(*self.loops.values()) if self.loops else set()
        if any(s.bb.id in inloop for s in defs.values()):
            return None
        out, seen, todo = set(), set(), [(at.bb, at.idx)]
        while todo:
            blk, idx = todo.pop()
            hit = [s for s in defs.values() if s.bb is blk and s.idx < idx]
            if hit:
                out.add(max(hit, key=lambda s: s.idx).v)
                continue
            for p in blk.preds:
                if p.id not in seen:
                    seen.add(p.id)
                    todo.append((p, 1 << 30))
        return out

    # -------------------------------------------------------------- objects
    def obj(self, v, d=0, trail=None):
        """the instruction that created array / bytes object v (trail: the edges on which it is not NULL)"""
        while v.k == 'inst' and d < 20:
            d += 1
            if v.op in ('bitcast', 'freeze'):
                v = v.ops[0]
            elif v.op in ('phi', 'select'):
                alts = [x for x in (v.ops if v.op == 'phi' else v.ops[1:]) if x.k not in ('null', 'undef') and x is not v]
                alts = list({id(x): x for x in alts}.values())
                if len(alts) != 1:
                    return v if v.op == 'phi' else None
                self.note(v, alts[0], trail)
                v = alts[0]
            elif v.op == 'load':
                r, off = self.addr(v.ops[0])
                if r.k == 'inst' and r.op == 'alloca' and off is not None and isconst(off):
                    st = [s for o, s in self.stores.get(r.v, []) if o is not None and isconst(o) and cval(o) == cval(off) and s.ops[0].k != 'null']
                    if len(st) == 1 and self.before(st[0], v):
                        v = st[0].ops[0]
                        continue
                    if not st:
                        return r
                return v
            else:
                return v
        return v if v.k == 'inst' else None

    def note(self, v, alt, trail):
        if trail is not None and v.op == 'phi' and v.bb.id not in self.loops:
            ps = [p for x, p in v.inc if x is alt]
            if len(ps) == 1 and len(v.inc) > 1:
                trail.append((ps[0], v.bb))

    def made(self, x):
        """(kind, ...) how array object x came to be"""
        n = self.name.get(x.v, '')
        if n in FROMANY:
            return 'in'
        if n in NEW:
            return 'new'
        if n == 'PyArray_New':
            return 'new'
        return None

    def dim(self, x, i):
        if self.made(x) == 'new':
            p = self.newdim(x, i)
            if p is not None:
                return p
        return atom(('dim', x.v, i))

    def newdim(self, x, i):
        r, off = self.addr(x.ops[2 if self.name[x.v] == 'PyArray_New' else 1])
        if r.k != 'inst' or r.op != 'alloca' or off is None or not isconst(off):
            return None
        want = cval(off) + 8 * i
        st = [s for o, s in self.stores.get(r.v, []) if o is not None and isconst(o) and cval(o) == want and self.before(s, x)]
        if any(o is None or not isconst(o) for o, s in self.stores.get(r.v, [])):
            return None
        last = [s for s in st if all(t is s or self.before(t, s) for t in st)]
        oth = [s for o, s in self.stores.get(r.v, []) if o is not None and isconst(o) and cval(o) == want and s not in st and not self.before(x, s)]
        if len(last) != 1 or oth:
            return None
        return self.poly(last[0].ops[0])

    def typenum(self, x):
        """type number of array x as polynomial, None if unknown"""
        if self.name.get(x.v) == 'PyArray_New':
            return self.poly(x.ops[3])
        v = x.ops[2] if self.made(x) == 'new' else x.ops[1]
        if v.k == 'inst' and v.op == 'call' and self.name.get(v.v) == 'PyArray_DescrFromType':
            return self.poly(v.ops[0])
        return None

    # -------------------------------------------------------------- facts
    def edge_facts(self, blk):
        out = []
        for d in self.dom[blk.id]:
            b = self.byid[d]
            t = b.ins[-1]
            if t.op == 'br' and len(t.succ) == 2 and t.succ[0] is not t.succ[1]:
                for k in (0, 1):
                    s = t.succ[k]
                    if len(s.preds) == 1 and s.id in self.dom[blk.id]:
                        self.cond(t.ops[0], k == 0, out)
            elif t.op == 'switch':
                for s in {x.id: x for x in t.succ}.values():
                    if len(s.preds) == 1 and s.id in self.dom[blk.id]:
                        vals = [v for v, dst in t.inc if dst is s]
                        if len(vals) == 1 and t.succ[0] is not s:
                            self.equals(t.ops[0], vals[0], out)
        return out

    def equals(self, v, c, out, d=0):
        """v == constant c"""
        out.append(('eq', padd(self.poly(v), self.poly(c), -1), v))
        if v.k != 'inst' or d > 10:
            return
        if v.op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.equals(v.ops[0], c, out, d + 1)
        if v.op == 'select':
            x, a, b = v.ops
            for arm, truth, other in ((a, True, b), (b, False, a)):
                if arm.k == 'cint':
                    if arm.v == c.v and (other.k == 'cint' or c.v > 255):     # no array type number is that large
                        self.cond(x, truth, out)
                    elif arm.v != c.v:
                        self.cond(x, not truth, out)
                        self.equals(other, c, out, d + 1)
                    return
        if v.op == 'phi' and v.bb.id not in self.loops:
            alts = [(x, p) for x, p in v.inc if not (x.k == 'cint' and x.v != c.v)]
            if len(alts) > 1 and c.v > 255 and any(x.k == 'cint' for x, p in alts):
                alts = [(x, p) for x, p in alts if x.k == 'cint']
            if len(alts) == 1:
                x, p = alts[0]
                self.edge(p, v.bb, out)
                self.equals(x, c, out, d + 1)

    def edge(self, p, to, out):
        k = (p.id, to.id)
        if k not in self.edges:
            r = list(self.edge_facts(p))
            t = p.ins[-1]
            if t.op == 'br' and len(t.succ) == 2:
                self.cond(t.ops[0], t.succ[0] is to, r, 1)
            elif t.op == 'switch' and t.succ[0] is not to:
                vals = [v for v, dst in t.inc if dst is to]
                if len(vals) == 1:
                    self.equals(t.ops[0], vals[0], r)
            self.edges[k] = r
        out.extend(self.edges[k])

    def cond(self, c, truth, out, d=0):
        if c.k != 'inst' or d > 30:
            return
        if c.op == 'freeze':
            return self.cond(c.ops[0], truth, out, d + 1)
        if c.op == 'xor' and c.ops[1].k == 'cint' and c.ty == 'i1':
            return self.cond(c.ops[0], not truth, out, d + 1)
        if c.op == 'or' and c.ty == 'i1' and not truth or c.op == 'and' and c.ty == 'i1' and truth:
            for x in c.ops:
                self.cond(x, truth, out, d + 1)
            return
        if c.op == 'select' and c.ty == 'i1':
            x, a, b = c.ops
            if a.k == 'cint' and bool(a.v) != truth:      # x must be false and b == truth
                self.cond(x, False, out, d + 1)
                return self.cond(b, truth, out, d + 1)
            if b.k == 'cint' and bool(b.v) != truth:
                self.cond(x, True, out, d + 1)
                return self.cond(a, truth, out, d + 1)
            return
        if c.op in ('zext', 'sext', 'trunc') and c.ops[0].ty == 'i1':
            return self.cond(c.ops[0], truth, out, d + 1)
        if c.op == 'phi' and c.bb.id not in self.loops:
            alts = [(v, p) for v, p in c.inc if not (v.k == 'cint' and bool(v.v & 1) != truth)]
            if len(alts) == 1:
                v, p = alts[0]
                out.extend(self.edge_facts(p))
                t = p.ins[-1]
                if t.op == 'br' and len(t.succ) == 2:
                    self.cond(t.ops[0], t.succ[0] is c.bb, out, d + 1)
                self.cond(v, truth, out, d + 1)
            return
        if c.op == 'icmp':
            if c.ops[0].ty == 'ptr':
                return
            if c.ops[1].k == 'cint' and c.ops[0].k == 'inst' and c.pred in ('eq', 'ne') and c.ops[1].v == 0 and \
                    (c.ops[0].op in ('zext', 'sext') and c.ops[0].ops[0].ty == 'i1' or c.ops[0].op == 'phi' and c.ops[0].bb.id not in self.loops):
                x = c.ops[0]
                want = (c.pred == 'ne') == truth
                if x.op != 'phi':
                    return self.cond(x.ops[0], want, out, d + 1)
                alts = [(v, p) for v, p in x.inc if not (v.k == 'cint' and bool(v.v) != want)]
                if len(alts) == 1:
                    v, p = alts[0]
                    out.extend(self.edge_facts(p))
                    t = p.ins[-1]
                    if t.op == 'br' and len(t.succ) == 2:
                        self.cond(t.ops[0], t.succ[0] is x.bb, out, d + 1)
                    return
            pred = c.pred if truth else NEG[c.pred]
            if pred == 'eq' and c.ops[1].k == 'cint' and c.ops[0].k == 'inst' and c.ops[0].op in ('select', 'phi'):
                return self.equals(c.ops[0], c.ops[1], out)
            a, b = self.poly(c.ops[0]), self.poly(c.ops[1])
            D = padd(a, b, -1)
            if pred == 'eq':
                out.append(('eq', D, c))
            elif pred == 'ne':
                out.append(('ne', D, c))
            elif pred in ('sge', 'uge'):
                out.append(('ge', D, c))
            elif pred in ('sgt', 'ugt'):
                out.append(('ge', padd(D, const(-1)), c))
            elif pred in ('sle', 'ule'):
                out.append(('ge', padd({}, D, -1), c))
            else:
                out.append(('ge', padd(padd({}, D, -1), const(-1)), c))


def solve_eq(facts):
    """equality facts -> ordered substitutions; the rest"""
    subs, rest = [], []
    todo = [p for k, p, _ in facts if k == 'eq']

    def app(p):
        for a, q in subs:
            if a in atoms(p):
                p = subst(p, a, q)
        return p
    for p in todo:
        p = app(p)
        if isconst(p):
            continue
        best = None
        for m, c in p.items():
            if len(m) == 1 and c in (1, -1) and m[0][0] in ('dim', 'arg', 'len', 'PyArray_NDIM', 'PyArray_TYPE', 'v', 'num', 'r') and not any(m[0] in n for n in p if n != m):
                rank = {'dim': 1, 'len': 1, 'PyArray_NDIM': 0, 'PyArray_TYPE': 0, 'v': 0, 'r': 0, 'num': 1, 'arg': 2}[m[0][0]]
                k = (rank, repr(m[0]))
                if best is None or k < best[0]:
                    best = (k, m[0], c, m)
        if best is None:
            rest.append(p)
            continue
        _, a, c, m = best
        q = {n: -x * c for n, x in p.items() if n != m}
        subs = [(b, subst(r, a, q) if a in atoms(r) else r) for b, r in subs] + [(a, q)]
    return subs, rest


def app(p, subs):
    """apply equality substitutions, also inside quotients and remainders"""
    out = {}
    for m, c in p.items():
        t = {(): c}
        for a in m:
            t = pmul(t, _app_atom(a, subs))
        out = padd(out, t)
    return out


def _app_atom(a, subs):
    if a[0] in ('div', 'rem'):
        x, y = app(dict(a[1]), subs), app(dict(a[2]), subs)
        return quot(a[0], x, y)
    for b, q in subs:
        if a == b:
            return q
    return atom(a)


def quot(op, x, y):
    q = exact(x, y)
    if q is not None:
        return q if op == 'div' else {}
    return atom((op, key(x), key(y)))


def exact(x, y):
    """x / y when y is one monomial that divides every term of x"""
    if not y or len(y) != 1:
        return None
    (m, c), = y.items()
    out = {}
    for n, d in x.items():
        l = list(n)
        for a in m:
            if a not in l:
                return None
            l.remove(a)
        if d % c:
            return None
        out[tuple(l)] = d // c
    return out


def leaves(p):
    out = set()
    for a in atoms(p):
        if a[0] in ('div', 'rem'):
            out |= leaves(dict(a[1])) | leaves(dict(a[2]))
        else:
            out.add(a)
    return out


class Stuck(Exception):
    pass


class Strided(Exception):
    """the elements of this array need not be next to each other"""

    def __init__(self, x):
        Exception.__init__(self)
        self.x = x


class Choose(Exception):
    """the value depends on which way an earlier branch went"""

    def __init__(self, key, options):
        Exception.__init__(self)
        self.key, self.options = key, options


def consistent(facts, subs):
    for k, p, c in facts:
        p = app(p, subs)
        if isconst(p) and (k == 'ge' and cval(p) < 0 or k == 'ne' and cval(p) == 0 or k == 'eq' and cval(p) != 0):
            return False
    return True


class Site(object):
    """one access, in the context of the facts that hold where it happens"""

    def __init__(self, b, blk, choice=(), trail=()):
        self.b, self.blk = b, blk
        self.choice = dict(choice)
        self.loose = False
        self.facts = b.edge_facts(blk)
        for (kind, n), way in self.choice.items():
            if kind == 'min':
                v = b.ins[n]
                D = padd(b.poly(v.ops[1 - way]), b.poly(v.ops[way]), -1)
                self.facts.append(('ge', D if 'min' in b.name[n] else padd({}, D, -1), v))
            elif kind == 'bb':
                b.edge(b.byid[way], b.byid[n], self.facts)
            else:
                b.cond(b.ins[n], way, self.facts)
        for p, to in trail:
            b.edge(p, to, self.facts)
        self.facts = [(k, self.pick(p, True), c) for k, p, c in self.facts]
        self.subs, self.rest = solve_eq(self.facts)
        self.possible = consistent(self.facts, self.subs)
        if self.possible:
            self.joins({p.id for p, _ in trail})
        self.lims = []
        self.inner = sorted((h for h, body in b.loops.items() if blk.id in body), key=lambda h: len(b.loops[h]))

    def joins(self, also):
        """where branches met, all but one of them being ruled out: what held on that one holds"""
        b = self.b
        blocks = set(b.dom[self.blk.id])
        for x in also:
            blocks |= b.dom[x]
        done = set()
        for _ in range(3):
            more = False
            for x in sorted(blocks):
                blk = b.byid[x]
                if len(blk.preds) < 2 or x in b.loops or x in done:
                    continue
                ok = []
                for p in blk.preds:
                    fs = []
                    b.edge(p, blk, fs)
                    fs = [(k, self.pick(q, True), c) for k, q, c in fs]
                    if consistent(fs, self.subs) and consistent(self.facts + fs, solve_eq(self.facts + fs)[0]):
                        ok.append((p, fs))
                        if len(ok) > 1:
                            break
                if not ok:
                    self.possible = False
                    return
                if len(ok) == 1:
                    done.add(x)
                    have = {(k, key(q)) for k, q, _ in self.facts}
                    new = [f for f in ok[0][1] if (f[0], key(f[1])) not in have]
                    blocks = blocks | b.dom[ok[0][0].id]
                    if new:
                        self.facts += new
                        self.subs, self.rest = solve_eq(self.facts)
                        more = True
            if not more:
                break

    def reachable(self):
        """could control have come here at all, given the choices?"""
        b = self.b
        blocks = set(b.dom[self.blk.id])
        for (kind, n), way in self.choice.items():
            if kind == 'bb':
                blocks |= b.dom[way]
        for x in blocks:
            blk = b.byid[x]
            if len(blk.preds) < 2 or x in b.loops:
                continue
            for p in blk.preds:
                fs = []
                b.edge(p, blk, fs)
                fs = self.facts + [(k, self.pick(q, True), c) for k, q, c in fs]
                if consistent(fs, solve_eq(fs)[0]):
                    break
            else:
                return False
        return True

    def pick(self, p, soft=False, d=0):
        """resolve the values that depend on earlier branches"""
        if d > 20:
            raise Stuck('depth')
        for a in sorted(atoms(p), key=repr):
            if a[0] in ('div', 'rem') and any(x[0] in ('p', 'b') for x in leaves(atom(a))):
                x, y = self.pick(dict(a[1]), soft, d + 1), self.pick(dict(a[2]), soft, d + 1)
                n = quot(a[0], x, y)
                if n != atom(a):
                    return self.pick(subst(p, a, n), soft, d + 1)
            if a[0] not in ('p', 'b'):
                continue
            v = self.b.ins[a[1]]
            if a[0] == 'b':
                k = ('if', v.v)
                opts = (True, False)
            elif v.op == 'call':
                k = ('min', v.v)
                opts = (0, 1)
            elif v.op == 'phi':
                k = ('bb', v.bb.id)
                opts = tuple(b.id for _, b in v.inc)
            else:
                k = ('if', v.ops[0].v)
                opts = (True, False)
            if k not in self.choice:
                if soft:
                    continue
                raise Choose(k, opts)
            way = self.choice[k]
            if a[0] == 'b':
                q = const(1 if way else 0)
            elif v.op == 'call':
                q = self.b.poly(v.ops[way])
            elif v.op == 'phi':
                q = self.b.poly([x for x, b in v.inc if b.id == way][0])
            else:
                q = self.b.poly(v.ops[1] if way else v.ops[2])
            return self.pick(subst(p, a, q), soft, d + 1)
        return p

    def norm(self, p):
        for _ in range(6):
            q = app(self.pick(p), self.subs)
            if q == p:
                break
            p = q
        return p

    def extent(self, h, blk):
        e = self.b.extent(h, blk)
        if e is None:
            raise Stuck('loop limit')
        return e[0], self.norm(e[1])

    def bound(self, p, up, d=0):
        """largest (smallest) value of p over the iterations that reach the access"""
        p = self.norm(p)
        if d > 12:
            raise Stuck('depth')
        # quotients and remainders first
        for a in sorted(atoms(p), key=repr):
            if a[0] not in ('div', 'rem') or not any(x[0] == 'k' for x in leaves(atom(a))):
                continue
            s = self.sign(p, a)
            x, y = dict(a[1]), dict(a[2])
            if s == (1 if up else -1):
                if a[0] == 'rem':
                    q = padd(y, const(-1))
                else:
                    M = self.bound(x, True, d + 1)
                    Y = self.bound(y, False, d + 1)
                    q = exact(padd(M, const(1)), Y)
                    q = padd(q, const(-1)) if q is not None else quot('div', M, Y)
                return self.bound(subst(p, a, q), up, d + 1)
            if a[0] == 'div' and isconst(x):
                q = {}
            else:
                q = {}
            return self.bound(subst(p, a, q), up, d + 1)
        for a in sorted(atoms(p), key=repr):
            if a[0] == 't':
                s = self.sign(p, a)
                return self.bound(subst(p, a, self.table(a[1], s == (1 if up else -1), d)), up, d + 1)
        for h in self.inner:
            k = ('k', h)
            if k not in atoms(p):
                continue
            if any(m.count(k) > 1 for m in p):
                raise Stuck('square')
            s = self.sign(p, k)
            if s == (1 if up else -1):
                a, lim = self.extent(h, self.blk)
                self.lims.append(lim)
                c = {tuple(x for x in m if x != k): v for m, v in p.items() if k in m}
                r = {m: v for m, v in p.items() if k not in m}
                top = padd(lim, const(-1))
                if a == 1:
                    p = padd(r, pmul(c, top))
                elif isconst(lim):
                    p = padd(r, pmul(c, const((cval(lim) - 1) // a)))
                else:
                    e = aligned(lim, a)
                    if e is not None:
                        p = padd(r, pmul(c, padd(e, const(-1))))
                    elif all(x % a == 0 for x in c.values()):
                        self.loose = True
                        p = padd(r, pmul({m: x // a for m, x in c.items()}, top))
                    else:
                        raise Stuck('stride')
            else:
                p = subst(p, k, {})
        for x in leaves(p):
            if x[0] == 'k':
                raise Stuck('counter of another loop')
        return p

    def table(self, rid, up, d):
        """largest (smallest) number stored in a local table"""
        out = None
        if rid in self.b.escape:
            raise Stuck('table passed on')
        for i in self.b.fn.instrs():
            if i.op != 'store':
                continue
            r, o = self.b.addr(i.ops[1])
            if r.k == 'inst' and r.v == rid:
                if d > 6:
                    raise Stuck('depth')
                s = Site(self.b, i.bb, self.choice)
                x = self.norm(s.bound(self.b.poly(i.ops[0]), up, d + 3))
                exact_ = isconst(x)
                for a in list(atoms(x)):
                    if a[0] in ('num', 'v') and x == atom(a):
                        for k, q, _ in s.facts:
                            q = app(q, s.subs)
                            if k == 'ge' and q.get((a,)) == (-1 if up else 1) and sum(a in m for m in q) == 1 and not any(y[0] == 'k' for y in leaves(q)):
                                x = {m: c if up else -c for m, c in q.items() if m != (a,)}
                                exact_ = a[0] == 'num'
                                break
                if not exact_:
                    self.loose = True          # a limit, not necessarily a value
                if out is None or x == out:
                    out = x
                elif nonneg(padd(x, out, -1), {}):
                    out = x if up else out
                elif nonneg(padd(out, x, -1), {}):
                    out = out if up else x
                else:
                    raise Stuck('table values')
        if out is None:
            raise Stuck('table never filled')
        return out

    def sign(self, p, a):
        s = {1 if v > 0 else -1 for m, v in p.items() if a in m}
        if len(s) != 1:
            raise Stuck('mixed sign')
        return s.pop()


def aligned(lim, a):
    """number of steps of width a below lim"""
    r = {}
    for m, c in lim.items():
        if c % a:
            return None
        r[m] = c // a
    return r


def nonneg(p, lb):
    for a in list(atoms(p)):
        l = lb.get(a, 0)
        if l > 0:
            p = subst(p, a, padd(atom(a), const(l)))
    return all(c >= 0 for c in p.values())


def _over(m, n):
    """m / n for monomials, None if n does not divide m"""
    l = list(m)
    for a in n:
        if a not in l:
            return None
        l.remove(a)
    return tuple(l)


def farkas(P, facts, lb, depth=6):
    """P >= 0 follows by subtracting non-negative multiples of the facts"""
    extra = []
    for p in [P] + facts:
        for a in atoms(p):
            if a[0] == 'rem':
                extra.append(padd(padd(dict(a[2]), atom(a), -1), const(-1)))
            elif a[0] == 'div':
                extra.append(padd(dict(a[1]), pmul(dict(a[2]), atom(a)), -1))
    facts = [dict(x) for x in {key(f) for f in facts + extra}]
    seen = set()

    def go(P, d):
        if nonneg(P, lb):
            return True
        if d == 0 or key(P) in seen or len(seen) > 400:
            return False
        seen.add(key(P))
        neg = sorted((m for m, c in P.items() if c < 0), key=lambda m: (-len(m), repr(m)))
        for mu in neg:
            for q in facts:
                for nu, c in q.items():
                    if c >= 0 or not nu:
                        continue
                    rest = _over(mu, nu)
                    if rest is None or P[mu] % c:
                        continue
                    if go(padd(P, pmul({rest: P[mu] // c}, q), -1), d - 1):
                        return True
            if mu:
                break
        return False
    return go(P, depth)


def value(p, env):
    t = 0
    for m, c in p.items():
        x = c
        for a in m:
            if a[0] in ('div', 'rem'):
                n, d = value(dict(a[1]), env), value(dict(a[2]), env)
                if d == 0:
                    raise ZeroDivisionError
                q = abs(n) // abs(d) * (1 if (n < 0) == (d < 0) else -1)
                x *= q if a[0] == 'div' else n - q * d
            else:
                x *= env[a]
        t += x
    return t


FREE = ('dim', 'arg', 'len', 'e', 'num')


class Routine(object):
    def __init__(self, u, fn):
        self.memo, self.loosened = {}, set()
        self.until = time.time() + 300
        self.u, self.fn, self.b = u, fn, B(u, fn)
        self.stat = {'accesses': 0, 'proved': 0, 'undecided': 0, 'outside': 0}
        self.why = {}
        self.found = []
        self.strided = {}

    # ---------------------------------------------------------- size of objects
    def root(self, v, trail=None):
        b, d = self.b, 0
        off = {}
        while True:
            d += 1
            v, o = b.addr(v)
            if o is None or d > 30:
                raise Stuck('address')
            off = padd(off, o)
            if v.k != 'inst':
                raise Stuck('root %s' % v.k)
            if v.op in ('phi', 'select') and v.ty == 'ptr':
                alts = [x for x in (v.ops if v.op == 'phi' else v.ops[1:]) if x.k not in ('null', 'undef') and x is not v]
                alts = list({id(x): x for x in alts}.values())
                if len(alts) == 1:
                    b.note(v, alts[0], trail)
                    v = alts[0]
                    continue
                raise Stuck('pointer phi')
            if v.op == 'load':
                r, o = b.addr(v.ops[0])
                if r.k == 'inst' and r.op == 'alloca' and o is not None and isconst(o):
                    st = [s for q, s in b.stores.get(r.v, []) if s.ops[0].k != 'null']
                    mem = [i for _, i in b.escape.get(r.v, []) if b.name.get(i.v) == 'posix_memalign']
                    if len(mem) == 1 and not st and b.before(mem[0], v):
                        return mem[0], off
                    if len(st) == 1 and not mem and b.before(st[0], v):
                        v = st[0].ops[0]
                        continue
                raise Stuck('loaded pointer')
            return v, off

    def size(self, v, site):
        """(size in bytes as polynomial, description)"""
        b = self.b
        if v.op == 'alloca':
            return pmul(const(v.asize), b.poly(v.ops[0])), 'the local buffer of line %s' % v.line
        n = b.name.get(v.v, '')
        if n == 'posix_memalign':
            return b.poly(v.ops[2]), 'the buffer allocated at line %s' % v.line
        if n in ALLOC:
            k = ALLOC[n]
            if isinstance(k, int):
                return b.poly(v.ops[k]), 'the buffer allocated at line %s' % v.line
            if len(k) == 2:
                return pmul(b.poly(v.ops[k[0]]), const(k[1])), 'the buffer allocated at line %s' % v.line
            return pmul(b.poly(v.ops[0]), b.poly(v.ops[1])), 'the buffer allocated at line %s' % v.line
        if n in ('PyArray_DATA', 'PyArray_BYTES'):
            x = b.obj(v.ops[0])
            if x is None:
                raise Stuck('array object')
            return self.array(x, site)
        if n in ('PyBytes_AsString', 'PyBytes_AS_STRING'):
            x = b.obj(v.ops[0])
            if x is None:
                raise Stuck('bytes object')
            return padd(atom(('len', x.v)), const(1)), 'the bytes object of line %s' % x.line
        raise Stuck('root %s' % (n or v.op))

    def array(self, x, site):
        b = self.b
        how = b.made(x)
        if how == 'in':
            if len(x.ops) > 4 and x.ops[4].k == 'cint' and not x.ops[4].v & 1:
                if any(n in FLAGS for n, i in b.calls if any(o.k == 'inst' and o.ty == 'ptr' and b.obj(o) is x for o in i.ops)):
                    raise Stuck('layout looked at')
                raise Strided(x)
            t = b.typenum(x)
            t = site.norm(t if t is not None else atom(('PyArray_TYPE', x.v)))
            t = cval(t) if isconst(t) else None
            nd = self.fixed(('PyArray_NDIM', x.v), site)
            if nd is None:
                nd = x.ops[2].v if x.ops[2].k == 'cint' else None
                hi = x.ops[3].v if x.ops[3].k == 'cint' else None
                no = [cval(p) for k, p, _ in site.facts if k == 'ne' and set(atoms(p)) == {('PyArray_NDIM', x.v)}]
                if nd and (hi is None or hi != nd) and any(nd + c == 0 for c in no):
                    nd = None
            if t not in ITEM or not nd:
                raise Stuck('array type or rank')
            p = const(ITEM[t])
            for i in range(nd):
                p = pmul(p, b.dim(x, i))
            return p, 'the array converted at line %s' % x.line
        if how == 'new':
            n = x.ops[1 if b.name[x.v] == 'PyArray_New' else 0]
            t, nd = b.typenum(x), n.v if n.k == 'cint' else None
            t = site.norm(t) if t is not None else None
            t = cval(t) if t is not None and isconst(t) else None
            if t not in ITEM or nd is None:
                raise Stuck('array type or rank')
            p = const(ITEM[t])
            for i in range(nd):
                q = b.newdim(x, i)
                if q is None:
                    raise Stuck('dimensions')
                p = pmul(p, q)
            return p, 'the array created at line %s' % x.line
        if x.op == 'phi':
            alts = [b.obj(v) for v in x.ops if v.k not in ('null', 'undef')]
            if alts and all(a is not None and a is not x for a in alts):
                ts, ok = set(), True
                for a in alts:
                    if b.name.get(a.v) in ('PyArray_Flatten', 'PyArray_Ravel'):
                        a = b.obj(a.ops[0])
                    elif b.made(a) != 'in' or a.ops[2].k != 'cint' or a.ops[2].v != 1:
                        ok = False
                    t = b.typenum(a) if ok and a is not None and b.made(a) == 'in' else None
                    ts.add(cval(t) if t is not None and isconst(t) else None)
                if ok and len(ts) == 1 and list(ts)[0] in ITEM and any(b.name.get(a.v) in ('PyArray_Flatten', 'PyArray_Ravel') for a in alts):
                    return pmul(const(ITEM[ts.pop()]), b.dim(x, 0)), 'the array converted at line %s' % alts[0].line
            if alts and all(a is not None and a is not x and b.made(a) == 'in' for a in alts) and \
                    len({(a.ops[2].v, a.ops[3].v) for a in alts if a.ops[2].k == a.ops[3].k == 'cint'}) == 1 and all(a.ops[2].k == 'cint' for a in alts):
                t = site.norm(atom(('PyArray_TYPE', x.v)))
                ts = [b.typenum(a) for a in alts]
                if not isconst(t) and all(y is not None and isconst(y) for y in ts) and len({cval(y) for y in ts}) == 1:
                    t = ts[0]
                nd = alts[0].ops[2].v
                if isconst(t) and cval(t) in ITEM and nd and alts[0].ops[3].v == nd:
                    p = const(ITEM[cval(t)])
                    for i in range(nd):
                        p = pmul(p, b.dim(x, i))
                    return p, 'the array converted at line %s' % alts[0].line
        raise Stuck('array made by %s' % (b.name.get(x.v, '') or x.op))

    def fixed(self, a, site):
        p = site.norm(atom(a))
        return cval(p) if isconst(p) else None

    # ---------------------------------------------------------- the rule
    def check(self, ptr, width, ins, what):
        self.stat['accesses'] += 1
        try:
            if time.time() > self.until:
                raise Stuck('time')
            r = self.cases(ptr, width, ins, what)
        except (ArithmeticError, LookupError, AttributeError, TypeError, ValueError, RecursionError) as e:
            self.stat['undecided'] += 1            # a construct the analysis does not know
            w = 'unknown construct (%s)' % type(e).__name__
            self.why[w] = self.why.get(w, 0) + 1
            return
        except Strided as e:
            self.stat['outside'] += 1
            self.strided.setdefault(e.x.v, (e.x, ins, what))
            return
        except Stuck as e:
            self.stat['undecided'] += 1
            self.why[str(e)] = self.why.get(str(e), 0) + 1
            return
        self.stat[r] += 1

    def cases(self, ptr, width, ins, what):
        """decide for every way the branches went on which the quantities depend"""
        todo, stuck, n, bad = [{}], None, 0, False
        while todo:
            ch = todo.pop()
            n += 1
            if n > 80:
                raise Stuck('too many cases')
            try:
                if self.decide(ptr, width, ins, what, ch) == 'outside':
                    bad = True
            except Choose as c:
                todo.extend({**ch, c.key: o} for o in c.options)
            except Stuck as e:
                stuck = stuck or e
        if bad:
            return 'outside'
        if stuck:
            raise stuck
        return 'proved'

    def decide(self, ptr, width, ins, what, choice):
        trail = []
        root, off = self.root(ptr, trail)
        if self.b.name.get(root.v) in ('PyArray_DATA', 'PyArray_BYTES'):
            self.b.obj(root.ops[0], 0, trail)
        site = Site(self.b, ins.bb, choice, trail)
        if not site.possible:
            return 'proved'
        size, desc = self.size(root, site)
        size = site.norm(size)
        low = site.norm(off)
        end = padd(low, width)
        lb = {}
        for k, p, _ in site.facts:
            if k == 'ge':
                self.lower(app(p, site.subs), lb)
        # guards inside the loops
        guards = []
        exits = self.exits(site)
        for k, p, c in site.facts:
            if k in ('ge', 'ne'):
                q = app(p, site.subs)
                if any(a[0] == 'k' and a[1] in site.inner for a in leaves(q)):
                    if c.v not in exits:
                        guards.append((k, q))
        top = site.bound(end, True)
        D = padd(size, top, -1)
        bot = site.bound(low, False)
        for h in site.inner:
            try:
                e = site.extent(h, ins.bb)
            except Stuck:
                continue
            if e[1] not in site.lims and not any(a[0] == 'k' for a in leaves(e[1])):
                site.lims.append(e[1])
        for l in site.lims:
            self.lower(padd(l, const(-1)), lb)
        if nonneg(D, lb) and nonneg(bot, lb):
            return 'proved'
        facts = []
        for k, p, c in site.facts:
            if k == 'ge':
                facts.append(app(p, site.subs))
        if farkas(padd(size, end, -1), facts, lb) and (nonneg(bot, lb) or farkas(low, facts, lb)):
            return 'proved'
        for k, p, c in site.facts:
            if any(a[0] in ('p', 'b') for a in leaves(p)):
                site.pick(p)                   # which branch was it? (raises Choose)
            for a in leaves(p):
                if a[0] == 'v' and self.helper(self.b.ins.get(a[1])):
                    raise Stuck('tested by a helper')
        if not site.reachable():
            return 'proved'
        w = None
        if not guards and not site.loose:
            try:
                w = self.witness(D, site)
                if w is None:
                    w = self.witness(bot, site)
            except Stuck:
                pass
        if w is None:
            w = self.example(low, end, size, site, ins)
        if w is None:
            raise Stuck('guarded by a test inside the loop' if guards else 'not comparable')
        self.found.append((ins, what, desc, w, root))
        return 'outside'

    def lower(self, p, lb):
        """p >= 0: single atoms get a lower bound, every factor of a product - c >= 0 with c >= 1 is at least 1"""
        pos = [(m, c) for m, c in p.items() if m and c > 0]
        neg = [(m, c) for m, c in p.items() if m and c < 0]
        k = -cval(p)
        if len(pos) == 1 and not neg and k >= 1 and pos:
            m, c = pos[0]
            for a in m:
                lb[a] = max(lb.get(a, 0), 1)
            if len(m) == 1:
                lb[m[0]] = max(lb.get(m[0], 0), -(-k // c))

    def exits(self, site):
        out = set()
        b = self.b
        for h in site.inner:
            for bid in b.loops[h]:
                t = b.byid[bid].ins[-1]
                if t.op == 'br' and len(t.succ) == 2 and t.ops[0].k == 'inst' and sum(s.id in b.loops[h] for s in t.succ) == 1:
                    out.add(t.ops[0].v)
        return out

    def witness(self, D, site):
        free = leaves(D)
        for a in free:
            if a[0] not in FREE:
                raise Stuck('depends on %s' % a[0])
        rel = set(free)
        cons = []
        for l in site.lims:
            cons.append(('ge', padd(l, const(-1))))
        for k, p, c in site.facts:
            if k in ('ge', 'ne'):
                cons.append((k, app(p, site.subs)))
        for p in site.rest:
            cons.append(('eq', app(p, site.subs)))
        use = []
        for _ in range(4):
            for k, p in cons:
                l = leaves(p)
                if (k, p) in use or not (l & rel):
                    continue
                if any(a[0] == 'k' for a in l):
                    continue          # a loop's own continuation test (already in the limits) or of a finished loop
                if any(a[0] not in FREE for a in l):
                    raise Stuck('related test')
                use.append((k, p))
                rel |= l
        rel = sorted(rel, key=repr)
        if len(rel) > 7:
            raise Stuck('too many quantities')
        der = [a for a in rel if a[0] == 'e']          # derived from other quantities: must fail whatever they are
        rel = [a for a in rel if a[0] != 'e']

        def fails(env):
            try:
                return value(D, env) < 0 and all((value(p, env) >= 0 if k == 'ge' else value(p, env) != 0 if k == 'ne' else value(p, env) == 0) for k, p in use)
            except ZeroDivisionError:
                return False
        for vals in itertools.product((2, 1, 3, 4, 6), repeat=len(rel)):
            env = dict(zip(rel, vals))
            if all(fails({**env, **dict(zip(der, dv))}) for dv in itertools.product((1, 2, 3, 5), repeat=len(der))):
                return env
        return None

    def transform(self, i, at=None):
        """[(buffer, bytes)] that a Fourier transform (its plan, or its execution on other buffers) touches"""
        b = self.b
        n = b.name.get(i.v, '')
        o = i.ops
        e = 4 if n.startswith('fftwf_') else 8
        n = n.split('_', 1)[1]
        if n.startswith('execute_dft') and len(o) >= 3:
            p = b.obj(o[0])
            if p is not None and p.op == 'call' and b.name.get(p.v, '').startswith('fftw') and '_plan_' in b.name[p.v]:
                w = self.transform(p)
                return [(o[1], w[0][1]), (o[2], w[1][1])] if w else []
            return []

        def both(n, kind):
            half = padd(quot('div', n, const(2)), const(1))
            return {'dft': ((n, 2), (n, 2)), 'r2c': ((n, 1), (half, 2)), 'c2r': ((half, 2), (n, 1)), 'r2r': ((n, 1), (n, 1))}[kind]
        if not n.startswith('plan_'):
            return []
        kind = 'r2c' if 'r2c' in n else 'c2r' if 'c2r' in n else 'r2r' if 'r2r' in n else 'dft'
        if n in ('plan_dft_1d', 'plan_dft_r2c_1d', 'plan_dft_c2r_1d', 'plan_r2r_1d'):
            a, c = both(b.poly(o[0]), kind)
            return [(o[1], pmul(a[0], const(e * a[1]))), (o[2], pmul(c[0], const(e * c[1])))]
        if n in ('plan_dft_2d', 'plan_dft_r2c_2d', 'plan_dft_c2r_2d', 'plan_r2r_2d'):
            a, c = both(b.poly(o[1]), kind)
            m = b.poly(o[0])
            return [(o[2], pmul(m, pmul(a[0], const(e * a[1])))), (o[3], pmul(m, pmul(c[0], const(e * c[1]))))]
        if n in ('plan_many_dft', 'plan_many_dft_r2c', 'plan_many_dft_c2r') and o[0].k == 'cint' and o[0].v == 1:
            r, off = b.addr(o[1])
            if r.k != 'inst' or r.op != 'alloca' or off is None or not isconst(off):
                return []
            st = [s for q, s in b.stores.get(r.v, []) if b.before(s, i)]
            if len(st) != 1 or len(b.stores[r.v]) != 1:
                return []
            a, c = both(b.poly(st[0].ops[0]), kind)
            out = []
            many = padd(b.poly(o[2]), const(-1))
            for k, (m, w) in ((3, a), (7, c)):
                stride, dist = b.poly(o[k + 2]), b.poly(o[k + 3])
                x = padd(padd(pmul(many, dist), pmul(padd(m, const(-1)), stride)), const(1))
                out.append((o[k], pmul(x, const(e * w))))
            return out
        return []

    def helper(self, i):
        """the value comes from a function of this file that was not looked into"""
        return i is not None and i.op == 'call' and self.b.name.get(i.v) in self.u.fns

    def example(self, low, end, size, site, ins):
        """small values of the dimensions, arguments and loop counters for which the access is outside"""
        b = self.b
        loops = [h for h in reversed(site.inner)]
        ext = [site.extent(h, ins.bb) for h in loops]
        cons = [(k, app(p, site.subs)) for k, p, c in site.facts if k in ('ge', 'ne')] + [('eq', app(p, site.subs)) for p in site.rest]
        # loops whose length comes from elsewhere and whose counter plays no part: taken to run
        own = leaves(low) | leaves(end) | leaves(size)
        free = {a for a in own if a[0] in FREE}
        keep = [j for j, h in enumerate(loops) if ('k', h) in own or any(('k', h) in leaves(l) for _, l in ext) or not self.elsewhere(ext[j][1], free)]
        loops, ext = [loops[j] for j in keep], [ext[j] for j in keep]
        want = [low, end, size] + [l for _, l in ext]
        sums, tabs = {}, {}
        self.loosened = set()
        self.concrete(want, site, ins, sums, tabs)
        extra = []                             # every formula that the search evaluates, in a fixed order
        for f in sums.values():
            extra += f[1:]
        for t in tabs.values():
            extra.append(t[0])
            extra += [q for h, a, l in t[1] for q in (l,)]
            for so, sv, fs in t[2]:
                extra += [so, sv] + [q for _, q in fs]
        nw = len(want)
        want = want + extra
        # quantities that are computed from others
        defs = []
        for _ in range(8):
            es = {a for p in want + [p for _, p in cons] for a in leaves(p) if a[0] == 'e' and a not in dict(defs)}
            new = False
            for a in sorted(es, key=repr):
                d = site.norm(b._poly(b.ins[a[1]], 0))
                if a in leaves(d):
                    raise Stuck('derived')
                if any(x[0] not in FREE for x in leaves(d)):
                    continue
                defs.append((a, d))
                new = True
            if not new:
                break
            for _ in range(4):
                want = [app(p, defs) for p in want]
                cons = [(k, app(p, defs)) for k, p in cons]
        low, end, size = want[:3]
        lims = [(a, l) for (a, _), l in zip(ext, want[3:nw])]
        extra = iter(want[nw:])
        sums = {x: (f[0],) + tuple(next(extra) for _ in f[1:]) for x, f in sums.items()}
        tabs2 = {}
        for x, t in tabs.items():
            ro = next(extra)
            ls = [(h, a, next(extra)) for h, a, l in t[1]]
            tabs2[x] = (ro, ls, [(next(extra), next(extra), [(k, next(extra)) for k, _ in fs]) for so, sv, fs in t[2]])
        tabs = tabs2
        ks = [('k', h) for h in loops]
        bound = set(ks) | set(sums) | set(tabs) | {('k', h) for t in tabs.values() for h, _, _ in t[1]} | {('k', f[0][0]) for f in sums.values()} | {('k', f[0][1]) for f in sums.values()}
        for p in want:
            for a in leaves(p):
                if a not in bound and a[0] not in FREE and a not in self.loosened:
                    raise Stuck('depends on %s' % a[0])
        rel = {a for p in want for a in leaves(p)} - bound
        use = []
        for _ in range(4):
            for k, p in cons:
                l = leaves(p) - set(ks)
                if (k, p) in use or not l & rel and not leaves(p) & set(ks):
                    continue
                if any(a[0] == 'k' for a in l):
                    continue                   # the end of another loop
                if any(a[0] not in FREE and a not in self.loosened for a in l):
                    raise Stuck('related test')
                use.append((k, p))
                rel |= l
        rel = sorted(rel, key=repr)
        if len(rel) > 7:
            raise Stuck('too many quantities')
        der = [a for a in rel if a[0] == 'e']
        if der:
            raise Stuck('depends on e')
        pre = [(k, p) for k, p in use if not leaves(p) & set(ks)]
        post = [(k, p) for k, p in use if leaves(p) & set(ks)]
        budget = [12000]
        filled = {}

        def good(cs, env):
            for k, p in cs:
                v = value(p, env)
                if k == 'ge' and v < 0 or k == 'ne' and v == 0 or k == 'eq' and v != 0:
                    return False
            return True

        def counters(i, env):
            if budget[0] <= 0:
                raise Stuck('search')
            if i == len(lims):
                budget[0] -= 1
                try:
                    for a, f in sums.items():
                        if ('k', f[0][0]) in env:
                            env[a] = self.summed(f, env)
                    for a, t in tabs.items():
                        k0 = (a[1], tuple(env[r] for r in rel))
                        if k0 not in filled:
                            filled[k0] = self.fill(t, sums, {r: env[r] for r in rel})
                        at = value(t[0], env)
                        if at not in filled[k0]:
                            return False
                        env[a] = filled[k0][at]
                except KeyError:
                    raise Stuck('table')
                return good(post, env) and (value(low, env) < 0 or value(end, env) > value(size, env))
            a, l = lims[i]
            n = -(-value(l, env) // a)
            for k in sorted({x for x in (0, 1, 2, n - 3, n - 2, n - 1) if 0 <= x < n}, reverse=True):
                env[ks[i]] = k
                if counters(i + 1, env):
                    return True
            return False
        for vals in itertools.product((2, 1, 3, 5, 7), repeat=len(rel)):
            env = dict(zip(rel, vals))
            try:
                if good(pre, env) and counters(0, env):
                    return {a: v for a, v in env.items() if a[0] in FREE or a in self.loosened}
            except ZeroDivisionError:
                pass
        return None

    def unlimited(self, ld):
        """an entry of a work buffer filled with rounded numbers of the caller's arrays, on which nothing depends"""
        b = self.b
        if ld.op != 'load' or ld.ty not in ('i32', 'i64'):
            return False
        if ld.v not in self.memo:
            try:
                self.memo[ld.v] = self._unlimited(ld)
            except Stuck:
                self.memo[ld.v] = False
        return self.memo[ld.v]

    def _unlimited(self, ld):
        b = self.b
        r, _ = self.root(ld.ops[0])
        n = b.name.get(r.v, '')
        if n not in ALLOC and n != 'posix_memalign':
            return False
        arrays, seeds, stored = set(), [], 0

        def number(v, d=0):
            if v.k in ('cfloat', 'cfp', 'cint', 'const', 'float'):
                return True
            if v.k != 'inst' or d > 12:
                return False
            if v.op in ('fsub', 'fadd', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc', 'freeze'):
                return all(number(x, d + 1) for x in v.ops)
            if v.op == 'load' and v.ty in ('double', 'float'):
                q, o = b.addr(v.ops[0])
                if q.k == 'inst' and q.op == 'alloca' and o is not None and isconst(o):
                    return b.local(q, cval(o), v) == atom(('arg', q.v, cval(o)))
                q, o = self.root(v.ops[0])
                if b.name.get(q.v) == 'PyArray_DATA':
                    x = b.obj(q.ops[0])
                    if x is not None and b.made(x) == 'in':
                        arrays.add(x.v)
                        return True
            return False
        for i in b.fn.instrs():
            if i.op not in ('store', 'load') or (i.ops[0].ty if i.op == 'store' else i.ty) != ld.ty:
                continue
            try:
                q, _ = self.root(i.ops[1] if i.op == 'store' else i.ops[0])
            except Stuck:
                if i.op == 'store':
                    return False
                continue
            if q is not r:
                continue
            if i.op == 'load':
                seeds.append(i)
                continue
            v = i.ops[0]
            stored += 1
            if v.k != 'inst':
                return False
            if v.op == 'call' and b.name.get(v.v, '').startswith(('lround', 'llround', 'lrint', 'llrint', 'llvm.lround', 'llvm.llround', 'llvm.lrint', 'llvm.llrint')) or v.op == 'fptosi':
                if not number(v.ops[0]):
                    return False
                seeds.append(v)
            else:
                return False
        if not stored or not arrays:
            return False
        for i in b.fn.instrs():
            if i.op == 'load' and i.ty in ('double', 'float'):
                try:
                    q, _ = self.root(i.ops[0])
                except Stuck:
                    continue
                if b.name.get(q.v) == 'PyArray_DATA':
                    x = b.obj(q.ops[0])
                    if x is not None and x.v in arrays:
                        seeds.append(i)
        uses = {}
        for i in b.fn.instrs():
            for o in ([x for x, _ in i.inc] if i.op == 'phi' else i.ops):
                if o.k == 'inst':
                    uses.setdefault(o.v, []).append(i)
        todo, seen = list(seeds), set()
        while todo:
            i = todo.pop()
            if i.v in seen:
                continue
            seen.add(i.v)
            for u in uses.get(i.v, []):
                if u.op == 'store':
                    if u.ops[0].k == 'inst' and u.ops[0].v == i.v and i.ty in ('i1', 'i8', 'i16', 'i32', 'i64'):
                        w = self.root(u.ops[1])[0]
                        if w is not r and any(self.same(w, x) for x in self.loaded()):
                            return False           # kept, and looked at again
                elif u.op in ('br', 'switch'):
                    inl = [body for body in b.loops.values() if u.bb.id in body]
                    if not inl or any(x.id not in body for x in u.succ for body in inl):
                        if self.after(u, ld):
                            return False           # decides what happens later
                        continue
                    for x in b.fn.blocks:
                        if u.bb.id in b.dom[x.id] and len(x.preds) > 1 or x.id in b.loops and any(u.bb.id in body for h, body in b.loops.items() if h == x.id):
                            for ph in x.ins:
                                if ph.op == 'phi' and len({id(y) for y, pr in ph.inc if x.id not in b.loops or pr.id in b.loops[x.id]}) > 1:
                                    todo.append(ph)
                elif u.op == 'call' and u.ty == 'void' or u.op == 'load' or u.op == 'gep':
                    continue
                else:
                    todo.append(u)
        return True

    def loaded(self):
        """objects from which whole numbers are read (None: unknown)"""
        if 'loaded' not in self.memo:
            out = {}
            for i in self.b.fn.instrs():
                if i.op == 'load' and i.ty in ('i1', 'i8', 'i16', 'i32', 'i64'):
                    try:
                        x = self.root(i.ops[0])[0]
                    except Stuck:
                        r, o = self.b.addr(i.ops[0])
                        if r.k == 'global' or r.k == 'inst' and r.op == 'alloca':
                            continue
                        x = None
                    out[x.v if x is not None else None] = x
            self.memo['loaded'] = list(out.values())
        return self.memo['loaded']

    def same(self, w, x):
        if x is None or w is x:
            return True
        n = ('PyArray_DATA', 'PyArray_BYTES')
        if self.b.name.get(w.v) in n and self.b.name.get(x.v) in n:
            a, c = self.b.obj(w.ops[0]), self.b.obj(x.ops[0])
            return a is None or c is None or a is c
        return False

    def after(self, br, ld):
        """the branch can run before the load"""
        st, seen = [br.bb.id], set()
        while st:
            x = st.pop()
            for y in self.b.byid[x].ins[-1].succ or []:
                if y.id not in seen:
                    seen.add(y.id)
                    st.append(y.id)
        return ld.bb.id in seen

    def elsewhere(self, lim, free):
        """the limit holds a value that cannot be expressed, and that depends on none of the given quantities"""
        b = self.b
        odd = [a for a in leaves(lim) if a[0] == 'v']
        if not odd or any(a[0] not in FREE + ('v',) for a in leaves(lim)) or leaves(lim) & free:
            return False
        todo, seen, got = [b.ins[a[1]] for a in odd], set(), set()
        preds = {x.id: [p.id for p in x.preds] for x in b.fn.blocks}

        def conds(stop, to):
            blk, st = set(), [to]
            while st:
                x = st.pop()
                if x in blk:
                    continue
                blk.add(x)
                if x != stop:
                    st += preds[x]
            for x in blk:
                t = b.byid[x].ins[-1]
                if t.op in ('br', 'switch') and len(t.succ) > 1 and t.ops[0].k == 'inst':
                    todo.append(t.ops[0])
        while todo:
            i = todo.pop()
            if i.v in seen:
                continue
            seen.add(i.v)
            if len(seen) > 4000:
                return False
            L = leaves(b.poly(i)) if i.ty in ('i1', 'i8', 'i16', 'i32', 'i64') else set()
            got |= {a for a in L if a[0] in FREE}
            if got & free:
                return False
            if i.op == 'phi':
                d = b.dom[i.bb.id] - {i.bb.id}
                stop = max(d, key=lambda x: len(b.dom[x])) if d else i.bb.id
                if i.bb.id in b.loops:
                    for x in b.loops[i.bb.id]:
                        t = b.byid[x].ins[-1]
                        if t.op in ('br', 'switch') and len(t.succ) > 1 and t.ops[0].k == 'inst':
                            todo.append(t.ops[0])
                else:
                    conds(stop, i.bb.id)
                todo += [x for x, _ in i.inc if x.k == 'inst']
            elif i.op == 'load':
                r, off = b.addr(i.ops[0])
                if r.k == 'inst':
                    for _, st in b.stores.get(r.v, []):
                        if st.ops[0].k == 'inst':
                            todo.append(st.ops[0])
            elif i.op == 'call' and i.ty == 'ptr':
                continue
            else:
                todo += [x for x in i.ops if x.k == 'inst' and x.ty != 'ptr']
        return True

    def concrete(self, want, site, ins, sums, tabs):
        """counts kept over nested loops, and local tables filled by an earlier loop"""
        b = self.b
        todo = list(want)
        while todo:
            p = todo.pop()
            for a in leaves(p):
                if a[0] == 'v' and a not in sums:
                    if a in self.loosened:
                        continue
                    f = self.count(b.ins[a[1]], site)
                    if f is None:
                        if not self.loosened and self.unlimited(b.ins[a[1]]):
                            self.loosened.add(a)
                            continue
                        raise Stuck('depends on v')
                    sums[a] = f
                    todo += f[1:]
                elif a[0] == 't' and a not in tabs:
                    ld = b.ins[a[2]]
                    r, ro = b.addr(ld.ops[0])
                    if ro is None or a[1] in b.escape:
                        raise Stuck('table')
                    if any(a[1] == x[1] for x in tabs) and len(tabs) > 6:
                        raise Stuck('table')
                    sts = [i for i in b.fn.instrs() if i.op == 'store' and b.addr(i.ops[1])[0].v == a[1] and b.addr(i.ops[1])[0].k == 'inst']
                    nests = {tuple(sorted((h for h, body in b.loops.items() if i.bb.id in body), key=lambda h: -len(b.loops[h]))) for i in sts}
                    if len(nests) != 1 or any(i.ops[0].ty != ld.ty for i in sts):
                        raise Stuck('table')
                    nest = nests.pop()
                    if not nest or set(nest) & set(site.inner) or nest[0] not in b.dom[ld.bb.id] or ld.bb.id in b.loops[nest[0]]:
                        raise Stuck('table')
                    have = {(k, key(q)) for k, q, _ in site.facts}
                    rows = []
                    for i in sts:
                        s = Site(b, i.bb, site.choice)
                        so = b.addr(i.ops[1])[1]
                        if so is None:
                            raise Stuck('table')
                        fs = [(k, site.norm(q)) for k, q, _ in s.facts if (k, key(q)) not in have]
                        rows.append((site.norm(so), site.norm(b.poly(i.ops[0])), fs))
                    ls = []
                    for h in nest:
                        e = b.extent(h, sts[0].bb)
                        if e is None:
                            raise Stuck('table')
                        ls.append((h, e[0], site.norm(e[1])))
                    tabs[a] = (site.norm(ro), ls, rows)
                    todo += [site.norm(ro)] + [l for _, _, l in ls] + [q for x in rows for q in x[:2]] + [q for x in rows for _, q in x[2]]
            if len(sums) + len(tabs) > 12:
                raise Stuck('too many quantities')

    def count(self, v, site):
        """a number carried through a loop that an inner loop counts up: ((outer, inner, width, step), start, limit)"""
        b = self.b
        h = v.bb.id
        if v.op != 'phi' or h not in b.loops or v.ty == 'ptr':
            return None
        start = [x for x, p in v.inc if p.id not in b.loops[h]]
        nxt = [x for x, p in v.inc if p.id in b.loops[h]]
        if len(start) != 1 or len(nxt) != 1:
            return None
        n = nxt[0]
        while n.k == 'inst' and n.op == 'phi' and n.bb.id not in b.loops and len(n.inc) == 1:
            n = n.inc[0][0]
        if n.k != 'inst' or n.op != 'phi' or n.bb.id not in b.loops or n.bb.id == h or n.bb.id not in b.loops[h]:
            return None
        h2 = n.bb.id
        if any(h in body and h3 != h and len(body) < len(b.loops[h]) for h3, body in b.loops.items()):
            return None
        if [x for x, p in n.inc if p.id not in b.loops[h2]] != [v]:
            return None
        r = b.recur(n)
        A, K = (('v', v.v),), (('k', h2),)
        if r is None or r.get(A) != 1 or set(r) != {A, K}:
            return None
        if any(h2 in body and len(b.loops[h2]) < len(body) < len(b.loops[h]) for h3, body in b.loops.items()):
            return None
        for bid in b.loops[h2]:
            if bid != h2 and any(s.id not in b.loops[h2] for s in (b.byid[bid].ins[-1].succ or [])):
                return None
        blk = [x for x in b.loops[h2] if x != h2]
        e = b.extent(h2, b.byid[blk[0]]) if blk else None
        if e is None:
            return None
        # the outer loop must run the inner one every time round
        if not all(h2 in b.dom[p.id] for x, p in v.inc if p.id in b.loops[h]):
            return None
        return ((h, h2, e[0], r[K]), site.norm(b.poly(start[0])), site.norm(e[1]))

    def summed(self, f, env):
        (h, h2, a, st), start, lim = f
        t = value(start, env)
        for j in range(env[('k', h)]):
            t += st * max(0, -(-value(lim, {**env, ('k', h): j}) // a))
        return t

    def fill(self, t, sums, env):
        """the table as the loop that fills it leaves it"""
        ro, ls, rows = t
        out = {}

        def go(i, env):
            if i == len(ls):
                for a, f in sums.items():
                    if ('k', f[0][0]) in env:
                        env[a] = self.summed(f, env)
                for so, sv, fs in rows:
                    if all(value(q, env) >= 0 if k == 'ge' else value(q, env) != 0 if k == 'ne' else value(q, env) == 0 for k, q in fs):
                        out[value(so, env)] = value(sv, env)
                return
            h, a, l = ls[i]
            for k in range(max(0, -(-value(l, env) // a))):
                env[('k', h)] = k
                go(i + 1, env)
            env.pop(('k', h), None)
        go(0, dict(env))
        return out

    def run(self):
        for i in self.fn.instrs():
            if i.op == 'load':
                w, ptr, what = WIDTH.get(i.ty), i.ops[0], 'read'
            elif i.op == 'store':
                w, ptr, what = WIDTH.get(i.ops[0].ty), i.ops[1], 'written'
            elif i.op == 'call' and self.b.name.get(i.v, '').startswith('fftw'):
                for ptr, n in self.transform(i):
                    self.check(ptr, n, i, 'transformed')
                continue
            elif i.op == 'call' and self.b.name.get(i.v, '').startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'memcpy', 'memset', 'memmove')):
                n = self.b.poly(i.ops[2])
                for k, what in ((0, 'written'), (1, 'read')):
                    if i.ops[k].ty == 'ptr':
                        self.check(i.ops[k], n, i, what)
                continue
            else:
                continue
            r, o = self.b.addr(ptr)
            if r.k == 'global' or r.k == 'inst' and r.op == 'alloca' and o is not None and isconst(o) and r.ops[0].k == 'cint':
                continue          # plain variables
            if r.k == 'inst' and r.op == 'load' and o is not None and isconst(o) and self.b.addr(r.ops[0])[0].k == 'global':
                continue
            if w is None:
                self.stat['accesses'] += 1
                self.stat['undecided'] += 1
                self.why['width ' + i.ty] = self.why.get('width ' + i.ty, 0) + 1
                continue
            self.check(ptr, const(w), i, what)
        return self


def show(a, b):
    if a[0] == 'dim':
        for i in b.fn.instrs():
            if i.v == a[1]:
                return 'dimension %d of the array of line %s' % (a[2], i.line)
    i = b.ins.get(a[1])
    what = {'arg': 'an argument', 'num': 'the number', 'len': 'the length', 'e': 'the quantity'}.get(a[0], a[0])
    return '%s of line %s' % (what, i.line) if i is not None and i.line else '%s (value %s)' % (what, a[1])
