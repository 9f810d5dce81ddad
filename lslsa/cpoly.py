"""
Affine index analysis: values as polynomials over loop iteration counters ('k', loop) and opaque
atoms, addresses as (root object, polynomial byte offset), and the iteration ranges of loops.
Machine arithmetic is taken as exact (no wrap-around of index arithmetic).
"""
from . import chist


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def const(c):
    return {(): c} if c else {}


def atom(a):
    return {(a,): 1}


def isconst(p):
    return all(m == () for m in p)


def cval(p):
    return p.get((), 0)


class Poly(object):
    def __init__(self, fr):
        """fr: cbits.Frame of the function (for field values)"""
        self.fr, self.fn = fr, fr.fn
        self.dom = chist.dominators(self.fn)
        self.memo = {}
        self.loops = {}            # header id -> set of block ids
        preds = {}
        for b in self.fn.blocks:
            for s in b.succs:
                preds.setdefault(s.id, []).append(b)
                if s.id in self.dom[b.id]:
                    body = self.loops.setdefault(s.id, {s.id})
                    todo = [b]
                    while todo:
                        x = todo.pop()
                        if x.id not in body:
                            body.add(x.id)
                            todo.extend(x.preds)
        self.byid = {b.id: b for b in self.fn.blocks}

    # ------------------------------------------------------------ values
    def poly(self, v, d=0):
        if v.k == 'cint':
            return const(v.v)
        if v.k == 'null':
            return {}
        if v.k != 'inst':
            return atom(('o', v.k, v.v))
        if v.v in self.memo:
            return self.memo[v.v]
        self.memo[v.v] = atom(('v', v.v))
        r = self._poly(v, d)
        self.memo[v.v] = r
        return r

    def _poly(self, v, d):
        if d > 80:
            return atom(('v', v.v))
        o = v.ops
        P = lambda x: self.poly(x, d + 1)
        if v.op in ('zext', 'sext', 'freeze', 'trunc', 'bitcast'):
            return P(o[0])
        if v.op == 'add':
            return padd(P(o[0]), P(o[1]))
        if v.op == 'sub':
            return padd(P(o[0]), P(o[1]), -1)
        if v.op == 'mul':
            return pmul(P(o[0]), P(o[1]))
        if v.op == 'shl' and o[1].k == 'cint':
            return pmul(P(o[0]), const(1 << o[1].v))
        if v.op == 'or' and o[1].k == 'cint' and o[1].v > 0:
            p = P(o[0])
            m = 1 << o[1].v.bit_length()
            if all(c % m == 0 for c in p.values()):
                return padd(p, const(o[1].v))
        if v.op == 'and' and o[1].k == 'cint':
            c = o[1].v & ((1 << 64) - 1)
            lo = (c & -c).bit_length() - 1 if c else 0
            top = (c >> lo) + 1
            if c and (top & (top - 1)) == 0 and (c.bit_length() >= 30):
                p = P(o[0])
                if all(x % (1 << lo) == 0 for x in p.values()):
                    return p
        if v.op == 'lshr' and o[1].k == 'cint':
            p = P(o[0])
            m = 1 << o[1].v
            if all(c % m == 0 for c in p.values()):
                return {k: c // m for k, c in p.items()}
        if v.op == 'phi':
            r = self.recur(v)
            if r is not None:
                return r
        b = self.fr.bits(v)
        if v.op in ('load', 'call') and any(isinstance(x, tuple) for x in b) and all(x is not None for x in b):
            b = list(b)
            while b and b[-1] == 0:
                b.pop()
            return atom(('bits', tuple(b)))
        return atom(('v', v.v))

    def recur(self, phi):
        h = phi.bb.id
        if h not in self.loops or phi.ty == 'ptr':
            return None
        start, nxt = None, []
        for x, p in phi.inc:
            if p.id in self.loops[h]:
                nxt.append(x)
            else:
                start = x if start is None else False
        if start in (None, False) or not nxt:
            return None
        steps = set()
        for n in nxt:
            s = self.step(n, phi)
            if s is None:
                return None
            steps.add(s)
        if len(steps) != 1:
            return None
        return padd(self.poly(start), pmul(const(steps.pop()), atom(('k', h))))

    def step(self, n, phi):
        tot = 0
        for _ in range(50):
            if n is phi:
                return tot
            if n.k != 'inst':
                return None
            if n.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
                n = n.ops[0]
            elif n.op in ('add', 'or') and n.ops[1].k == 'cint':
                tot += n.ops[1].v
                n = n.ops[0]
            elif n.op == 'sub' and n.ops[1].k == 'cint':
                tot -= n.ops[1].v
                n = n.ops[0]
            elif n.op == 'gep' and not n.gidx:
                tot += n.goff
                n = n.ops[0]
            else:
                return None
        return None

    # ------------------------------------------------------------ addresses
    def addr(self, v, d=0):
        """(root Val, poly byte offset)"""
        off = {}
        while d < 60:
            d += 1
            if v.k == 'inst':
                if v.op == 'gep':
                    off = padd(off, const(v.goff))
                    for x, s in v.gidx:
                        off = padd(off, pmul(self.poly(x), const(s)))
                    v = v.ops[0]
                    continue
                if v.op in ('bitcast', 'freeze'):
                    v = v.ops[0]
                    continue
                if v.op == 'phi' and v.bb.id in self.loops:
                    h = v.bb.id
                    ins = [x for x, p in v.inc if p.id not in self.loops[h]]
                    nxt = [x for x, p in v.inc if p.id in self.loops[h]]
                    steps = {self.step(n, v) for n in nxt}
                    if len(ins) == 1 and len(steps) == 1 and None not in steps:
                        off = padd(off, pmul(const(steps.pop()), atom(('k', h))))
                        v = ins[0]
                        continue
                return v, off
            if v.k == 'cexpr' and v.v == 'gep':
                off = padd(off, const(v.x[0]))
                if v.x[1]:
                    return v, None
                v = v.ops[0]
                continue
            return v, off
        return v, None

    # ------------------------------------------------------------ loop ranges
    def count(self, h, blk):
        """how many iterations of loop h execute block blk: int, polynomial dict, or None"""
        body = self.loops[h]
        best = None
        for bid in body:
            b = self.byid[bid]
            t = b.ins[-1]
            if t.op != 'br' or len(t.succ) != 2:
                continue
            outs = [s.id not in body for s in t.succ]
            if outs[0] == outs[1]:
                continue
            if self._inner(bid, h):
                continue
            c = t.ops[0]
            if c.k != 'inst' or c.op != 'icmp':
                continue
            stay = not outs[0]            # condition true keeps looping
            p, n = self.poly(c.ops[0]), self.poly(c.ops[1])
            pred = c.pred
            K = (('k', h),)
            if any(('k', h) in m for m in n) and not any(('k', h) in m for m in p):
                p, n = n, p
                pred = {'ult': 'ugt', 'ugt': 'ult', 'slt': 'sgt', 'sgt': 'slt', 'ule': 'uge', 'uge': 'ule', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
            a = p.get(K, 0)
            rest = {m: v for m, v in p.items() if m != K}
            if a == 0 or any(('k', h) in m for m in rest) or any(('k', h) in m for m in n):
                continue
            if not stay:
                pred = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'slt': 'sge', 'sge': 'slt', 'ugt': 'ule', 'ule': 'ugt', 'sgt': 'sle', 'sle': 'sgt'}[pred]
            lim = padd(n, rest, -1)        # continue while a*k pred lim
            before = bid in self.dom[blk.id] and bid != blk.id
            if isconst(lim):
                L = cval(lim)
                k = 0
                test = {'ne': lambda x: x != L, 'ult': lambda x: x < L, 'slt': lambda x: x < L, 'ule': lambda x: x <= L, 'sle': lambda x: x <= L,
                        'ugt': lambda x: x > L, 'sgt': lambda x: x > L, 'uge': lambda x: x >= L, 'sge': lambda x: x >= L, 'eq': lambda x: x == L}[pred]
                while test(a * k) and k < 2000000:
                    k += 1
                r = k if before else k + 1
            elif a == 1 and pred in ('ult', 'slt', 'ne'):
                r = lim if before else padd(lim, const(1))
            elif a == 1 and pred in ('ule', 'sle'):
                r = padd(lim, const(1)) if before else padd(lim, const(2))
            else:
                continue
            if best is None:
                best = r
            elif best != r:
                return None
        return best

    def extent(self, h, blk):
        """(a, lim): block blk of loop h is executed for k = 0, 1, ... while a*k < lim; None if not understood"""
        body = self.loops[h]
        best = None
        for bid in body:
            b = self.byid[bid]
            t = b.ins[-1]
            if t.op != 'br' or len(t.succ) != 2 or self._inner(bid, h):
                continue
            outs = [s.id not in body for s in t.succ]
            c = t.ops[0]
            if outs[0] == outs[1] or c.k != 'inst' or c.op != 'icmp':
                continue
            pred, p, n = c.pred, self.poly(c.ops[0]), self.poly(c.ops[1])
            if any(('k', h) in m for m in n):
                p, n = n, p
                pred = {'ult': 'ugt', 'ugt': 'ult', 'slt': 'sgt', 'sgt': 'slt', 'ule': 'uge', 'uge': 'ule', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
            if outs[0]:
                pred = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'slt': 'sge', 'sge': 'slt', 'ugt': 'ule', 'ule': 'ugt', 'sgt': 'sle', 'sle': 'sgt'}[pred]
            K = (('k', h),)
            a = p.get(K, 0)
            rest = {m: v for m, v in p.items() if m != K}
            if a <= 0 or any(('k', h) in m for m in list(rest) + list(n)) or pred not in ('ult', 'slt', 'ule', 'sle', 'ne'):
                return None
            lim = padd(n, rest, -1)
            if pred in ('ule', 'sle'):
                lim = padd(lim, const(1))
            if not (bid in self.dom[blk.id] and bid != blk.id):
                lim = padd(lim, const(a))
            if best is not None and best != (a, lim):
                return None
            best = (a, lim)
        return best

    def _inner(self, bid, h):
        for h2, body in self.loops.items():
            if h2 != h and h2 in self.loops[h] and bid in body and body < self.loops[h]:
                return True
        return False

    def loops_of(self, blk):
        return [h for h, body in self.loops.items() if blk.id in body]
