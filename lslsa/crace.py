"""
Data-race rule for OpenMP parallel regions (clang outlines each region into its
own function whose parameters are the addresses of the shared variables).

A store made by a team member is accepted when it
  * goes to memory private to the thread (its own stack or an allocation made in the region), or
  * goes to an element of a shared array selected injectively by the work-shared loop
    variable: the address contains the loop variable itself, or both its quotient and
    its remainder by the same divisor, or
  * is inside a critical / reduction / single / master construct.
Everything else can be executed by two threads on the same location.
"""
from . import capi
from .common import Finding, AnalysisError

PRIV_ALLOC = set(capi.ALLOC)
WRITES = {'memset': [0], 'memcpy': [0], 'memmove': [0], 'bzero': [0]}
GUARD_ON = {'__kmpc_critical', '__kmpc_critical_with_hint', '__kmpc_reduce', '__kmpc_reduce_nowait', '__kmpc_single', '__kmpc_master', '__kmpc_masked', '__kmpc_ordered'}
GUARD_OFF = {'__kmpc_end_critical', '__kmpc_end_reduce', '__kmpc_end_reduce_nowait', '__kmpc_end_single', '__kmpc_end_master', '__kmpc_end_masked', '__kmpc_end_ordered'}
NOTSAFE = {'fftwf_execute', 'fftw_execute'}


class Region(object):
    def __init__(self, u, fn):
        self.u, self.fn = u, fn
        self.comp = {}
        self.base = {}
        self.nstores = 0
        self.nshared = 0

    def key(self, v, d=0):
        if d > 12:
            return ('?', id(v))
        if v.k == 'arg':
            return ('arg', v.v)
        if v.k == 'cint':
            return ('c', v.v)
        if v.k == 'inst':
            if v.op == 'load':
                return ('ld', self.key(v.ops[0], d + 1))
            if v.op in ('sext', 'zext', 'trunc', 'freeze'):
                return self.key(v.ops[0], d + 1)
            if v.op in ('add', 'mul', 'sub', 'shl', 'sdiv', 'udiv', 'gep'):
                return (v.op,) + tuple(self.key(o, d + 1) for o in v.ops)
        return ('v', v.v if v.k == 'inst' else id(v))

    def analyse(self):
        fn = self.fn
        # slots handed to the work-sharing runtime: their loads are this thread's own iterations
        ivslots = set()
        for i in fn.instrs():
            if i.op == 'call':
                n = capi.callee_name(self.u, i) or ''
                if n.startswith(('__kmpc_for_static_init', '__kmpc_dispatch_next')):
                    for o in i.ops:
                        if o.k == 'inst' and o.op == 'alloca':
                            ivslots.add(o.v)
        self.ivslots = ivslots
        comp, base = {}, {}

        def C(v):
            if v.k == 'inst':
                return comp.get(v.v, frozenset())
            return frozenset()

        def B(v):
            """base of a pointer: set of ('arg',k) shared variable itself / ('sh',key) memory reached through shared variable / 'priv' / 'glob'"""
            if v.k == 'arg':
                return frozenset([('arg', v.v)])
            if v.k == 'inst':
                return base.get(v.v, frozenset())
            if v.k == 'global' or (v.k == 'cexpr'):
                return frozenset(['glob'])
            return frozenset()
        ch = True
        rounds = 0
        while ch:
            ch = False
            rounds += 1
            if rounds > 60:
                raise AnalysisError('race analysis does not converge in %s' % fn.name)
            for i in fn.instrs():
                c, b = frozenset(), frozenset()
                if i.op == 'load':
                    a = i.ops[0]
                    if a.k == 'inst' and a.op == 'alloca' and a.v in ivslots:
                        c = frozenset(['IV'])
                    else:
                        ac = C(a)
                        if ac:
                            c = frozenset(['DATA'])
                    if i.ty == 'ptr':
                        bb = B(a)
                        if any(isinstance(x, tuple) for x in bb):
                            b = frozenset([('sh', self.key(a))])
                        elif 'glob' in bb:
                            b = frozenset([('sh', ('glob',))])
                        elif 'priv' in bb:
                            # pointer kept in a private slot: union of what is stored there
                            b = frozenset()
                            for s in fn.instrs():
                                if s.op == 'store' and s.ops[0].ty == 'ptr' and self._root(s.ops[1]) is self._root(a):
                                    b |= B(s.ops[0])
                            if not b:
                                b = frozenset(['priv'])
                elif i.op in ('sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr', 'and'):
                    x = C(i.ops[0])
                    if x:
                        if 'IV' in x and len(x) == 1:
                            d = self.key(i.ops[1])
                            if i.op in ('lshr', 'ashr') and i.ops[1].k == 'cint':
                                d = ('c', 1 << i.ops[1].v)
                            if i.op == 'and' and i.ops[1].k == 'cint':
                                d = ('c', i.ops[1].v + 1)
                            c = frozenset([('DIV' if i.op in ('sdiv', 'udiv', 'lshr', 'ashr') else 'REM', d)])
                        else:
                            c = frozenset(['DATA'])
                elif i.op in ('add', 'sub', 'mul', 'shl', 'or', 'sext', 'zext', 'trunc', 'freeze', 'phi', 'select', 'xor'):
                    ops = i.ops if i.op != 'select' else i.ops[1:]
                    for o in ops:
                        c |= C(o)
                    # quotient rebuilt from remainder: iv - (iv/d)*d
                    if i.op == 'sub' and 'IV' in C(i.ops[0]) and any(isinstance(t, tuple) and t[0] == 'DIV' for t in C(i.ops[1])):
                        c = frozenset(('REM', t[1]) for t in C(i.ops[1]) if isinstance(t, tuple))
                    if i.op in ('phi', 'select') and i.ty == 'ptr':
                        for o in ops:
                            b |= B(o)
                elif i.op == 'gep':
                    b = B(i.ops[0])
                    for o in i.ops:
                        c |= C(o)
                elif i.op in ('bitcast', 'addrspacecast'):
                    b, c = B(i.ops[0]), C(i.ops[0])
                elif i.op == 'alloca':
                    b = frozenset(['priv'])
                elif i.op == 'call':
                    n = capi.callee_name(self.u, i)
                    if n in PRIV_ALLOC:
                        b = frozenset(['priv'])
                    elif i.ty == 'ptr':
                        b = frozenset([('sh', ('call', n))])
                    if any(C(o) for o in i.ops):
                        c = frozenset(['DATA'])
                if c != comp.get(i.v, frozenset()) or b != base.get(i.v, frozenset()):
                    comp[i.v] = comp.get(i.v, frozenset()) | c
                    base[i.v] = base.get(i.v, frozenset()) | b
                    if comp[i.v] == c and base[i.v] == b:
                        ch = True
                    else:
                        ch = True
                    comp_changed = True
            # monotone: stop when a full round changes nothing
            snap = (tuple(sorted((k, tuple(sorted(map(str, v)))) for k, v in comp.items())), tuple(sorted((k, tuple(sorted(map(str, v)))) for k, v in base.items())))
            if getattr(self, '_snap', None) == snap:
                break
            self._snap = snap
            ch = True
        self.C, self.B = C, B
        self.guard()
        return self.check()

    def _root(self, a):
        while a.k == 'inst' and a.op in ('gep', 'bitcast'):
            a = a.ops[0]
        return a

    def guard(self):
        """must-analysis: inside critical/single/... at block entry"""
        fn = self.fn
        IN = {b.id: None for b in fn.blocks}
        IN[0] = 0
        work = [fn.blocks[0]]
        self.gin = IN
        while work:
            b = work.pop()
            g = IN[b.id]
            g = self._gflow(b, g)
            for s in b.succs:
                n = g if IN[s.id] is None else min(IN[s.id], g)
                if n != IN[s.id]:
                    IN[s.id] = n
                    work.append(s)

    def _gflow(self, b, g, upto=None):
        for i in b.ins:
            if i is upto:
                return g
            if i.op == 'call':
                n = capi.callee_name(self.u, i)
                if n in GUARD_ON:
                    g += 1
                elif n in GUARD_OFF:
                    g = max(0, g - 1)
        return g

    def ok_addr(self, c):
        if 'IV' in c:
            return True
        div = {x[1] for x in c if isinstance(x, tuple) and x[0] == 'DIV'}
        rem = {x[1] for x in c if isinstance(x, tuple) and x[0] == 'REM'}
        return bool(div & rem)

    def check(self):
        out = {}
        name = self.fn.short

        def rep(i, cons, msg):
            k = cons
            if k not in out:
                out[k] = Finding('race', '%s:%s:%s' % (self.u.src, name, cons), '%s:%s' % (i.file, i.line), msg)

        def chk(i, a, what):
            self.nstores += 1
            b = self.B(a)
            if b and all(x == 'priv' for x in b):
                return
            g = self.gin.get(i.bb.id) or 0
            g = self._gflow(i.bb, g, i)
            if g > 0:
                return
            self.nshared += 1
            c = self.C(a)
            direct = [x for x in b if isinstance(x, tuple) and x[0] == 'arg']
            if direct and not self.ok_addr(c):
                rep(i, '%s to shared variable #%s' % (what, direct[0][1]), 'the parallel region writes a variable shared by all threads (%s) without synchronisation' % what)
            elif not self.ok_addr(c):
                rep(i, '%s at shared array %s' % (what, sorted(map(str, b))), 'the parallel region writes a shared array at an address that does not identify the iteration (%s; address depends on %s)' % (what, sorted(map(str, c)) or 'nothing loop-distributed'))
        for i in self.fn.instrs():
            if i.op == 'store':
                chk(i, i.ops[1], 'store')
            elif i.op == 'call':
                n = capi.callee_name(self.u, i) or ''
                if n.startswith('llvm.mem') or n in WRITES:
                    chk(i, i.ops[0], n.split('.')[1] if n.startswith('llvm') else n)
                elif n.startswith(('fftwf_execute_', 'fftw_execute_')):
                    for o in i.ops[1:]:
                        chk(i, o, n)
                elif n in NOTSAFE:
                    rep(i, n, '%s runs the plan on its shared arrays from several threads' % n)
                elif capi.is_planner(n):
                    rep(i, n, 'FFTW planner function %s is entered from several threads' % n)
        return list(out.values())
