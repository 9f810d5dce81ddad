"""
Frame integrity rule, a path-sensitive typestate analysis on top of psim: on every path of a frame
reader, bytes are only looked at after the length of that read was found sufficient, a frame object
is only returned when all reads were complete and every sync bit of the format was compared equal,
a short read ends in EOFError, a sync mismatch in SyncError with the file at the documented position.
"""
from . import capi, psim, cbits, cheader, fspec
from .psim import Sim, N

LT = {'ult', 'slt'}
GE = {'uge', 'sge'}
GT = {'ugt', 'sgt'}
LE = {'ule', 'sle'}


class ReaderSim(Sim):
    def __init__(self, u, fn, frame, spec):
        Sim.__init__(self, u, fn)
        self.fr, self.spec = frame, spec
        self.want = frozenset((('f', b, k), (v >> k) & 1) for b, v in spec['sync'].items() for k in range(8))
        self.synccoord = {c for c, _ in self.want}
        self.nret = 0
        self.bounds = set(spec['ints'][spec['length']]) if spec.get('length') else None
        self.attrs = set(spec['ints']) | set(spec.get('exprs', ())) | set(spec.get('lists', ())) | {('payload', '_data')} - (
            {('payload', '_data')} if fspec.stem(u.src) == 'drspec' else set())

        self.modes = spec.get('modes', ())
        self.geom = {c for _, _, e in self.modes for c in e} | {c for f in spec.get('data', ((),))[0] for c in f}
        self.undecided = set()
        self.isvague = any(self.vague(i) for i in fn.instrs() if i.op in ('icmp', 'switch')) or self.looped() if self.modes else False
        self.asked = {}         # constant size requested through which static object
        lens = [i.ops[k] for i in fn.instrs() if i.op == 'icmp' for k in (0, 1) if i.ops[k].k == 'inst' and self._readlen(i.ops[1 - k]) is not None]
        keep, todo = set(), list(lens)
        while todo:
            x = todo.pop()
            if x.k == 'inst' and x.v not in keep:
                keep.add(x.v)
                todo.extend([v for v, _ in x.inc] if x.op == 'phi' else x.ops if x.op not in ('call', 'load') else ())
        self.keep = frozenset(i.v for i in fn.instrs() if i.v in keep and (i.op in ('phi', 'select')))

    def _readlen(self, x):
        """the read whose length x is"""
        while x.k == 'inst' and x.op in ('trunc', 'zext', 'sext', 'freeze'):
            x = x.ops[0]
        if x.k == 'inst' and x.op == 'call' and self.fr.cn.get(x.v) in cbits.SIZES and x.ops[0].k == 'inst' and x.ops[0].v in self.fr.reads:
            return x.ops[0].v
        return None

    def fact(self, s, *fs):
        s.facts = s.facts | frozenset(fs)

    def acquire(self, s, ins, fam, cal, status='M'):
        Sim.acquire(self, s, ins, fam, cal, status)
        if ins.v in self.fr.reads:
            s.facts = frozenset(f for f in s.facts if not (f[0] in ('len', 'short', 'read') and f[1] == ins.v)) | {('read', ins.v)}

    def pos(self, s):
        for f in s.facts:
            if f[0] == 'pos':
                return f[1]
        return 0

    def setpos(self, s, p):
        s.facts = frozenset(f for f in s.facts if f[0] != 'pos') | {('pos', p)}

    # -------------------------------------------------- decisions
    def split(self, s, c, want):
        known = self.ev(s, c)
        out = Sim.split(self, s, c, want)
        if known is None and c.k == 'inst' and c.op == 'icmp' and self.geom and ('sized',) not in s.facts:
            t = self.pterm(s, c)
            if cheader.known(t) and cheader.leaves(t) and cheader.leaves(t) <= self.geom:
                for x in out:
                    self.fact(x, ('con', t, want))
        if known is None and c.k == 'inst' and c.op == 'icmp':
            for t in out:
                self.learn(t, c, want)
        return out

    def pterm(self, s, v):
        """term of a value on the path of state s"""
        def look(x):
            e = s.env.get(x.v)
            return e[1] if x.op in ('phi', 'select') and e is not None and e[0] == 'C' else None
        t = self.fr.term(v, 0, look)
        a = cheader.alts(t)
        return a[0] if len(a) == 1 else ('?',)

    def on_switch(self, t, term, dst):
        x = self.pterm(t, term.ops[0])
        if not self.geom or not cheader.known(x) or not cheader.leaves(x) or not cheader.leaves(x) <= self.geom:
            return
        w = cbits.width(term.ops[0].ty)
        cs = [(c.v, d) for c, d in term.inc]
        here = [v for v, d in cs if d is dst]
        eq = lambda v: ('cmp', w, 'eq', x, ('bits', tuple((v >> k) & 1 for k in range(w))))
        if dst is not term.succ[0]:
            if len(here) == 1:
                self.fact(t, ('con', eq(here[0]), True))
            return
        if not here:
            for v, _ in cs:
                self.fact(t, ('con', eq(v), False))

    def consistent(self, s, env):
        """can a frame with these bits get here? (True also when unknown)"""
        for f in s.facts:
            if f[0] == 'con' and cheader.leaves(f[1]) <= set(env):
                v = cheader.value(f[1], env)
                if v is not None and bool(v & 1) != f[2]:
                    return False
        return True

    def looped(self):
        """is the geometry looked at inside a loop (whose iterations are not told apart)?"""
        for b in self.fn.blocks:
            cs = [i for i in b.ins if i.op == 'icmp' and any(x in self.geom for o in i.ops for x in self.fr.bits(o) if isinstance(x, tuple))]
            if not cs:
                continue
            seen, todo = set(), list(b.succs)
            while todo:
                x = todo.pop()
                if x is b:
                    return True
                if x.id not in seen:
                    seen.add(x.id)
                    todo.extend(x.succs)
        return False

    def vague(self, c):
        """does the decision look at frame bytes at a position that is not constant?"""
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x.k != 'inst' or x.v in seen or len(seen) > 60:
                continue
            seen.add(x.v)
            if x.op == 'load':
                a = self.fr.addr(x.ops[0])
                if a is None and x.ty != 'ptr' or a is not None and a[0] in 'DAM' and a[2] is None:
                    return True
            elif x.op == 'call':
                n = self.fr.cn.get(x.v) or ''
                if not n.startswith(('Py', '_Py', 'llvm.')) or n.startswith('llvm.mem') or n in ('memcmp', 'bcmp'):
                    return True
                if n.startswith('llvm.'):
                    todo.extend(x.ops)
            else:
                todo.extend([v for v, _ in x.inc] if x.op == 'phi' else x.ops)
        return False

    def candidates(self, s):
        if self.isvague:
            self.undecided.add('%s: geometry' % self.fn.short)
            return []
        return [(nm, sz) for nm, sz, env in self.modes if self.consistent(s, env)]

    # -------------------------------------------------- how much was asked for
    def root(self, v):
        while v.k == 'inst' and v.op in ('trunc', 'zext', 'sext', 'freeze'):
            v = v.ops[0]
        return v

    def static(self, v, seen=None):
        """static variables an object may have been loaded from"""
        seen = set() if seen is None else seen
        if v.k != 'inst' or v.v in seen:
            return set()
        seen.add(v.v)
        if v.op == 'phi':
            return set().union(*[self.static(x, seen) for x, _ in v.inc]) if v.inc else set()
        if v.op == 'select':
            return self.static(v.ops[1], seen) | self.static(v.ops[2], seen)
        if v.op in ('freeze', 'bitcast'):
            return self.static(v.ops[0], seen)
        if v.op == 'load' and v.ops[0].k == 'global':
            return {v.ops[0].v}
        return set()

    def request(self, s, ins):
        """remember how many bytes a read asks for: a constant, a value, or what a static object holds"""
        n = capi.callee_name(self.u, ins)
        r = None
        if n == 'PyObject_CallMethodObjArgs' and len(ins.ops) > 2:
            a = self.res(s, ins.ops[2])
            if a[0] == 'R':
                r = self.made(self.sites[a[1]][1])
            else:
                g = self.static(ins.ops[2])
                if len(g) == 1:
                    r = ('static', g.pop())
        elif n == 'PyObject_CallMethod' and len(ins.ops) > 3 and self.fr.cstr(ins.ops[2]) in ('i', 'I', 'l', 'k', 'n'):
            r = self.number(ins.ops[3])
        s.facts = frozenset(f for f in s.facts if not (f[0] == 'ask' and f[1] == ins.v))
        if r is not None:
            self.fact(s, ('ask', ins.v, r))

    def number(self, v):
        v = self.root(v)
        return ('n', v.v) if v.k == 'cint' else ('v', v.v) if v.k == 'inst' else None

    def made(self, i):
        n = capi.callee_name(self.u, i) or ''
        if n == 'Py_BuildValue' and len(i.ops) == 2 and self.fr.cstr(i.ops[0]) in ('i', 'I', 'l', 'k', 'n', 'L', 'K', 'h', 'H'):
            return self.number(i.ops[1])
        if n.startswith('PyLong_From') and len(i.ops) == 1:
            return self.number(i.ops[0])
        return None

    def judge_ask(self, t, c, site, y):
        """the number of bytes asked for is the number of bytes the length is compared with"""
        ask = [f[2] for f in t.facts if f[0] == 'ask' and f[1] == site]
        if not ask:
            return
        self.nobl += 1
        ask, want = ask[0], self.number(y)
        if ask[0] == 'static':
            g = ask[1]
            if want and want[0] == 'n':
                self.asked.setdefault(g, set()).add(want[1])
                return
            if ('holds', g, want) in t.facts or self._escapes(g):
                return
            self.report('request-size', t, c, 'size', 'the read asks for the size kept from an earlier frame (%s), which is not known to be that of this frame' % g)
        elif ask[0] == 'n' and want and want[0] == 'n' and ask[1] != want[1]:
            self.report('request-size', t, c, 'size', 'the read asks for %d bytes but its length is compared with %d' % (ask[1], want[1]))
        elif ask[0] != want[0] or ask != want:
            a, b = self.pterm(t, self._byid(ask)), self.pterm(t, self._byid(want))
            if cheader.known(a) and cheader.known(b) and cheader.differ(a, b):
                self.report('request-size', t, c, 'size', 'the read asks for another number of bytes than its length is compared with')

    def _byid(self, x):
        if x[0] == 'n':
            return psim_const(x[1])
        for i in self.fn.instrs():
            if i.v == x[1]:
                return i

    def _escapes(self, g):
        """is the static object looked at in a way that is not understood?"""
        for i in self.fn.instrs():
            if i.op == 'call' and i.v not in self.fr.reads:
                n = capi.callee_name(self.u, i) or ''
                if n.startswith(('PyLong_As', 'Py_DECREF', 'Py_XDECREF', '_Py_Dealloc', 'Py_DecRef', 'llvm.')) or n in capi.PYFREE:
                    continue
                if any(o.ty == 'ptr' and g in self.static(o) for o in i.ops):
                    return True
        return False

    def judge_length(self, t, c, y):
        """the number of bytes read after the header is what the header says"""
        if not self.spec.get('data'):
            return
        fields, length = self.spec['data']
        self.nobl += 1
        x = self.pterm(t, y)
        if not cheader.known(x) or not cheader.leaves(x) <= self.geom:
            self.undecided.add('%s: data length' % self.fn.short)
            return
        w = min(cbits.width(y.ty), 32)
        for vals in lengths([len(f) for f in fields]):
            env = {b: (v >> k) & 1 for f, v in zip(fields, vals) for k, b in enumerate(f)}
            if not self.consistent(t, env):
                continue
            n = length(vals)
            if n is None:
                self.report('unsynced-frame', t, c, 'length', 'a frame length smaller than the frame header is accepted (fields %s)' % (vals,))
                return
            v = cheader.value(x, env)
            if v is not None and (v - n) & ((1 << w) - 1):
                self.report('request-size', t, c, 'length', '%d bytes are read after a header whose fields %s mean %d bytes' % (v, vals, n))
                return

    def learn(self, t, c, want):
        if c.pred in ('eq', 'ne') and (c.pred == 'eq') == want:
            for x, y in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
                x = self.root(x)
                if x.k == 'inst' and x.op == 'call' and (self.fr.cn.get(x.v) or '').startswith('PyLong_As'):
                    g = self.static(x.ops[0])
                    if len(g) == 1 and self.number(y):
                        self.fact(t, ('holds', g.pop(), self.number(y)))
        for x, y, sw in ((c.ops[0], c.ops[1], False), (c.ops[1], c.ops[0], True)):
            site = self._readlen(x)
            if site is not None:
                p = c.pred
                if sw:
                    p = {'ult': 'ugt', 'slt': 'sgt', 'ugt': 'ult', 'sgt': 'slt', 'ule': 'uge', 'sle': 'sge', 'uge': 'ule', 'sge': 'sle'}.get(p, p)
                n = y.v if y.k == 'cint' else ('v', y.v)
                full = (p == 'eq' and want) or (p == 'ne' and not want) or (p in GE and want) or (p in LT and not want)
                if (p in GT and want) or (p in LE and not want):
                    full = True
                    n = n + 1 if isinstance(n, int) else n
                if full:
                    self.fact(t, ('len', site, n))
                    self.judge_ask(t, c, site, y)
                    if not isinstance(n, int):
                        self.judge_length(t, c, y)
                        if not self.modes:
                            t.facts = frozenset(f for f in t.facts if f[0] not in ('con', 'holds', 'ask')) | {('sized',)}
                    if isinstance(n, int) and not any(f[0] == 'counted' and f[1] == site for f in t.facts):
                        self.fact(t, ('counted', site))
                        if self.pos(t) is not None:
                            self.setpos(t, self.pos(t) + n)
                    elif not isinstance(n, int):
                        self.setpos(t, None)
                else:
                    self.fact(t, ('short', site))
                return
        for x, sw in ((c.ops[0], False), (c.ops[1], True)):
            if self.bounds and c.pred not in ('eq', 'ne') and set(self.fr.bits(x)) >= self.bounds:
                p = c.pred
                if sw:
                    p = {'ult': 'ugt', 'slt': 'sgt', 'ugt': 'ult', 'sgt': 'slt', 'ule': 'uge', 'sle': 'sge', 'uge': 'ule', 'sge': 'sle'}.get(p, p)
                ok = (p in GE | GT and want) or (p in LT | LE and not want)
                self.fact(t, ('bounded',) if ok else ('small',))
                return
        if c.pred not in ('eq', 'ne'):
            return
        a, b = self.fr.bits(c.ops[0]), self.fr.bits(c.ops[1])
        eq = (c.pred == 'eq') == want
        coords = set()
        new = []
        for x, y in zip(a, b):
            for p, q in ((x, y), (y, x)):
                neg = False
                while isinstance(p, tuple) and p[0] == 'n':
                    p, neg = p[1], not neg
                if isinstance(p, tuple) and p[0] == 'f' and q in (0, 1):
                    coords.add(p)
                    new.append(('bit', p, (1 - q) if neg else q))
        if eq:
            self.fact(t, *[f for f in new if f[1] in self.synccoord])
        elif coords & self.synccoord:
            self.fact(t, ('ne',))

    # -------------------------------------------------- accesses
    def touch(self, s, ins, a, what, deref=True):
        Sim.touch(self, s, ins, a, what, deref)
        if a[0] != 'D' or a[1] not in self.fr.reads or not deref:
            return
        self.nobl += 1
        lens = [f[2] for f in s.facts if f[0] == 'len' and f[1] == a[1]]
        if not lens:
            self.report('unchecked-length', s, ins, self.cons(a[1]), 'bytes of a read are used (%s) before its length was found sufficient' % what)
            return
        need = None
        if ins.op == 'load':
            ad = self.fr.addr(ins.ops[0])
            if ad and ad[0] == 'D' and ad[2] is not None:
                need = ad[2] + (cbits.width(ins.ty) or 8) // 8
        elif ins.op == 'call' and (capi.callee_name(self.u, ins) or '').startswith('llvm.mem') and what in ('memcpy', 'memmove'):
            z = ins.ops[2]
            ad = self.fr.addr(ins.ops[1])
            if z.k == 'cint' and ad and ad[2] is not None:
                need = ad[2] + z.v
            elif z.k == 'inst':
                if not any(self._samelen(z, l) for l in lens):
                    return
        if need is not None and lens and all(isinstance(l, int) for l in lens) and max(lens) < need:
            self.report('over-read', s, ins, self.cons(a[1]), '%d bytes are used of a read only known to hold %d' % (need, max(lens)))

    def _samelen(self, z, l):
        return True

    def call(self, s, ins):
        n = capi.callee_name(self.u, ins)
        if n == 'PyObject_CallMethod' and len(ins.ops) >= 4 and self.fr.cstr(ins.ops[1]) == 'seek':
            off = ins.ops[3]
            wh = ins.ops[4] if len(ins.ops) > 4 else None
            if off.k == 'cint' and wh is not None and wh.k == 'cint' and wh.v == 1 and self.pos(s) is not None:
                self.setpos(s, self.pos(s) + off.v)
            else:
                self.setpos(s, None)
        elif n == 'PyObject_SetAttrString' and ins.v is not None:
            nm = self.fr.cstr(ins.ops[1])
            if nm in {a[1] for a in self.attrs}:
                self.fact(s, ('set', nm))
        elif n in self.u.fns and '.omp_outlined' not in n:
            self.handover(s, ins, n)
        if ins.v in self.fr.reads:
            self.request(s, ins)
        return Sim.call(self, s, ins)

    def step(self, s, ins):
        if ins.op == 'store' and ins.ops[1].k == 'global' and ins.ops[0].ty != 'ptr':
            self.fact(s, ('kept', ins.ops[1].v))
        return Sim.step(self, s, ins)

    def sizes(self):
        """static objects this reader asks for constant sizes with"""
        out = set()
        for i in self.fn.instrs():
            if i.v in self.fr.reads and len(i.ops) > 2:
                out |= self.static(i.ops[2])
        return out

    def leave(self, s, ins, how):
        """the size object another geometry will use must not be the one of this geometry"""
        if not self.modes:
            return
        for g in self.sizes():
            self.nobl += 1
            if s.mem.get(('G', g, 0)) != N:
                self.report('request-size', s, ins, 'size', '%s while %s still holds the frame size of this geometry' % (how, g))

    def handover(self, s, ins, n):
        """another reader instance takes over: it must be the one for this frame"""
        other = self.peers.get(n) if hasattr(self, 'peers') else None
        if other is None or not self.modes:
            return
        self.leave(s, ins, 'the frame is handed to the reader of another geometry')
        cand = self.candidates(s)
        self.nobl += 1
        if not any(f[0] == 'con' for f in s.facts):
            self.undecided.add('%s: geometry' % self.fn.short)
        if len({nm for nm, _ in cand}) > 1 and all(sz == other for _, sz in cand):
            self.report('wrong-geometry', s, ins, 'retry', 'frames of %s are handed to the same reader' % ' and of '.join(sorted({nm for nm, _ in cand})))
        for nm, sz in cand:
            if sz != other:
                self.report('wrong-geometry', s, ins, 'retry', 'a frame of %s is handed to the reader of %d byte frames' % (nm, other))
                break

    # -------------------------------------------------- exits
    def at_return(self, t, term):
        Sim.at_return(self, t, term)
        if not term.ops or term.ops[0].ty != 'ptr':
            return
        v = self.res(t, term.ops[0])
        null = self.same(t, v, N)
        if v[0] == 'R' and self.sites[v[1]][2] in self.u.fns:
            return                      # another reader instance decides
        if any(f[0] == 'kept' for f in t.facts):
            self.leave(t, term, 'the geometry of the next frame is changed')
        short = [f for f in t.facts if f[0] == 'short']
        ne = ('ne',) in t.facts
        self.nret += 1
        if null is True:
            if short and not ne:
                if t.err != 'EOFError':
                    self.report('short-read-error', t, term, 'EOF', 'a short read ends in %s instead of EOFError' % t.err)
            elif ne and not short:
                if t.err != 'SyncError':
                    self.report('sync-error', t, term, 'sync', 'a sync word mismatch ends in %s instead of SyncError' % t.err)
            if ('small',) in t.facts and not short and t.err != 'SyncError':
                self.report('sync-error', t, term, 'length', 'an impossible frame length ends in %s instead of SyncError' % t.err)
            if t.err == 'SyncError':
                cand = self.candidates(t) if not ne and ('small',) not in t.facts else []
                if cand:
                    self.report('wrong-geometry', t, term, 'rejected', 'a well formed frame of %s is reported as a loss of synchronisation' % cand[0][0])
                p = self.pos(t)
                sizes = {r['size'] for r in self.fr.reads.values() if r['size']}
                if self.spec['after_sync_error'] == 'start' and p != 0:
                    self.report('sync-position', t, term, 'sync', 'SyncError is raised with the file %s bytes past the start of the frame' % p)
                elif self.spec['after_sync_error'] == 'consumed' and p not in sizes:
                    self.report('sync-position', t, term, 'sync', 'SyncError is raised with the file %s bytes past the start of the frame (one frame expected)' % p)
            return
        # a frame is returned
        if short:
            self.report('truncated-frame', t, term, 'return', 'a frame is returned although a read was short')
        for f in t.facts:
            if f[0] == 'read' and not any(g[0] == 'len' and g[1] == f[1] for g in t.facts) and not short:
                self.report('truncated-frame', t, term, 'return', 'a frame is returned although the length of a read was never checked')
        if self.bounds and ('bounded',) not in t.facts:
            self.report('unsynced-frame', t, term, 'length', 'a frame is returned although its length field was never compared with the header size')
        have = {(f[1], f[2]) for f in t.facts if f[0] == 'bit'}
        miss = [c for c, b in self.want if (c, b) not in have]
        if miss or ne:
            self.report('unsynced-frame', t, term, 'return', 'a frame is returned although %s' % (
                'its sync word differed' if ne else 'sync byte(s) %s were never compared with the expected value' % sorted({c[1] for c in miss})))
        own = {r['size'] for r in self.fr.reads.values()}
        mine = sorted({nm for nm, sz in self.candidates(t) if sz in own})
        if len(mine) > 1:
            self.report('wrong-geometry', t, term, 'shape', 'frames of %s are returned by the same reader' % ' and of '.join(mine))
        cand = [(nm, sz) for nm, sz in self.candidates(t) if sz not in own]
        for nm, sz in cand:
            self.nobl += 1
            big = fspec.stem(self.u.src) == 'cor' and sz > max(z for z in own if z)
            self.report('larger-frame' if big else 'wrong-geometry', t, term, '%d byte frames' % max(z for z in own if z), 'a frame of %s may be returned as one of %s bytes' % (nm, '/'.join(map(str, sorted(z for z in own if z)))))
            if not big:
                break
        sets = {f[1] for f in t.facts if f[0] == 'set'}
        lost = sorted(a[1] for a in self.attrs if a[1] not in sets)
        if lost:
            self.report('stale-field', t, term, 'return', 'a frame is returned on a path that never sets %s' % ', '.join(lost))


RULES = {'unchecked-length', 'over-read', 'short-read-error', 'sync-error', 'sync-position', 'truncated-frame', 'unsynced-frame', 'stale-field',
         'null-no-error', 'error-swallowed', 'request-size', 'wrong-geometry', 'larger-frame'}


def psim_const(n):
    class K(object):
        k, v, ty, op = 'cint', n, 'i64', None
    return K


def lengths(widths):
    """values of the size fields worth distinguishing: small ones, each bit, all bits, mixtures"""
    import itertools
    per = []
    for w in widths:
        m = (1 << w) - 1
        per.append(sorted({v & m for v in list(range(0, 9)) + [1 << k for k in range(w)] + [m, m >> 1, 0x5A5A5A5A & m, 0x33CC0F69 & m]}))
    return list(itertools.product(*per))


def analyse(units, res=None):
    from .cheader import readers
    from .common import AnalysisError
    out, n, st, nret = [], 0, 0, 0
    stems = set()
    und = set()
    todo = list(readers(units))
    peers = {}
    for u, f, fr, spec, stem in todo:
        zs = {r['size'] for r in fr.reads.values()}
        if len(zs) == 1:
            peers.setdefault(u.src, {})[f.name] = zs.pop()
    for u, f, fr, spec, stem in todo:
        sim = ReaderSim(u, f, fr, spec)
        sim.peers = peers.get(u.src, {})
        fs = sim.run()
        und |= sim.undecided
        out.extend(x for x in fs if x.rule in RULES)
        n += 1
        st += sim.visited
        nret += sim.nret
        stems.add(stem)
    if res is not None:
        res.count(reader_instances=n, path_states=st, exits_judged=nret)
        res.coverage['undecided_lengths'] = sorted(und)
        miss = set(fspec.FORMATS) - stems
        if miss:
            raise AnalysisError('no frame reader found for %s' % sorted(miss))
    d = {}
    for f in out:
        if f.rule == 'larger-frame':        # identified by what is misread, whatever the function is called
            f.construct = '%s:%s' % (f.construct.split(':')[0], f.construct.rsplit(':', 1)[-1])
        d.setdefault(f.key, f)
    return list(d.values())
