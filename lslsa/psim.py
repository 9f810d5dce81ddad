"""
Property simulation (ESP style) of one normalised C++ function: a path-sensitive
dataflow analysis whose state is the ownership status of every acquired resource,
the nullness facts and branch facts that guard them, and whether the interpreter
lock is held.  States merge when equal; nothing is executed and no solver is used.

Rules reported
  leak            an owned reference / allocation is still owned when the function returns
  over-release    a reference the function does not own (any more) is released
  use-released    an object or buffer is used after it was released
  unchecked       a possibly-NULL acquisition is dereferenced / released without a check
  mismatch        memory is released with a different family than it was allocated with
  gil-api         a Python API call is made while the lock is released
  gil-balance     the lock is released twice / reacquired while held / not held on return
  planner-nogil   the (process global) FFTW planner is entered without the lock
"""
from . import capi
from .common import Finding, AnalysisError

CAP = 60000

NULLOK_ARGS = {'Py_XDECREF', 'Py_XINCREF', 'free', 'fftwf_free', 'fftw_free', 'PyMem_Free', 'PyMem_RawFree', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm',
               'PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords', 'PyObject_SetAttrString', 'PyObject_CallObject', 'PyErr_Format', 'PyErr_SetString',
               'PyObject_CallMethodObjArgs'}
DERIVE = {'PyArray_DATA', 'PyArray_BYTES', 'PyArray_DIMS', 'PyArray_SHAPE', 'PyArray_STRIDES', 'PyBytes_AS_STRING', 'PyBytes_AsString', 'PyUnicode_AsUTF8'}
def can_fail(cal):
    """acquisitions whose failure depends on the caller's input (not only on memory exhaustion of a few bytes)"""
    return cal is not None and (cal.startswith('PyObject_') or (cal.startswith('PyArray_') and cal not in ('PyArray_DescrFromType',))
                                or cal in ('PySequence_GetItem', 'PyImport_ImportModule', 'fopen', 'fopen64'))


INC = {'Py_INCREF', 'Py_XINCREF', 'Py_IncRef'}
DEC = {'Py_DECREF', 'Py_XDECREF', 'Py_DecRef'}
U = ('U',)
N = ('N',)


class St(object):
    __slots__ = ('env', 'st', 'mem', 'cond', 'gil', 'err', 'facts', 'par', 'key', 'note')

    def __init__(self):
        self.env, self.st, self.mem, self.cond, self.gil = {}, {}, {}, {}, 'H'
        self.err = '-'             # pending exception: '-' none, '?' unknown, else what was raised
        self.facts = frozenset()   # rule specific facts (subclasses)
        self.par = None
        self.note = None

    def copy(self):
        s = St()
        s.env, s.st, s.mem, s.cond, s.gil = dict(self.env), dict(self.st), dict(self.mem), dict(self.cond), self.gil
        s.err, s.facts = self.err, self.facts
        s.par = self.par
        return s

    def freeze(self):
        return (frozenset(self.env.items()), frozenset(self.st.items()), frozenset(self.mem.items()),
                frozenset(self.cond.items()), self.gil, self.err, self.facts)


class Sim(object):
    def __init__(self, unit, fn, region=False):
        self.u, self.fn = unit, fn
        self.region = region
        self.keep = frozenset()    # values kept in the state after their last use (subclasses)
        self.findings = {}
        self.sites = {}            # site id -> (family, instr, callee)
        self.visited = 0
        self.nobl = 0
        self._uses()
        self._live()

    # ------------------------------------------------------------------ prep
    def _uses(self):
        self.uses = {}
        for i in self.fn.instrs():
            for o in (i.ops or []):
                if o.k in ('inst', 'arg'):
                    self.uses.setdefault(id(o), []).append(i)
        # branch conditions that steer more than one decision
        self.multi = set()
        cnt = {}
        for i in self.fn.instrs():
            if i.op in ('br', 'select') and i.ops:
                c = i.ops[0]
                if i.op == 'br' and (len(i.succ) < 2):
                    continue
                for a in self._atoms(c):
                    cnt[id(a)] = cnt.get(id(a), 0) + 1
        self.multi = {k for k, v in cnt.items() if v > 1}

    def _atoms(self, c, d=0):
        if c.k != 'inst' or d > 6:
            return [c]
        if c.op in ('and', 'or', 'xor') and c.ty == 'i1':
            return self._atoms(c.ops[0], d + 1) + self._atoms(c.ops[1], d + 1)
        if c.op == 'select' and c.ty == 'i1':
            return [x for o in c.ops for x in self._atoms(o, d + 1)]
        return [c]

    def _live(self):
        """Liveness of SSA values (ids) at block entry."""
        use, dfn, phiuse = {}, {}, {}
        for b in self.fn.blocks:
            us, ds = set(), set()
            for i in b.ins:
                if i.op == 'phi':
                    ds.add(i.v)
                    for v, p in i.inc:
                        if v.k == 'inst':
                            phiuse.setdefault(p.id, set()).add(v.v)
                    continue
                for o in i.ops:
                    if o.k == 'inst' and o.v not in ds:
                        us.add(o.v)
                if i.callee is not None and i.callee.k == 'inst' and i.callee.v not in ds:
                    us.add(i.callee.v)
                ds.add(i.v)
            use[b.id], dfn[b.id] = us, ds
        # transitive operands: an address computed from a value keeps that value relevant
        live = {b.id: set() for b in self.fn.blocks}
        ch = True
        deps = {}
        for i in self.fn.instrs():
            if i.op in ('gep', 'bitcast', 'select', 'icmp', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'freeze'):
                deps[i.v] = [o.v for o in i.ops if o.k == 'inst']

        def close(s):
            todo = list(s)
            s = set(s)
            while todo:
                x = todo.pop()
                for y in deps.get(x, ()):
                    if y not in s:
                        s.add(y)
                        todo.append(y)
            return s
        use = {k: close(v) for k, v in use.items()}
        phiuse = {k: close(v) for k, v in phiuse.items()}
        while ch:
            ch = False
            for b in reversed(self.fn.blocks):
                out = set(phiuse.get(b.id, ()))
                for s in b.succs:
                    out |= live[s.id]
                new = use[b.id] | (out - dfn[b.id])
                # values defined here but used through closure stay harmlessly live
                if new != live[b.id]:
                    live[b.id] = new
                    ch = True
        self.live = live
        self.liveout = {}
        for b in self.fn.blocks:
            out = set(phiuse.get(b.id, ()))
            for s in b.succs:
                out |= live[s.id]
            self.liveout[b.id] = out

    # ------------------------------------------------------------------ values
    def res(self, s, v):
        """Abstract value of operand v in state s."""
        if v.k in ('null',):
            return N
        if v.k == 'cint':
            return ('C', v.v)
        if v.k == 'arg':
            return ('B', 'arg%d' % v.v) if v.ty == 'ptr' else U
        if v.k == 'global':
            return ('G', v.v, 0)
        if v.k == 'func':
            return ('F', v.v)
        if v.k == 'cexpr':
            if v.v == 'gep' and v.ops[0].k == 'global' and not v.x[1]:
                return ('G', v.ops[0].v, v.x[0])
            return U
        if v.k != 'inst':
            return U
        if v.v in s.env:
            return s.env[v.v]
        op = v.op
        if op == 'alloca':
            return ('A', v.v, 0)
        if op in ('bitcast', 'freeze', 'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
            return self.res(s, v.ops[0])
        if op == 'gep':
            b = self.res(s, v.ops[0])
            if b[0] in ('A', 'G'):
                return (b[0], b[1], b[2] + v.goff) if not v.gidx and b[2] is not None else (b[0], b[1], None)
            if b[0] == 'R':
                return b if (not v.gidx and v.goff == 0) else ('I', b[1])
            if b[0] in ('I', 'D'):
                return b
            return U
        return U

    def target(self, a):
        """resource key reached through abstract value a, or None"""
        if a[0] in ('R', 'I', 'D'):
            return a[1]
        if a[0] == 'B':
            return a
        return None

    # ------------------------------------------------------------------ reporting
    def path(self, s):
        lines = []
        n = 0
        while s is not None and n < 400:
            if s.note:
                if not lines or lines[-1] != s.note:
                    lines.append(s.note)
            s = s.par
            n += 1
        lines.reverse()
        out = []
        for l in lines:
            if not out or out[-1] != l:
                out.append(l)
        return out[-25:]

    def desc(self, site):
        if site in self.sites:
            fam, ins, cal = self.sites[site]
            return '%s() result' % cal
        return str(site)

    def report(self, rule, s, ins, construct, msg):
        if rule == 'unchecked' and not can_fail(construct.split('#')[0]):
            return
        key = (rule, construct)
        if key not in self.findings:
            f = Finding(rule, '%s:%s:%s' % (self.u.src, self.fn.short, construct), '%s:%s' % (ins.file or self.u.src, ins.line),
                        msg + '; path lines: ' + ' -> '.join(self.path(s) + [str(ins.line)]))
            f.site = None
            self.findings[key] = f

    def cons(self, site):
        """Construct label of a resource: callee + ordinal of that callee within function (position independent of lines)."""
        if site in self.sites:
            fam, ins, cal = self.sites[site]
            return '%s#%s' % (cal, self._varname(ins) or self._ordinal(ins, cal))
        if isinstance(site, tuple):
            return '%s(%s)' % ('borrowed', site[1])
        return str(site)

    def _ordinal(self, ins, cal):
        n = 0
        for i in self.fn.instrs():
            if i.op == 'call' and capi.callee_name(self.u, i) == cal:
                n += 1
                if i is ins:
                    break
        return n

    def _varname(self, ins):
        return None

    # ------------------------------------------------------------------ events
    def acquire(self, s, ins, fam, cal, status='M'):
        site = ins.v
        self.sites[site] = (fam, ins, cal)
        old = s.st.get(site)
        if old and old[0] in 'MO' and old[1] > 0:
            self.report('leak', s, ins, self.cons(site), '%s is acquired again while the previous one is still owned' % self.desc(site))
        s.st[site] = (status, 1)
        s.env[ins.v] = ('R', site)
        for k in [k for k, v in s.env.items() if k != ins.v and v[0] in 'RID' and v[1] == site]:
            s.env[k] = U
        for k in [k for k, v in s.mem.items() if v[0] in 'RID' and v[1] == site]:
            s.mem[k] = U

    def consume(self, s, ins, a, how):
        """caller's reference a is handed over"""
        if a[0] == 'R':
            st = s.st.get(a[1])
            if st is None:
                return
            if st[0] == 'F':
                self.report('use-released', s, ins, self.cons(a[1]), '%s is %s after it was released' % (self.desc(a[1]), how))
            elif st[0] in 'MO':
                n = st[1] - 1
                s.st[a[1]] = (st[0], n) if n > 0 else ('T', 0)
            elif st[0] == 'T':
                self.report('over-release', s, ins, self.cons(a[1]), '%s is %s although its reference was already given away' % (self.desc(a[1]), how))
        elif a[0] == 'B' and a in s.st:
            n = s.st[a][1] - 1
            if n <= 0:
                del s.st[a]
            else:
                s.st[a] = ('O', n)

    def release(self, s, ins, a, fam, cal, xok):
        self.nobl += 1
        if a[0] == 'R':
            site = a[1]
            st = s.st.get(site)
            if st is None:
                return
            sf = self.sites[site][0]
            if sf != fam:
                self.report('mismatch', s, ins, self.cons(site), '%s (%s) is released with %s (%s)' % (self.desc(site), sf, cal, fam))
            if st[0] == 'M' and not xok:
                self.report('unchecked', s, ins, self.cons(site), '%s may be NULL when %s is called on it' % (self.desc(site), cal))
            if st[0] == 'Z':
                if not xok:
                    self.report('unchecked', s, ins, self.cons(site), '%s is NULL when %s is called on it' % (self.desc(site), cal))
                return
            if st[0] == 'F':
                self.report('over-release', s, ins, self.cons(site), '%s is released a second time by %s' % (self.desc(site), cal))
                return
            if st[0] == 'T':
                self.report('over-release', s, ins, self.cons(site), '%s is released by %s although its reference was already given away' % (self.desc(site), cal))
                return
            n = st[1] - 1
            s.st[site] = ('F', 0) if n <= 0 else (st[0], n)
        elif a[0] == 'B':
            st = s.st.get(a)
            if st is None or st[1] <= 0:
                self.report('over-release', s, ins, self.cons(a), 'borrowed reference %s is released by %s' % (a[1], cal))
            else:
                n = st[1] - 1
                if n <= 0:
                    del s.st[a]
                else:
                    s.st[a] = ('O', n)
        elif a[0] == 'I':
            self.report('mismatch', s, ins, self.cons(a[1]), 'pointer into %s is released by %s' % (self.desc(a[1]), cal))
        elif a == N and not xok:
            self.report('unchecked', s, ins, 'NULL@' + cal, 'NULL is released by %s' % cal)

    def unglobal(self, s, ins, a):
        old = s.mem.get(a)
        if old and old[0] == 'R' and s.st.get(old[1], ('?', 0))[0] == 'G':
            self.report('leak', s, ins, self.cons(old[1]), '%s held by a static variable is overwritten without being released' % self.desc(old[1]))
            s.st.pop(old[1], None)

    def touch(self, s, ins, a, what, deref=True):
        """a is read/written through"""
        if a[0] in ('R', 'I', 'D'):
            st = s.st.get(a[1])
            if st is None:
                return
            if st[0] == 'F':
                self.report('use-released', s, ins, self.cons(a[1]), '%s is used (%s) after it was released' % (self.desc(a[1]), what))
            elif deref and st[0] == 'M':
                self.report('unchecked', s, ins, self.cons(a[1]), '%s may be NULL when it is used (%s)' % (self.desc(a[1]), what))
                s.st[a[1]] = ('O', st[1])

    # ------------------------------------------------------------------ conditions
    def ev(self, s, c):
        """True/False/None for i1 value c."""
        if c.k == 'cint':
            return bool(c.v)
        if c.k != 'inst':
            return None
        if c.v in s.cond:
            return s.cond[c.v]
        if c.v in s.env and s.env[c.v][0] == 'C':
            return bool(s.env[c.v][1])
        if c.op == 'icmp' and c.pred in ('eq', 'ne'):
            a, b = self.res(s, c.ops[0]), self.res(s, c.ops[1])
            r = self.same(s, a, b)
            if r is None:
                return None
            return r if c.pred == 'eq' else (not r)
        if c.op == 'icmp':
            a, b = self.res(s, c.ops[0]), self.res(s, c.ops[1])
            if a[0] == 'C' and b[0] == 'C':
                x, y = a[1], b[1]
                if c.pred[0] == 'u' and (x < 0 or y < 0):
                    return None
                return {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[c.pred[1:]]
            return None
        if c.op == 'xor':
            a, b = self.ev(s, c.ops[0]), self.ev(s, c.ops[1])
            return None if a is None or b is None else (a != b)
        if c.op in ('and', 'or'):
            a, b = self.ev(s, c.ops[0]), self.ev(s, c.ops[1])
            if c.op == 'and':
                if a is False or b is False:
                    return False
                return True if (a and b) else None
            if a or b:
                return True
            return False if (a is False and b is False) else None
        if c.op == 'select' and c.ty == 'i1':
            k = self.ev(s, c.ops[0])
            if k is not None:
                return self.ev(s, c.ops[1] if k else c.ops[2])
        if c.op == 'freeze':
            return self.ev(s, c.ops[0])
        return None

    def same(self, s, a, b):
        def null(x):
            if x == N or x == ('C', 0):
                return True
            if x[0] == 'R':
                st = s.st.get(x[1])
                if st is None:
                    return None
                if st[0] == 'Z':
                    return True
                if st[0] == 'M':
                    return None
                return False
            if x[0] in ('A', 'G', 'F', 'NZ'):
                return False
            if x[0] == 'C':
                return x[1] == 0
            return None
        na, nb = null(a), null(b)
        if na and nb:
            return True
        if (na and nb is False) or (nb and na is False):
            return False
        if a[0] == 'C' and b[0] == 'C':
            return a[1] == b[1]
        if a[0] == 'R' and a == b:
            return True
        return None

    def split(self, s, c, want):
        """States refining s in which i1 value c equals want."""
        r = self.ev(s, c)
        if r is not None:
            return [s] if r == want else []
        if c.k == 'inst':
            if c.op in ('freeze',):
                return self.split(s, c.ops[0], want)
            if c.op == 'xor' and c.ops[1].k == 'cint':
                return self.split(s, c.ops[0], want != bool(c.ops[1].v))
            if c.op in ('and', 'or') or (c.op == 'select' and c.ty == 'i1' and
                                         (c.ops[1].k == 'cint' or c.ops[2].k == 'cint')):
                if c.op == 'select':
                    if c.ops[1].k == 'cint' and c.ops[1].v:      # a ? true : b   == a or b
                        op, x, y = 'or', c.ops[0], c.ops[2]
                    elif c.ops[2].k == 'cint' and not c.ops[2].v:   # a ? b : false == a and b
                        op, x, y = 'and', c.ops[0], c.ops[1]
                    else:
                        op = None
                else:
                    op, x, y = c.op, c.ops[0], c.ops[1]
                if op:
                    out = []
                    for t in self.split(s.copy(), x, op == 'or'):
                        # decisive value of x
                        if (op == 'or') == want:
                            out.append(t)
                    for t in self.split(s.copy(), x, op != 'or'):
                        out.extend(self.split(t, y, want))
                    if op == 'or' and not want or op == 'and' and want:
                        out = []
                        for t in self.split(s.copy(), x, want):
                            out.extend(self.split(t, y, want))
                    return out
            if c.op == 'icmp' and c.pred in ('eq', 'ne'):
                eq = (c.pred == 'eq') == want
                for x, y in ((c.ops[0], c.ops[1]), (c.ops[1], c.ops[0])):
                    a, b = self.res(s, x), self.res(s, y)
                    if a[0] == 'R' and (b == N or b == ('C', 0)):
                        t = s.copy()
                        st = t.st[a[1]]
                        t.st[a[1]] = ('Z', 0) if eq else ('O', st[1])
                        if eq and self.sites[a[1]][0] == 'py':
                            t.err = 'error of %s' % self.sites[a[1]][2]
                        if id(c) in self.multi:
                            t.cond[c.v] = want
                        return [t]
                    if eq and b[0] == 'C' and x.k == 'inst' and x.op not in ('icmp',) and a == U:
                        t = s.copy()
                        if self._refinable(x):
                            t.env[x.v] = b
                        if id(c) in self.multi:
                            t.cond[c.v] = want
                        return [t]
            t = s.copy()
            if t.err == '-' and self._pyresult(c):
                t.err = '?'
            if id(c) in self.multi:
                t.cond[c.v] = want
            return [t]
        return [s.copy()]

    def _pyresult(self, c):
        """does the decision c look at the status of a Python API call?"""
        todo, n = [c], 0
        while todo and n < 30:
            x = todo.pop()
            n += 1
            if x.k != 'inst':
                continue
            if x.op == 'call':
                nm = capi.callee_name(self.u, x) or ''
                if nm.startswith(('Py', '_Py')) and nm not in capi.GIL_FREE:
                    return True
            elif x.op in ('icmp', 'and', 'or', 'xor', 'trunc', 'zext', 'sext', 'freeze', 'select', 'ptrtoint'):
                todo.extend(x.ops)
        return False

    def _refinable(self, x):
        return len(self.uses.get(id(x), ())) > 1

    # ------------------------------------------------------------------ transfer
    def step(self, s, ins):
        """apply one non-terminator, non-phi instruction; returns list of states"""
        op = ins.op
        if s.cond and ins.v in s.cond:
            del s.cond[ins.v]
        if ins.v in s.env and op not in ('phi',):
            del s.env[ins.v]
        if op == 'load':
            a = self.res(s, ins.ops[0])
            self.touch(s, ins, a, 'load')
            if ins.ty == 'ptr' or a[0] in ('A', 'G'):
                v = U
                if a[0] in ('A', 'G') and a[2] is not None:
                    v = s.mem.get(a, U)
                s.env[ins.v] = v
            return [s]
        if op == 'store':
            v, a = self.res(s, ins.ops[0]), self.res(s, ins.ops[1])
            self.touch(s, ins, a, 'store')
            if a[0] == 'A':
                if a[2] is None:
                    for k in [k for k in s.mem if k[0] == 'A' and k[1] == a[1]]:
                        del s.mem[k]
                    if v[0] == 'R':
                        self.consume(s, ins, v, 'stored')
                elif v == U:
                    s.mem.pop(a, None)
                else:
                    s.mem[a] = v
            elif a[0] == 'G':
                if v[0] == 'R' and ins.ops[0].ty == 'ptr':
                    self.unglobal(s, ins, a)
                    self.consume(s, ins, v, 'stored globally')
                    if s.st.get(v[1], ('?', 0)) == ('T', 0):
                        s.st[v[1]] = ('G', 1)
                    s.mem[a] = v
                else:
                    self.unglobal(s, ins, a)
                    s.facts = frozenset(f for f in s.facts if not (f[0] == 'gb' and f[1] == a))
                    if v[0] == 'B' and v not in s.st and v[1].startswith('parsed') and ins.ops[0].ty == 'ptr':
                        s.facts = s.facts | {('gb', a, v)}
                    elif v[0] == 'B':
                        self.consume(s, ins, v, 'stored globally')
                    s.mem[a] = v if v == N else U
                    if s.mem[a] == U:
                        del s.mem[a]
            elif v[0] == 'R' and ins.ops[0].ty == 'ptr':
                self.consume(s, ins, v, 'stored')
            return [s]
        if op == 'select' and (ins.ty == 'ptr' or (ins.ty != 'i1' and self._constsel(ins))):
            out = []
            for w in (True, False):
                for t in self.split(s.copy(), ins.ops[0], w):
                    v = self.res(t, ins.ops[1] if w else ins.ops[2])
                    if v == U:
                        t.env.pop(ins.v, None)
                    else:
                        t.env[ins.v] = v
                    out.append(t)
            return out
        if op in ('call', 'invoke'):
            return self.call(s, ins)
        return [s]

    def call(self, s, ins):
        u = self.u
        n = capi.callee_name(u, ins)
        if n and n.startswith('llvm.'):
            if n.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')):
                for o in ins.ops[:2]:
                    if o.ty == 'ptr':
                        self.touch(s, ins, self.res(s, o), n.split('.')[1])
                a = self.res(s, ins.ops[0])
                if a[0] == 'A':
                    for k in [k for k in s.mem if k[0] == 'A' and k[1] == a[1]]:
                        del s.mem[k]
            return [s]
        args = [self.res(s, o) for o in ins.ops]
        # ---- lock
        if n == 'PyEval_SaveThread':
            self.nobl += 1
            if s.gil != 'H':
                self.report('gil-balance', s, ins, 'SaveThread', 'interpreter lock released while it is not held')
            s.gil = 'R'
            return [s]
        if n == 'PyEval_RestoreThread':
            self.nobl += 1
            if s.gil == 'H':
                self.report('gil-balance', s, ins, 'RestoreThread', 'interpreter lock reacquired while it is already held')
            s.gil = 'H'
            return [s]
        if n == 'PyGILState_Ensure':
            s.env[ins.v] = ('gilstate', s.gil)
            s.gil = 'H'
            return [s]
        if n == 'PyGILState_Release':
            s.gil = args[0][1] if args[0][0] == 'gilstate' else 'R'
            return [s]
        if s.gil == 'R':
            if capi.needs_gil(n) or self._proj_py(ins, n):
                self.nobl += 1
                self.report('gil-api', s, ins, '%s#%s' % (n, self._ordinal(ins, n)), 'Python API %s is called while the interpreter lock is released' % n)
            if capi.is_planner(n):
                self.nobl += 1
                self.report('planner-nogil', s, ins, '%s' % n, 'FFTW planner function %s is entered without holding the interpreter lock' % n)
        elif capi.is_planner(n) or capi.needs_gil(n):
            self.nobl += 1
        # ---- use checks
        if n in INC:
            a = args[0]
            if a[0] == 'R':
                st = s.st.get(a[1])
                if st:
                    if st[0] == 'F':
                        self.touch(s, ins, a, n)
                    elif st[0] == 'T':
                        s.st[a[1]] = ('O', 1)
                    elif st[1] < 4:
                        s.st[a[1]] = (st[0], st[1] + 1)
            elif a[0] == 'B' and any(f[0] == 'gb' and f[2] == a for f in s.facts):
                s.facts = s.facts - {next(f for f in sorted(s.facts, key=str) if f[0] == 'gb' and f[2] == a)}
            elif a[0] == 'B':
                c = s.st.get(a, ('O', 0))[1]
                s.st[a] = ('O', min(c + 1, 4))
            return [s]
        if n in DEC:
            self.release(s, ins, args[0], 'py', n, n == 'Py_XDECREF')
            return [s]
        if n in capi.FREE:
            fam = capi.FREE[n]
            self.release(s, ins, args[0], fam, n, fam not in ('file', 'plan'))
            return [s]
        for k, a in enumerate(args):
            if a[0] in ('R', 'I', 'D'):
                self.touch(s, ins, a, 'argument of %s' % (n or 'an indirect call'), deref=(n not in NULLOK_ARGS and not (n or '').startswith('__kmpc')))
        if n == 'posix_memalign':
            out = []
            ok = s.copy()
            self.acquire(ok, ins, 'heap', n, 'O')
            ok.env[ins.v] = ('C', 0)
            if args[0][0] in ('A', 'G') and args[0][2] is not None:
                ok.mem[args[0]] = ('R', ins.v)
            out.append(ok)
            bad = s.copy()
            bad.env[ins.v] = ('NZ',)
            out.append(bad)
            return out
        if n in ('PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords', 'PyArg_Parse', '_PyArg_ParseTuple_SizeT', '_PyArg_ParseTupleAndKeywords_SizeT'):
            out = []
            for okk in (True, False):
                t = s.copy()
                for o, a in zip(ins.ops, args):
                    if a[0] == 'A' and a[2] is not None:
                        if okk:
                            t.mem[a] = ('B', 'parsed%d' % a[1]) if self._ptr_slot(a[1]) and a not in s.mem else ('B', 'parsed%d' % a[1]) if self._ptr_slot(a[1]) else U
                            if t.mem[a] == U:
                                del t.mem[a]
                t.env[ins.v] = ('C', 1) if okk else ('C', 0)
                if not okk:
                    t.err = 'error of %s' % n
                out.append(t)
            return out
        if n in ('PyErr_Format', 'PyErr_SetString', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_NoMemory', 'PyErr_BadArgument', 'PyErr_SetFromErrno', 'PyErr_FormatV'):
            s.err = self._excname(s, ins)
            if n in ('PyErr_Format', 'PyErr_NoMemory', 'PyErr_SetFromErrno', 'PyErr_FormatV'):
                s.env[ins.v] = N
            return [s]
        if n in ('PyErr_Clear', 'PyErr_Print', 'PyErr_WriteUnraisable', 'PyErr_PrintEx', 'PyErr_GetRaisedException', 'PyErr_Fetch'):
            s.err = '-'
        elif n in ('PyErr_Restore', 'PyErr_SetRaisedException'):
            s.err = '?'
        # ---- ownership transfer
        if n in capi.STEALS:
            for k in capi.STEALS[n]:
                if k < len(args):
                    self.consume(s, ins, args[k], 'given to %s' % n)
        if n == 'Py_BuildValue' and ins.ops and ins.ops[0].k == 'global':
            fmt = u.strings.get(ins.ops[0].v, b'').decode('latin1')
            k = 1
            for ch in fmt:
                if ch in '()[]{}, \t:\0':
                    continue
                if ch == 'N' and k < len(args):
                    self.consume(s, ins, args[k], 'given to Py_BuildValue')
                k += 1
        if n in capi.PASSTHRU:
            a = args[capi.PASSTHRU[n]]
            if a != U:
                s.env[ins.v] = a
            return [s]
        # addresses handed to unknown callees: contents unknown afterwards
        if not (n or '').startswith('__kmpc') and n not in ('PyObject_SetAttrString',):
            for a in args:
                if a[0] == 'A' and not self._reader_only(n):
                    for kk in [kk for kk in s.mem if kk[0] == 'A' and kk[1] == a[1]]:
                        del s.mem[kk]
        if n in capi.NEWREF or (ins.ty == 'ptr' and self._returns_obj(ins, n)):
            self.acquire(s, ins, 'py', n)
            return [s]
        if n in capi.ALLOC:
            self.acquire(s, ins, capi.ALLOC[n], n, 'O' if n in ('_Znwm', '_Znam') else 'M')
            return [s]
        if capi.is_mkplan(n):
            self.acquire(s, ins, 'plan', n, 'O')
            return [s]
        if n in DERIVE and args[0][0] in ('R',):
            s.env[ins.v] = ('D', args[0][1])
            return [s]
        if n in capi.BORROWED:
            s.env[ins.v] = ('B', '%s#%d' % (n, ins.v))
            return [s]
        return [s]

    def _excname(self, s, ins):
        if not ins.ops:
            return 'exception'
        o = ins.ops[0]
        if o.k == 'inst' and o.op == 'load':
            g = o.ops[0]
            if g.k == 'cexpr' and g.ops:
                g = g.ops[0]
            if g.k == 'global':
                n = self.u.short.get(g.v, g.v)
                return n[2:] if n.startswith('_ZL') else n
        return 'exception'

    def _ptr_slot(self, aid):
        for i in self.fn.instrs():
            if i.v == aid:
                return i.aty == 'ptr'
        return False

    def _reader_only(self, n):
        return n in ('PyArray_Zeros', 'PyArray_New', 'PyArray_Newshape', 'PyArray_Transpose', 'PyArray_MultiplyList', 'PyArray_Empty')

    def _proj_py(self, ins, n):
        return n in self.u.fns and '.omp_outlined' not in n and not (self.u.fns[n].file or '/').startswith('/')

    def _returns_obj(self, ins, n):
        """project functions kept as calls (recursive) that return an object"""
        if n in self.u.fns and '.omp_outlined' not in n:
            d = self.u.dem.get(n, '')
            return '_object' in d or 'PyObject' in d or n.startswith('_Z') and d.startswith('_object*')
        return False

    # ------------------------------------------------------------------ main loop
    def run(self):
        s0 = St()
        s0.gil = 'R' if self.region else 'H'
        entry = self.fn.blocks[0]
        work = [(entry, None, s0)]
        seen = {b.id: set() for b in self.fn.blocks}
        while work:
            b, pred, s = work.pop()
            # phis (parallel)
            if pred is not None:
                newv = {}
                for i in b.ins:
                    if i.op != 'phi':
                        break
                    for v, p in i.inc:
                        if p is pred:
                            newv[i] = (self.res(s, v), self.ev(s, v) if i.ty == 'i1' else None)
                            break
                if newv:
                    s = s.copy()
                for i, (v, e) in newv.items():
                    if e is not None:
                        v = ('C', int(e))
                    if v == U or (v[0] == 'C' and i.ty not in ('i1', 'ptr') and not self._flagphi(i)):
                        s.env.pop(i.v, None)
                    else:
                        s.env[i.v] = v
                    s.cond.pop(i.v, None)
            lv = self.live[b.id] | {i.v for i in b.ins if i.op == 'phi'} | self.keep
            for k in [k for k in s.env if k not in lv]:
                del s.env[k]
            for k in [k for k in s.cond if k not in lv]:
                del s.cond[k]
            for k in [k for k, v in s.st.items() if v[0] in 'FTZ']:
                if not any(v[0] in 'RID' and v[1] == k for v in s.env.values()) and not any(v[0] in 'RID' and v[1] == k for v in s.mem.values()):
                    del s.st[k]
            key = s.freeze()
            if key in seen[b.id]:
                continue
            seen[b.id].add(key)
            self.visited += 1
            if self.visited > CAP:
                raise AnalysisError('state budget exceeded in %s:%s' % (self.u.src, self.fn.short))
            states = [s.copy()]
            for t in states:
                t.par = s
            for i in b.ins:
                if i.op == 'phi' or i.succ is not None:
                    continue
                nxt = []
                for t in states:
                    nxt.extend(self.step(t, i))
                states = nxt
            term = b.ins[-1]
            for t in states:
                self.term(t, b, term, s, work)
        return list(self.findings.values())

    def on_switch(self, t, term, dst):
        """the switch on an unknown value leaves for dst (subclasses)"""

    def is_method(self):
        """does the function implement a Python-callable (object result)?"""
        return '(_object*, _object*' in self.fn.pretty

    def at_return(self, t, term):
        if not term.ops or term.ops[0].ty != 'ptr' or not self.is_method():
            return
        self.nobl += 1
        v = self.res(t, term.ops[0])
        null = self.same(t, v, N)
        if null is True and t.err == '-':
            self.report('null-no-error', t, term, 'return', 'NULL is returned although no exception was raised')
        elif null is False or (null is None and v[0] == 'R'):
            if t.err not in ('-', '?'):
                self.report('error-swallowed', t, term, 'return', 'a result is returned although %s was raised' % t.err)

    def _flagphi(self, i):
        """small integer phi used as a status flag (compared with constants, steering branches)"""
        return i.ty.startswith('i') and all(v.k in ('cint', 'undef') or (v.k == 'inst' and (v.op == 'phi' or self._constsel(v))) for v, _ in i.inc)

    def _constsel(self, v):
        return v.op == 'select' and all(o.k == 'cint' for o in v.ops[1:])

    def term(self, t, b, term, src, work):
        def go(nb, st):
            st = st.copy() if st is t else st
            st.par = src
            ln = None
            st.note = str(term.line) if len(b.succs) > 1 and term.line else None
            work.append((nb, b, st))
        if term.op == 'br':
            if len(term.succ) == 1:
                go(term.succ[0], t.copy())
            else:
                # LLVM successor order: succ[0] taken when true
                for st in self.split(t.copy(), term.ops[0], True):
                    go(term.succ[0], st)
                for st in self.split(t.copy(), term.ops[0], False):
                    go(term.succ[1], st)
        elif term.op == 'switch':
            v = self.res(t, term.ops[0])
            if v[0] == 'C':
                for c, dst in term.inc:
                    if c.v == v[1]:
                        go(dst, t.copy())
                        break
                else:
                    go(term.succ[0], t.copy())
            else:
                for d in {x.id: x for x in term.succ}.values():
                    st = t.copy()
                    self.on_switch(st, term, d)
                    go(d, st)
        elif term.op == 'ret':
            self.nobl += 1
            self.at_return(t, term)
            if term.ops:
                v = self.res(t, term.ops[0])
                if term.ops[0].ty == 'ptr':
                    if v[0] == 'B' and t.st.get(v) is None and v[1].startswith(('parsed', 'Py')):
                        self.report('over-release', t, term, 'return ' + self.cons(v), 'a borrowed reference is returned without taking ownership')
                    self.consume(t, term, v, 'returned')
            for k, st in t.st.items():
                if st[0] in 'MO' and st[1] > 0:
                    self.report('leak', t, term, self.cons(k), '%s is still owned when the function returns' % self.desc(k))
            for f in sorted((f for f in t.facts if f[0] == 'gb'), key=str):
                self.report('over-release', t, term, 'static ' + self.cons(f[2]), 'a borrowed reference is kept in a static variable after the function returns without taking ownership')
            for k, v in t.mem.items():
                if k[0] == 'G' and v[0] == 'R' and t.st.get(v[1], ('?',))[0] == 'F':
                    self.report('use-released', t, term, self.cons(v[1]), '%s was released but a static variable still refers to it on return' % self.desc(v[1]))
            if t.gil != ('R' if self.region else 'H'):
                self.report('gil-balance', t, term, 'return', 'the function returns without holding the interpreter lock')
        elif term.op == 'unreachable':
            return
        else:
            for d in b.succs:
                go(d, t.copy())
