"""
Position and stream state of file handles.

A typestate analysis over control-flow graphs with exception edges: for a file handle reached through a
parameter or an attribute of the object, each function is summarised by what it does to the handle's
position on leaving normally and on leaving with an exception (same / moved / unknown).  Positions
remembered with tell() and put back with seek(), and context managers that do so, are followed.
"""
import ast
import re
from . import cfg as C

SAME, UNK, MOVED = 0, 1, 2
NEUTRAL = {'tell', 'fileno', 'seekable', 'readable', 'writable', 'isatty', 'flush', 'peek', 'getvalue', 'getbuffer'}
NEUTRAL_CALLS = {'isinstance', 'hasattr', 'getattr', 'type', 'id', 'print', 'repr', 'str', 'bool', 'callable', 'issubclass', 'hash', 'vars', 'dir'}
CONSUME = re.compile(r'^_*(read|readinto|readline|seek|offset|reset|close|open|skip|rewind|advance|next|iter|init|enter|exit|del|new|getstate|setstate)(_|$|s$)')
MUTATORS = {'append', 'appendleft', 'extend', 'extendleft', 'insert', 'pop', 'popleft', 'popitem', 'remove', 'discard', 'add', 'clear', 'update', 'setdefault',
            'sort', 'reverse', 'rotate', 'fill', 'put', 'resize', '__setitem__', '__delitem__', 'move_to_end', 'difference_update', 'intersection_update'}


def consuming(name):
    return bool(CONSUME.match(name))


def path(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        p = path(e.value)
        return p + '.' + e.attr if p else None
    return None


def params(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs]


class State(object):
    __slots__ = ('pos', 'saved', 'alias', 'cms')

    def __init__(self, pos, saved, alias, cms):
        self.pos, self.saved, self.alias, self.cms = pos, saved, alias, cms

    def key(self):
        return (self.pos, self.saved, self.alias, self.cms)

    def __eq__(self, o):
        return self.key() == o.key()

    def __ne__(self, o):
        return self.key() != o.key()

    def but(self, **kw):
        d = dict(pos=self.pos, saved=self.saved, alias=self.alias, cms=self.cms)
        d.update(kw)
        return State(**d)


def join(a, b):
    return State(max(a.pos, b.pos), a.saved & b.saved, a.alias | b.alias, a.cms | b.cms)


class Pos(object):
    def __init__(self, repo):
        self.repo = repo
        self.memo = {}
        self.why = {}
        self.cfgs = {}
        self.sites = 0

    def cfg(self, f):
        if id(f.node) not in self.cfgs:
            self.cfgs[id(f.node)] = C.CFG(f.node)
        return self.cfgs[id(f.node)]

    # ---------------------------------------------------------------- summaries
    def summary(self, f, cls, h, init=None, gen=False):
        """(normal, exceptional, saved paths, why) effect of f on the handle at path h; None where that exit is not reached"""
        k = (id(f.node), cls, h, init.key() if init else None, gen)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (SAME, SAME, frozenset(), '')        # recursion: least fixpoint from below
        for _ in range(4):
            r = self._run(f, cls, h, init, gen)
            if r == self.memo[k]:
                break
            self.memo[k] = r
        return self.memo[k]

    def _run(self, f, cls, h, init, gen):
        g = self.cfg(f)
        w = Walk(self, f, cls, h, gen)
        IN = C.forward(g, init or State(SAME, frozenset(), frozenset([h]), frozenset()), w.transfer, join, w.edge)
        n, x = IN.get(g.exit.id), IN.get(g.rexit.id)
        return (n.pos if n else None, x.pos if x else None, n.saved if n else frozenset(), w.last)

    def is_gen(self, f):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))

    def cm(self, r, call, argpath):
        """what entering/leaving a context manager built by this call does: ('restore' | 'same' | 'moved' | 'unk', yields the handle)"""
        if r is None:
            return 'unk', False
        if r[0] == 'func':
            f = r[1]
            if not any(d.split('.')[-1] == 'contextmanager' for d in f.decorators):
                return 'unk', False
            p = self.param_for(f, call, argpath, False)
            if p is None:
                return 'unk', False
            n, x, _, _ = self.summary(f, None, p, gen=True)
            al = any(isinstance(y, ast.Yield) and y.value is not None and path(y.value) == p for y in ast.walk(f.node))
            st = [v for v in (n, x) if v is not None]
            return ('restore' if not st or max(st) == SAME else 'unk' if max(st) == UNK else 'moved'), al
        if r[0] == 'class':
            c = r[1]
            i, en, ex = (self.repo.method(c, m) for m in ('__init__', '__enter__', '__exit__'))
            if i is None or ex is None:
                return 'unk', False
            p = self.param_for(i, call, argpath, True)
            if p is None:
                return 'unk', False
            g = self.cfg(i)
            w = Walk(self, i, c, p, False)
            IN = C.forward(g, State(SAME, frozenset(), frozenset([p]), frozenset()), w.transfer, join, w.edge)
            st = IN.get(g.exit.id)
            if st is None:
                return 'unk', False
            if en is not None:
                st = self.through(en, c, st)
            if st.pos != SAME:
                return 'moved', False
            al = False
            if en is not None:
                al = any(isinstance(y, ast.Return) and y.value is not None and path(y.value) in st.alias for y in ast.walk(en.node))
            out = self.through(ex, c, st.but(pos=MOVED))
            return {SAME: 'restore', UNK: 'unk', MOVED: 'moved'}[out.pos], al
        return 'unk', False

    def through(self, f, c, st):
        """state after running method f on the same object"""
        s0 = State(st.pos, frozenset(p for p in st.saved if p.startswith('self.')), frozenset(p for p in st.alias if p.startswith('self.')), frozenset())
        g = self.cfg(f)
        w = Walk(self, f, c, 'self.?', False)
        IN = C.forward(g, s0, w.transfer, join, w.edge)
        r = IN.get(g.exit.id)
        return r if r is not None else s0.but(pos=UNK)

    def param_for(self, f, call, argpath, bound):
        pos, kwo = params(f.node)
        if bound:
            pos = pos[1:]
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                return None
            if argpath(a):
                return pos[i] if i < len(pos) else None
        for kw in call.keywords:
            if kw.arg and argpath(kw.value):
                return kw.arg if kw.arg in pos + kwo else None
        return None


class Walk(object):
    """transfer function for one function, handle and class"""

    def __init__(self, P, f, cls, h, gen):
        self.P, self.f, self.cls, self.h, self.gen = P, f, cls, h, gen
        self.repo = P.repo
        self.last = ''
        self.local = set()
        self.cands = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.local.add(n.id)
        pp = params(f.node)
        self.local |= set(pp[0]) | set(pp[1])
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.cands.setdefault(n.targets[0].id, []).append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List)):
                self.cands.setdefault(n.target.id, []).extend(n.iter.elts)
        self.imports = {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = n

    # -------------------------------------------------------------- callee resolution
    def targets(self, fn, depth=0):
        """list of resolved callees, or None"""
        if depth > 3:
            return None
        if isinstance(fn, ast.IfExp):
            a, b = self.targets(fn.body, depth + 1), self.targets(fn.orelse, depth + 1)
            return None if a is None or b is None else a + b
        if isinstance(fn, ast.Name) and fn.id in self.local:
            vs = self.cands.get(fn.id)
            if not vs:
                nested = [k for k in self.f.mod.funcs if k.parent is self.f and k.name == fn.id]
                return [('func', nested[0])] if len(nested) == 1 else None
            out = []
            for v in vs:
                t = self.targets(v, depth + 1)
                if t is None:
                    return None
                out += t
            return out
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self' and self.cls is not None:
            m = self.repo.method(self.cls, fn.attr)
            return [('method', m)] if m is not None else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and self.cls is not None:
            mro = self.repo.mro(self.cls)[0]
            own = self.f.cls
            k = mro.index(own) + 1 if own in mro else 1
            for c in mro[k:]:
                if fn.attr in c.methods and len(c.methods[fn.attr]) == 1:
                    return [('method', c.methods[fn.attr][0])]
            return []
        nested = [k for k in self.f.mod.funcs if k.parent is self.f and isinstance(fn, ast.Name) and k.name == fn.id]
        if len(nested) == 1:
            return [('func', nested[0])]
        r = self.repo.dotted(self.f.mod, fn, self.local)
        return [r] if r is not None else None

    def is_h(self, st):
        return lambda e: path(e) is not None and path(e) in st.alias

    # -------------------------------------------------------------- expressions
    def note(self, e, what):
        self.last = 'line %d: %s' % (getattr(e, 'lineno', 0), what)

    def ev(self, e, st, X):
        """evaluate e: returns the state after; appends states at which an exception may leave to X"""
        if e is None or isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return st
        if isinstance(e, ast.IfExp):
            st = self.ev(e.test, st, X)
            return join(self.ev(e.body, st, X), self.ev(e.orelse, st, X))
        if isinstance(e, ast.BoolOp):
            st = self.ev(e.values[0], st, X)
            out = st
            for v in e.values[1:]:
                out = self.ev(v, out, X)
                st = join(st, out)
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            st = self.ev(e.generators[0].iter, st, X)
            out = st
            for _ in range(2):
                for g in e.generators:
                    if g is not e.generators[0]:
                        out = self.ev(g.iter, out, X)
                    for c in g.ifs:
                        out = self.ev(c, out, X)
                for v in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    out = self.ev(v, out, X)
                out = join(st, out)
            for g in e.generators:
                if self.is_h(st)(g.iter):
                    out = out.but(pos=MOVED)
            return out
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            st = self.ev(e.value, st, X)
            if self.gen:
                st = st.but(pos=MOVED)
            X.append(st)
            return st
        if isinstance(e, ast.Call):
            if not (isinstance(e.func, (ast.Name, ast.Attribute)) and path(e.func)):
                st = self.ev(e.func, st, X)
            elif isinstance(e.func, ast.Attribute):
                st = self.ev(e.func.value, st, X)
            for a in e.args:
                st = self.ev(a.value if isinstance(a, ast.Starred) else a, st, X)
            for k in e.keywords:
                st = self.ev(k.value, st, X)
            return self.call(e, st, X)
        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load):
            st = self.ev(e.value, st, X)
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and self.cls is not None and self.h.startswith('self.'):
                m = self.repo.method(self.cls, e.attr)
                if m is not None and any(d == 'property' or d.endswith('.getter') for d in m.decorators):
                    return self.apply(m, self.cls, None, st, X, e)
            return st
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice)):
                st = self.ev(c.value if isinstance(c, ast.keyword) else c, st, X)
        return st

    def eff(self, pos, d):
        if d == SAME:
            return pos
        if d == UNK:
            return max(pos, UNK)
        return MOVED

    def apply(self, f, cls, param, st, X, site):
        """effect of calling f with the handle as parameter `param` (or through the object when None)"""
        self.P.sites += 1
        if self.P.is_gen(f) or isinstance(f.node, ast.AsyncFunctionDef):
            return st.but(pos=max(st.pos, UNK))
        hs = [param] if param else [h for h in sorted(st.alias) if h.startswith('self.') and h.count('.') == 1]
        n, x = SAME, SAME
        for h in hs:
            sn, sx, _, why = self.P.summary(f, cls, h)
            if sn is None:
                n = None
            elif n is not None:
                n = max(n, sn)
            if sx is not None:
                x = max(x, sx)
                X.append(st.but(pos=self.eff(st.pos, sx)))
            if (sn or sx) == MOVED or MOVED in (sn, sx):
                self.note(site, 'call of %s, which moves it' % f.qual)
        if n is None:
            return st.but(pos=st.pos)
        return st.but(pos=self.eff(st.pos, n))

    def call(self, e, st, X):
        ish = self.is_h(st)
        fn = e.func
        if isinstance(fn, ast.Attribute) and ish(fn.value):
            m = fn.attr
            if m in NEUTRAL:
                X.append(st)
                return st
            self.P.sites += 1
            if m == 'seek':
                return self.seek(e, st, X)
            self.note(e, '.%s()' % m)
            st2 = st.but(pos=MOVED)
            X.append(st2)
            return st2
        hargs = [a for a in e.args if ish(a)] + [k.value for k in e.keywords if ish(k.value)] + [a for a in e.args if isinstance(a, ast.Starred) and ish(a.value)]
        selfcall = (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self') or \
                   (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super')
        if not hargs and not selfcall:
            # a local function may use the handle of the enclosing one
            ts = self.targets(fn) if isinstance(fn, ast.Name) else None
            if ts:
                for t in ts:
                    if t[0] == 'func' and t[1].parent is self.f and not (set(params(t[1].node)[0]) & st.alias):
                        free = [h for h in st.alias if any(path(n) == h for n in ast.walk(t[1].node) if isinstance(n, (ast.Name, ast.Attribute)))]
                        for h in sorted(free):
                            sn, sx, _, _ = self.P.summary(t[1], self.cls, h)
                            if sx is not None:
                                X.append(st.but(pos=self.eff(st.pos, sx)))
                            if sn is not None:
                                if sn == MOVED:
                                    self.note(e, 'call of %s, which moves it' % t[1].qual)
                                st = st.but(pos=self.eff(st.pos, sn))
            X.append(st)
            return st
        ts = self.targets(fn)
        if ts is None:
            X.append(st.but(pos=max(st.pos, UNK)) if hargs else st)
            return st.but(pos=max(st.pos, UNK)) if hargs else st
        outs = []
        for t in ts:
            if t[0] in ('func', 'method', 'umethod') and t[1] is not None:
                f = t[1]
                bound = t[0] == 'method'
                s = st
                if bound and any(h.startswith('self.') for h in st.alias):
                    s = self.apply(f, self.cls, None, s, X, e)
                if hargs:
                    if any(isinstance(a, ast.Starred) for a in e.args):
                        s = s.but(pos=max(s.pos, UNK))
                    else:
                        if any(d.split('.')[-1] == 'contextmanager' for d in f.decorators):
                            outs.append(s)
                            continue
                        p = self.P.param_for(f, e, ish, bound and not f.is_static)
                        s = self.apply(f, self.cls if bound else None, p, s, X, e) if p else s.but(pos=max(s.pos, UNK))
                outs.append(s)
            elif t[0] == 'class':
                i = self.repo.method(t[1], '__init__')
                p = self.P.param_for(i, e, ish, True) if i is not None else None
                outs.append(self.apply(i, t[1], p, st, X, e) if p else st.but(pos=max(st.pos, UNK)))
            elif t[0] == 'builtin':
                if t[1] in NEUTRAL_CALLS:
                    X.append(st)
                    outs.append(st)
                else:
                    self.note(e, 'passed to %s()' % t[1])
                    outs.append(st.but(pos=MOVED))
                    X.append(outs[-1])
            elif t[0] == 'ext':
                top = t[1].rsplit('.', 1)[0]
                if top in self.repo.native:
                    self.P.sites += 1
                    self.note(e, 'passed to the compiled %s()' % t[1])
                    outs.append(st.but(pos=MOVED))
                else:
                    outs.append(st.but(pos=max(st.pos, UNK)))
                X.append(outs[-1])
            else:
                outs.append(st.but(pos=max(st.pos, UNK)) if hargs else st)
                X.append(outs[-1])
        if not outs:
            return st
        r = outs[0]
        for o in outs[1:]:
            r = join(r, o)
        return r

    def seek(self, e, st, X):
        arg = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg in ('offset', 'pos', 'cookie')), None)
        wh = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == 'whence'), None)
        w = 0
        if wh is not None:
            if isinstance(wh, ast.Constant):
                w = wh.value
            else:
                p = path(wh) or ''
                w = {'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2}.get(p.split('.')[-1], -1)
        if w == 0:
            p = path(arg)
            if p is not None and p in st.saved:
                r = st.but(pos=SAME)
                X.append(r)
                return r
            if isinstance(arg, ast.Call) and isinstance(arg.func, ast.Attribute) and arg.func.attr == 'tell' and self.is_h(st)(arg.func.value):
                X.append(st)
                return st
            self.note(e, 'seek to another position')
            r = st.but(pos=MOVED)
        elif w == 1:
            if isinstance(arg, ast.Constant) and arg.value == 0:
                X.append(st)
                return st
            back = any(isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) or isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) for n in ast.walk(arg)) or not isinstance(arg, ast.Constant)
            if st.pos == SAME:
                self.note(e, 'relative seek')
                r = st.but(pos=MOVED)
            else:
                r = st.but(pos=UNK if back else MOVED)
        elif w == -1:
            r = st.but(pos=UNK)
        else:
            self.note(e, 'seek from the end')
            r = st.but(pos=MOVED)
        X.append(r)
        return r

    # -------------------------------------------------------------- statements
    def bind(self, t, v, st):
        p = path(t)
        if p is None:
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr) and isinstance(t, (ast.Tuple, ast.List, ast.Starred)):
                    st = self.bind(c, None, st)
            return st
        al, sv = st.alias - {p}, st.saved - {p}
        if v is not None:
            q = path(v)
            if q is not None and q in st.alias:
                al = al | {p}
            if q is not None and q in st.saved:
                sv = sv | {p}
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'tell' and self.is_h(st)(v.func.value) and st.pos == SAME:
                sv = sv | {p}
            if isinstance(v, ast.IfExp) and any(path(x) in st.alias for x in (v.body, v.orelse)):
                al = al | {p}
        # cm objects kept in a variable
        cms = frozenset(c for c in st.cms if c[0] != p)
        if isinstance(v, ast.Call):
            k = self.cmof(v, st)
            if k is not None:
                cms = cms | {(p,) + k}
        st = st.but(alias=al, saved=sv, cms=cms)
        if p == self.h and p not in al and p.startswith('self.'):
            st = st.but(pos=MOVED)
        return st

    def cmof(self, call, st):
        """(kind, position at construction, yields the handle) when the call builds a context manager around the handle"""
        ish = self.is_h(st)
        if not (any(ish(a) for a in call.args) or any(ish(k.value) for k in call.keywords)):
            return None
        ts = self.targets(call.func)
        if not ts or len(ts) != 1:
            return None
        t = ts[0]
        if t[0] == 'class' and self.repo.method(t[1], '__exit__') is None:
            return None
        if t[0] == 'func' and not any(d.split('.')[-1] == 'contextmanager' for d in t[1].decorators):
            return None
        if t[0] not in ('func', 'class'):
            return None
        kind, al = self.P.cm(t, call, ish)
        return kind, st.pos, al

    def transfer(self, n, st):
        X = []
        a = n.ast
        k = n.kind
        if k in ('entry', 'exit', 'rexit', 'join', 'pass', 'finally', 'dispatch', 'handler', 'jump', 'def', 'case'):
            if k == 'handler' and a.name:
                st = self.bind(ast.Name(id=a.name, ctx=ast.Store()), None, st)
            return st, st
        if k == 'test':
            o = self.ev(n.extra, st, X)
            return o, self.exc(st, X)
        if k == 'eval':
            o = self.ev(a, st, X)
            if self.is_h(o)(a):
                o = o.but(pos=MOVED)
                X.append(o)
            return o, self.exc(st, X)
        if k == 'iter':
            o = self.bind(a.target, None, st)
            return o, o
        if k == 'with_enter':
            o = st
            for it in a.items:
                ce = it.context_expr
                info = None
                if isinstance(ce, ast.Call):
                    pre = o
                    o = self.ev(ce, o, X)
                    info = self.cmof(ce, pre)
                else:
                    p = path(ce)
                    info = next((c[1:] for c in o.cms if c[0] == p), None)
                    if self.is_h(o)(ce):
                        info = ('moved', o.pos, True)       # the handle is closed on leaving
                if info is not None:
                    o = o.but(cms=frozenset(c for c in o.cms if c[0] != id(it)) | {(id(it),) + info})
                if it.optional_vars is not None:
                    o = self.bind(it.optional_vars, None, o)
                    if info is not None and info[2] and path(it.optional_vars):
                        o = o.but(alias=o.alias | {path(it.optional_vars)})
            return o, self.exc(st, X)
        if k == 'with_exit':
            o = st
            for it in reversed(a.items):
                infos = [c for c in o.cms if c[0] == id(it)]
                if not infos:
                    continue
                r = SAME
                for c in infos:
                    if c[1] == 'restore':
                        r = max(r, c[2])
                    elif c[1] == 'same':
                        r = max(r, o.pos)
                    elif c[1] == 'moved':
                        r = MOVED
                    else:
                        r = max(r, UNK)
                o = o.but(pos=r, cms=frozenset(c for c in o.cms if c[0] != id(it)))
            return o, o
        if k == 'return':
            o = self.ev(a.value, st, X)
            return o, self.exc(st, X)
        if k == 'raise':
            o = self.ev(a.exc, st, X) if a.exc is not None else st
            X.append(o)
            return None, self.exc(st, X)
        # plain statements
        o = st
        if isinstance(a, ast.Assign):
            o = self.ev(a.value, o, X)
            for t in a.targets:
                if not isinstance(t, ast.Name):
                    for c in ast.walk(t):
                        if isinstance(c, ast.Subscript):
                            o = self.ev(c.slice, o, X)
                    X.append(o)
                o = self.bind(t, a.value, o)
        elif isinstance(a, ast.AnnAssign):
            o = self.ev(a.value, o, X)
            if a.value is not None:
                o = self.bind(a.target, a.value, o)
        elif isinstance(a, ast.AugAssign):
            o = self.ev(a.value, o, X)
            X.append(o)
            o = self.bind(a.target, None, o)
        elif isinstance(a, ast.Expr):
            o = self.ev(a.value, o, X)
        elif isinstance(a, ast.Assert):
            o = self.ev(a.test, o, X)
            X.append(o)
        elif isinstance(a, ast.Delete):
            for t in a.targets:
                o = self.bind(t, None, o)
        elif isinstance(a, ast.expr):
            o = self.ev(a, o, X)
        return o, self.exc(st, X)

    def exc(self, st, X):
        r = X[0] if X else st
        for x in X[1:]:
            r = join(r, x)
        # positions saved before the statement stay saved
        return State(r.pos, st.saved, r.alias, r.cms)

    def edge(self, n, label, st):
        return st


# -------------------------------------------------------------------- subjects
def handle_attrs(repo, c):
    """attributes of the class used as file handles"""
    out = set()
    for k in repo.mro(c)[0]:
        for fs in k.methods.values():
            for f in fs:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('seek', 'tell', 'readinto'):
                        p = path(n.func.value)
                        if p and p.startswith('self.') and p.count('.') == 1:
                            out.add(p)
    return out


def handle_params(f):
    """parameters used as file handles: by method, or by being passed on under a handle-like use"""
    out = set()
    pos, kwo = params(f.node)
    names = set(pos + kwo) - {'self', 'cls'}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in names \
                and n.func.attr in ('seek', 'tell', 'readinto', 'read', 'fileno'):
            out.add(n.func.value.id)
    return out


def all_handle_params(repo, funcs):
    H = {id(f.node): handle_params(f) for f in funcs}
    byid = {id(f.node): f for f in funcs}
    change = True
    while change:
        change = False
        for f in funcs:
            pos, kwo = params(f.node)
            names = set(pos + kwo) - {'self', 'cls'}
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                r = repo.dotted(f.mod, n.func)
                if r is None:
                    continue
                tgt = r[1] if r[0] == 'func' else repo.method(r[1], '__init__') if r[0] == 'class' else None
                if tgt is not None and H.get(id(tgt.node)):
                    tp = params(tgt.node)[0]
                    if r[0] == 'class':
                        tp = tp[1:]
                    for i, a in enumerate(n.args):
                        if isinstance(a, ast.Name) and a.id in names and i < len(tp) and tp[i] in H[id(tgt.node)] and a.id not in H[id(f.node)]:
                            H[id(f.node)].add(a.id)
                            change = True
                elif r[0] == 'ext' and r[1].rsplit('.', 1)[0] in repo.native and r[1].rsplit('.', 1)[1].startswith('read'):
                    if n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in names and n.args[0].id not in H[id(f.node)]:
                        H[id(f.node)].add(n.args[0].id)
                        change = True
    return H
