"""
Usage tracking: guard analysis (nothing recorded, written or sent unless active), value analysis of the
switch, lockset analysis of the counters, and exactly-once analysis of the tracking wrappers.
"""
import ast
from ..common import Finding
from . import cfg as C
from .pypos import path
from . import stream

SKIP = ('entry', 'exit', 'rexit', 'finally', 'dispatch', 'handler', 'jump', 'def', 'case', 'join', 'pass')


class Tele(object):
    def __init__(self, repo, mod):
        self.repo, self.mod = repo, mod
        self.findings = []
        self.und = []
        self.off = set()
        self.n = dict(sinks=0, wrappers=0, switches=0, guarded_stores=0)
        self.cls = None
        for c in mod.classes.values():
            ms = stream.methods(repo, c)
            if 'track' in ms and 'write' in ms:
                self.cls = c
        self.ms = stream.methods(repo, self.cls) if self.cls is not None else {}
        self.flag = self.flag_of()

    def bad(self, rule, f, node, msg):
        x = Finding(rule, f.qual, '%s:%d' % (f.mod.rel, node.lineno), msg)
        if x.key not in {y.key for y in self.findings}:
            self.findings.append(x)

    def flag_of(self):
        """attribute of the client behind is_active"""
        f = self.ms.get('is_active')
        if f is not None:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    for y in ast.walk(n.value):
                        p = path(y)
                        if p and p.startswith('self.') and p.count('.') == 1 and p[5:] not in self.ms:
                            return p[5:]
        return 'active'

    def ext(self, fn):
        r = self.repo.dotted(self.mod, fn)
        return r[1] if r is not None and r[0] in ('ext', 'builtin') else None

    # ------------------------------------------------------------ guards
    def sink(self, n):
        """what a node records or sends, or None"""
        if isinstance(n, ast.Call):
            nm = self.ext(n.func) or ''
            if nm.startswith('subprocess.') or nm in ('os.system', 'os.popen', 'os.spawnv', 'urllib.request.urlopen'):
                return 'starts the sending of records'
            if nm in ('open', 'io.open'):
                m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                if isinstance(m, ast.Constant) and isinstance(m.value, str) and m.value[:1] in 'wax':
                    return 'writes records to disk'
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'update', 'setdefault', 'add', 'extend') and self.shared(n.func.value):
                return 'records a use'
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if isinstance(t, ast.Subscript) and self.shared(t):
                    return 'records a use'
                if isinstance(n, ast.AugAssign) and self.shared(t) and isinstance(t, ast.Attribute):
                    return 'records a use'
        return None

    def shared(self, t):
        while isinstance(t, (ast.Subscript,)):
            t = t.value
        p = path(t)
        return p is not None and p.startswith('self.') and p.count('.') == 1

    def guard(self, f, t, val, copies, depth=0):
        """test t having this value proves the client is active"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.guard(f, t.operand, not val, copies, depth)
        if isinstance(t, ast.BoolOp):
            r = [self.guard(f, v, val, copies, depth) for v in t.values]
            return any(r) if isinstance(t.op, ast.And) == val else all(r)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in (True, False, None):
            same = isinstance(t.ops[0], (ast.Is, ast.Eq))
            if same == val:
                return bool(t.comparators[0].value) and self.guard(f, t.left, True, copies, depth)
            return t.comparators[0].value is False and self.guard(f, t.left, True, copies, depth)
        if isinstance(t, ast.Name) and t.id in copies:
            return self.guard(f, copies[t.id], val, {k: v for k, v in copies.items() if k != t.id}, depth)
        p = path(t)
        if p == 'self.' + self.flag or p == 'self.is_active':
            return val
        if isinstance(t, ast.Call) and (path(t.func) or '').startswith('self.') or p and p.startswith('self.') and p[5:] in self.ms:
            g = self.ms.get((path(t.func) if isinstance(t, ast.Call) else p)[5:])
            if g is not None and depth < 3:
                rs = [n.value for n in ast.walk(g.node) if isinstance(n, ast.Return)]
                return val and bool(rs) and all(r is not None and (self.guard(g, r, True, {}, depth + 1) or isinstance(r, ast.Constant) and not r.value) for r in rs)
        return False

    def unguarded(self, f, need):
        """sinks (and calls of methods in need) reachable while the client may be inactive"""
        g = C.CFG(f.node)
        cnt, val = {}, {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                cnt[n.id] = cnt.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                val[n.targets[0].id] = n.value
        copies = {k: v for k, v in val.items() if cnt[k] == 1}

        def tr(n, st):
            a = n.ast
            if n.kind == 'stmt' and isinstance(a, ast.Assign) and any(path(t) == 'self.' + self.flag for t in a.targets):
                return isinstance(a.value, ast.Constant) and bool(a.value.value), False
            return st, st

        def edge(n, l, st):
            if n.kind == 'test' and l in ('t', 'f') and self.guard(f, n.extra, l == 't', copies):
                return True
            return st
        IN = C.forward(g, False, tr, lambda a, b: a and b, edge)
        out = []
        for n in g.nodes:
            if n.id not in IN or IN[n.id] or n.kind in SKIP:
                continue
            es = [n.extra] if n.kind == 'test' else [i.context_expr for i in n.ast.items] if n.kind == 'with_enter' else [] if n.kind == 'with_exit' else [n.ast.iter] if n.kind == 'iter' and hasattr(n.ast, 'iter') else [n.ast]
            for e in es:
                for y in ast.walk(e) if e is not None else ():
                    w = self.sink(y)
                    if w:
                        out.append((y, w))
                    if isinstance(y, ast.Call) and (path(y.func) or '').startswith('self.') and path(y.func)[5:] in need:
                        out.append((y, need[path(y.func)[5:]][1]))
        return out

    def guards(self):
        own = {k: f for k, f in self.ms.items()}
        for f in own.values():
            self.n['sinks'] += sum(1 for y in ast.walk(f.node) if self.sink(y))
        need = {}
        for _ in range(len(own) + 1):
            new = {}
            for k, f in own.items():
                if k == '__init__':
                    continue
                u = self.unguarded(f, need)
                if u:
                    new[k] = u[0]
            if set(new) == set(need):
                break
            need = new
        roots = {k for k in need if not k.startswith('_')}
        if '__init__' in own:
            for y, w in self.unguarded(own['__init__'], need):
                if not isinstance(y, (ast.Assign, ast.AugAssign)):
                    self.bad('not-only-when-active', own['__init__'], y, 'the constructor %s although tracking may be off' % w)
        # private methods reached from outside the class
        used = set()
        for f in self.mod.funcs:
            if f.cls is not self.cls:
                for y in ast.walk(f.node):
                    if isinstance(y, ast.Attribute) and y.attr in need:
                        used.add(y.attr)
        for f in own.values():
            for y in ast.walk(f.node):
                if isinstance(y, ast.Call) and self.ext(y.func) == 'atexit.register':
                    for a in y.args:
                        p = path(a)
                        if p and p.startswith('self.') and p[5:] in need:
                            used.add(p[5:])
        for k in sorted(roots | used):
            self.bad('not-only-when-active', own[k], need[k][0], '%s() %s although tracking may be off' % (k, need[k][1]))

    # ------------------------------------------------------------ where tracking is impossible
    def impossible(self):
        """{module-level name: its value when setting up the tracker failed}"""
        out = {}
        for t in self.mod.tree.body:
            if isinstance(t, ast.Try):
                def consts(body):
                    return {x.id: n.value.value for b in body for n in ast.walk(b) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool)
                            for x in n.targets if isinstance(x, ast.Name)}
                ok = consts(t.body + t.orelse)
                for b in self.mod.tree.body:
                    if b is t:
                        break
                    if isinstance(b, ast.Assign) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, bool):
                        for x in b.targets:
                            if isinstance(x, ast.Name):
                                ok.setdefault(x.id, b.value.value)
                for h in t.handlers:
                    for k, v in consts(h.body).items():
                        if k in ok and ok[k] != v:
                            out[k] = v
        return out

    def possible(self):
        """the client is only made active where tracking is possible"""
        flags = self.impossible()
        if not flags:
            return

        def fine(t, val):
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                return fine(t.operand, not val)
            if isinstance(t, ast.BoolOp):
                r = [fine(v, val) for v in t.values]
                return any(r) if isinstance(t.op, ast.And) == val else all(r)
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, bool):
                same = isinstance(t.ops[0], (ast.Is, ast.Eq)) == val
                return fine(t.left, t.comparators[0].value if same else not t.comparators[0].value)
            return isinstance(t, ast.Name) and t.id in flags and flags[t.id] != val

        def off(e):
            if isinstance(e, ast.Constant):
                return not e.value
            if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
                return any(off(v) or fine(v, True) for v in e.values)
            if isinstance(e, ast.IfExp):
                return (off(e.body) or fine(e.test, True)) and (off(e.orelse) or fine(e.test, False))
            return fine(e, True)
        for k, f in self.ms.items():
            stores = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(path(t) == 'self.' + self.flag for t in n.targets)]
            if not stores:
                continue
            g = C.CFG(f.node)
            IN = C.forward(g, False, lambda n, st: (st, st), lambda a, b: a and b, lambda n, l, st: st or (n.kind == 'test' and l in ('t', 'f') and fine(n.extra, l == 't')))
            for n in g.nodes:
                if n.ast in stores and n.kind == 'stmt' and n.id in IN and not IN[n.id] and not off(n.ast.value):
                    v = n.ast.value
                    if k in self.off:
                        continue          # switches tracking off
                    if isinstance(v, ast.Name) or any(isinstance(y, ast.Call) and (path(y.func) or '').startswith('self.') for y in ast.walk(v)):
                        self.und.append('%s.%s' % (self.cls.name, k))
                        continue
                    self.bad('active-where-impossible', f, n.ast, '%s() can switch tracking on although its records cannot be kept here' % k)

    # ------------------------------------------------------------ the switch
    def switch(self, k, want_cfg):
        f = self.ms.get(k)
        if f is None:
            return
        self.n['switches'] += 1
        self.off.add(k)
        g = C.CFG(f.node)
        cfgname = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'set', 'set_temp') and n.args and isinstance(n.args[0], ast.Constant) and str(n.args[0].value).endswith('enabled'):
                cfgname.add(path(n.func.value))
        und = []

        def is_cfg(c, what):
            return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == what and path(c.func.value) in cfgname

        def ev(e, st):
            if isinstance(e, ast.Constant):
                return 'T' if e.value else 'F'
            if is_cfg(e, 'get'):
                return st[0]
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return {'T': 'F', 'F': 'T'}.get(ev(e.operand, st), '?')
            if isinstance(e, ast.BoolOp):
                vs = [ev(v, st) for v in e.values]
                if isinstance(e.op, ast.And):
                    return 'F' if 'F' in vs else 'T' if all(v == 'T' for v in vs) else '?'
                return 'T' if 'T' in vs else 'F' if all(v == 'F' for v in vs) else '?'
            if isinstance(e, ast.Call) and path(e.func) == 'bool' and e.args:
                return ev(e.args[0], st)
            if path(e) == 'self.' + self.flag:
                return st[1]
            if isinstance(e, ast.Name) and e.id in st[2]:
                return st[2][e.id]
            return '?'

        class D(dict):
            def __hash__(self):
                return hash(tuple(sorted(self.items())))

        def upd(sts, fn):
            return frozenset(fn(s) for s in sts)

        def tr(n, sts):
            a = n.ast
            if n.kind in SKIP:
                return sts, sts
            if n.kind == 'with_enter':
                for it in a.items:
                    if is_cfg(it.context_expr, 'set_temp') and len(it.context_expr.args) > 1:
                        v = it.context_expr.args[1]
                        sts = upd(sts, lambda s: (ev(v, s), s[1], s[2]))
                return sts, sts
            if n.kind == 'with_exit':
                if any(is_cfg(it.context_expr, 'set_temp') for it in a.items):
                    sts = upd(sts, lambda s: ('?', s[1], s[2]))
                return sts, sts
            if n.kind in ('test', 'iter'):
                return sts, sts
            o = sts
            for c in ast.walk(a):
                if is_cfg(c, 'set') and len(c.args) > 1:
                    o = upd(o, lambda s: (ev(c.args[1], s), s[1], s[2]))
                elif isinstance(c, ast.Call) and (path(c.func) or '').startswith('self.') and path(c.func)[5:] in self.ms and path(c.func)[5:] not in ('clear', 'write'):
                    und.append(path(c.func))
            if isinstance(a, ast.Assign):
                for t in a.targets:
                    p = path(t)
                    if p == 'self.' + self.flag:
                        o = upd(o, lambda s: (s[0], ev(a.value, s), s[2]))
                    elif isinstance(t, ast.Name):
                        o = upd(o, lambda s: (s[0], s[1], D(list(s[2].items()) + [(t.id, ev(a.value, s))])))
            return o, sts
        IN = C.forward(g, frozenset([('?', '?', D())]), tr, lambda a, b: a | b)
        ex = IN.get(g.exit.id, ())
        if und:
            self.und.append('%s: %s' % (k, und))
            return
        if any(s[1] != 'F' for s in ex):
            self.off.discard(k)
            self.bad('not-switched-off', f, f.node, 'after %s() tracking is not certainly off: %s may still be true' % (k, self.flag))
        if want_cfg and any(s[0] != 'F' for s in ex):
            self.bad('not-switched-off', f, f.node, '%s() does not record in the configuration that tracking is off' % k)
        if not want_cfg and any(s[0] != '?' for s in ex):
            self.bad('switched-off-for-good', f, f.node, '%s() changes the stored configuration' % k)

    # ------------------------------------------------------------ locks
    def locks(self):
        """stores into the counters happen under the lock of the client"""
        attrs = set()
        for n in ast.walk(self.ms['track'].node) if 'track' in self.ms else ():
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    while isinstance(t, ast.Subscript):
                        t = t.value
                    p = path(t)
                    if p and p.startswith('self.') and p.count('.') == 1:
                        attrs.add(p)
        locked_calls = set()
        free = {}
        for k, f in self.ms.items():
            if k == '__init__':
                continue
            inside = set()
            for w in ast.walk(f.node):
                if isinstance(w, ast.With) and any('lock' in (path(i.context_expr) or '').lower() for i in w.items):
                    inside |= {id(y) for b in w.body for y in ast.walk(b)}
            if any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'acquire' for y in ast.walk(f.node)):
                self.und.append(k + ' takes the lock by hand')
                continue
            for n in ast.walk(f.node):
                if id(n) in inside:
                    if isinstance(n, ast.Call) and (path(n.func) or '').startswith('self.'):
                        locked_calls.add(path(n.func)[5:])
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        self.n['guarded_stores'] += 1
                    continue
                w = None
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        while isinstance(t, ast.Subscript):
                            t = t.value
                        if path(t) in attrs:
                            w = path(t)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in stream.MUTATORS and path(n.func.value) in attrs:
                    w = path(n.func.value)
                if w:
                    free.setdefault(k, (n, w))
        for k, (n, w) in sorted(free.items()):
            called_free = False
            for k2, f2 in self.ms.items():
                ins = set()
                for x in ast.walk(f2.node):
                    if isinstance(x, ast.With) and any('lock' in (path(i.context_expr) or '').lower() for i in x.items):
                        ins |= {id(y) for b in x.body for y in ast.walk(b)}
                if any(isinstance(y, ast.Call) and path(y.func) == 'self.' + k and id(y) not in ins for y in ast.walk(f2.node)):
                    called_free = True
            if not k.startswith('_') or called_free or k not in locked_calls:
                self.bad('counter-without-lock', self.ms[k], n, '%s is changed in %s() without the lock held' % (w, k))

    # ------------------------------------------------------------ failures of the tracker itself
    def contained(self):
        """a file or process operation of the client that fails does not reach the tracked call"""
        WIDE = {'Exception', 'BaseException', 'OSError', 'IOError', 'EnvironmentError'}

        def shielded(f):
            out = set()
            for t in ast.walk(f.node):
                if isinstance(t, ast.Try):
                    for h in t.handlers:
                        ts = [None] if h.type is None else [path(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                        if any(x is None or x in WIDE for x in ts):
                            if not any(isinstance(y, ast.Raise) for b in h.body for y in ast.walk(b)):
                                out |= {id(y) for b in t.body for y in ast.walk(b)}
                            break
                elif isinstance(t, ast.With) and any(isinstance(i.context_expr, ast.Call) and (path(i.context_expr.func) or '').endswith('suppress') and
                                                     any(path(a) in WIDE for a in i.context_expr.args) for i in t.items):
                    out |= {id(y) for b in t.body for y in ast.walk(b)}
            return out
        esc = {}
        for _ in range(len(self.ms) + 1):
            new = {}
            for k, f in self.ms.items():
                sh = shielded(f)
                for y in ast.walk(f.node):
                    if id(y) in sh:
                        continue
                    if isinstance(y, ast.Call) and self.sink(y) and self.sink(y) != 'records a use':
                        new.setdefault(k, y)
                    elif isinstance(y, ast.Call) and (path(y.func) or '').startswith('self.') and path(y.func)[5:] in esc:
                        new.setdefault(k, y)
            if set(new) == set(esc):
                break
            esc = new
        for k in ('track', '__init__', 'write'):
            if k in esc:
                self.bad('tracker-failure-escapes', self.ms[k], esc[k], 'a failing file or process operation in %s() reaches the program that is being tracked' % k)

    # ------------------------------------------------------------ wrappers
    def wrappers(self):
        for f in self.mod.funcs:
            if f.parent is None or f.cls is not None:
                continue
            outer = f.parent
            ps = [x.arg for x in outer.node.args.posonlyargs + outer.node.args.args]
            user = set(ps)
            for n in ast.walk(outer.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Attribute, ast.Name)) and (path(n.value) or '').split('.')[0] in ps:
                    user.add(n.targets[0].id)
            a = f.node.args
            if a.vararg is None:
                continue
            own = [x.arg for x in a.posonlyargs + a.args]

            def is_user(c):
                return isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and c.func.id in user and c.func.id not in own or
                                                    isinstance(c.func, ast.Attribute) and (path(c.func) or '').split('.')[0] in ps and c.func.attr == '__init__') and \
                    any(isinstance(x, ast.Starred) for x in c.args)
            cs = [c for c in ast.walk(f.node) if is_user(c)]
            if not cs and not any(isinstance(n, ast.Name) and n.id in user for n in ast.walk(f.node)):
                continue
            self.n['wrappers'] += 1
            for c in cs:
                want = [('p', x) for x in own] + [('*', a.vararg.arg)] + ([('**', a.kwarg.arg)] if a.kwarg else [])
                got = [('*', path(x.value)) if isinstance(x, ast.Starred) else ('p', path(x)) for x in c.args] + [('**' if k.arg is None else k.arg, path(k.value)) for k in c.keywords]
                if got != want:
                    self.bad('wrapper-changes-call', f, c, 'the tracked function is called with other arguments than the caller gave')
            isinit = any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == '__init__' for t in x.targets) and path(x.value) == f.name for x in ast.walk(outer.node))
            self.once(f, is_user, isinit)

    def once(self, f, is_user, isinit):
        g = C.CFG(f.node)

        # state: (number of calls 0/1/2, the last call raised, names holding the result)
        def tr(n, sts):
            a = n.ast
            if n.kind == 'handler':
                return sts, sts
            if n.kind in SKIP or n.kind == 'with_exit':
                return sts, sts
            e = n.extra if n.kind == 'test' else a
            es = [i.context_expr for i in a.items] if n.kind == 'with_enter' else [a.iter] if n.kind == 'iter' and hasattr(a, 'iter') else [e]
            hit = [c for e in es for c in ast.walk(e) if is_user(c)]
            out, exc = set(), set()
            for (k, r, names) in sts:
                k2 = min(2, k + len(hit))
                nm = names
                if isinstance(a, ast.Assign) and n.kind == 'stmt':
                    tg = [t.id for t in a.targets if isinstance(t, ast.Name)]
                    if hit and a.value in hit:
                        nm = frozenset(tg)
                    elif isinstance(a.value, ast.Name) and a.value.id in names:
                        nm = names | set(tg)
                    else:
                        nm = names - set(tg)
                if n.kind == 'return' or isinstance(a, ast.Return):
                    v = a.value
                    good = v is not None and (v in hit or isinstance(v, ast.Name) and v.id in names)
                    if isinit:
                        good = v is None or good or isinstance(v, ast.Constant) and v.value is None
                    nm = names | ({'return ok'} if good else {'return bad'})
                out.add((k2, False if hit else r, nm))
                if hit:
                    exc.add((k2, True, names))
                else:
                    exc.add((k, r, names))
            return frozenset(out), frozenset(exc)
        IN = C.forward(g, frozenset([(0, False, frozenset())]), tr, lambda a, b: a | b)
        for (k, r, names) in IN.get(g.exit.id, ()):
            if r and k:
                self.bad('wrapper-swallows-error', f, f.node, 'an exception of the tracked function does not reach the caller on some path')
            elif k != 1:
                self.bad('wrapper-not-once', f, f.node, 'the tracked function is called %s on some path' % ('more than once' if k else 'not at all'))
            elif 'return bad' in names or ('return ok' not in names and not isinit):
                self.bad('wrapper-changes-result', f, f.node, 'the wrapper does not return what the tracked function returned on some path')
        for (k, r, names) in IN.get(g.rexit.id, ()):
            if k > 1:
                self.bad('wrapper-not-once', f, f.node, 'the tracked function is called more than once on some path')
        # exceptions replaced on the way
        for t in ast.walk(f.node):
            if isinstance(t, ast.Try) and any(is_user(c) for b in t.body for c in ast.walk(b)):
                for h in t.handlers:
                    for x in ast.walk(h):
                        if isinstance(x, ast.Raise) and x.exc is not None and path(x.exc) != h.name:
                            self.bad('wrapper-swallows-error', f, x, 'an exception of the tracked function is replaced by another')
