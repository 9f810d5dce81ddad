"""
Stream state of reader objects: what an object remembers about the place in the file it has read up to
(frames buffered ahead, expected time tags), which methods change it and which start it afresh.
"""
import ast
from . import cfg as C
from .pypos import path, params, MUTATORS, consuming


def methods(repo, c):
    out = {}
    for k in repo.mro(c)[0]:
        for nm, fs in k.methods.items():
            if nm not in out and len(fs) == 1:
                out[nm] = fs[0]
    return out


def self_calls(f, ms):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and n.func.attr in ms:
            yield n, ms[n.func.attr]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super' and n.func.attr in ms:
            pass
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in ms and 'property' in ms[n.attr].decorators:
            yield n, ms[n.attr]


def closure(f, ms):
    seen, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.append(g)
        todo.extend(x for _, x in self_calls(g, ms))
    return seen


def self_attr(e):
    """X when e is self.X, self.X[...], self.X.y ... (the attribute of self at the root)"""
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return e.attr
        e = e.value
    return None


def attr_classes(repo, c, attr):
    """repository classes of the objects stored in self.attr, or None when unknown"""
    out, known = set(), True
    for k in repo.mro(c)[0]:
        for fs in k.methods.values():
            for f in fs:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(path(t) == 'self.' + attr for t in n.targets):
                        v = n.value
                        r = repo.dotted(f.mod, v.func) if isinstance(v, ast.Call) else None
                        if r is not None and r[0] == 'class':
                            out.add(r[1])
                        elif isinstance(v, ast.Constant) and v.value is None:
                            pass
                        else:
                            known = False
    return (out if out else None) if known else (out or None)


class Writes(object):
    """which attributes of the object a method may change (directly, through its methods and through the objects it holds)"""

    def __init__(self, repo):
        self.repo, self.memo = repo, {}

    def of(self, c, f, stack=()):
        k = (c, id(f.node))
        if k in self.memo:
            return self.memo[k]
        if k in stack:
            return {}
        ms = methods(self.repo, c)
        out = {}
        local = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self_attr(n.value) and not any(isinstance(x, ast.Call) for x in ast.walk(n.value)):
                local[n.targets[0].id] = self_attr(n.value)

        def root(e):
            a = self_attr(e)
            if a:
                return a
            while isinstance(e, (ast.Subscript, ast.Attribute)):
                e = e.value
            return local.get(e.id) if isinstance(e, ast.Name) else None
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    for e in ast.walk(t):
                        if isinstance(e, (ast.Attribute, ast.Subscript)) and isinstance(e.ctx, (ast.Store, ast.Del)):
                            a = root(e)
                            if a:
                                out.setdefault(a, (f, n.lineno, 'assigned'))
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Name) and fn.id in ('setattr', 'delattr') and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == 'self' \
                        and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    out.setdefault(n.args[1].value, (f, n.lineno, 'set'))
                if isinstance(fn, ast.Attribute):
                    a = root(fn.value)
                    if a:
                        whole = path(fn.value) == 'self.' + a or (isinstance(fn.value, ast.Name) and local.get(fn.value.id) == a)
                        cl = attr_classes(self.repo, c, a) if whole else None
                        if cl:
                            for b in cl:
                                g = self.repo.method(b, fn.attr)
                                if g is not None and self.of(b, g, stack + (k,)):
                                    w = self.of(b, g, stack + (k,))
                                    out.setdefault(a, (f, n.lineno, 'changed by .%s() (%s)' % (fn.attr, ', '.join(sorted(w)))))
                        elif fn.attr in MUTATORS:
                            out.setdefault(a, (f, n.lineno, 'changed by .%s()' % fn.attr))
        for n, g in self_calls(f, ms):
            for a, w in self.of(c, g, stack + (k,)).items():
                out.setdefault(a, w)
        if not stack:
            self.memo[k] = out
        return out


def stream_attrs(repo, c, handles):
    """attributes in which the reading methods keep what came out of the file"""
    ms = methods(repo, c)
    S = {}
    for nm, f in ms.items():
        if not nm.startswith('read'):
            continue
        for g in closure(f, ms):
            taint = set()
            names = {h.split('.', 1)[1] for h in handles}

            def dirty(e):
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and x.id in taint:
                        return True
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in S and isinstance(x.ctx, ast.Load):
                        return True
                    if isinstance(x, ast.Call):
                        if any(self_attr(a) in names and path(a) in handles for a in list(x.args) + [k.value for k in x.keywords]):
                            return True
                        if isinstance(x.func, ast.Attribute) and path(x.func.value) in handles and x.func.attr.startswith('read'):
                            return True
                return False
            for _ in range(8):
                n0 = len(taint) + len(S)
                for n in ast.walk(g.node):
                    if isinstance(n, (ast.Assign, ast.AugAssign)) and dirty(n.value):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            for e in ast.walk(t):
                                if isinstance(e, ast.Name) and isinstance(e.ctx, ast.Store):
                                    taint.add(e.id)
                            a = self_attr(t)
                            if a and a not in names:
                                S.setdefault(a, (g, n.lineno))
                    elif isinstance(n, ast.For) and dirty(n.iter):
                        for e in ast.walk(n.target):
                            if isinstance(e, ast.Name):
                                taint.add(e.id)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                        if any(dirty(a) for a in n.args):
                            a = self_attr(n.func.value)
                            if a and a not in names and path(n.func.value) == 'self.' + a:
                                S.setdefault(a, (g, n.lineno))
                            elif isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
                                taint.add(n.func.value.id)
                if len(taint) + len(S) == n0:
                    break
    W = Writes(repo)
    wr = set()
    for nm, f in ms.items():
        if nm.startswith('read'):
            wr |= set(W.of(c, f))
    return {a: w for a, w in S.items() if a in wr}


def loads(repo, c, f):
    out = set()
    ms = methods(repo, c)
    for g in closure(f, ms):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                out.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'hasattr') and len(n.args) > 1 and isinstance(n.args[0], ast.Name) \
                    and n.args[0].id == 'self' and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
    return out


class Fresh(object):
    """attributes a method certainly starts afresh (assigned a value that is not made from the old one, cleared, or absent) on leaving normally"""

    def __init__(self, repo, writes=None):
        self.repo, self.memo, self.cl = repo, {}, {}
        self.W = writes or Writes(repo)
        self.dm = {}

    def of(self, c, f, stack=()):
        k = (c, id(f.node))
        if k in self.memo:
            return self.memo[k]
        if k in stack:
            return frozenset()
        g = C.CFG(f.node)
        ms = methods(self.repo, c)
        META = self.meta(c)
        guarded = {id(y) for x in ast.walk(f.node) if isinstance(x, (ast.With, ast.Try)) and (isinstance(x, ast.With) or x.finalbody) for b in x.body for y in ast.walk(b)}
        moving = {id(x) for x in ast.walk(f.node) if id(x) not in guarded}

        copies = {}            # local -> attributes it may be a plain copy of

        def carried(e):
            if isinstance(e, ast.IfExp):
                return carried(e.body) | carried(e.orelse)
            if isinstance(e, ast.BoolOp):
                return set().union(*[carried(v) for v in e.values])
            if isinstance(e, ast.NamedExpr):
                return carried(e.value)
            if isinstance(e, ast.Name):
                return copies.get(e.id, set())
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) > 1 and path(e.args[0]) == 'self' and isinstance(e.args[1], ast.Constant):
                return {e.args[1].value} | (carried(e.args[2]) if len(e.args) > 2 else set())
            p = path(e)
            return {p[5:]} if p and p.startswith('self.') and p.count('.') == 1 else set()
        for _ in range(3):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    copies.setdefault(n.targets[0].id, set()).update(carried(n.value))

        stores = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stores[n.id] = stores.get(n.id, 0) + 1

        def named(e):
            """text of the object e names; a local that only ever is one attribute of self is that attribute"""
            if isinstance(e, ast.Name) and stores.get(e.id) == 1 and len(copies.get(e.id, ())) == 1:
                return 'self.' + next(iter(copies[e.id]))
            return path(e)

        def expr_fresh(e, st):
            for n in ast.walk(e):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and n.func.attr in ms:
                        m = ms[n.func.attr]
                        st = frozenset(st - self.dirty(c, m)) | self.of(c, m, stack + (k,))
                    else:
                        a = named(n.func.value)
                        if a and a.startswith('self.') and a.count('.') == 1:
                            a = a[5:]
                            if n.func.attr == 'clear':
                                st = st | {a}
                            else:
                                cl = attr_classes(self.repo, c, a)
                                if cl and all(self.clears(b, n.func.attr) for b in cl):
                                    st = st | {a}
                                elif cl and any(self.repo.method(b, n.func.attr) is not None and self.W.of(b, self.repo.method(b, n.func.attr)) for b in cl):
                                    st = st - {a}
                                elif n.func.attr == 'seek' and id(n) in moving:
                                    st = st - {a for a in st if a in META}
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1 \
                        and isinstance(n.args[0], ast.Name) and n.args[0].id == 'self' and isinstance(n.args[1], ast.Constant):
                    st = st | {n.args[1].value}
            return st

        tries = {id(h): x for x in ast.walk(f.node) if isinstance(x, ast.Try) for h in x.handlers}

        def tr(n, st):
            a = n.ast
            if n.kind == 'handler' and isinstance(a, ast.ExceptHandler) and a.type is not None and path(a.type) == 'AttributeError' and id(a) in tries:
                # the attribute the only statement of the try block uses does not exist
                b = tries[id(a)].body
                if len(b) == 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Call) and isinstance(b[0].value.func, ast.Attribute):
                    p = path(b[0].value.func.value)
                    if p and p.startswith('self.') and p.count('.') == 1:
                        st = st | {p[5:]}
                return st, st
            if n.kind in ('entry', 'exit', 'rexit', 'finally', 'dispatch', 'handler', 'jump', 'def', 'case', 'with_exit', 'join', 'pass'):
                return st, st
            if n.kind == 'test':
                return expr_fresh(n.extra, st), st
            if n.kind == 'eval':
                return expr_fresh(a, st), st
            if n.kind == 'iter':
                return st, st
            if n.kind == 'with_enter':
                for it in a.items:
                    st = expr_fresh(it.context_expr, st)
                return st, st
            o = expr_fresh(a, st)
            if isinstance(a, ast.Assign):
                for t in a.targets:
                    els = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                    for e in els:
                        p = path(e)
                        if p and p.startswith('self.') and p.count('.') == 1:
                            if not any(path(x) == p for x in ast.walk(a.value) if isinstance(x, ast.Attribute)) and p[5:] not in carried(a.value):
                                o = o | {p[5:]}
                        elif isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None:
                            p = path(e.value)
                            if p and p.startswith('self.') and p.count('.') == 1:
                                o = o | {p[5:]}
            elif isinstance(a, ast.Delete):
                for t in a.targets:
                    p = path(t)
                    if p and p.startswith('self.') and p.count('.') == 1:
                        o = o | {p[5:]}
            return o, st

        def edge(n, l, st):
            if n.kind == 'test' and l in ('t', 'f'):
                st = st | absent(n.extra, l == 't')
            return st

        def absent(t, val):
            """attributes that do not exist (or are None) when test t has this value"""
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                return absent(t.operand, not val)
            if isinstance(t, ast.BoolOp):
                if isinstance(t.op, ast.And) and val or isinstance(t.op, ast.Or) and not val:
                    r = frozenset()
                    for v in t.values:
                        r |= absent(v, val)
                    return r
                return frozenset()
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'hasattr' and not val and len(t.args) == 2 and path(t.args[0]) == 'self' \
                    and isinstance(t.args[1], ast.Constant):
                return frozenset([t.args[1].value])

            def att(e):
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) == 3 and path(e.args[0]) == 'self' and isinstance(e.args[1], ast.Constant):
                    return e.args[1].value
                p = named(e)
                return p[5:] if p and p.startswith('self.') and p.count('.') == 1 else None
            if isinstance(t, ast.Name) and not val and named(t) != t.id:
                return frozenset([att(t)])
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                if isinstance(t.ops[0], (ast.Is, ast.Eq)) and val or isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) and not val:
                    a = att(t.left)
                    return frozenset([a]) if a else frozenset()
            return frozenset()
        IN = C.forward(g, frozenset(), tr, lambda a, b: a & b, edge)
        r = IN.get(g.exit.id)
        r = r if r is not None else None
        if not stack:
            self.memo[k] = r if r is not None else ALL
        return r if r is not None else ALL

    def dirty(self, c, f):
        """attributes a method may fill with something else than a fresh start"""
        k = (c, id(f.node))
        if k in self.dm:
            return self.dm[k]
        out = set()
        for g in closure(f, methods(self.repo, c)):
            for n in ast.walk(g.node):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        a = self_attr(t)
                        if a and not (isinstance(n, ast.Assign) and path(t) == 'self.' + a and not any(isinstance(x, ast.Name) for x in ast.walk(n.value))):
                            out.add(a)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    a = self_attr(n.func.value)
                    if a and path(n.func.value) == 'self.' + a and n.func.attr != 'clear':
                        cl = attr_classes(self.repo, c, a)
                        if cl:
                            for b in cl:
                                m = self.repo.method(b, n.func.attr)
                                if m is not None and self.W.of(b, m) and not self.clears(b, n.func.attr):
                                    out.add(a)
                        elif n.func.attr in MUTATORS:
                            out.add(a)
        self.dm[k] = out
        return out

    def meta(self, c):
        """attributes behind get_info(): the description of the data at the current position"""
        f = self.repo.method(c, 'get_info')
        return frozenset(loads(self.repo, c, f)) - set(methods(self.repo, c)) if f is not None else frozenset()

    def clears(self, b, mname):
        """method of class b that empties what the object's other methods put into it"""
        k = (b, mname)
        if k in self.cl:
            return self.cl[k]
        self.cl[k] = False
        f = self.repo.method(b, mname)
        if f is not None:
            need = self.content(b)
            got = self.of(b, f)
            self.cl[k] = bool(need) and (got is ALL or need <= got)
        return self.cl[k]

    def content(self, b):
        """containers of the object that methods other than the constructor and the clearing ones fill, and scalars assigned from arguments"""
        need = set()
        for nm, f in methods(self.repo, b).items():
            if nm.startswith('__') or nm in ('reset', 'clear'):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript):
                            a = self_attr(t)
                            if a:
                                need.add(a)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'appendleft', 'extend', 'add', 'insert', 'update', 'setdefault'):
                    p = path(n.func.value)
                    if p and p.startswith('self.') and p.count('.') == 1:
                        need.add(p[5:])
        return need


class _All(frozenset):
    def __and__(self, o):
        return o
    __rand__ = __and__

    def __or__(self, o):
        return self
    __ror__ = __or__


ALL = _All(['*'])
