"""
Nominal types of expressions: which repository class a value is an instance of, where every
assignment that can reach it says so.  Unknown is the default.
"""
import ast


class Nominal(object):
    def __init__(self, repo):
        self.repo = repo
        self.env = {}
        self._ret, self._loc, self._attr, self._busy = {}, {}, {}, set()

    # an answer is a frozenset of Class, or None (unknown)
    def ret(self, f):
        """class of the value a repository function returns"""
        if f in self._ret:
            return self._ret[f]
        if ('r', f) in self._busy:
            return None
        self._busy.add(('r', f))
        out = self._returns(f)
        self._busy.discard(('r', f))
        self._ret[f] = out
        return out

    def _returns(self, f):
        if any(d not in ('staticmethod', 'classmethod', 'property', 'abc.abstractmethod', 'abstractmethod') for d in f.decorators):
            return None
        acc = set()
        todo = list(f.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(n, ast.Return):
                if n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None:
                    continue
                t = self.of(n.value, f)
                if t is None:
                    return None
                acc |= t
            todo.extend(ast.iter_child_nodes(n))
        return frozenset(acc) if acc else None

    def local(self, name, f):
        key = (f, name)
        if key in self._loc:
            return self._loc[key]
        if ('l', key) in self._busy:
            return frozenset()          # recursive definition adds nothing
        self._busy.add(('l', key))
        out = self._local(name, f)
        self._busy.discard(('l', key))
        self._loc[key] = out
        return out

    def _local(self, name, f):
        a = f.node.args
        pars = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        if name in pars:
            pos = a.posonlyargs + a.args
            if f.cls is not None and f.parent is None and pos and pos[0].arg == name and not f.is_static and not f.is_class:
                if not any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
                    return frozenset([f.cls])
            return self.required(name, f)
        acc, seen = set(), 0
        stores = [x for x in ast.walk(f.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del))]
        if not stores:
            return None
        if any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and x is not f.node and x.name == name or isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names
               or isinstance(x, ast.ExceptHandler) and x.name == name for x in ast.walk(f.node)):
            return None
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        seen += 1
                        if isinstance(s.value, ast.Constant) and s.value.value is None:
                            continue
                        v = self.of(s.value, f)
                        if v is None:
                            return None
                        acc |= v
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                seen += 1          # the object stays what it is
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is None:
                seen += 1
        if seen != len(stores):
            return None
        return frozenset(acc) if acc else None

    def required(self, name, f):
        """`if not isinstance(name, C): raise` at the start of the function"""
        if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node)):
            return None
        for s in f.node.body:
            if isinstance(s, ast.If) and isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) and s.body and isinstance(s.body[-1], ast.Raise) and not s.orelse:
                c = s.test.operand
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'isinstance' and len(c.args) == 2 and isinstance(c.args[0], ast.Name) and c.args[0].id == name:
                    es = c.args[1].elts if isinstance(c.args[1], ast.Tuple) else [c.args[1]]
                    rs = [self.repo.dotted(f.mod, e, self.locals(f)) for e in es]
                    if all(r is not None and r[0] == 'class' for r in rs):
                        return frozenset(r[1] for r in rs)
        return None

    def attr(self, c, name):
        """type of attribute `name` of an instance of c"""
        key = (c, name)
        if key in self._attr:
            return self._attr[key]
        if ('a', key) in self._busy:
            return None
        self._busy.add(('a', key))
        out = self._attrtype(c, name)
        self._busy.discard(('a', key))
        self._attr[key] = out
        return out

    def _attrtype(self, c, name):
        mro, full = self.repo.mro(c)
        if not full:
            return None
        for k in mro:
            if name in k.methods:
                fs = [x for x in k.methods[name] if 'property' in x.decorators]
                if not fs or len(k.methods[name]) > 1:
                    return None
                return self.ret(fs[0])
        acc = set()
        for k in mro:
            for s in k.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return None
            for fs in k.methods.values():
                for f in fs:
                    pos = f.node.args.posonlyargs + f.node.args.args
                    if not pos:
                        continue
                    me = pos[0].arg
                    for s in ast.walk(f.node):
                        if isinstance(s, ast.Attribute) and s.attr == name and isinstance(s.ctx, (ast.Store, ast.Del)) and isinstance(s.value, ast.Name) and s.value.id == me:
                            v = self.assigned(f.node, s)
                            if v is None:
                                return None
                            if isinstance(v, ast.Constant) and v.value is None:
                                continue
                            if isinstance(v, ast.Name) and v.id in [x.arg for x in f.node.args.args] and self.guarded(f.node, v.id):
                                continue
                            t = self.of(v, f, as_self=c)
                            if t is None:
                                return None
                            acc |= t
        return frozenset(acc) if acc else None

    @staticmethod
    def assigned(fn, target):
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and target in s.targets:
                return s.value
        return None

    @staticmethod
    def guarded(fn, name):
        """the parameter is checked with isinstance"""
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'isinstance' and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == name
                   for x in ast.walk(fn))

    def classvar(self, c, name):
        """the repository class a class-level attribute is bound to"""
        for k in self.repo.mro(c)[0]:
            for s in k.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    r = self.repo.dotted(k.mod, s.value)
                    return r[1] if r is not None and r[0] == 'class' else None
        return None

    def of(self, e, f, as_self=None):
        m = f.mod
        if isinstance(e, ast.Name):
            if id(e) in self.env:
                return self.env[id(e)]
            t = self.local(e.id, f)
            if t is not None and as_self is not None and f.cls is not None and t == frozenset([f.cls]):
                return frozenset([as_self])
            return t or None
        if isinstance(e, ast.IfExp):
            a, b = self.of(e.body, f, as_self), self.of(e.orelse, f, as_self)
            return a | b if a and b else None
        if isinstance(e, ast.Attribute):
            t = self.of(e.value, f, as_self)
            if not t:
                return None
            acc = set()
            for c in t:
                v = self.attr(c, e.attr)
                if not v:
                    return None
                acc |= v
            return frozenset(acc)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name) and f.is_class and f.cls is not None and f.node.args.args and fn.id == f.node.args.args[0].arg:
                if any('__new__' in k.methods for k in self.repo.mro(f.cls)[0]):
                    return None
                return frozenset([f.cls])
            r = self.repo.dotted(m, fn, self.locals(f))
            if r is not None:
                if r[0] == 'class':
                    if any('__new__' in k.methods for k in self.repo.mro(r[1])[0]):
                        return None
                    return frozenset([r[1]])
                if r[0] == 'func':
                    return self.ret(r[1])
                if r[0] == 'umethod' and r[1].is_class:
                    t = self.ret(r[1])
                    # cls(...) makes an instance of the class it is called on
                    return frozenset([r[2]]) if t == frozenset([r[1].cls]) else t
                if r[0] == 'ext':
                    # the native frame readers fill and return the frame they are given
                    p = r[1].split('.')
                    if p[-2:-1] == ['_gofast'] and p[-1].startswith('read_') and len(e.args) >= 2:
                        return self.of(e.args[1], f, as_self)
                    if r[1] in ('copy.copy', 'copy.deepcopy') and e.args:
                        return self.of(e.args[0], f, as_self)
                return None
            if isinstance(fn, ast.Attribute):
                t = self.of(fn.value, f, as_self)
                if t and len(t) == 1:
                    c = list(t)[0]
                    k = self.classvar(c, fn.attr)
                    if k is not None:
                        return frozenset([k])
                    o = self.repo.method(c, fn.attr)
                    if o is not None and not any(fn.attr in s.methods for s in self.repo.subclasses(c)):
                        return self.ret(o)
        return None

    def locals(self, f):
        if not hasattr(f, '_lnames'):
            f._lnames = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(f.node) if isinstance(x, ast.arg)}
            if f.parent is not None:
                f._lnames |= self.locals(f.parent)
        return f._lnames


def flow(nom, f):
    """id(Name load) -> class set, flow-sensitively, for the local variables of one function"""
    from . import cfg, names
    cand = set()
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Call, ast.Attribute)) and nom.of(s.value, f):
            cand.add(s.targets[0].id)
    if not cand:
        return {}
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f.node)):
        return {}
    g = cfg.CFG(f.node)

    def value(e, st):
        if isinstance(e, ast.Name):
            return st.get(e.id)
        return nom.of(e, f) if isinstance(e, (ast.Call, ast.Attribute, ast.IfExp)) else None

    def transfer(n, st0):
        st = dict(st0)
        d = names.defs(n) & cand
        if not d:
            return st0, st0
        new = dict(st)
        for x in d:
            new[x] = None
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
            new[a.targets[0].id] = value(a.value, st)
        fr = frozenset(new.items())
        return fr, st0

    def join(a, b):
        a, b = dict(a), dict(b)
        out = {}
        for k in set(a) | set(b):
            if k in a and k in b:
                out[k] = a[k] | b[k] if a[k] and b[k] else None
            else:
                out[k] = a.get(k, b.get(k))          # not assigned on the other path
        return frozenset(out.items())
    IN = cfg.forward(g, frozenset(), transfer, join)
    res = {}
    for n in g.nodes:
        if n.id not in IN:
            continue
        st = dict(IN[n.id])
        root = n.extra if n.kind == 'test' else n.ast
        if n.kind in ('stmt', 'return', 'raise', 'test', 'eval') and root is not None and isinstance(root, ast.AST):
            for x in names.own_expr(root):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and st.get(x.id):
                    k = id(x)
                    res[k] = res[k] | st[x.id] if k in res and res[k] else (st[x.id] if k not in res else None)
                elif isinstance(x, ast.Name) and x.id in cand:
                    res[id(x)] = None
    return {k: v for k, v in res.items() if v}
