"""
Which parameters a function may modify (what the caller handed in, or anything reached through it).

Per function a flow-sensitive alias analysis maps each local to the parameters whose storage it may
share.  Views share storage (slices, .T, reshape, asarray ...), arithmetic and copies do not.  An
operation of unknown effect is taken to be harmless: everything reported is a definite write
through an alias.
"""
import ast
from . import cfg, names
from .nominal import Nominal

VIEW_ATTR = {'T', 'real', 'imag', 'flat', 'data', 'base', 'mask'}
VIEW_METH = {'reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes', 'diagonal', 'items', 'values', 'get', 'setdefault', '__getitem__', 'filled'}
VIEW_FUNC = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes',
             'rollaxis', 'moveaxis', 'broadcast_to', 'expand_dims', 'flip', 'fliplr', 'flipud', 'real', 'imag', 'require', 'rot90', 'array_split', 'split', 'diagonal', 'asmatrix'}
MUT_METH = {'sort', 'append', 'extend', 'resize', 'fill', 'put', 'insert', 'pop', 'popitem', 'update', 'clear', 'remove', 'reverse', 'setdefault', 'itemset', 'partition', 'byteswap_',
            'setflags', 'appendleft', 'popleft', 'add', 'discard', 'rotate', '__setitem__', '__delitem__'}
MUT_FUNC = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0, 'numpy.put_along_axis': 0, 'random.shuffle': 0,
            'numpy.random.shuffle': 0, 'heapq.heapify': 0, 'heapq.heappush': 0, 'numpy.ndarray.sort': 0, 'bisect.insort': 0}
CLOCK = {'set_jultime', 'set_ephemtime', 'set_unixtime'}
ARRAY_ATTR = {'shape', 'ndim', 'size', 'dtype', 'T', 'astype', 'reshape', 'ravel', 'real', 'imag', 'flat', 'nbytes', 'strides', 'transpose', 'sum', 'mean', 'std', 'min', 'max', 'copy',
              'conj', 'squeeze', 'append', 'extend', 'sort', 'view'}


class Alias(object):
    """what one value may share: set of parameter names; arr: it is certainly a container (in-place += writes through)"""
    __slots__ = ('par', 'arr', 'sh')

    def __init__(self, par=frozenset(), arr=False, sh=False):
        self.par, self.arr, self.sh = par, arr, sh          # sh: a shallow copy, only its contents are shared

    def __eq__(self, o):
        return self.par == o.par and self.arr == o.arr and self.sh == o.sh

    def __hash__(self):
        return hash((self.par, self.arr, self.sh))


NONE = Alias()


def stringy(e):
    """a string is being appended"""
    if isinstance(e, ast.JoinedStr) or isinstance(e, ast.Constant) and isinstance(e.value, (str, bytes)):
        return True
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult, ast.Mod)):
        return stringy(e.left) or (not isinstance(e.op, ast.Mod) and stringy(e.right))
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
        return n in ('str', 'join', 'format', 'strip', 'upper', 'lower', 'ljust', 'rjust', 'replace', 'hex', 'chr', 'repr')
    return False


def true(e):
    return isinstance(e, ast.Constant) and e.value is True


UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'power', 'maximum', 'minimum', 'fmax', 'fmin', 'mod', 'remainder', 'arctan2', 'hypot', 'logical_and',
          'logical_or', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift', 'right_shift', 'copysign'}
UFUNC1 = {'abs', 'absolute', 'negative', 'sqrt', 'square', 'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'conj', 'conjugate', 'rint', 'floor', 'ceil', 'trunc', 'sign', 'reciprocal',
          'logical_not', 'invert', 'deg2rad', 'rad2deg', 'radians', 'degrees'}


def inplace_call(name, x):
    """the argument that a numpy call writes its result to"""
    n = name.split('.')[-1]
    if any(isinstance(a, ast.Starred) for a in x.args):
        return None
    if n in UFUNC2 and len(x.args) > 2:
        return x.args[2]
    if n in UFUNC1 and len(x.args) > 1:
        return x.args[1]
    if n == 'clip' and len(x.args) > 3:
        return x.args[3]
    if n == 'nan_to_num' and x.args:
        c = x.args[1] if len(x.args) > 1 else None
        for k in x.keywords:
            if k.arg == 'copy':
                c = k.value
        if isinstance(c, ast.Constant) and not c.value:
            return x.args[0]
    if name.endswith('.at') and x.args and name.split('.')[-2] in UFUNC2:
        return x.args[0]
    return None


def path(x):
    """a.b for an attribute of a plain name"""
    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
        return '%s.%s' % (x.value.id, x.attr)
    return None


def undotted(par):
    return frozenset(p for p in par if not (isinstance(p, str) and '.' in p))


def private(x, st=()):
    """a write below a private cache or back-reference: the object's own bookkeeping"""
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        if path(x) in st:
            return False
        if isinstance(x, ast.Attribute) and x.attr.startswith('_') and ('cache' in x.attr or x.attr == '_parent'):
            return True
        x = x.value
    return False


# arguments that are documented as the place the result goes
INOUT = {('lsl.astro', 'add_hms', 'dest'), ('lsl.imaging.utils', 'build_gridded_image', 'im'),
         # simulating and deconvolving put the array to the time of the data
         ('lsl.sim.vis', 'build_sim_data', 'aa'), ('lsl.imaging.deconv', 'clean', 'gimg'), ('lsl.imaging.deconv', 'clean_sources', 'gimg'), ('lsl.imaging.deconv', 'lsq', 'gimg')}
# hooks and decorators, whose job is to modify the object they get
# operations that are expected to leave the object itself alone, too
PURE = {'__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__repr__', '__str__', '__hash__', '__len__', '__contains__', '__add__', '__sub__', '__mul__', '__truediv__', '__floordiv__',
        '__mod__', '__neg__', '__pos__', '__abs__', '__radd__', '__rsub__', '__rmul__', '__float__', '__int__', '__bool__', '__copy__', '__deepcopy__', '__getitem__', '__format__'}
SKIP = ('lsl.testing', 'lsl.logger', 'lsl.logger_gui', 'lsl.misc.telemetry')


def check(repo, res=None):
    from ..common import Finding
    E = Effects(repo)
    out = []
    n = npar = 0
    for f in repo.funcs():
        if f.parent is not None or f.mod.name.startswith(SKIP):
            continue
        nm = f.node.name
        if nm.startswith('_') and nm != '__init__' and not (nm.startswith('__') and nm.endswith('__')):
            continue
        if f.cls is not None and f.cls.name.startswith('_'):
            continue
        if nm in ('__setstate__', '__exit__', '__set__'):
            continue
        ps = E.params(f)
        s = E.analyse(f)
        n += 1
        for p in ps:
            if f.cls is not None and p == ps[0] and not f.is_static and nm not in PURE:
                continue
            npar += 1
            if p in s and (f.mod.name, f.qual, p) not in INOUT:
                line, why = s[p][:2]
                out.append(Finding('input-modified', '%s:%s:%s' % (f.mod.rel, f.qual, p), '%s:%s' % (f.mod.rel, line),
                                   'the argument %r (or something it contains) is modified: %s' % (p, why)))
    out += kept(repo, E, res)
    out += independent(repo, E, res)
    if res is not None:
        res.count(public_functions=n, parameters=npar, **E.n)
    return out


def copies_self(f):
    """a method that gives the caller a copy of (part of) the object"""
    if f.cls is None or f.parent is not None or isinstance(f.node, ast.Lambda) or f.node.name.startswith('_'):
        return False
    return f.node.name == 'copy' or 'copy of' in (ast.get_docstring(f.node) or '').lower() or 'subset of' in (ast.get_docstring(f.node) or '').lower()


def written_attrs(repo):
    """attributes whose contents some code modifies in place"""
    out = {}
    for f in repo.funcs():
        for n in ast.walk(f.node):
            for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) else ()):
                if isinstance(t, ast.Subscript):
                    x = t.value
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute):
                        out.setdefault(x.attr, '%s:%d' % (f.mod.rel, n.lineno))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METH and isinstance(n.func.value, ast.Attribute):
                out.setdefault(n.func.value.attr, '%s:%d' % (f.mod.rel, n.lineno))
    return out


def independent(repo, E, res):
    """a copy that still holds the arrays of the original: whoever changes one changes the other"""
    from ..common import Finding
    out, n, W = [], 0, None
    for f in repo.funcs():
        if not copies_self(f) or f.mod.name.startswith(SKIP) or E.own(f) is None:
            continue
        E.analyse(f)
        if f not in E.states:
            continue
        W = W or written_attrs(repo)
        me = E.own(f)
        g, IN = E.states[f]
        mine = {}                                   # attribute of the copy -> (line, attribute of the original)
        rebound = {}
        for node in g.nodes:
            if node.id not in IN or node.ast is None or node.kind not in ('stmt', 'return', 'test', 'expr'):
                continue
            st = dict(IN[node.id])
            root = node.extra if node.kind == 'test' else node.ast
            for x in names.own_expr(root):
                if isinstance(x, ast.Call):
                    r = repo.dotted(f.mod, x.func, E.nom.locals(f))
                    tg = E.target(x, f, r)
                    if r is not None and r[0] == 'class' and tg is not None:
                        E.analyse(tg[0])
                        st_ = E.stores.get(tg[0], {})
                        for pn, arg in E.bind(tg[0], tg[1], x):
                            for a, q in st_.items():
                                if pn in q:
                                    n += 1
                                    v = E.value(arg, st, f)
                                    k = [p for p in v.par if isinstance(p, str) and p.startswith(me + '.')]
                                    if k and not v.sh and a in W:
                                        mine.setdefault(a, []).append((x.lineno, k[0], node))
                    elif isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert', 'add') and x.args and not (isinstance(x.func.value, ast.Name) and x.func.value.id == me):
                        y = x.args[-1]
                        if isinstance(y, ast.Name) and me in st.get(y.id, NONE).par and y.id in whole(f, me):
                            out.append(Finding('copy-shares', '%s:%s:%s' % (f.mod.rel, f.qual, y.id), '%s:%d' % (f.mod.rel, x.lineno),
                                               'the copy gets the parts of the original themselves, not copies of them'))
            if isinstance(node.ast, ast.Assign):
                for t in node.ast.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id != me:
                        v = E.value(node.ast.value, st, f)
                        k = [p for p in v.par if isinstance(p, str) and p.startswith(me + '.')]
                        n += 1
                        if k and not v.sh and t.attr in W:
                            mine.setdefault(t.attr, []).append((node.ast.lineno, k[0], node))
                        elif not k:
                            rebound.setdefault(t.attr, set()).add(node.id)
        for a, line, k, node in [(a, l, k, y) for a, xs in sorted(mine.items()) for l, k, y in xs]:
            todo, seen = [s for s, l in node.succ if l != 'x'], set()
            while todo:
                y = todo.pop()
                if y.id in seen or y.id in rebound.get(a, ()):
                    continue
                seen.add(y.id)
                todo.extend(s for s, l in y.succ if l != 'x')
            if g.exit.id not in seen:
                continue                            # replaced before the copy is handed out
            out.append(Finding('copy-shares', '%s:%s:%s' % (f.mod.rel, f.qual, a), '%s:%d' % (f.mod.rel, line),
                               'the copy keeps %s itself as its %s, which is modified in place (%s): changing the copy changes the original' % (k, a, W[a])))
    if res is not None:
        res.count(parts_of_copies=n)
    return out


def whole(f, me):
    """names that stand for the parts an object iterates over, or gives by name"""
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, ast.Name) and x.iter.id == me:
            out.add(x.target.id)
    return out


def kept(repo, E, res):
    """a list or array that an object keeps as it was handed in, and that a method of it modifies later"""
    from ..common import Finding
    out, n, seen = [], 0, set()
    for f in repo.funcs():
        if f.cls is None or f.parent is not None or f.mod.name.startswith(SKIP) or f.cls.name.startswith('_') or E.own(f) is None:
            continue
        nm = f.node.name
        if nm.startswith('_') and nm != '__init__' and not (nm.startswith('__') and nm.endswith('__')) or nm in ('__setstate__', '__exit__', '__set__'):
            continue
        E.analyse(f)
        for attr, q in sorted(E.stores.get(f, {}).items()):
            n += 1
            fam = [f.cls] + list(repo.mro(f.cls))[1:] + list(repo.subclasses(f.cls))
            for c in fam:
                for m in [m for ms in getattr(c, 'methods', {}).values() for m in (ms if isinstance(ms, list) else [ms])]:
                    if E.own(m) is None or m.parent is not None:
                        continue
                    sm = E.analyse(m)
                    k = '%s.%s' % (E.own(m), attr)
                    if k not in sm:
                        continue
                    for p in sorted(q):
                        key = '%s:%s:%s' % (f.mod.rel, f.qual, p)
                        if key not in seen and p not in E.analyse(f):
                            seen.add(key)
                            out.append(Finding('kept-modified', key, '%s:%s' % (f.mod.rel, q[p]),
                                               'the argument %r is kept as it is in %s, and %s modifies it later (line %d: %s)' % (p, attr, m.qual, sm[k][0], sm[k][1])))
    if res is not None:
        res.count(kept_arguments=n)
    return out


class Effects(object):
    def __init__(self, repo):
        self.repo = repo
        self.nom = Nominal(repo)
        self.summary = {}          # Func -> {param: (line, why)}
        self.writes = {}           # Func -> {(param, line): (why, deep)}, every write
        self.states = {}           # method that returns a copy -> (graph, states)
        self.stores = {}           # method -> {attribute: {param: line}}, parameters an object keeps as they are
        self.returns = {}          # Func -> frozenset of params whose storage the result may share
        self.n = dict(functions=0, writes_seen=0, undecided_inplace=0)

    def params(self, f):
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            ps.append(a.vararg.arg)
        if a.kwarg:
            ps.append(a.kwarg.arg)
        return ps

    # ------------------------------------------------------------ one function
    def analyse(self, f):
        if f in self.summary:
            return self.summary[f]
        self.summary[f] = {}
        self.returns[f] = frozenset()
        self.n['functions'] += 1
        for _ in range(3):
            s, r = self.one(f)
            if s.keys() == self.summary[f].keys() and r == self.returns[f]:
                break
            self.summary[f], self.returns[f] = s, r
        return self.summary[f]

    def one(self, f):
        node = f.node
        ps = self.params(f)
        if isinstance(node, ast.Lambda):
            return {}, frozenset()
        g = getattr(f, '_cfg', None)
        if g is None:
            g = f._cfg = cfg.CFG(node)
        arrays = self.arrayish(node, f)
        own_obj = node.args.vararg.arg if node.args.vararg else None
        kw = node.args.kwarg.arg if node.args.kwarg else None
        init = frozenset((p, Alias(frozenset([p]), p in arrays)) for p in ps if p not in (own_obj, kw))
        hits, ret = {}, set()
        self._cur = f
        todo_calls = []

        def ev(e, st):
            return self.value(e, st, f)

        def assign(t, v, st, value=None):
            if isinstance(t, ast.Name):
                if v.par:
                    st[t.id] = Alias(v.par, v.arr or (t.id in arrays), v.sh)
                else:
                    st.pop(t.id, None)
            elif path(t):
                if t.value.id == self.own(f) and not v.sh:
                    for q in v.par:
                        if q in ps and q != t.value.id:
                            self.stores.setdefault(f, {}).setdefault(t.attr, {})[q] = t.lineno
                if v.par - {t.value.id}:
                    st[path(t)] = v
                elif t.value.id == self.own(f):
                    st[path(t)] = Alias(frozenset(v.par))           # its own from here on
                else:
                    st.pop(path(t), None)
            elif isinstance(t, ast.Starred):
                assign(t.value, v, st)
            elif isinstance(t, (ast.Tuple, ast.List)):
                if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in value.elts + t.elts):
                    vs = [ev(x, st) for x in value.elts]
                    for x, y, z in zip(t.elts, vs, value.elts):
                        assign(x, y, st, z)
                else:
                    for x in t.elts:
                        assign(x, Alias(v.par, False), st)

        def transfer(n, st0):
            st = dict(st0)
            a = n.ast
            if n.kind == 'stmt' and isinstance(a, ast.Assign):
                v = ev(a.value, st)
                for t in a.targets:
                    assign(t, v, st, a.value)
            elif n.kind == 'stmt' and isinstance(a, ast.AnnAssign) and a.value is not None:
                assign(a.target, ev(a.value, st), st, a.value)
            elif n.kind == 'stmt' and isinstance(a, ast.AugAssign):
                if isinstance(a.target, ast.Name) and a.target.id in st and not st[a.target.id].arr:
                    # a scalar: rebinds
                    pass
            elif n.kind == 'iter':
                v = self.iter_value(a.iter, st, f)
                if isinstance(a.target, (ast.Tuple, ast.List)) and isinstance(v, list) and len(v) == len(a.target.elts):
                    for x, y in zip(a.target.elts, v):
                        assign(x, y, st)
                else:
                    if isinstance(v, list):
                        v = Alias(frozenset().union(*[x.par for x in v]) if v else frozenset())
                    assign(a.target, v, st)
            elif n.kind == 'with_enter':
                for i in a.items:
                    if i.optional_vars is not None:
                        v = ev(i.context_expr, st) if not isinstance(i.context_expr, ast.Call) else NONE
                        assign(i.optional_vars, v, st)
            else:
                for d in names.defs(n):
                    st.pop(d, None)
            fr = frozenset(st.items())
            return fr, st0

        def join(a, b):
            if a == b:
                return a
            da, db = dict(a), dict(b)
            out = {}
            for k in set(da) | set(db):
                if '.' in k and not ((k in da and k in db) or da.get(k, db.get(k)).par):
                    continue
                x, y = da.get(k, NONE), db.get(k, NONE)
                out[k] = Alias(x.par | y.par, x.arr or y.arr, (x.sh or not x.par) and (y.sh or not y.par))
            return frozenset(out.items())
        IN = cfg.forward(g, init, transfer, join)
        if copies_self(f):
            self.states[f] = (g, IN)
        for n in g.nodes:
            if n.id not in IN:
                continue
            st = dict(IN[n.id])
            self.scan(n, st, f, hits)
            if n.kind == 'return' and n.ast.value is not None:
                ret |= self.value(n.ast.value, st, f).par
        return hits, frozenset(ret)

    def arrayish(self, node, f=None, depth=0):
        """names the function uses as containers"""
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAY_ATTR:
                out.add(n.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                out.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'enumerate', 'sorted', 'zip', 'sum', 'max', 'min') and n.args:
                for a in n.args if n.func.id == 'zip' else n.args[:1] if len(n.args) == 1 else ():
                    if isinstance(a, ast.Name):
                        out.add(a.id)
            elif isinstance(n, ast.Call) and f is not None and depth < 2 and any(isinstance(a, ast.Name) for a in n.args):
                r = self.repo.dotted(f.mod, n.func, self.nom.locals(f))
                if r is not None and r[0] == 'func' and r[1].node is not node:
                    sub = self.arrayish(r[1].node, r[1], depth + 1)
                    out |= {a.id for pn, a in self.bind(r[1], 0, n) if isinstance(a, ast.Name) and pn in sub}
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                out.add(n.iter.id)
        return out

    def iter_value(self, e, st, f):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id == 'enumerate' and e.args:
                return [NONE, self.elem(self.value(e.args[0], st, f))]
            if e.func.id == 'zip':
                return [self.elem(self.value(a, st, f)) for a in e.args]
            if e.func.id == 'reversed' and e.args:
                return self.elem(self.value(e.args[0], st, f))
            if e.func.id in ('sorted', 'list', 'tuple', 'set') and e.args:
                return self.elem(self.value(e.args[0], st, f))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'items':
            return [NONE, self.elem(self.value(e.func.value, st, f))]
        if isinstance(e, (ast.Tuple, ast.List)):
            v = [self.value(x, st, f) for x in e.elts]
            return Alias(frozenset().union(*[x.par for x in v]) if v else frozenset(), bool(v) and all(x.arr for x in v))
        return self.elem(self.value(e, st, f))

    def own(self, f):
        """the name of the object a method belongs to"""
        if f is None or f.cls is None or f.parent is not None or f.is_static or isinstance(f.node, ast.Lambda):
            return None
        pos = f.node.args.posonlyargs + f.node.args.args
        return pos[0].arg if pos else None

    def elem(self, v):
        return Alias(undotted(v.par), False)

    def value(self, e, st, f):
        if isinstance(e, ast.Name):
            return st.get(e.id, NONE)
        if isinstance(e, ast.NamedExpr):
            return self.value(e.value, st, f)
        if isinstance(e, ast.IfExp):
            a, b = self.value(e.body, st, f), self.value(e.orelse, st, f)
            return Alias(a.par | b.par, a.arr or b.arr)
        if isinstance(e, ast.BoolOp):
            vs = [self.value(v, st, f) for v in e.values]
            return Alias(frozenset().union(*[v.par for v in vs]), any(v.arr for v in vs))
        if isinstance(e, ast.Attribute):
            if path(e) in st:
                return st[path(e)]
            v = self.value(e.value, st, f)
            if v.par:
                par = v.par
                if isinstance(e.value, ast.Name) and e.value.id == self.own(f):
                    par = par | {path(e)}
                elif e.attr not in ('T', 'real', 'imag', 'flat'):
                    par = undotted(par)
                return Alias(par, e.attr in ('T', 'real', 'imag', 'flat'))
            return NONE
        if isinstance(e, ast.Subscript):
            v = self.value(e.value, st, f)
            if not v.par:
                return NONE
            return self.subscript(e, v, st, f)
        if isinstance(e, ast.Starred):
            return self.value(e.value, st, f)
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Attribute):
                if fn.attr in VIEW_METH:
                    v = self.value(fn.value, st, f)
                    if v.par:
                        return Alias(v.par, fn.attr not in ('get', 'setdefault', 'items', 'values', '__getitem__'))
                if fn.attr == 'astype':
                    v = self.value(fn.value, st, f)
                    if v.par and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is False for k in e.keywords):
                        return Alias(v.par, True)
                    return NONE
            r = self.repo.dotted(f.mod, fn, self.nom.locals(f))
            if r is not None and r[0] == 'ext':
                p = r[1].split('.')
                if r[1] == 'copy.copy' and e.args:
                    v = self.value(e.args[0], st, f)
                    return Alias(v.par, False, True) if v.par and not v.arr else NONE
                if p[0] == 'numpy' and e.args:
                    if p[-1] in VIEW_FUNC and len(p) == 2:
                        # a dtype conversion may copy, but need not
                        v = self.value(e.args[0], st, f)
                        return Alias(v.par, True) if v.par else NONE
                    if p[-1] == 'array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in e.keywords):
                        v = self.value(e.args[0], st, f)
                        return Alias(v.par, True) if v.par else NONE
                return NONE
            tg = self.target(e, f, r)
            if tg is not None:
                func, skip = tg
                self.analyse(func)
                out = set()
                for pn, arg in self.bind(func, skip, e):
                    if pn in self.returns[func]:
                        out |= self.value(arg, st, f).par
                return Alias(frozenset(out), False)
        return NONE

    def subscript(self, e, v, st, f=None):
        s = e.slice
        parts = s.elts if isinstance(s, ast.Tuple) else [s]
        basic, slices = True, False
        for p in parts:
            if isinstance(p, ast.Slice) or isinstance(p, ast.Constant) and p.value is Ellipsis:
                slices = True
            elif isinstance(p, ast.Constant):
                pass
            elif isinstance(p, (ast.Name, ast.BinOp, ast.UnaryOp, ast.Call, ast.Attribute, ast.Subscript, ast.Compare, ast.BoolOp)):
                if isinstance(p, (ast.Compare, ast.BoolOp, ast.Call)):
                    basic = False          # mask / index array: a copy
                elif isinstance(p, ast.UnaryOp) and isinstance(p.operand, ast.Constant):
                    pass
                elif not isinstance(p, ast.Name) or True:
                    basic = basic and not slices or basic
                    if not self.loop_index(p, f):
                        return Alias(v.par, False)      # integer or index array: an element, or a copy
            elif isinstance(p, ast.List):
                basic = False
        if not basic:
            return NONE
        return Alias(v.par, slices)

    def loop_index(self, p, f):
        """certainly an integer: a loop counter, a constant element, or arithmetic on those"""
        if isinstance(p, ast.Constant):
            return isinstance(p.value, int)
        if isinstance(p, ast.UnaryOp):
            return self.loop_index(p.operand, f)
        if isinstance(p, ast.BinOp):
            return self.loop_index(p.left, f) and self.loop_index(p.right, f)
        if isinstance(p, ast.Subscript):
            i = p.slice.operand if isinstance(p.slice, ast.UnaryOp) else p.slice
            return isinstance(i, ast.Constant) and isinstance(i.value, int) and isinstance(p.value, ast.Name)
        if not isinstance(p, ast.Name) or f is None:
            return False
        if not hasattr(f, '_counters'):
            yes, no = set(), set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.For, ast.comprehension)):
                    it = x.iter
                    nm = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else ''
                    if nm == 'range' and isinstance(x.target, ast.Name):
                        yes.add(x.target.id)
                        continue
                    if nm == 'enumerate' and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name):
                        yes.add(x.target.elts[0].id)
                        no |= {y.id for z in x.target.elts[1:] for y in ast.walk(z) if isinstance(y, ast.Name)}
                        continue
                    no |= {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}
                elif isinstance(x, ast.Assign):
                    no |= {y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            f._counters = yes - no - set(self.params(f))
        return p.id in f._counters

    # ------------------------------------------------------------ calls
    def target(self, call, f, r):
        if r is not None:
            if r[0] == 'func':
                return (r[1], 0)
            if r[0] == 'class':
                x = self.repo.method(r[1], '__init__')
                return (x, 1) if x is not None else None
            return None
        fn = call.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and f.cls is not None and f.parent is None:
            pos = f.node.args.posonlyargs + f.node.args.args
            if pos and fn.value.id == pos[0].arg and not f.is_static:
                x = self.repo.method(f.cls, fn.attr)
                if x is not None and 'property' not in x.decorators and not any(fn.attr in k.methods for k in self.repo.subclasses(f.cls)):
                    return (x, 0 if x.is_static else 1)
        if isinstance(fn, ast.Name):
            p = f
            while p is not None:
                for q in f.mod.funcs:
                    if q.parent is p and q.node.name == fn.id:
                        return (q, 0)
                p = p.parent
        return None

    def bind(self, func, skip, call):
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        names_ = set(pos) | {x.arg for x in a.kwonlyargs}
        out = []
        if skip and isinstance(call.func, ast.Attribute) and pos and func.node.name != '__init__':
            out.append((pos[0], call.func.value))
        for p, x in zip(pos[skip:], call.args):
            if isinstance(x, ast.Starred):
                break
            out.append((p, x))
        for k in call.keywords:
            if k.arg in names_:
                out.append((k.arg, k.value))
        return out

    # ------------------------------------------------------------ writes
    def scan(self, n, st, f, hits):
        a = n.ast
        root = n.extra if n.kind == 'test' else a
        if n.kind in ('def', 'handler', 'join', 'dispatch', 'entry', 'exit', 'rexit', 'finally', 'with_exit', 'jump') or root is None:
            return
        if n.kind == 'iter':
            return
        if n.kind == 'with_enter':
            roots = [i.context_expr for i in a.items]
        else:
            roots = [root]

        def hit(v, line, why, deep=False):
            self.n['writes_seen'] += 1
            for p in v.par:
                self.writes.setdefault(f, {})[(p, line)] = (why, deep)
                if p not in hits or deep and not hits[p][2]:
                    hits[p] = (line, why, deep)
        if n.kind == 'stmt':
            tg = a.targets if isinstance(a, (ast.Assign, ast.Delete)) else [a.target] if isinstance(a, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                for x in self.leaves(t):
                    if isinstance(x, (ast.Subscript, ast.Attribute)):
                        v = self.value(x.value, st, f)
                        if v.par and not private(x.value if path(x.value) in st else x, st):
                            if v.sh and not v.arr and isinstance(x.value, ast.Name):
                                continue
                            if isinstance(a, ast.Delete):
                                v = self.absent(n, x, v, f)
                            if isinstance(x, ast.Attribute) and x.attr not in ('shape', 'dtype', 'strides'):
                                v = Alias(undotted(v.par), v.arr, v.sh)         # a part of the object, which it owns
                            hit(v, x.lineno, 'store to %s' % ast.unparse(x), not isinstance(x.value, ast.Name))
                    elif isinstance(a, ast.AugAssign) and isinstance(x, ast.Name):
                        v = st.get(x.id, NONE)
                        if v.par:
                            op = self.inplace_method(a, x, f)
                            if stringy(a.value):
                                pass
                            elif op is not None:
                                sm = self.analyse(op)
                                me = self.params(op)[0]
                                if me in sm and (sm[me][2] or not v.sh):
                                    hit(v, x.lineno, '%s modifies the object (%s)' % (op.qual, sm[me][1]))
                            elif v.sh:
                                pass
                            elif v.arr:
                                hit(v, x.lineno, 'in-place %s' % ast.unparse(a)[:60])
                            else:
                                self.n['undecided_inplace'] += 1
        for root in roots:
            for x in names.own_expr(root):
                if not isinstance(x, ast.Call):
                    continue
                fn = x.func
                if isinstance(fn, ast.Attribute) and fn.attr in CLOCK and not self.restored(f, fn):
                    v = self.value(fn.value, st, f)
                    v = Alias(undotted(v.par), v.arr, v.sh)
                    if v.par and not v.sh and not private(fn.value, st):
                        hit(v, x.lineno, 'call of %s' % ast.unparse(fn), not isinstance(fn.value, ast.Name))
                if isinstance(fn, ast.Attribute) and fn.attr in MUT_METH:
                    v = self.value(fn.value, st, f)
                    if v.par and not private(fn.value, st) and not v.sh:
                        r = self.nom.of(fn.value, f)
                        if not r:
                            hit(v, x.lineno, 'call of %s' % ast.unparse(fn), not isinstance(fn.value, ast.Name))
                for k in x.keywords:
                    if k.arg == 'out':
                        for y in (k.value.elts if isinstance(k.value, ast.Tuple) else [k.value]):
                            v = self.value(y, st, f)
                            if v.par:
                                hit(v, x.lineno, 'out=%s' % ast.unparse(y))
                    if k.arg in ('overwrite_x', 'overwrite_a', 'overwrite_b', 'overwrite_input', 'overwrite_data') and isinstance(k.value, ast.Constant) and k.value.value is True and x.args:
                        v = self.value(x.args[0], st, f)
                        if v.par:
                            hit(v, x.lineno, '%s=True' % k.arg)
                r = self.repo.dotted(f.mod, fn, self.nom.locals(f))
                if r is not None and r[0] == 'ext' and r[1] in MUT_FUNC and len(x.args) > MUT_FUNC[r[1]]:
                    v = self.value(x.args[MUT_FUNC[r[1]]], st, f)
                    if v.par:
                        hit(v, x.lineno, 'call of %s' % r[1])
                if r is not None and r[0] == 'builtin' and r[1] in ('setattr', 'delattr') and x.args:
                    v = self.value(x.args[0], st, f)
                    if v.par:
                        hit(Alias(undotted(v.par), v.arr, v.sh), x.lineno, 'setattr', not isinstance(x.args[0], ast.Name))
                if isinstance(fn, ast.Name) and fn.id == 'setattr' and x.args and r is None:
                    v = self.value(x.args[0], st, f)
                    if v.par:
                        hit(Alias(undotted(v.par), v.arr, v.sh), x.lineno, 'setattr', not isinstance(x.args[0], ast.Name))
                if r is not None and r[0] == 'ext' and r[1].startswith(('numpy.', 'scipy.')):
                    y = inplace_call(r[1], x)
                    if y is not None:
                        v = self.value(y, st, f)
                        if v.par:
                            hit(v, x.lineno, 'call of %s in place' % r[1])
                if isinstance(fn, ast.Attribute) and fn.attr == 'byteswap' and (x.args and true(x.args[0]) or any(k.arg == 'inplace' and true(k.value) for k in x.keywords)):
                    v = self.value(fn.value, st, f)
                    if v.par:
                        hit(v, x.lineno, 'byteswap in place')
                tg = self.target(x, f, r)
                if tg is not None:
                    func, skip = tg
                    sm = self.analyse(func)
                    me = self.own(f)
                    if skip and me is not None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me and self.own(func):
                        # what the object's other methods do to the things it holds
                        pre = self.own(func) + '.'
                        for k in list(sm):
                            if isinstance(k, str) and k.startswith(pre):
                                v = self.value(ast.Attribute(value=fn.value, attr=k[len(pre):], ctx=ast.Load()), st, f)
                                v = Alias(v.par - {me}, v.arr, v.sh)
                                if v.par and not (v.sh and not sm[k][2]):
                                    hit(v, x.lineno, '%s modifies %s (%s)' % (func.qual, k, sm[k][1]), sm[k][2])
                    for pn, arg in self.bind(func, skip, x):
                        if pn in sm:
                            v = self.value(arg, st, f)
                            if v.par and not (v.sh and not sm[pn][2]):
                                hit(v, x.lineno, '%s modifies its argument %s (%s)' % (func.qual, pn, sm[pn][1]), sm[pn][2] or not isinstance(arg, ast.Name))

    def restored(self, f, fn):
        """the clock of an observer is set back to what was read from it before"""
        who = ast.unparse(fn.value)
        get = 'g' + fn.attr[1:]
        saved = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Call) and ast.unparse(y.func) == '%s.%s' % (who, get) for y in ast.walk(x.value)):
                saved |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        return any(isinstance(x, ast.Call) and ast.unparse(x.func) == ast.unparse(fn) and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id in saved for x in ast.walk(f.node))

    OPS = {ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__', ast.Div: '__itruediv__', ast.FloorDiv: '__ifloordiv__', ast.Mod: '__imod__', ast.Pow: '__ipow__'}

    def inplace_method(self, a, x, f):
        t = self.nom.of(ast.Name(id=x.id, ctx=ast.Load()), f)
        if not t or len(t) != 1 or type(a.op) not in self.OPS:
            return None
        return self.repo.method(list(t)[0], self.OPS[type(a.op)])

    def absent(self, n, x, v, f):
        """del y[y.index(e)] cannot touch a list that was tested not to contain e just before"""
        if not (isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Call) and isinstance(x.slice.func, ast.Attribute) and x.slice.func.attr == 'index' and len(x.slice.args) == 1):
            return v
        e = ast.unparse(x.slice.args[0])
        drop = set()
        for t in ast.walk(f.node):
            if isinstance(t, ast.If) and t.lineno < n.ast.lineno and isinstance(t.test, ast.Compare) and len(t.test.ops) == 1 and isinstance(t.test.ops[0], ast.In) \
                    and ast.unparse(t.test.left) == e and isinstance(t.test.comparators[0], ast.Name) and t.body and isinstance(t.body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise)):
                drop.add(t.test.comparators[0].id)
        return Alias(v.par - drop, v.arr)

    def leaves(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                for y in self.leaves(x):
                    yield y
        elif isinstance(t, ast.Starred):
            for y in self.leaves(t.value):
                yield y
        else:
            yield t
