"""
Value objects: the comparisons, the hash, the pickled form, the indexing and the arithmetic operators that a
class defines have to agree with one another.

The methods are evaluated over symbolic objects.  What is compared is a pair of expressions, one over each
object; each such pair is smaller, equal or larger, and all combinations of these outcomes are followed
through all the comparison methods together.
"""
import ast
import itertools
import math
from ..common import Finding

OPS = {'__eq__': ast.Eq, '__ne__': ast.NotEq, '__lt__': ast.Lt, '__le__': ast.LtE, '__gt__': ast.Gt, '__ge__': ast.GtE}
DUNDER = {v: k for k, v in OPS.items()}
CONV = {'int', 'float', 'str', 'list', 'tuple', 'bool', 'numpy.array', 'numpy.asarray', 'numpy.float64', 'copy.copy', 'copy.deepcopy', 'sorted'}
NUMERIC = {'int', 'float', 'complex', 'numpy.integer', 'numpy.floating', 'numpy.number', 'numbers.Number', 'numbers.Real', 'numbers.Integral', 'numpy.float64', 'numpy.float32', 'numpy.int64', 'numpy.int32'}
ARITH = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div, 'floordiv': ast.FloorDiv, 'div': None}
FAMILY = [{ast.Add, ast.Sub}, {ast.Mult, ast.Div, ast.FloorDiv}]
NPOP = {'add': ast.Add, 'subtract': ast.Sub, 'multiply': ast.Mult, 'divide': ast.Div, 'true_divide': ast.Div, 'floor_divide': ast.FloorDiv, 'iadd': ast.Add, 'isub': ast.Sub, 'imul': ast.Mult, 'sub': ast.Sub, 'mul': ast.Mult,
        'truediv': ast.Div, 'itruediv': ast.Div, 'floordiv': ast.FloorDiv, 'ifloordiv': ast.FloorDiv}
SWAP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
A, B = ('obj', 'a'), ('obj', 'b')


class Undecided(Exception):
    pass


class Need(Exception):
    def __init__(self, key):
        self.key = key


class Raised(Exception):
    def __init__(self, name):
        self.name = name


class Returned(Exception):
    def __init__(self, value):
        self.value = value


class LoopEnd(Exception):
    pass


def const(v):
    return ('c', v)


def objs(e):
    if not isinstance(e, tuple):
        return set()
    if e[:1] == ('obj',):
        return {e[1]}
    out = set()
    for x in e:
        if isinstance(x, tuple):
            out |= objs(x)
    return out


def attrs(e, o=None):
    """attributes of the object(s) an expression is made from"""
    if not isinstance(e, tuple):
        return set()
    if e[:1] == ('attr',) and e[1][:1] == ('obj',):
        return {e[2]} if o is None or e[1][1] == o else set()
    out = set()
    for x in e:
        if isinstance(x, tuple):
            out |= attrs(x, o)
    return out


def rename(e, m):
    if not isinstance(e, tuple):
        return e
    if e[:1] == ('obj',):
        return ('obj', m.get(e[1], e[1]))
    return tuple(rename(x, m) for x in e)


def scale(e):
    """(factor, rest) of products with constants"""
    if e[0] == 'c' and isinstance(e[1], (int, float)) and not isinstance(e[1], bool):
        return float(e[1]), None
    if e[0] == 'op' and e[1] in ('Mult', 'Div'):
        (f, x), (g, y) = scale(e[2]), scale(e[3])
        if e[1] == 'Mult':
            if x is None or y is None:
                return f * g, x if y is None else y
        elif y is None and g:
            return f / g, x
        return 1.0, e
    if e[0] == 'un' and e[1] == 'USub':
        f, x = scale(e[2])
        return -f, x
    return 1.0, e


def linear(e):
    """{expression: coefficient} or None"""
    if e[0] == 'op' and e[1] in ('Add', 'Sub'):
        l, r = linear(e[2]), linear(e[3])
        if l is None or r is None:
            return None
        out = dict(l)
        for k, v in r.items():
            out[k] = out.get(k, 0.0) + (v if e[1] == 'Add' else -v)
        return {k: v for k, v in out.items() if v}
    f, x = scale(e)
    if x is None:
        return {(): f}
    if x[0] == 'op' and x[1] in ('Add', 'Sub'):
        l = linear(x)
        return None if l is None else {k: v * f for k, v in l.items()}
    if x[0] == 'attr' and x[1][0] == 'obj':
        return {x: f}
    return None


def strip(e):
    if isinstance(e, tuple) and e and e[0] == 'call' and e[1] in CONV and len(e) == 3:
        return strip(e[2])
    if isinstance(e, tuple) and e and e[0] in ('op', 'un'):
        f, x = scale(e)
        if x is not None and x != e and abs(f - 1.0) < 1e-9:
            return strip(x)
        # conversions inside a product
        if x is not None and x != e:
            y = strip(x)
            if y != x:
                g, z = scale(y)
                if z is not None and abs(f * g - 1.0) < 1e-9:
                    return strip(z)
    return e


class Ev(object):
    """one evaluation under an assignment of outcomes to the pairs that are compared"""

    def __init__(self, V, cls, given, force=False, other='same'):
        self.V, self.repo, self.cls, self.given, self.force, self.other = V, V.repo, cls, given, force, other
        self.store = {}
        self.depth = 0
        self.steps = 0
        self.fresh = {}         # object -> class it is an instance of
        self.visited = set()

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None, env=None):
        """value returned by the function, or Raised"""
        if self.depth > 12:
            raise Undecided('depth')
        self.visited.add(f)
        e = {}
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        if len(args) > len(names) and a.vararg is None:
            raise Raised('TypeError')
        for n, v in zip(names, args):
            e[n] = v
        if a.vararg is not None:
            e[a.vararg.arg] = ('tup',) + tuple(args[len(names):])
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in (kw or {}).items():
            if k in names + kwonly:
                if k in e:
                    raise Raised('TypeError')
                e[k] = v
            elif a.kwarg is None:
                raise Raised('TypeError')
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        ds.update({n: d for n, d in zip(kwonly, a.kw_defaults) if d is not None})
        for n in names + kwonly:
            if n not in e:
                if n not in ds:
                    raise Raised('TypeError')
                e[n] = self.ev(ds[n], {}, f)
        if a.kwarg is not None:
            e[a.kwarg.arg] = ('unk', 'kwargs')
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            raise Undecided('generator')
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, e, f)
            self.block(f.node.body, e, f)
        except Returned as r:
            return r.value
        finally:
            self.depth -= 1
        return const(None)

    def block(self, stmts, e, f):
        for s in stmts:
            self.stmt(s, e, f)

    def stmt(self, s, e, f):
        self.steps += 1
        if self.steps > 4000:
            raise Undecided('steps')
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value, e, f)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, e, f)
            for t in s.targets:
                self.bind(t, v, e, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, e, f), e, f)
        elif isinstance(s, ast.AugAssign):
            v = self.binop(s.op, self.ev(ast.copy_location(self.load(s.target), s.target), e, f), self.ev(s.value, e, f))
            self.bind(s.target, v, e, f)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, e, f)) else s.orelse, e, f)
        elif isinstance(s, ast.Return):
            raise Returned(self.ev(s.value, e, f) if s.value is not None else const(None))
        elif isinstance(s, ast.Raise):
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            raise Raised(ast.unparse(x).split('.')[-1] if x is not None else '?')
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, e, f)):
                raise Raised('AssertionError')
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body, e, f)
                self.block(s.orelse, e, f)
            except Raised as r:
                for h in s.handlers:
                    ns = [ast.unparse(t).split('.')[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else ['Exception']
                    if r.name in ns or 'Exception' in ns or 'BaseException' in ns:
                        self.block(h.body, e, f)
                        break
                else:
                    self.block(s.finalbody, e, f)
                    raise
            self.block(s.finalbody, e, f)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, e, f)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, e, f)
            self.block(s.body, e, f)
        elif isinstance(s, ast.For):
            it = self.items(self.ev(s.iter, e, f))
            if it is None:
                if not any(isinstance(n, (ast.Return, ast.Raise)) for b in s.body for n in ast.walk(b)):
                    # unknown number of rounds: what it sets is not known
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            e[n.id] = ('unk', '%s@%d' % (n.id, n.lineno))
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                            b = self.ev(n.value, e, f) if isinstance(n.value, ast.Name) else None
                            if b is not None and b[0] == 'obj':
                                self.store[(b, n.attr)] = ('unk', n.attr)
                    return
                if all(isinstance(n, ast.Raise) or not isinstance(n, ast.Return) for b in s.body for n in ast.walk(b)):
                    return              # only checks
                raise Undecided('loop')
            try:
                for x in it:
                    self.bind(s.target, x, e, f)
                    try:
                        self.block(s.body, e, f)
                    except LoopEnd as q:
                        if q.args[0] == 'break':
                            raise
                self.block(s.orelse, e, f)
            except LoopEnd:
                pass
        elif isinstance(s, ast.Break):
            raise LoopEnd('break')
        elif isinstance(s, ast.Continue):
            raise LoopEnd('continue')
        elif isinstance(s, ast.While):
            raise Undecided('loop')
        elif isinstance(s, (ast.FunctionDef,)):
            e[s.name] = ('unk', s.name)
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete)):
            return
        else:
            raise Undecided(type(s).__name__)

    @staticmethod
    def load(t):
        c = ast.parse(ast.unparse(t), mode='eval').body
        return c

    def items(self, v):
        if v[0] == 'tup':
            return list(v[1:])
        if v[0] == 'call' and v[1] in ('list', 'tuple') and len(v) == 3:
            return self.items(v[2])
        if v[0] == 'call' and v[1] == 'range' and all(x[0] == 'c' for x in v[2:]):
            r = range(*[x[1] for x in v[2:]])
            return [const(k) for k in r] if len(r) < 50 else None
        if v[0] == 'call' and v[1] == 'zip':
            its = [self.items(x) for x in v[2:]]
            return None if None in its else [('tup',) + t for t in zip(*its)]
        if v[0] == 'call' and v[1] == 'enumerate' and len(v) == 3:
            i = self.items(v[2])
            return None if i is None else [('tup', const(k), x) for k, x in enumerate(i)]
        return None

    def bind(self, t, v, e, f):
        if isinstance(t, ast.Name):
            e[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.items(v)
            for k, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    raise Undecided('starred')
                self.bind(x, it[k] if it is not None and k < len(it) else ('ix', v, const(k)), e, f)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, e, f)
            self.setattr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Name) and e.get(t.value.id, ('',))[0] in ('tup', 'dict'):
                old = e[t.value.id]
                k = self.ev(t.slice, e, f) if not isinstance(t.slice, ast.Slice) else ('unk', '')
                new = ('unk', t.value.id)
                if old[0] == 'dict' and k[0] == 'c':
                    d = dict(old[1:])
                    d[k] = v
                    new = ('dict',) + tuple(d.items())
                elif old[0] == 'tup' and k[0] == 'c' and isinstance(k[1], int) and -len(old) < k[1] < len(old) - 1:
                    l = list(old[1:])
                    l[k[1]] = v
                    new = ('tup',) + tuple(l)
                for q in [q for q, w in e.items() if w is old]:
                    e[q] = new
            return
        else:
            raise Undecided('target')

    def setattr(self, b, name, v):
        if b[0] != 'obj':
            return
        p = self.prop(b, name, 'setter')
        if p is not None and self.depth < 10:
            self.call(p, [b, v])
            return
        self.store[(b, name)] = v

    def klass(self, b):
        if b[0] == 'obj':
            if b[1] in self.fresh:
                return self.fresh[b[1]]
            if b[1] in ('a', 'b'):
                return self.cls
        return None

    def prop(self, b, name, kind):
        k = self.klass(b)
        if k is None:
            return None
        for c in self.repo.mro(k)[0]:
            for m in c.methods.get(name, []):
                if kind == 'setter' and any(d.endswith('.setter') for d in m.decorators):
                    return m
                if kind == 'getter' and any(d in ('property', 'cached_property', 'functools.cached_property') for d in m.decorators):
                    return m
            if name in c.methods:
                return None
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, x, e, f):
        self.steps += 1
        if self.steps > 6000:
            raise Undecided('steps')
        if isinstance(x, ast.Constant):
            return const(x.value)
        if isinstance(x, ast.Name):
            if x.id in e:
                return e[x.id]
            r = self.repo.dotted(f.mod, x, ())
            if r is None:
                return ('name', x.id)
            if r[0] == 'class':
                return ('cls', r[1])
            if r[0] == 'func':
                return ('fn', r[1])
            if r[0] in ('builtin', 'ext', 'mod'):
                return ('ext', r[1])
            v = f.mod.bind.get(x.id)
            if v and len(v) == 1 and isinstance(v[0], ast.Assign):
                try:
                    return const(ast.literal_eval(v[0].value))
                except Exception:
                    pass
            return ('name', x.id)
        if isinstance(x, ast.Attribute):
            b = self.ev(x.value, e, f)
            return self.attr(b, x.attr, f)
        if isinstance(x, (ast.Tuple, ast.List)):
            out = []
            for y in x.elts:
                if isinstance(y, ast.Starred):
                    it = self.items(self.ev(y.value, e, f))
                    if it is None:
                        raise Undecided('starred')
                    out += it
                else:
                    out.append(self.ev(y, e, f))
            return ('tup',) + tuple(out)
        if isinstance(x, ast.Dict):
            if any(k is None for k in x.keys):
                return ('unk', 'dict')
            return ('dict',) + tuple((self.ev(k, e, f), self.ev(v, e, f)) for k, v in zip(x.keys, x.values))
        if isinstance(x, ast.IfExp):
            return self.ev(x.body if self.truth(self.ev(x.test, e, f)) else x.orelse, e, f)
        if isinstance(x, ast.BoolOp):
            v = None
            for y in x.values:
                v = self.ev(y, e, f)
                t = self.truth(v)
                if t != isinstance(x.op, ast.And):
                    return v if v[0] == 'c' else const(t)
            return v
        if isinstance(x, ast.UnaryOp):
            v = self.ev(x.operand, e, f)
            if isinstance(x.op, ast.Not):
                return const(not self.truth(v))
            if v[0] == 'c' and isinstance(x.op, ast.USub) and isinstance(v[1], (int, float)):
                return const(-v[1])
            return ('un', type(x.op).__name__, v)
        if isinstance(x, ast.BinOp):
            return self.binop(x.op, self.ev(x.left, e, f), self.ev(x.right, e, f))
        if isinstance(x, ast.Compare):
            l = self.ev(x.left, e, f)
            for o, c in zip(x.ops, x.comparators):
                r = self.ev(c, e, f)
                if not self.compare(o, l, r):
                    return const(False)
                l = r
            return const(True)
        if isinstance(x, ast.Subscript):
            b = self.ev(x.value, e, f)
            if isinstance(x.slice, ast.Slice):
                return ('ix', b, ('unk', ast.unparse(x.slice)))
            i = self.ev(x.slice, e, f)
            if b[0] == 'tup' and i[0] == 'c' and isinstance(i[1], int) and -len(b) < i[1] < len(b) - 1:
                return b[1:][i[1]]
            if b[0] == 'dict' and i[0] == 'c':
                for k, v in b[1:]:
                    if k == i:
                        return v
                raise Raised('KeyError')
            if b[0] == 'obj' and b[1] in ('a', 'b') and self.klass(b) is not None:
                m = self.repo.method(self.klass(b), '__getitem__')
                if m is not None:
                    return self.call(m, [b, i])
            return ('ix', b, i)
        if isinstance(x, ast.Call):
            return self.callexpr(x, e, f)
        if isinstance(x, ast.JoinedStr):
            return ('unk', 'text')
        if isinstance(x, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            if len(x.generators) == 1:
                g = x.generators[0]
                it = self.items(self.ev(g.iter, e, f))
                if it is not None:
                    out = []
                    for v in it:
                        e2 = dict(e)
                        self.bind(g.target, v, e2, f)
                        if all(self.truth(self.ev(c, e2, f)) for c in g.ifs):
                            out.append(self.ev(x.elt, e2, f))
                    return ('tup',) + tuple(out)
            free = {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            return ('comp', ast.dump(x)) + tuple(e[n] for n in sorted(free) if n in e)
        if isinstance(x, ast.NamedExpr):
            v = self.ev(x.value, e, f)
            e[x.target.id] = v
            return v
        if isinstance(x, ast.Lambda):
            return ('unk', 'lambda')
        raise Undecided(type(x).__name__)

    def attr(self, b, name, f):
        if b[0] == 'ext':
            if b[1] in ('numpy', 'math', 'np') and name == 'pi':
                return const(math.pi)
            r = None
            if b[1] in self.repo.mods:
                r = self.repo.lookup(b[1], name)
                if r is not None and r[0] == 'class':
                    return ('cls', r[1])
                if r is not None and r[0] == 'func':
                    return ('fn', r[1])
            return ('ext', '%s.%s' % (b[1], name))
        if b[0] == 'cls':
            m = self.repo.method(b[1], name)
            if m is not None:
                return ('fn', m) if not m.is_class else ('bm', m, b)
            if name == '__name__':
                return const(b[1].name)
            for c in b[1].mod.classes.values():
                if c.qual == '%s.%s' % (b[1].qual, name):
                    return ('cls', c)
            return ('clsattr', b[1].qual, name)
        if b[0] == 'super':
            seen = False
            for k in self.repo.mro(self.klass(b[1]) or b[2])[0]:
                if seen and name in k.methods and len(k.methods[name]) == 1:
                    return ('bm', k.methods[name][0], b[1])
                seen = seen or k is b[2]
            return ('unk', 'super.' + name)
        if b[0] == 'obj':
            if (b, name) in self.store:
                return self.store[(b, name)]
            k = self.klass(b)
            if name == '__class__' and k is not None:
                return ('cls', k)
            if k is not None:
                p = self.prop(b, name, 'getter')
                if p is not None and (self.force or b[1] == 'z'):
                    try:
                        return self.call(p, [b])
                    except Undecided:
                        return ('attr', b, name)
                m = self.repo.method(k, name)
                if m is not None and p is None:
                    return ('bm', m, b)
                if p is None and b[1] == 'z':
                    # a new object: what the class says
                    for c in self.repo.mro(k)[0]:
                        for s in c.node.body:
                            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                                return const(s.value.value)
        return ('attr', b, name)

    def binop(self, op, l, r):
        if l[0] == 'c' and r[0] == 'c' and isinstance(l[1], (int, float)) and isinstance(r[1], (int, float)):
            try:
                return const({ast.Add: lambda: l[1] + r[1], ast.Sub: lambda: l[1] - r[1], ast.Mult: lambda: l[1] * r[1], ast.Div: lambda: l[1] / r[1], ast.Pow: lambda: l[1] ** r[1],
                              ast.FloorDiv: lambda: l[1] // r[1], ast.Mod: lambda: l[1] % r[1]}[type(op)]())
            except Exception:
                pass
        if isinstance(op, ast.Add) and l[0] == r[0] == 'tup':
            return l + r[1:]
        return ('op', type(op).__name__, l, r)

    def callexpr(self, x, e, f):
        fn = x.func
        if isinstance(fn, ast.Name) and fn.id == 'super' and fn.id not in e:
            me = e.get(f.node.args.args[0].arg) if f.node.args.args else None
            if me is None or f.cls is None:
                raise Undecided('super')
            return ('super', me, f.cls)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and e.get(fn.value.id, ('',))[0] in ('tup', 'dict') and fn.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'popitem'):
            # a list or dictionary that is being built
            nm = fn.value.id
            old = e[nm]
            new = ('unk', nm)
            if old[0] == 'tup' and not x.keywords and len(x.args) == 1:
                v = self.ev(x.args[0], e, f)
                if fn.attr == 'append':
                    new = old + (v,)
                elif fn.attr == 'extend' and self.items(v) is not None:
                    new = old + tuple(self.items(v))
            elif old[0] == 'dict' and fn.attr == 'update':
                v = self.ev(x.args[0], e, f) if len(x.args) == 1 else ('dict',) if not x.args else None
                if v is not None and v[0] == 'dict' and all(k.arg for k in x.keywords):
                    d = dict(old[1:])
                    d.update(v[1:])
                    d.update({const(k.arg): self.ev(k.value, e, f) for k in x.keywords})
                    new = ('dict',) + tuple(d.items())
            for k in [k for k, w in e.items() if w is old]:
                e[k] = new
            return ('unk', fn.attr) if fn.attr in ('pop', 'setdefault', 'popitem') else const(None)
        v = self.ev(fn, e, f)
        args = []
        for a in x.args:
            if isinstance(a, ast.Starred):
                it = self.items(self.ev(a.value, e, f))
                if it is None:
                    raise Undecided('starred')
                args += it
            else:
                args.append(self.ev(a, e, f))
        kw = {}
        for k in x.keywords:
            if k.arg is None:
                d = self.ev(k.value, e, f)
                if d[0] != 'dict' or any(q[0] != 'c' for q, _ in d[1:]):
                    raise Undecided('keywords')
                kw.update({q[1]: w for q, w in d[1:]})
            else:
                kw[k.arg] = self.ev(k.value, e, f)
        return self.apply(v, args, kw, f)

    def apply(self, v, args, kw, f):
        if v[0] == 'bm':
            m, me = v[1], v[2]
            o = set()
            for a in args + list(kw.values()):
                o |= objs(a)
            if me[0] == 'obj' and (o - objs(me) or self.force or me[1] == 'z' or m.name.startswith('__')):
                return self.call(m, [me] + args, kw)
            return ('call', '.' + m.name, me) + tuple(args) + tuple(('kw', k, w) for k, w in sorted(kw.items()))
        if v[0] == 'fn':
            o = set()
            for a in args + list(kw.values()):
                o |= objs(a)
            if len(o) > 1 or self.force or 'z' in o:
                try:
                    return self.call(v[1], args, kw)
                except Undecided:
                    if len(o & {'a', 'b'}) > 1:
                        raise
            return ('call', '%s.%s' % (v[1].mod.name, v[1].qual)) + tuple(args) + tuple(('kw', k, w) for k, w in sorted(kw.items()))
        if v[0] == 'cls':
            return ('new', v[1]) + tuple(args) + tuple(('kw', k, w) for k, w in sorted(kw.items()))
        if v[0] == 'ext':
            n = v[1]
            if n == 'isinstance' and len(args) == 2:
                return const(self.isinst(args[0], args[1]))
            if n == 'type' and len(args) == 1 and self.klass(args[0]) is not None:
                return ('cls', self.klass(args[0]))
            if n == 'getattr' and len(args) >= 2 and args[1][0] == 'c' and isinstance(args[1][1], str):
                return self.attr(args[0], args[1][1], f)
            if n == 'setattr' and len(args) == 3 and args[1][0] == 'c':
                self.setattr(args[0], args[1][1], args[2])
                return const(None)
            if n == 'bool' and len(args) == 1:
                return const(self.truth(args[0]))
            if n in ('all', 'any') and len(args) == 1:
                it = self.items(args[0])
                if it is None:
                    raise Undecided(n)
                for y in it:
                    t = self.truth(y)
                    if t != (n == 'all'):
                        return const(t)
                return const(n == 'all')
            if n.startswith(('operator.', '_operator.')) and '__%s__' % n.split('.')[1] in OPS and len(args) == 2:
                return const(self.compare(OPS['__%s__' % n.split('.')[1]](), args[0], args[1]))
            if n in ('tuple', 'list') and len(args) == 1 and args[0][0] == 'tup':
                return args[0]
            if n in ('numpy.sign', 'math.copysign') and len(args) == 1:
                return const(self.rel(args[0], const(0)))
            if n in ('int', 'float') and len(args) == 1 and args[0][0] == 'c' and isinstance(args[0][1], (int, float)):
                return const((int if n == 'int' else float)(args[0][1]))
            if n == 'dict' and not args:
                return ('dict',) + tuple((const(k), w) for k, w in sorted(kw.items()))
            if n in ('numpy.isclose', 'math.isclose', 'numpy.allclose', 'numpy.array_equal'):
                if n == 'numpy.array_equal' and len(args) == 2:
                    return const(self.compare(ast.Eq(), args[0], args[1]))
                raise Undecided(n)
            return ('call', n) + tuple(args) + tuple(('kw', k, w) for k, w in sorted(kw.items()))
        if v[0] == 'attr':
            b, name = v[1], v[2]
            if name in OPS and len(args) == 1:
                return const(self.compare(OPS[name](), b, args[0]))
            if name == 'items' and b[0] == 'dict':
                return ('tup',) + tuple(('tup', k, w) for k, w in b[1:])
            if name in ('copy',) and not args:
                return ('call', 'copy.copy', b)
            return ('call', '.' + name, b) + tuple(args) + tuple(('kw', k, w) for k, w in sorted(kw.items()))
        if v[0] == 'call' or v[0] in ('unk', 'name', 'clsattr', 'ix', 'c', 'new'):
            return ('call', v) + tuple(args) + tuple(('kw', k, w) for k, w in sorted(kw.items()))
        raise Undecided('call of %s' % v[0])

    # ------------------------------------------------------------ decisions
    def typenames(self, t):
        if t[0] == 'tup':
            return [y for x in t[1:] for y in self.typenames(x)]
        return [t]

    def isinst(self, x, t):
        k = self.klass(x)
        number = x == B and self.other == 'number'
        for y in self.typenames(t):
            if number:
                if y[0] == 'ext' and y[1] in NUMERIC:
                    return True
            elif k is not None:
                if y[0] == 'cls' and y[1] in self.repo.mro(k)[0]:
                    return True
                if y[0] in ('clsattr', 'attr', 'name', 'unk') and str(y[-1]).split('.')[-1] == k.name:
                    return True
        if number or k is not None:
            if any(y[0] not in ('cls', 'ext') for y in self.typenames(t)) and not number:
                return self.leaf(('bool', ('call', 'isinstance', x, t)))
            return False
        return self.leaf(('bool', ('call', 'isinstance', x, t)))

    def leaf(self, key):
        if key not in self.given:
            raise Need(key)
        return self.given[key]

    def truth(self, v):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] == 'tup':
            return len(v) > 1
        if v[0] in ('cls', 'fn', 'bm', 'new'):
            return True
        if v[0] == 'obj' and v[1] in ('a', 'b', 'z'):
            return True
        if len(objs(v) & {'a', 'b'}) > 1:
            raise Undecided('mixed')
        return self.leaf(('bool', v))

    def compare(self, o, l, r):
        if isinstance(o, (ast.Is, ast.IsNot)):
            t = self.same(l, r)
            return t == isinstance(o, ast.Is)
        if isinstance(o, (ast.In, ast.NotIn)):
            it = self.items(r)
            if it is None and r[0] == 'dict':
                it = [k for k, _ in r[1:]]
            if it is None:
                if len(objs(l) | objs(r)) > 1:
                    raise Undecided('in')
                return self.leaf(('bool', ('in', l, r))) == isinstance(o, ast.In)
            t = any(self.compare(ast.Eq(), l, x) for x in it)
            return t == isinstance(o, ast.In)
        # objects of the class itself
        if l[0] == 'obj' and r[0] == 'obj' and {l[1], r[1]} <= {'a', 'b'} and self.other == 'same':
            return self.V.method(self, type(o), l, r)
        if l[0] in ('cls', 'fn') or r[0] in ('cls', 'fn'):
            return (l == r) == isinstance(o, ast.Eq)
        if isinstance(o, (ast.Eq, ast.NotEq)) and l[0] == 'c' and r[0] == 'c':
            return (l[1] == r[1]) == isinstance(o, ast.Eq)
        d = self.rel(l, r)
        return {ast.Eq: d == 0, ast.NotEq: d != 0, ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0}[type(o)]

    def same(self, l, r):
        for x, y in ((l, r), (r, l)):
            if y == const(None):
                if x[0] == 'c':
                    return x[1] is None
                if x[0] in ('obj', 'tup', 'cls', 'fn', 'new', 'dict', 'op', 'un'):
                    return False
                if x[0] == 'call' and x[1] in CONV:
                    return False
                return self.leaf(('isnone', x))
        if l[0] in ('cls', 'obj') and r[0] in ('cls', 'obj', 'ext'):
            return l == r
        if l[0] == 'c' and r[0] == 'c':
            return l[1] is r[1] or l[1] == r[1]
        if l == r:
            return True
        raise Undecided('is')

    def rel(self, l, r):
        if l == r:
            return 0
        if l[0] == 'c' and r[0] == 'c':
            try:
                return (l[1] > r[1]) - (l[1] < r[1])
            except TypeError:
                raise Raised('TypeError')
        if l[0] == 'tup' and r[0] == 'tup':
            for x, y in zip(l[1:], r[1:]):
                d = self.rel(x, y)
                if d:
                    return d
            return (len(l) > len(r)) - (len(l) < len(r))
        for x, y, s in ((l, r, 1), (r, l, -1)):
            if y == const(0) and x[0] == 'op' and x[1] == 'Sub':
                return s * self.rel(x[2], x[3])
        ol, orr = objs(l) & {'a', 'b', 'n'}, objs(r) & {'a', 'b', 'n'}
        if len(ol) > 1 or len(orr) > 1:
            raise Undecided('mixed')
        if l[0] == 'unk' or r[0] == 'unk':
            raise Undecided('unknown')
        x, y, s = (l, r, 1) if repr(l) <= repr(r) else (r, l, -1)
        return s * self.leaf(('rel', x, y))


class Values(object):
    def __init__(self, repo):
        self.repo = repo
        self.findings, self.und = [], []
        self.n = dict(classes=0, worlds=0, reduces=0, attributes_restored=0, indices=0, operators=0, hashes=0)
        self.seen = set()

    def bad(self, rule, c, what, node, msg):
        k = (rule, c, what)
        if k in self.seen:
            return
        self.seen.add(k)
        self.findings.append(Finding(rule, '%s:%s:%s' % (c.mod.rel, c.qual, what), '%s:%d' % (c.mod.rel, node.lineno), msg))

    # ------------------------------------------------------------ comparisons
    def defined(self, c, name):
        return self.repo.method(c, name)

    def total(self, c):
        return any(d.split('.')[-1] == 'total_ordering' for k in self.repo.mro(c)[0] for d in k.decorators)

    def method(self, E, op, l, r, depth=0):
        """the answer Python gives for l op r"""
        c = E.cls
        if E.depth > 8:
            raise Undecided('depth')
        nm = DUNDER[op]
        m = self.defined(c, nm)
        if m is not None:
            v = E.call(m, [l, r])
            if v[0] in ('ext', 'name') and v[1] == 'NotImplemented':
                raise Raised('NotImplemented')
            return E.truth(v)
        if op is ast.NotEq and self.defined(c, '__eq__') is not None:
            return not self.method(E, ast.Eq, l, r)
        if op is ast.Eq:
            if E.other == 'same' and l[0] == r[0] == 'obj':
                return l == r
            raise Undecided('eq')
        if self.total(c):
            root = next((x for x in ('__lt__', '__le__', '__gt__', '__ge__') if self.defined(c, x) is not None), None)
            if root is None:
                raise Raised('TypeError')
            t = self.method(E, OPS[root], l, r)
            def eq():
                return self.method(E, ast.Eq, l, r)
            return {('__lt__', ast.Gt): lambda: not t and not eq(), ('__lt__', ast.LtE): lambda: t or eq(), ('__lt__', ast.GtE): lambda: not t,
                    ('__le__', ast.GtE): lambda: not t or eq(), ('__le__', ast.Lt): lambda: t and not eq(), ('__le__', ast.Gt): lambda: not t,
                    ('__gt__', ast.Lt): lambda: not (t or eq()), ('__gt__', ast.GtE): lambda: t or eq(), ('__gt__', ast.LtE): lambda: not t,
                    ('__ge__', ast.LtE): lambda: not t or eq(), ('__ge__', ast.Gt): lambda: t and not eq(), ('__ge__', ast.Lt): lambda: not t}[(root, op)]()
        # the reflected form
        if E.other == 'same' and self.defined(c, DUNDER[SWAP[op]]) is not None and op is not SWAP[op]:
            return self.method(E, SWAP[op], r, l)
        raise Raised('TypeError')

    def worlds(self, c, force, other, want, limit=1500):
        """evaluate the wanted answers for every combination of outcomes"""
        todo = [{}]
        n = 0
        while todo:
            g = todo.pop()
            n += 1
            if n > limit:
                raise Undecided('worlds')
            E = Ev(self, c, g, force, other)
            out = {}
            try:
                for nm, fn in want.items():
                    E.depth = 0
                    E.steps = 0
                    E.store = {}
                    try:
                        out[nm] = fn(E)
                    except Raised as r:
                        out[nm] = 'raises'
            except Need as q:
                vals = (0, -1, 1) if q.key[0] == 'rel' else (True, False)
                if q.key[0] == 'rel':
                    # a pair of expressions that is not one and the same function of the two objects has a mirror image
                    pass
                todo += [dict(g, **{}) | {q.key: v} for v in vals]
                continue
            self.n['worlds'] += 1
            yield g, out

    def shared(self, g):
        """do two different compared expressions depend on the same attributes?"""
        rels = [k for k in g if k[0] == 'rel']
        lin = []
        for k in rels:
            e = rename(k[1], {'b': 'a'})
            lin.append((e, linear(e), attrs(k[1]) | attrs(k[2])))
        for i, (e, l, s) in enumerate(lin):
            for e2, l2, s2 in lin[i + 1:]:
                if s & s2 and e != e2:
                    if l is None or l2 is None:
                        return True
        ls = [l for e, l, s in lin if l]
        vs = sorted({v for l in ls for v in l if v != ()}, key=repr)
        # linear forms that depend on one another
        m = [[l.get(v, 0.0) for v in vs] for l in ls]
        rank = 0
        for col in range(len(vs)):
            piv = next((i for i in range(rank, len(m)) if abs(m[i][col]) > 1e-15), None)
            if piv is None:
                continue
            m[rank], m[piv] = m[piv], m[rank]
            for i in range(len(m)):
                if i != rank and m[i][col]:
                    q = m[i][col] / m[rank][col]
                    m[i] = [a - q * b for a, b in zip(m[i], m[rank])]
            rank += 1
        return rank < len(ls) or any(k[0] == 'bool' for k in g)

    @staticmethod
    def value(e, at):
        if e[0] == 'c':
            if isinstance(e[1], (int, float)):
                return e[1]
            raise Undecided('value')
        if e[0] == 'attr' and e[1][0] == 'obj':
            return at[(e[1][1], e[2])]
        if e[0] == 'un' and e[1] == 'USub':
            return -Values.value(e[2], at)
        if e[0] == 'op' and e[1] in ('Add', 'Sub', 'Mult', 'Div'):
            l, r = Values.value(e[2], at), Values.value(e[3], at)
            if e[1] == 'Div':
                if not r:
                    raise Undecided('value')
                return l / r
            return l + r if e[1] == 'Add' else l - r if e[1] == 'Sub' else l * r
        if e[0] == 'call' and len(e) == 3 and e[1] in ('abs', 'numpy.abs', 'numpy.absolute', 'math.fabs'):
            return abs(Values.value(e[2], at))
        if e[0] == 'call' and len(e) == 3 and e[1] in ('float', 'int', 'numpy.float64'):
            return Values.value(e[2], at)
        raise Undecided('value')

    def realise(self, c, g):
        """are there two objects with these outcomes?  None: not known"""
        if any(k[0] != 'rel' for k in g):
            return None
        vs = set()
        for k in g:
            for e in k[1:]:
                for o in objs(e):
                    vs |= {(o, n) for n in attrs(e, o)}
        if not vs or len(vs) > 8 or any(self.prop(c, n) and self.behind(c, n) & {x for _, x in vs} for _, n in vs):
            return None
        vs = sorted(vs)
        dom = (0, 1, 2, -1) if len(vs) <= 6 else (0, 1, -1)
        try:
            for x in itertools.product(dom, repeat=len(vs)):
                at = dict(zip(vs, x))
                if all((lambda d: (d > 0) - (d < 0))(self.value(k[1], at) - self.value(k[2], at)) == v for k, v in g.items()):
                    return True
        except (Undecided, KeyError):
            return None
        return False

    def behind(self, c, n, seen=()):
        """the attributes a property is computed from"""
        out = set()
        for k in self.repo.mro(c)[0]:
            for m in k.methods.get(n, []):
                if any('property' in d for d in m.decorators) and m.node.args.args:
                    me = m.node.args.args[0].arg
                    for x in ast.walk(m.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr not in seen:
                            out |= {x.attr} | self.behind(c, x.attr, tuple(seen) + (n,))
        return out

    def definite(self, c, g):
        """one comparison of the same function of the two, or of plain attributes: every outcome can happen"""
        if any(k[0] != 'rel' for k in g):
            return False
        f = set()
        for k in g:
            if len(objs(k[1])) != 1 or len(objs(k[2])) != 1 or objs(k[1]) == objs(k[2]) or rename(k[1], {'b': 'a'}) != rename(k[2], {'b': 'a'}):
                return False
            f.add(rename(k[1], {'b': 'a'}))
        return len(f) == 1 or all(e[0] == 'attr' and e[1] == A and not self.prop(c, e[2]) for e in f)

    @staticmethod
    def overlap(g):
        f = {}
        for k in g:
            if k[0] == 'rel':
                for e in k[1:]:
                    for o in objs(e):
                        f.setdefault((o, rename(e, {'b': 'a'})), set()).update(attrs(e, o))
        f = list(f.items())
        return any(x[0][0] == y[0][0] and x[1] & y[1] for i, x in enumerate(f) for y in f[i + 1:])

    def ordering(self, c):
        own = [n for n in OPS if self.defined(c, n) is not None]
        if not own:
            return
        if not any(n in k.methods for k in [c] for n in list(OPS) + ['__hash__']):
            return              # all inherited: judged where it is defined
        self.n['classes'] += 1
        node = c.node
        ordered = [n for n in own if n in ('__lt__', '__le__', '__gt__', '__ge__')]
        if ordered and not self.total(c) and not ({'__lt__', '__gt__'} & set(own) and {'__le__', '__ge__'} & set(own)):
            self.bad('half-ordered', c, 'order', node, 'objects of %s can be asked with %s only: the other comparisons raise an error' % (c.name, ' and '.join(ordered)))
        res = None
        self.sure = []
        for force in (False, True):
            if force and self.sure:
                res = list(self.sure)
                break
            try:
                res = self.judge(c, force, 'same', ordered)
            except (Undecided, RecursionError) as u:
                if force:
                    if res is None:
                        self.und.append('%s: %s' % (c.qual, u))
                        return
                    self.und.append('%s: %s' % (c.qual, u))
                    res = None
                continue
            if not res:
                break
        for rule, what, msg in (res or []):
            self.bad(rule, c, what, node, msg)
        for force in (False, True):
            try:
                r2 = self.judge(c, force, 'number', ordered)
            except (Undecided, RecursionError):
                return
            if not r2:
                break
        for rule, what, msg in (r2 or []):
            self.bad(rule, c, what + ' with a number', node, msg)

    def say(self, g):
        t = []
        for k, v in g.items():
            if k[0] == 'rel' and v:
                t.append('%s %s %s' % (self.show(k[1]), '<' if v < 0 else '>', self.show(k[2])))
            elif k[0] == 'rel':
                t.append('%s = %s' % (self.show(k[1]), self.show(k[2])))
        return ', '.join(t[:3]) or 'any two'

    def show(self, e):
        if e[0] == 'obj':
            return {'a': 'x', 'b': 'y'}.get(e[1], e[1])
        if e[0] == 'c':
            return repr(e[1])
        if e[0] == 'attr':
            return '%s.%s' % (self.show(e[1]), e[2])
        if e[0] == 'call':
            return '%s(%s)' % (e[1] if isinstance(e[1], str) else '...', ', '.join(self.show(x) for x in e[2:] if isinstance(x, tuple)))
        if e[0] == 'op':
            return '(%s %s %s)' % (self.show(e[2]), {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/'}.get(e[1], e[1]), self.show(e[3]))
        return '...'

    def judge(self, c, force, other, ordered):
        # pairs met with different functions on the two sides: f(x) against g(y)
        want = {}
        for op, nm in ((ast.Eq, 'eq'), (ast.NotEq, 'ne')):
            want[nm] = lambda E, op=op: self.method(E, op, A, B)
            if other == 'same':
                want[nm + "'"] = lambda E, op=op: self.method(E, op, B, A)
        if ordered:
            for op, nm in ((ast.Lt, 'lt'), (ast.Gt, 'gt'), (ast.LtE, 'le'), (ast.GtE, 'ge')):
                want[nm] = lambda E, op=op: self.method(E, op, A, B)
                if other == 'same':
                    want[nm + "'"] = lambda E, op=op: self.method(E, op, B, A)
        h = self.defined(c, '__hash__') if other == 'same' and self.defined(c, '__eq__') is not None else None
        out = []

        def add(rule, what, msg):
            if not any(r[0] == rule and r[1] == what for r in out):
                out.append((rule, what, msg))
        for g, o in self.worlds(c, force, other, want):
            ok = {k: v for k, v in o.items() if v != 'raises'}
            if not ok:
                continue
            dep = self.shared(g) or self.overlap(g)
            how = 'when ' + self.say(g)

            def need(t, rule, what, msg):
                if not t:
                    if dep:
                        q = self.realise(c, g)
                        if q is None:
                            raise Undecided('dependent comparisons')
                        if not q:
                            return
                    add(rule, what, msg)
                    if other == 'same' and (dep or self.definite(c, g)):
                        self.sure.append((rule, what, msg))
            if 'eq' in ok and 'ne' in ok:
                need(ok['eq'] != ok['ne'], 'equal-and-not-equal', 'ne', '%s the two are %s' % (how, 'both equal and not equal' if ok['eq'] else 'neither equal nor not equal'))
            if 'eq' in ok and "eq'" in ok:
                need(ok['eq'] == ok["eq'"], 'one-sided', 'eq', '%s x == y is %s but y == x is %s' % (how, ok['eq'], ok["eq'"]))
            if ordered and {'lt', 'gt', 'eq'} <= set(ok):
                k = sum(ok[x] for x in ('lt', 'eq', 'gt'))
                need(k == 1, 'not-exactly-one', 'order', '%s %s' % (how, 'x < y, x == y and x > y are all false' if not k else ' and '.join(t for n2, t in (('lt', 'x < y'), ('eq', 'x == y'), ('gt', 'x > y')) if ok[n2]) + ' all hold'))
            if ordered and {'lt', 'eq', 'le'} <= set(ok):
                need(ok['le'] == (ok['lt'] or ok['eq']), 'le-disagrees', 'le', '%s x <= y is %s although x < y is %s and x == y is %s' % (how, ok['le'], ok['lt'], ok['eq']))
            if ordered and {'gt', 'eq', 'ge'} <= set(ok):
                need(ok['ge'] == (ok['gt'] or ok['eq']), 'ge-disagrees', 'ge', '%s x >= y is %s although x > y is %s and x == y is %s' % (how, ok['ge'], ok['gt'], ok['eq']))
            if ordered and 'lt' in ok and "gt'" in ok:
                need(ok['lt'] == ok["gt'"], 'one-sided', 'order', '%s x < y is %s but y > x is %s' % (how, ok['lt'], ok["gt'"]))
            if ordered and other == 'number' and {'lt', 'eq'} <= set(ok):
                need(not (ok['lt'] and ok['eq']), 'not-exactly-one', 'order', '%s x < y and x == y both hold' % how)
            # the direction of the order: larger values are not smaller
            if ordered and 'lt' in ok:
                rl = [(k, v) for k, v in g.items() if k[0] == 'rel' and objs(k[1]) and objs(k[2]) and rename(k[1], {'b': 'a'}) == rename(k[2], {'b': 'a'})]
                if rl and len(rl) == len([k for k in g if k[0] == 'rel']):
                    sg = {(v if objs(k[1]) == {'a'} else -v) for k, v in rl} - {0}
                    if sg == {1} and ok['lt'] or sg == {-1} and not ok['lt']:
                        need(False, 'backwards', 'order', '%s x < y is %s' % (how, ok['lt']))
            if h is not None and ok.get('eq') is True:
                self.n['hashes'] += 1
                self.hashes(c, h, g, add, how)
        return out

    def hashes(self, c, h, g, add, how):
        E = Ev(self, c, g, True)
        try:
            va = E.call(h, [A])
            E.depth = 0
            vb = E.call(h, [B])
        except (Need, Undecided, Raised):
            return
        eq = {}
        for k, v in g.items():
            if k[0] == 'rel' and v == 0:
                eq[k[1]] = k[2]
                eq[k[2]] = k[1]
        eqa = set()
        for k in eq:
            if k[0] == 'attr':
                eqa.add(k)

        def leaves(e):
            if not isinstance(e, tuple) or not objs(e):
                return []
            if e in eq:
                return []
            if e[0] == 'attr' and e[1] == A:
                return [e]
            if e == A:
                return [e]
            return [y for x in e if isinstance(x, tuple) for y in leaves(x)]
        if va == vb:
            return
        if va[0] == 'call' and any(isinstance(x, tuple) and x[:2] == ('call', 'id') and objs(x) for x in va[1:]):
            add('hash', 'hash', '%s the two are equal, but their hashes are those of the objects' % how)
            return
        miss = sorted({y[2] for y in leaves(va) if y[0] == 'attr'})
        known = {k[2] for k in eqa} | {x for k in eq for x in attrs(k)}
        miss = [m for m in miss if m not in known and not self.prop(c, m)]
        if miss:
            add('hash', 'hash', '%s the two are equal, but their hashes also depend on %s' % (how, ', '.join(miss[:4]) + (' ...' if len(miss) > 4 else '')))

    def prop(self, c, name):
        return any('property' in d for k in self.repo.mro(c)[0] for m in k.methods.get(name, []) for d in m.decorators)

    # ------------------------------------------------------------ pickling
    def pickling(self, c):
        m = c.methods.get('__reduce__', [None])[-1]
        if m is None:
            for k in self.repo.mro(c)[0][1:]:
                if '__reduce__' in k.methods:
                    self.inherited(c, k, k.methods['__reduce__'][-1])
                    break
            return
        self.n['reduces'] += 1
        try:
            r = self.paths(c, m, [A])
        except (Undecided, RecursionError) as u:
            self.und.append('%s.__reduce__: %s' % (c.qual, u))
            return
        for g, v, E in r:
            if v[0] != 'tup' or len(v) < 3:
                self.und.append('%s.__reduce__' % c.qual)
                continue
            if v[1][0] != 'cls':
                self.und.append('%s.__reduce__' % c.qual)
                continue
            if v[1][1] is not c:
                if c in self.repo.mro(v[1][1])[0] or v[1][1] in self.repo.mro(c)[0] or self.repo.method(v[1][1], '__new__') is None:
                    self.bad('other-class', c, 'pickle', m.node, 'a pickled %s comes back as a %s' % (c.name, v[1][1].name))
                continue
            if v[2][0] != 'tup':
                self.und.append('%s.__reduce__' % c.qual)
                continue
            state = v[3] if len(v) > 3 else None
            self.restore(c, m, list(v[2][1:]), state)

    def inherited(self, c, k, m):
        try:
            r = self.paths(c, m, [A])
        except (Undecided, RecursionError):
            return
        for g, v, E in r:
            if v[0] == 'tup' and len(v) >= 3 and v[1][0] == 'cls' and v[1][1] is not c and v[1][1] in self.repo.mro(c)[0]:
                self.bad('other-class', c, 'pickle', m.node, 'a pickled %s comes back as a %s: it inherits the pickled form' % (c.name, v[1][1].name))

    def paths(self, c, m, args, limit=300, fresh=None, kw=None):
        try:
            return self.allpaths(c, m, args, limit, fresh, kw, False)
        except Undecided as u:
            if str(u) != 'paths' or fresh is None:
                raise
            # range checks of values that are in range
            return self.allpaths(c, m, args, limit, fresh, kw, True)

    def allpaths(self, c, m, args, limit, fresh, kw, coarse):
        todo, out, n = [{}], [], 0
        while todo:
            g = todo.pop()
            n += 1
            if n > limit:
                raise Undecided('paths')
            E = Ev(self, c, g, True)
            E.fresh = dict(fresh or {})
            try:
                v = E.call(m, args, kw)
            except Raised as r:
                out.append((g, ('raise', r.name), E))
                continue
            except Need as q:
                w = (0, -1, 1) if q.key[0] == 'rel' else (True, False)
                if coarse:
                    if q.key[0] == 'rel' and any(x[0] == 'c' and isinstance(x[1], (int, float)) for x in q.key[1:]):
                        w = (-1, 1)
                    elif q.key[0] == 'isnone':
                        w = (False,)
                todo += [g | {q.key: x} for x in w]
                continue
            out.append((g, v, E))
        return out

    def restore(self, c, m, args, state):
        init = self.repo.method(c, '__init__')
        Z = ('obj', 'z')
        if init is None:
            self.und.append('%s.__init__' % c.qual)
            return
        names = [x.arg for x in init.node.args.args][1:]
        nd = len(init.node.args.defaults)
        if len(args) > len(names) and init.node.args.vararg is None or len(args) < len(names) - nd:
            self.bad('wrong-count', c, 'pickle', m.node, 'the pickled form of %s has %d values, but it takes %s to make one' % (c.name, len(args), '%d' % len(names) if not nd else '%d to %d' % (len(names) - nd, len(names))))
            return
        try:
            got = self.paths(c, init, [Z] + args, fresh={'z': c}, limit=600)
            # what each attribute is set from, in terms of the parameters
            ps = [('obj', 'p:' + n) for n in names]
            src = self.paths(c, init, [Z] + ps, fresh={'z': c}, limit=600)
        except (Undecided, RecursionError) as u:
            self.und.append('%s.__init__: %s' % (c.qual, u))
            return
        frm = {}
        for g, v, E in src:
            if v[0] == 'raise':
                continue
            for (o, nm), e in E.store.items():
                if o == Z:
                    frm.setdefault(nm, set()).update(x[2:] for x in objs(e) if x.startswith('p:'))
        st = {}
        allst = False
        if state is not None:
            if state[0] == 'dict':
                st = {k[1]: w for k, w in state[1:] if k[0] == 'c'}
            elif "'__dict__'" in repr(state):
                allst = True
            else:
                self.und.append('%s state' % c.qual)
                return
        good = [x for x in got if x[1][0] != 'raise' and not any(k[0] == 'isnone' and v for k, v in x[0].items())]
        if not good:
            if got and all(x[1][0] == 'raise' for x in got):
                self.und.append('%s.__init__ raises' % c.qual)
            return
        if not allst:
            self.forgotten(c, m, init, good, Z, st)
        for g, v, E in good:
            for (o, nm), e in E.store.items():
                if o != Z:
                    continue
                e = st.get(nm, e)
                x = strip(e)
                self.n['attributes_restored'] += 1
                want = ('attr', A, nm)
                if x == want:
                    continue
                if allst and x[0] != 'attr':
                    continue
                if x[0] == 'c' and any(strip(y) == want for y in args) and nm not in st:
                    self.bad('lost', c, 'pickle:%s' % nm, m.node, 'a restored %s does not have the %s of the original, but always %r' % (c.name, nm, x[1]))
                    continue
                at = attrs(x, 'a')
                if nm in at and (want == strip(scale(x)[1] or x)) and abs(scale(x)[0] - 1.0) > 1e-9:
                    self.bad('rescaled', c, 'pickle:%s' % nm, m.node, 'in a restored %s the value of %s is %g times the original' % (c.name, nm, scale(x)[0]))
                    continue
                if nm in at or any(nm == q.lstrip('_') or q == nm.lstrip('_') for q in at):
                    continue
                if x[0] == 'attr' and x[1] == A and not self.prop(c, x[2]):
                    if any(nm in frm.get(y, ()) for y in ()):
                        continue
                    if frm.get(nm):
                        self.bad('misplaced', c, 'pickle:%s' % nm, m.node, 'in a restored %s the value of %s comes from %s' % (c.name, nm, x[2]))
                elif x[0] == 'c' or x[0] == 'tup' and len(x) == 1 or x[0] == 'new' and not objs(x):
                    if frm.get(nm) and not self.derived(c, nm):
                        self.bad('lost', c, 'pickle:%s' % nm, m.node, 'a restored %s does not have the %s of the original, but the default' % (c.name, nm))
                    elif not frm.get(nm) and nm not in st and self.changed(c, init, nm):
                        self.bad('lost', c, 'pickle:%s' % nm, m.node, 'a restored %s does not have the %s that was set after it was made' % (c.name, nm))

    def forgotten(self, c, m, init, good, Z, st):
        """values that another way of making the object gives it, and that it shows"""
        for nm in self.given_later(c):
            if nm in st or any(strip(E.store.get((Z, nm), const(None)))[0] != 'c' for g, v, E in good):
                continue
            self.bad('lost', c, 'pickle:%s' % nm, m.node, 'a restored %s does not have the %s that can be given to it when it is made' % (c.name, nm.lstrip('_')))

    def given_later(self, c):
        mro = self.repo.mro(c)[0]
        default = {t.id for k in mro for s in k.node.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) for t in s.targets if isinstance(t, ast.Name)}
        shown = set()
        for k in mro:
            for ms in k.methods.values():
                for m in ms:
                    if m.node.args.args and (any('property' in d for d in m.decorators)) and not m.name.startswith('_'):
                        me = m.node.args.args[0].arg
                        shown |= {x.value.attr for x in self.own(m.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) and x.value.value.id == me}
        out = set()
        for k in mro:
            for ms in k.methods.values():
                for m in ms:
                    if not m.is_class or not m.node.args.args:
                        continue
                    kls = m.node.args.args[0].arg
                    made = {t.id for n in self.own(m.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in (kls, k.name) for t in n.targets if isinstance(t, ast.Name)}
                    for n in self.own(m.node):
                        if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
                            out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in made}
        return sorted(out & (shown | {x for x in out if not x.startswith('_')}) & default)

    def derived(self, c, nm):
        return False

    def changed(self, c, init, nm):
        """is this attribute, which only this class has, set anywhere but where the object is made?"""
        if nm.startswith('_'):
            return False
        owners = set()
        writes = False
        family = set(self.repo.mro(c)[0]) | set(self.repo.subclasses(c))
        first = {ast.dump(n.value) for n in ast.walk(init.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and
                 any(isinstance(t, ast.Attribute) and t.attr == nm for t in n.targets)}
        again = set()
        for f in self.repo.funcs('lsl'):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and ast.dump(n.value) in first:
                    again.update(id(t) for t in n.targets)        # the value it had from the start
        for f in self.repo.funcs('lsl'):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == nm and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and id(n) not in again:
                    me = f.cls is not None and f.node.args.args and n.value.id == f.node.args.args[0].arg
                    if me and f.cls not in family:
                        owners.add(f.cls)
                    elif me and f.name != '__init__':
                        writes = True
                    elif not me:
                        writes = True
        return writes and not owners

    # ------------------------------------------------------------ indexing
    def indexing(self, c):
        g, s = c.methods.get('__getitem__', [None])[-1], c.methods.get('__setitem__', [None])[-1]
        if g is None or s is None or len(g.node.args.args) != 2 or len(s.node.args.args) != 3:
            return
        V = ('obj', 'v')
        for k in list(range(0, 7)):
            try:
                rg = self.paths(c, g, [A, const(k)])
                rs = self.paths(c, s, [A, const(k), V])
            except (Undecided, RecursionError) as u:
                self.und.append('%s[%d]: %s' % (c.qual, k, u))
                return
            got = {strip(v) for _, v, E in rg if v[0] != 'raise'}
            wr = [E.store for _, v, E in rs if v[0] != 'raise']
            if not wr and not got:
                continue
            got = {x for x in got if x[0] == 'attr' and x[1] == A}
            put = {nm for w in wr for (o, nm), e in w.items() if o == A and 'v' in objs(e)}
            if not put and not got:
                continue
            self.n['indices'] += 1
            if got and put and not any(x[2] in put for x in got):
                self.bad('index', c, '[%d]' % k, s.node, 'item %d is read from %s but set in %s' % (k, ', '.join(sorted(x[2] for x in got)), ', '.join(sorted(put))))
            elif put and not any(v[0] != 'raise' for _, v, E in rg):
                self.bad('index', c, '[%d]' % k, g.node, 'item %d can be set (%s) but not read' % (k, ', '.join(sorted(put))))
            elif got and not wr:
                self.bad('index', c, '[%d]' % k, s.node, 'item %d can be read (%s) but not set, unlike the others' % (k, ', '.join(sorted(x[2] for x in got)))) if any(True for q in range(7) if q != k) else None

    # ------------------------------------------------------------ operators
    def operators(self, c):
        for name, ms in c.methods.items():
            if not (name.startswith('__') and name.endswith('__')):
                continue
            core = name.strip('_')
            inp = core[1:] in ARITH and core[0] == 'i'
            base = core[1:] if inp or core[:1] == 'r' and core[1:] in ARITH else core
            if base not in ARITH:
                continue
            m = ms[-1]
            self.n['operators'] += 1
            if inp:
                if self.falls(m.node.body) or any(isinstance(n, ast.Return) and (n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None) for n in self.own(m.node)):
                    self.bad('in-place-none', c, name, m.node, '%s gives nothing back on some way through it, so the variable on the left is None afterwards' % name)
            if ARITH[base] is None or len(m.node.args.args) != 2:
                continue
            kinds = self.kinds(m)
            fam = next(f for f in FAMILY if ARITH[base] in f)
            wrong = [(k, n) for k, n in kinds if k in fam and k is not ARITH[base]]
            if wrong and not (core[:1] == 'r'):
                self.bad('operator', c, name, wrong[0][1], '%s combines the two operands with %s' % (name, {ast.Add: 'a sum', ast.Sub: 'a difference', ast.Mult: 'a product', ast.Div: 'a quotient', ast.FloorDiv: 'a floor division'}[wrong[0][0]]))
            turned = [n for k, n in kinds if k == 'reversed']
            if turned and core[:1] != 'r':
                self.bad('operator', c, name, turned[0], '%s takes the left operand from the right one' % name)
            if not inp:
                self.itself(c, m, name, base)
                # the ordinary form must not give back, or work on, the object itself
                me = m.node.args.args[0].arg
                for n in self.own(m.node):
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == me:
                        self.bad('changes-itself', c, name, n, '%s changes its left operand in place' % name)

    def itself(self, c, m, name, base):
        """in-place operations on another name of the object, or on a copy that shares its parts"""
        me = m.node.args.args[0].arg
        same, shallow = {me}, set()
        vals = {}
        for n in self.own(m.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                vals.setdefault(n.targets[0].id, []).append(n.value)
        for k, vv in vals.items():
            if len(vv) != 1:
                continue
            v = vv[0]
            if isinstance(v, ast.Name) and v.id == me:
                same.add(k)
            elif isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.args[0], ast.Name) and v.args[0].id == me and self.extname(m, v.func) == 'copy.copy' and self.repo.method(c, '__copy__') is None:
                shallow.add(k)
        inpl = self.repo.method(c, '__i%s__' % base)
        for n in self.own(m.node):
            t = None
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                t = n.target.id
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__i%s__' % base and isinstance(n.func.value, ast.Name):
                t = n.func.value.id
            if t in same and inpl is not None:
                self.bad('changes-itself', c, name, n, '%s changes its left operand in place' % name)
            elif t in shallow and inpl is not None and self.deep(inpl):
                self.bad('changes-itself', c, name, n, '%s works in place on a copy that shares its data with the left operand' % name)

    def extname(self, m, fn):
        r = self.repo.dotted(m.mod, fn, ())
        return r[1] if r is not None and r[0] == 'ext' else None

    def deep(self, m):
        """does this in-place method write into something the object holds?"""
        me = m.node.args.args[0].arg

        def held(e):
            d = 0
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                e = e.value
                d += 1
            return d if isinstance(e, ast.Name) and e.id == me else 0
        for n in self.own(m.node):
            if isinstance(n, ast.AugAssign) and held(n.target) >= 1:
                return True
            if isinstance(n, ast.Assign) and any(held(t) >= 2 for t in n.targets):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args and held(n.args[0]) >= 1:
                return True
        return False

    @staticmethod
    def own(node):
        st = list(node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            yield n
            st += list(ast.iter_child_nodes(n))

    def falls(self, stmts):
        """can the end of this block be reached?"""
        for s in stmts:
            if isinstance(s, (ast.Return, ast.Raise)):
                return False
            if isinstance(s, ast.If) and s.orelse and not self.falls(s.body) and not self.falls(s.orelse):
                return False
            if isinstance(s, ast.With) and not self.falls(s.body):
                return False
            if isinstance(s, ast.Try):
                if s.finalbody and not self.falls(s.finalbody):
                    return False
                if not self.falls(s.body + s.orelse) and all(not self.falls(h.body) for h in s.handlers):
                    return False
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
                return False
        return True

    def kinds(self, m):
        me, other = [a.arg for a in m.node.args.args[:2]]
        mine, theirs = {me}, {other}
        for _ in range(3):
            for n in self.own(m.node):
                if isinstance(n, ast.Assign):
                    names = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id not in (me, other):
                            if names & mine and not names & theirs:
                                mine.add(t.id)
                            elif names & theirs and not names & mine:
                                theirs.add(t.id)

        def has(e, s):
            return any(isinstance(x, ast.Name) and x.id in s for x in ast.walk(e))

        def has_only(e, s, o):
            return has(e, s) and not has(e, o)
        out = []
        for n in self.own(m.node):
            l = r = op = None
            if isinstance(n, ast.AugAssign):
                l, r, op = n.target, n.value, type(n.op)
            elif isinstance(n, ast.BinOp):
                l, r, op = n.left, n.right, type(n.op)
            elif isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                if nm in NPOP and len(n.args) >= 2 and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy', 'operator'):
                    l, r, op = n.args[0], n.args[1], NPOP[nm]
                elif nm.startswith('__') and len(n.args) == 1 and isinstance(n.func, ast.Attribute):
                    b = nm.strip('_')
                    b = b if b in ARITH else b[1:]
                    if b in ARITH and ARITH[b] is not None and has(n.func.value, mine) and has(n.args[0], theirs):
                        l, r, op = n.func.value, n.args[0], ARITH[b]
            if op in (ast.Sub, ast.Div, ast.FloorDiv) and l is not None and has_only(l, theirs, mine) and has_only(r, mine, theirs) and isinstance(n, (ast.BinOp, ast.Call)):
                out.append(('reversed', n))
                continue
            if op is None or not has(l, mine):
                continue
            if not has(r, theirs) or has(l, theirs):
                continue
            if isinstance(r, ast.UnaryOp) and isinstance(r.op, ast.USub) and op in (ast.Add, ast.Sub):
                op = ast.Sub if op is ast.Add else ast.Add
            if isinstance(r, ast.BinOp) and isinstance(r.op, ast.Div) and isinstance(r.left, ast.Constant) and op in (ast.Mult, ast.Div):
                op = ast.Div if op is ast.Mult else ast.Mult
            out.append((op, n))
        return out


def check(V):
    seen = set()
    for f in V.repo.mods.values():
        for c in f.classes.values():
            if c in seen:
                continue
            seen.add(c)
            for step in (V.ordering, V.pickling, V.indexing, V.operators):
                try:
                    step(c)
                except Exception as e:       # a form that is not understood: not decided
                    V.und.append('%s: %s' % (c.qual, type(e).__name__))
