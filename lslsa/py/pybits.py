"""
Gated bit-provenance dataflow for Python functions that pack and unpack words.

Every value is described by where each of its bits comes from (a constant, or bit k of a named input), by a linear form
over the inputs (for packings written as multiplications) and by a range; arrays are described cell by cell, cells being
named by the linear form of their index so that one generic trip through a loop stands for all of them.  Where control
flow joins, a bit that differs is gated by the condition.  Nothing is executed: what the analysis cannot express becomes
unknown, and a rule that meets an unknown bit is reported as undecided, never as a violation.
"""
import ast
import re
from fractions import Fraction

N = 80
CUT = 60            # calls followed
GATES = 200000


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- values
class V(object):
    """an integer (or one generic element of an integer array)"""
    __slots__ = ('bits', 'lin', 'rng', 'key', 'kind', 'rl')

    def __init__(self, bits=None, lin=None, rng=None, key=None, kind='int', rl=None):
        self.bits, self.lin, self.rng, self.key, self.kind, self.rl = bits, lin, rng, key, kind, rl

    def __repr__(self):
        return 'V(%s)' % (self.key or self.lin or (self.bits or ())[:8],)


class Arr(object):
    def __init__(self, size, width=None, name=None):
        self.size, self.width, self.cells, self.name = size, width, {}, name

    def copy(self):
        a = Arr(self.size, self.width, self.name)
        a.cells = dict(self.cells)
        return a


class Ite(object):
    """a value that is not a number and depends on a condition"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Obj(object):
    """an object known by the path that leads to it"""
    def __init__(self, path, cls=None):
        self.path, self.cls = path, cls

    def __repr__(self):
        return 'Obj(%s)' % self.path


class Fn(object):
    def __init__(self, f, me=None, closure=None):
        self.f, self.me, self.closure = f, me, closure


class Ext(object):
    def __init__(self, name):
        self.name = name


TOP = object()


def const(c):
    if isinstance(c, bool):
        c = int(c)
    bits = tuple((c >> k) & 1 for k in range(N)) if abs(c) < (1 << (N - 1)) else (None,) * N
    return V(bits, {(): c}, (c, c), repr(c))


def sym(name, width=None, rng=None):
    if width is None and rng is not None and rng[0] is not None and rng[0] >= 0 and rng[1] is not None:
        width = max(1, int(rng[1]).bit_length())
    bits = tuple((name, k) if width is None or k < width else 0 for k in range(N))
    return V(bits, {name: 1}, rng if rng is not None else ((0, (1 << width) - 1) if width else None), name)


def is_const(v):
    return isinstance(v, V) and v.rng is not None and v.rng[0] is not None and v.rng[0] == v.rng[1]


def cval(v):
    if isinstance(v, (int, float, str, bytes, tuple, list, dict)) or v is None:
        return v
    if is_const(v):
        return v.rng[0]
    raise Undecided()


def gate(c, a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    return ('ite', c, a, b)


def bit_not(b):
    if b in (0, 1):
        return 1 - b
    return None if b is None else ('not', b)


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    return a if a == b else None


def b_or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0:
        return a
    return a if a == b else None


def b_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a is not None and a == b:
        return 0
    if a == 1:
        return bit_not(b)
    if b == 1:
        return bit_not(a)
    return None


def lin_add(a, b, s=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + s * c
        if r[k] == 0 and k != ():
            del r[k]
    return r


def lin_scale(a, c):
    return None if a is None else {k: v * c for k, v in a.items() if v * c != 0 or k == ()}


def lin_key(l):
    return tuple(sorted((str(k), c) for k, c in l.items() if c != 0))


def from_bits(bits, key=None):
    bits = tuple(bits)[:N]
    if len(bits) < N:
        bits = bits + (0,) * (N - len(bits))
    if all(b in (0, 1) for b in bits):
        n = sum(b << k for k, b in enumerate(bits))
        if bits[-1] == 1:
            n -= 1 << N
        return const(n)
    top = max([k for k, b in enumerate(bits) if b != 0] + [0])
    rng = (0, (1 << (top + 1)) - 1) if top < N - 1 else None
    lin = None
    # a contiguous run of one symbol from bit 0, with nothing of it left out, is the symbol itself
    return V(bits, lin, rng, key)


class State(object):
    def __init__(self, env=None):
        self.env = dict(env or {})
        self.ret = []           # [(guards, value)]
        self.dead = False

    def copy(self):
        s = State()
        memo = {}

        def cp(v):
            if isinstance(v, Arr):
                if id(v) not in memo:
                    memo[id(v)] = v.copy()
                return memo[id(v)]
            if isinstance(v, list):
                if id(v) not in memo:
                    memo[id(v)] = [cp(x) for x in v]
                return memo[id(v)]
            if isinstance(v, dict):
                if id(v) not in memo:
                    memo[id(v)] = {k: cp(x) for k, x in v.items()}
                return memo[id(v)]
            return v
        s.env = {k: cp(v) for k, v in self.env.items()}
        s.ret = list(self.ret)
        s.dead = self.dead
        return s


class Machine(object):
    def __init__(self, repo, nom, ranges=None, widths=None, given=None, elements=None):
        self.repo, self.nom = repo, nom
        self.ranges, self.widths, self.given = ranges or {}, widths or {}, given or {}
        self.elements = elements or {}          # path of an array input -> width of its elements
        self.depth = 0
        self.visited = set()
        self.intof = {}         # name of an integer part -> linear form of what it was taken from
        self.watch = {}
        self.steps = 0

    # ------------------------------------------------------------ inputs
    def input(self, path):
        if path in self.given:
            g = self.given[path]
            return const(g) if isinstance(g, (int, bool)) else g
        return sym(path, self.widths.get(path), self.ranges.get(path))

    def num(self, v):
        if isinstance(v, V):
            return v
        if isinstance(v, bool) or isinstance(v, int):
            return const(int(v))
        if isinstance(v, Obj):
            return self.input(v.path)
        if isinstance(v, Ite):
            a, b = self.num(v.a), self.num(v.b)
            return self.merge(v.c, a, b) if a is not None and b is not None else None
        if isinstance(v, Cond):
            if v.known is not None:
                return const(int(v.known))
            return V((('ite', v.key, 1, 0),) + (0,) * (N - 1), None, (0, 1), v.key)
        return None

    def fresh(self, key, rng=None, kind='int'):
        v = sym(key, None, rng)
        v.kind = kind
        return v

    def text(self, v):
        if isinstance(v, V):
            if is_const(v):
                return repr(v.rng[0])
            if v.key:
                return v.key
            if v.lin:
                return '+'.join('%s*%s' % (c, k) if k != () else str(c) for k, c in sorted(v.lin.items(), key=str))
            return 'bits%r' % (hash(v.bits),)
        if isinstance(v, Obj):
            return v.path
        if isinstance(v, Ext):
            return v.name
        if isinstance(v, Ite):
            return '(%s if %s else %s)' % (self.text(v.a), v.c, self.text(v.b))
        if isinstance(v, (tuple, list)):
            return '(%s)' % ','.join(self.text(x) for x in v)
        if v is TOP:
            return '?'
        return repr(v) if isinstance(v, (str, float, int, bytes, type(None))) else type(v).__name__

    # ------------------------------------------------------------ joins
    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, V) and isinstance(b, V):
            if a.bits is not None and a.bits == b.bits and a.lin == b.lin:
                return a
            bits = tuple(gate(c, x, y) for x, y in zip(a.bits, b.bits)) if a.bits and b.bits else (None,) * N
            rng = (min(a.rng[0], b.rng[0]), max(a.rng[1], b.rng[1])) if a.rng and b.rng and None not in a.rng + b.rng else None
            key = '(%s if %s else %s)' % (self.text(a), c, self.text(b))
            if all(x is None for x in bits):
                return self.fresh(key, rng)
            return V(bits, {key: 1}, rng, key)
        if isinstance(a, Arr) and isinstance(b, Arr):
            r = Arr(a.size, a.width, a.name)
            for k in set(a.cells) | set(b.cells):
                x, y = a.cells.get(k, const(0)), b.cells.get(k, const(0))
                r.cells[k] = self.merge(c, x, y)
            return r
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
            return type(a)(self.merge(c, x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            r = {}
            for k in list(a) + [k for k in b if k not in a]:
                r[k] = self.merge(c, a[k], b[k]) if k in a and k in b else Ite(c, a.get(k, TOP), b.get(k, TOP))
            return r
        if type(a) is type(b) and isinstance(a, (str, int, float, bytes)) and a == b:
            return a
        if isinstance(a, Obj) and isinstance(b, Obj) and a.path == b.path:
            return a
        if a is TOP or b is TOP:
            return TOP
        return Ite(c, a, b)

    def join(self, c, s, t):
        r = State()
        r.ret = s.ret + [x for x in t.ret if not any(x is y for y in s.ret)]
        if s.dead and t.dead:
            r.dead = True
            r.env = s.env
            return r
        if s.dead:
            r.env = t.env
            return r
        if t.dead:
            r.env = s.env
            return r
        ren = {}
        for k in set(s.env) | set(t.env):
            if k in s.env and k in t.env:
                a, b = s.env[k], t.env[k]
                if isinstance(a, Arr) and isinstance(b, Arr):
                    ren[k] = self.merge(c, a, b)
                else:
                    ren[k] = self.merge(c, a, b)
            elif '.' in k or '[' in k:
                x = s.env.get(k, t.env.get(k))
                ren[k] = self.merge(c, s.env.get(k, self.input(k)), t.env.get(k, self.input(k))) if isinstance(x, V) else TOP
            else:
                ren[k] = TOP
        r.env = ren
        return r

    # ------------------------------------------------------------ functions
    def call(self, f, args=(), me=None):
        """value returned by f for its inputs: a parameter that is not given stands for whatever is passed"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = ([me] if me is not None else []) + list(args)
        return self.call_with(f, vals, {n: Obj(n) for n in names[len(vals):] + [x.arg for x in a.kwonlyargs]}, None, {})

    # ------------------------------------------------------------ statements
    def block(self, body, st, f, guards=()):
        for s in body:
            if st.dead:
                return st
            self.steps += 1
            if self.steps > GATES:
                raise Undecided()
            st = self.stmt(s, st, f, guards)
        return st

    def stmt(self, s, st, f, guards):
        if isinstance(s, ast.Expr):
            self.ev(s.value, st, f)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, st, f)
            for t in s.targets:
                self.store(t, v, st, f)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.ev(s.value, st, f), st, f)
        elif isinstance(s, ast.AugAssign):
            old = self.ev(ast.copy_location(self.load(s.target), s.target), st, f)
            v = self.binop(s.op, old, self.ev(s.value, st, f))
            self.store(s.target, v, st, f)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value, st, f) if s.value is not None else None
            st.ret = st.ret + [(guards, v)]
            st.dead = True
        elif isinstance(s, (ast.Raise,)):
            st.dead = True
            st.env['__raised__'] = True
        elif isinstance(s, ast.If):
            c = self.ev(s.test, st, f)
            d = self.truth(c)
            if d is True:
                return self.block(s.body, st, f, guards)
            if d is False:
                return self.block(s.orelse, st, f, guards)
            key = self.condkey(c)
            a = self.block(s.body, st.copy(), f, guards + ((key, True),))
            b = self.block(s.orelse, st.copy(), f, guards + ((key, False),))
            return self.join(key, a, b)
        elif isinstance(s, ast.For):
            return self.loop(s, st, f, guards)
        elif isinstance(s, ast.While):
            self.havoc(s, st, f)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, st, f)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, v, st, f)
            return self.block(s.body, st, f, guards)
        elif isinstance(s, ast.Try):
            # the way in which nothing is raised
            st = self.block(s.body, st, f, guards)
            if not st.dead:
                st = self.block(s.orelse, st, f, guards)
            elif st.env.get('__raised__'):
                raise Undecided()
            if s.finalbody and not st.dead:
                st = self.block(s.finalbody, st, f, guards)
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Assert, ast.Delete)):
            pass
        elif isinstance(s, ast.FunctionDef):
            fn = self.nested(s)
            st.env[s.name] = Fn(fn, closure=st) if fn is not None else TOP
        elif isinstance(s, (ast.Break, ast.Continue)):
            raise Undecided()
        else:
            raise Undecided()
        return st

    def nested(self, node):
        for fn in self.repo.funcs():
            if fn.node is node:
                return fn
        return None

    def lost(self, args, kw):
        """a call that is not followed may change what it is given"""
        for a in list(args) + list(kw.values()):
            if isinstance(a, Arr):
                for k in list(a.cells):
                    a.cells[k] = TOP
                a.cells['?'] = TOP
            elif isinstance(a, list):
                a[:] = [TOP] * len(a)
            elif isinstance(a, dict):
                for k in a:
                    a[k] = TOP
        return TOP

    def load(self, t):
        t = ast.parse(ast.unparse(t), mode='eval').body
        return t

    def havoc(self, s, st, f):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.env[x.id] = TOP
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                b = x.value
                if isinstance(b, ast.Name):
                    st.env[b.id] = TOP
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                st.env[ast.unparse(x)] = TOP
            elif isinstance(x, ast.Return):
                raise Undecided()

    def loop(self, s, st, f, guards):
        it = self.ev(s.iter, st, f)
        seq = None
        if isinstance(it, (list, tuple)):
            seq = list(it)
        elif isinstance(it, dict):
            seq = list(it)
        elif isinstance(it, Rng) and it.concrete() is not None:
            seq = [const(k) for k in it.concrete()]
        if seq is not None and len(seq) <= 600:
            for v in seq:
                self.store(s.target, v, st, f)
                st = self.block(s.body, st, f, guards)
                if st.dead:
                    return st
            return self.block(s.orelse, st, f, guards) if s.orelse else st
        if isinstance(it, Rng) and it.start is not None and it.step is not None and isinstance(s.target, ast.Name):
            # one trip standing for all of them: the counter is start + step*n; names that carry over from one trip to the next are unknown
            n = 'trip@%d' % s.lineno
            v = self.binop(ast.Add(), it.start, self.binop(ast.Mult(), it.step, sym(n, None, (0, 1 << 40))))
            st.env[s.target.id] = v
            carried = self.carried(s)
            for k in carried:
                st.env[k] = TOP
            st = self.block(s.body, st, f, guards)
            for k in carried:
                st.env[k] = TOP
            return st
        self.havoc(s, st, f)
        return st

    @staticmethod
    def carried(s):
        """names the body may read before it assigns them"""
        seen, out = {s.target.id}, set()
        stored = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

        def visit(body):
            for t in body:
                if isinstance(t, ast.AugAssign) and isinstance(t.target, ast.Name):
                    if t.target.id not in seen:
                        out.add(t.target.id)
                for x in ast.walk(t.value if isinstance(t, (ast.Assign, ast.AugAssign)) else t.iter if isinstance(t, ast.For) else t.test if isinstance(t, (ast.If, ast.While)) else t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in stored and x.id not in seen:
                        out.add(x.id)
                if isinstance(t, ast.Assign):
                    for y in t.targets:
                        if isinstance(y, ast.Name):
                            seen.add(y.id)
                        elif isinstance(y, ast.Tuple):
                            seen.update(e.id for e in y.elts if isinstance(e, ast.Name))
                if isinstance(t, ast.For):
                    if isinstance(t.target, ast.Name):
                        seen.add(t.target.id)
                    visit(t.body)
                elif isinstance(t, ast.If):
                    keep = set(seen)
                    visit(t.body)
                    one = set(seen)
                    seen.clear()
                    seen.update(keep)
                    visit(t.orelse)
                    both = one & seen
                    seen.clear()
                    seen.update(keep | both)
        visit(s.body)
        return out

    # ------------------------------------------------------------ stores
    def store(self, t, v, st, f):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = v
            if isinstance(v, Obj):
                vals = [Obj('%s[%d]' % (v.path, k)) for k in range(len(t.elts))]
            if isinstance(vals, (tuple, list)) and len(vals) == len(t.elts):
                for x, y in zip(t.elts, vals):
                    self.store(x, y, st, f)
            else:
                for x in t.elts:
                    self.store(x, TOP, st, f)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, f)
            if isinstance(b, Obj):
                st.env['%s.%s' % (b.path, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, f)
            if isinstance(b, Arr):
                self.put(b, t.slice, v, st, f)
            elif isinstance(b, dict):
                k = self.ev(t.slice, st, f)
                try:
                    b[cval(k)] = v
                except Undecided:
                    b[self.text(k)] = TOP
            elif isinstance(b, list):
                try:
                    b[cval(self.ev(t.slice, st, f))] = v
                except (Undecided, IndexError, TypeError):
                    for k in range(len(b)):
                        b[k] = TOP
            elif isinstance(b, Obj):
                st.env['%s[%s]' % (b.path, self.text(self.ev(t.slice, st, f)) if not isinstance(t.slice, ast.Slice) else ast.unparse(t.slice))] = v

    def cut(self, v, width):
        v = self.num(v)
        if v is None or v.bits is None:
            return TOP
        if width is None:
            return v
        return from_bits(v.bits[:width])

    def put(self, arr, sl, v, st, f):
        if isinstance(sl, ast.Slice):
            lo = self.ev(sl.lower, st, f) if sl.lower is not None else const(0)
            hi = self.ev(sl.upper, st, f) if sl.upper is not None else None
            lo = self.num(lo)
            if sl.step is not None or lo is None or not is_const(lo):
                k = ('slice', self.text(lo) if lo is not None else '?', ast.unparse(sl))
                arr.cells[k] = self.cut(v, arr.width) if isinstance(v, V) else v
                return
            lo = lo.rng[0]
            if isinstance(v, (list, tuple, bytes)):
                for k, x in enumerate(v):
                    arr.cells[lin_key({(): lo + k})] = self.cut(x, arr.width)
                return
            n = self.num(hi) if hi is not None else None
            if n is not None and is_const(n) and 0 <= n.rng[0] - lo <= 128:
                if isinstance(v, Arr):
                    for k in range(n.rng[0] - lo):
                        arr.cells[lin_key({(): lo + k})] = self.cut(v.cells.get(lin_key({(): k}), const(0)), arr.width)
                    return
                for k in range(lo, n.rng[0]):
                    arr.cells[lin_key({(): k})] = self.cut(v, arr.width)
                return
            arr.cells[('from', lo)] = self.cut(v, arr.width) if not isinstance(v, Arr) else TOP
            return
        i = self.num(self.ev(sl, st, f))
        if i is None or i.lin is None:
            for k in list(arr.cells):
                arr.cells[k] = TOP
            arr.cells['?'] = TOP
            return
        arr.cells[lin_key(i.lin)] = self.cut(v, arr.width)

    # ------------------------------------------------------------ expressions
    def truth(self, c):
        if isinstance(c, Cond):
            return c.known
        if isinstance(c, V):
            if is_const(c):
                return bool(c.rng[0])
            return None
        if isinstance(c, (str, int, float, bytes, tuple, list, dict)) or c is None:
            return bool(c)
        return None

    def condkey(self, c):
        if isinstance(c, Cond):
            return c.key
        return self.text(c)

    def ev(self, e, st, f):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return TOP
        return m(e, st, f)

    def e_Constant(self, e, st, f):
        if isinstance(e.value, bool) or isinstance(e.value, int):
            return const(int(e.value))
        return e.value

    def e_Name(self, e, st, f):
        if e.id in st.env:
            return st.env[e.id]
        r = self.repo.dotted(f.mod, e, ())
        return self.resolved(r, e)

    def resolved(self, r, e):
        if r is None:
            return TOP
        if r[0] == 'func':
            return Fn(r[1])
        if r[0] in ('ext', 'builtin'):
            return Ext(r[1])
        if r[0] == 'val':
            vs = [x.value for x in r[1] if isinstance(x, ast.Assign)]
            if len(vs) == 1 and len(r[1]) == 1:
                try:
                    c = ast.literal_eval(vs[0])
                    if isinstance(c, (bool, int)):
                        return const(int(c))
                    if isinstance(c, (float, str, bytes)):
                        return c if not isinstance(c, float) or c != int(c) else float(c)
                except (ValueError, SyntaxError, TypeError):
                    pass
            return Obj('<%s>' % ast.unparse(e))
        if r[0] == 'class':
            return Ext('class ' + r[1].name)
        return Obj('<%s>' % ast.unparse(e))

    def e_Attribute(self, e, st, f):
        r = None
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if isinstance(x, ast.Name) and x.id not in st.env:
            r = self.repo.dotted(f.mod, e, ())
            if r is not None:
                return self.resolved(r, e)
        b = self.ev(e.value, st, f)
        return self.attr(b, e.attr, st)

    def attr(self, b, name, st):
        if isinstance(b, Obj):
            p = '%s.%s' % (b.path, name)
            if p in st.env:
                return st.env[p]
            if b.cls is not None:
                m = self.repo.method(b.cls, name)
                if m is not None:
                    if any(ast.unparse(d) == 'property' for d in m.node.decorator_list):
                        return self.inline(m, [], {}, b, st)
                    return Fn(m, b)
                for k in self.repo.mro(b.cls)[0]:
                    for s in k.node.body:
                        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                            try:
                                c = ast.literal_eval(s.value)
                                if isinstance(c, int):
                                    return const(int(c))
                            except (ValueError, SyntaxError):
                                pass
            if p in self.given:
                return self.input(p)
            return Obj(p)
        if isinstance(b, Ite):
            return self.merge(b.c, self.attr(b.a, name, st), self.attr(b.b, name, st))
        if isinstance(b, V):
            if name in ('real', 'imag', 'T'):
                return Obj('%s.%s' % (self.text(b), name)) if name != 'T' else b
            return Bound(b, name)
        if isinstance(b, Ext):
            return Ext(b.name + '.' + name)
        if isinstance(b, Arr) and name == 'size':
            return self.num(b.size) or TOP
        if b is TOP or b is None:
            return TOP
        return Bound(b, name)

    def e_Tuple(self, e, st, f):
        return tuple(self.ev(x, st, f) for x in e.elts)

    def e_List(self, e, st, f):
        return [self.ev(x, st, f) for x in e.elts]

    def e_Dict(self, e, st, f):
        r = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                return TOP
            try:
                r[cval(self.ev(k, st, f))] = self.ev(v, st, f)
            except Undecided:
                return TOP
        return r

    def e_JoinedStr(self, e, st, f):
        return TOP

    def e_IfExp(self, e, st, f):
        c = self.ev(e.test, st, f)
        d = self.truth(c)
        if d is not None:
            return self.ev(e.body if d else e.orelse, st, f)
        return self.merge(self.condkey(c), self.ev(e.body, st, f), self.ev(e.orelse, st, f))

    def e_NamedExpr(self, e, st, f):
        v = self.ev(e.value, st, f)
        st.env[e.target.id] = v
        return v

    def e_BinOp(self, e, st, f):
        a, b = self.ev(e.left, st, f), self.ev(e.right, st, f)
        if isinstance(e.op, ast.Mod) and isinstance(a, str):
            return TOP
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(op, ast.Add):
            return type(a)(list(a) + list(b))
        if isinstance(a, bytes) and isinstance(b, bytes) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, (list,)) and isinstance(op, ast.Mult):
            n = self.num(b)
            if n is not None and is_const(n) and len(a) * n.rng[0] < 5000:
                return a * n.rng[0]
            return TOP
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = Arr(a.size if isinstance(a, Arr) else b.size, None, None)
            r.name = 'of %s' % (a.name if isinstance(a, Arr) else b.name)
            if isinstance(a, Arr) and isinstance(b, Arr):
                return TOP
            for k, c in (a if isinstance(a, Arr) else b).cells.items():
                r.cells[k] = self.binop(op, c, b) if isinstance(a, Arr) else self.binop(op, a, c)
            return r
        if isinstance(a, float) or isinstance(b, float):
            return self.real(op, a, b)
        if a is TOP or b is TOP:
            return TOP
        x, y = self.num(a), self.num(b)
        if x is None or y is None:
            return TOP
        if x.kind == 'real' or y.kind == 'real':
            return self.real(op, x, y)
        if is_const(x) and is_const(y):
            p, q = x.rng[0], y.rng[0]
            try:
                r = {ast.Add: lambda: p + q, ast.Sub: lambda: p - q, ast.Mult: lambda: p * q, ast.FloorDiv: lambda: p // q, ast.Mod: lambda: p % q,
                     ast.Pow: lambda: p ** q if q < 200 else None, ast.LShift: lambda: p << q if q < 200 else None, ast.RShift: lambda: p >> q,
                     ast.BitAnd: lambda: p & q, ast.BitOr: lambda: p | q, ast.BitXor: lambda: p ^ q, ast.Div: lambda: p / q}[type(op)]()
            except (KeyError, ZeroDivisionError, ValueError):
                return TOP
            if isinstance(r, float):
                return r
            return const(r) if r is not None else TOP
        if isinstance(op, (ast.LShift, ast.RShift)):
            if not is_const(y) or y.rng[0] < 0:
                return self.opaque(op, x, y)
            n = y.rng[0]
            if isinstance(op, ast.LShift):
                r = from_bits((0,) * n + tuple(x.bits[:N - n]))
                r.lin = lin_scale(x.lin, 1 << n)
                r.rng = (x.rng[0] << n, x.rng[1] << n) if x.rng and None not in x.rng else r.rng
                return r
            return self.div2(x, n)
        if isinstance(op, ast.BitAnd):
            r = from_bits(b_and(p, q) for p, q in zip(x.bits, y.bits))
            if r.bits == x.bits:
                return x
            return r
        if isinstance(op, ast.BitOr):
            return self.keep(from_bits(b_or(p, q) for p, q in zip(x.bits, y.bits)), x, y)
        if isinstance(op, ast.BitXor):
            return self.keep(from_bits(b_xor(p, q) for p, q in zip(x.bits, y.bits)), x, y)
        if isinstance(op, ast.Add):
            return self.add(x, y)
        if isinstance(op, ast.Sub):
            lin = lin_add(x.lin, y.lin, -1)
            if lin is not None and not any(k != () and v for k, v in lin.items()):
                return const(lin.get((), 0))
            rng = (x.rng[0] - y.rng[1], x.rng[1] - y.rng[0]) if x.rng and y.rng and None not in x.rng + y.rng else None
            if is_const(y) and lin is not None:
                # what was added before comes off again
                if not lin.get((), 0) and len([k for k in lin if k != ()]) == 1:
                    (k, c), = [(k, c) for k, c in lin.items() if k != ()]
                    if c == 1 and isinstance(k, str):
                        s = sym(k, self.widths.get(k), self.ranges.get(k))
                        return s
            r = self.lowexact(x, y)
            return V(r, lin, rng, '(%s-%s)' % (self.text(x), self.text(y)))
        if isinstance(op, ast.Mult):
            for p, q in ((x, y), (y, x)):
                if is_const(q):
                    n = q.rng[0]
                    if n == 0:
                        return const(0)
                    if n > 0 and n & (n - 1) == 0:
                        return self.binop(ast.LShift(), p, const(n.bit_length() - 1))
                    rng = tuple(sorted((p.rng[0] * n, p.rng[1] * n))) if p.rng and None not in p.rng else None
                    key = '(%s*%d)' % (self.text(p), n)
                    return V(tuple((key, k) for k in range(N)), lin_scale(p.lin, n), rng, key)
            return self.opaque(op, x, y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and is_const(y) and y.rng[0] > 0:
            return self.divmod(x, y.rng[0], isinstance(op, ast.Mod))
        if isinstance(op, ast.Div):
            return self.real(op, x, y)
        return self.opaque(op, x, y)

    def keep(self, r, x, y):
        # an or of fields that do not overlap is also a sum
        if all(p == 0 or q == 0 for p, q in zip(x.bits, y.bits)):
            r.lin = lin_add(x.lin, y.lin)
        return r

    def opaque(self, op, x, y):
        key = '(%s %s %s)' % (self.text(x), type(op).__name__, self.text(y))
        return self.fresh(key)

    def rform(self, v):
        """linear form over named quantities and single bits, with rational coefficients"""
        if isinstance(v, (int, float)):
            return {(): Fraction(v)}
        if isinstance(v, V):
            if v.rl is not None:
                return v.rl
            if is_const(v):
                return {(): Fraction(v.rng[0])}
            if v.kind == 'real':
                return {v.key: Fraction(1)}
            if isinstance(v.lin, dict):
                return {k: Fraction(c) for k, c in v.lin.items()}
            if v.bits is not None and None not in v.bits:
                return {b: Fraction(1 << k) for k, b in enumerate(v.bits) if b not in (0, 1)} | {(): Fraction(sum(1 << k for k, b in enumerate(v.bits) if b == 1))}
            return {v.key or 'bits%r' % (hash(v.bits),): Fraction(1)}
        return None

    def real(self, op, a, b):
        a = a if isinstance(a, (float, int)) else self.num(a) if a is not TOP else None
        b = b if isinstance(b, (float, int)) else self.num(b) if b is not TOP else None
        if a is None or b is None:
            return TOP
        x, y = self.rform(a), self.rform(b)
        cx = x.get((), Fraction(0)) if not [k for k, c in x.items() if k != () and c] else None
        cy = y.get((), Fraction(0)) if not [k for k, c in y.items() if k != () and c] else None
        rl = None
        if isinstance(op, (ast.Add, ast.Sub)):
            sg = 1 if isinstance(op, ast.Add) else -1
            rl = dict(x)
            for k, c in y.items():
                rl[k] = rl.get(k, Fraction(0)) + sg * c
        elif isinstance(op, ast.Mult) and cy is not None:
            rl = {k: c * cy for k, c in x.items()}
        elif isinstance(op, ast.Mult) and cx is not None:
            rl = {k: c * cx for k, c in y.items()}
        elif isinstance(op, ast.Div) and cy:
            rl = {k: c / cy for k, c in x.items()}
        elif isinstance(op, ast.Pow) and cx is not None and cy is not None and cy.denominator == 1 and abs(cy) < 200 and cx:
            rl = {(): cx ** int(cy)}
        if rl is not None:
            rl = {k: c for k, c in rl.items() if c or k == ()}
            if not [k for k in rl if k != ()]:
                return float(rl.get((), 0))
            key = 'R[%s]' % ','.join('%s:%.12g' % (k, float(c)) for k, c in sorted(rl.items(), key=str) if c)
        else:
            key = '(%s %s %s)' % (self.text(a), type(op).__name__, self.text(b))
        v = V((None,) * N, None, None, key, 'real', rl)
        if rl is not None:
            # a multiple of x - int(x), and nothing else
            for k in rl:
                if isinstance(k, str) and k in self.intof:
                    base = self.intof[k]
                    c = -rl[k]
                    if c > 0 and all(abs(rl.get(q, Fraction(0)) - c * base.get(q, Fraction(0))) < Fraction(1, 10 ** 9) for q in (set(rl) | set(base)) - {k}):
                        v.rng = (0, c)
        if isinstance(op, ast.Div) and isinstance(a, V) and isinstance(a.lin, dict) and cy is not None and cy.denominator == 1 and cy > 0:
            v.lin = ('over', a, int(cy))
        return v

    def add(self, x, y):
        lin = lin_add(x.lin, y.lin)
        rng = (x.rng[0] + y.rng[0], x.rng[1] + y.rng[1]) if x.rng and y.rng and None not in x.rng + y.rng else None
        if all(p == 0 or q == 0 for p, q in zip(x.bits, y.bits)):
            r = from_bits(b_or(p, q) for p, q in zip(x.bits, y.bits))
            r.lin, r.rng = lin, rng or r.rng
            return r
        bits = self.lowexact(x, y)
        return V(bits, lin, rng, '(%s+%s)' % (self.text(x), self.text(y)))

    def lowexact(self, x, y):
        """sum or difference: the bits below the first place where both have something are those of one of them"""
        for p, q in ((x, y), (y, x)):
            if is_const(q) and q.rng[0] > 0:
                n = (q.rng[0] & -q.rng[0]).bit_length() - 1
                return tuple(p.bits[:n]) + (bit_not(p.bits[n]),) + (None,) * (N - n - 1)
        out = []
        ok = True
        for p, q in zip(x.bits, y.bits):
            if ok and q == 0:
                out.append(p)
            elif ok and p == 0 and not out:
                out.append(q)
                ok = False if q not in (0,) else ok
            else:
                ok = False
                out.append(None)
        return tuple(out)

    def div2(self, x, n):
        r = from_bits(tuple(x.bits[n:]) + ((x.bits[-1],) * n if x.bits[-1] not in (0,) else (0,) * n))
        if x.bits[-1] not in (0, 1, None) and isinstance(x.bits[-1], tuple) and x.bits[-1][0] not in ('ite', 'not'):
            nm, k = x.bits[-1]
            r = from_bits(tuple(x.bits[n:]) + tuple((nm, k + 1 + i) for i in range(n)))
        d = self.lindiv(x, 1 << n)
        if d is not None:
            r.lin, r.rng = d[0]
        elif x.rng and None not in x.rng:
            r.rng = (x.rng[0] >> n, x.rng[1] >> n)
        return r

    def lindiv(self, x, q):
        """x = q*a + b with 0 <= b < q known: ((a, range of a), (b, range of b))"""
        if not isinstance(x.lin, dict):
            return None
        a, b = {}, {}
        for k, c in x.lin.items():
            if c % q == 0:
                a[k] = c // q
            elif k == ():
                a[k], b[k] = c // q, c % q
            else:
                b[k] = c
        lo = hi = b.get((), 0)
        for k, c in b.items():
            if k == ():
                continue
            r = self.rangeof(k)
            if r is None:
                return None
            lo += min(c * r[0], c * r[1])
            hi += max(c * r[0], c * r[1])
        if not (0 <= lo and hi < q):
            return None
        ra = [a.get((), 0)] * 2
        for k, c in a.items():
            if k == ():
                continue
            r = self.rangeof(k)
            if r is None:
                ra = None
                break
            ra[0] += min(c * r[0], c * r[1])
            ra[1] += max(c * r[0], c * r[1])
        return (a, tuple(ra) if ra else None), (b, (lo, hi))

    def rangeof(self, k):
        if isinstance(k, str):
            if k in self.ranges:
                return self.ranges[k]
            if k in self.widths:
                return (0, (1 << self.widths[k]) - 1)
            if k.startswith('trip@'):
                return (0, 1 << 40)
        return None

    def of_lin(self, lin, rng, alt):
        live = {k: c for k, c in lin.items() if c}
        if len(live) == 1:
            (k, c), = live.items()
            if c == 1 and isinstance(k, str):
                s = sym(k, self.widths.get(k), self.ranges.get(k))
                return s
        if not live or list(live) == [()]:
            return const(lin.get((), 0))
        alt.lin, alt.rng = lin, rng or alt.rng
        return alt

    def divmod(self, x, q, mod):
        if q & (q - 1) == 0:
            n = q.bit_length() - 1
            if mod:
                r = from_bits(x.bits[:n])
            else:
                r = self.div2(x, n)
        else:
            r = self.fresh('(%s %s %d)' % (self.text(x), '%' if mod else '//', q))
        d = self.lindiv(x, q)
        if d is not None:
            lin, rng = d[1] if mod else d[0]
            return self.of_lin(lin, rng, r)
        return r

    def e_UnaryOp(self, e, st, f):
        v = self.ev(e.operand, st, f)
        if isinstance(e.op, ast.Not):
            d = self.truth(v)
            return Cond('not %s' % self.condkey(v), None if d is None else not d)
        if isinstance(v, float):
            return -v if isinstance(e.op, ast.USub) else v
        x = self.num(v)
        if x is None or v is TOP:
            return TOP
        if is_const(x):
            return const(-x.rng[0] if isinstance(e.op, ast.USub) else ~x.rng[0] if isinstance(e.op, ast.Invert) else x.rng[0])
        if isinstance(e.op, ast.Invert):
            return from_bits(bit_not(b) for b in x.bits)
        if isinstance(e.op, ast.UAdd):
            return x
        return self.fresh('-%s' % self.text(x))

    def e_BoolOp(self, e, st, f):
        vs = [self.ev(x, st, f) for x in e.values]
        ts = [self.truth(v) for v in vs]
        if isinstance(e.op, ast.Or):
            if any(t is True for t in ts):
                return Cond('or', True)
            known = False if all(t is False for t in ts) else None
        else:
            if any(t is False for t in ts):
                return Cond('and', False)
            known = True if all(t is True for t in ts) else None
        key = (' or ' if isinstance(e.op, ast.Or) else ' and ').join(sorted(self.condkey(v) for v, t in zip(vs, ts) if t is None))
        return Cond(key, known)

    def e_Compare(self, e, st, f):
        if len(e.ops) != 1:
            vs = [self.ev(x, st, f) for x in [e.left] + e.comparators]
            rs = [self.cmp(o, a, b) for o, a, b in zip(e.ops, vs, vs[1:])]
            if any(r.known is False for r in rs):
                return Cond('chain', False)
            if all(r.known is True for r in rs):
                return Cond('chain', True)
            return Cond(' and '.join(sorted(r.key for r in rs if r.known is None)), None)
        return self.cmp(e.ops[0], self.ev(e.left, st, f), self.ev(e.comparators[0], st, f))

    def cmp(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (tuple, list)):
                rs = [self.cmp(ast.Eq(), a, x) for x in b]
                neg = isinstance(op, ast.NotIn)
                if any(r.known is True for r in rs):
                    return Cond('in', not neg)
                if all(r.known is False for r in rs):
                    return Cond('in', neg)
            return Cond('%s %s %s' % (self.text(a), type(op).__name__, self.text(b)), None)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is None and isinstance(a, (Obj, V)):
                return Cond('is', isinstance(op, ast.IsNot))       # the inputs are there
            if a is None and b is None:
                return Cond('is', isinstance(op, ast.Is))
            return Cond('%s is %s' % (self.text(a), self.text(b)), None)
        if isinstance(a, str) and isinstance(b, str):
            return Cond('str', (a == b) == isinstance(op, ast.Eq))
        x, y = (self.num(a) if a is not TOP else None), (self.num(b) if b is not TOP else None)
        if x is None or y is None:
            return Cond('%s %s %s' % (self.text(a), type(op).__name__, self.text(b)), None)
        rx = self.linrange(x)
        ry = self.linrange(y)
        known = None
        if rx and ry:
            (a0, a1), (b0, b1) = rx, ry
            t = {ast.Lt: (a1 < b0, a0 >= b1), ast.LtE: (a1 <= b0, a0 > b1), ast.Gt: (a0 > b1, a1 <= b0), ast.GtE: (a0 >= b1, a1 < b0),
                 ast.Eq: (a0 == a1 == b0 == b1, a1 < b0 or b1 < a0), ast.NotEq: (a1 < b0 or b1 < a0, a0 == a1 == b0 == b1)}.get(type(op))
            if t:
                known = True if t[0] else False if t[1] else None
        key = '%s %s %s' % (self.text(x), type(op).__name__, self.text(y))
        c = Cond(key, known)
        c.parts = (op, x, y)
        return c

    def linrange(self, x):
        r = x.rng if x.rng and None not in x.rng else None
        if r is None and isinstance(x.lin, dict):
            lo = hi = x.lin.get((), 0)
            for k, c in x.lin.items():
                if k == ():
                    continue
                q = self.rangeof(k)
                if q is None:
                    return None
                lo += min(c * q[0], c * q[1])
                hi += max(c * q[0], c * q[1])
            r = (lo, hi)
        return r

    def e_Subscript(self, e, st, f):
        b = self.ev(e.value, st, f)
        if isinstance(b, Ite):
            return TOP
        if isinstance(e.slice, ast.Slice):
            if isinstance(b, (list, tuple, bytes, str)):
                try:
                    lo = cval(self.ev(e.slice.lower, st, f)) if e.slice.lower else None
                    hi = cval(self.ev(e.slice.upper, st, f)) if e.slice.upper else None
                    sp = cval(self.ev(e.slice.step, st, f)) if e.slice.step else None
                    return b[lo:hi:sp]
                except Undecided:
                    return TOP
            if isinstance(b, Obj):
                return Obj('%s[%s]' % (b.path, ast.unparse(e.slice)))
            return TOP
        i = self.ev(e.slice, st, f)
        if isinstance(b, dict):
            try:
                return b.get(cval(i), TOP)
            except Undecided:
                return TOP
        if isinstance(b, (list, tuple, bytes)):
            try:
                r = b[cval(i)]
                return const(r) if isinstance(r, int) else r
            except (Undecided, IndexError, TypeError):
                return TOP
        if isinstance(b, Arr):
            n = self.num(i)
            if n is not None and isinstance(n.lin, dict):
                return b.cells.get(lin_key(n.lin), const(0) if not b.cells.get('?') else TOP)
            return TOP
        if isinstance(b, Obj):
            for w in self.watch:
                if b.path.endswith(w):
                    self.watch[w].append(i)
            if isinstance(i, str):
                p = '%s[%s]' % (b.path, i)
                return st.env.get(p, Obj(p))
            n = self.num(i)
            if n is not None and isinstance(n.lin, dict):
                p = '%s[%s]' % (b.path, ','.join('%s*%s' % kc for kc in lin_key(n.lin)))
                if is_const(n):
                    p = '%s[%d]' % (b.path, n.rng[0])
                if p in st.env:
                    return st.env[p]
                w = self.elements.get(b.path)
                if w is not None:
                    self.widths.setdefault(p, w)
                    return sym(p, w)
                return Obj(p)
            p = '%s[%s]' % (b.path, self.text(i))
            return st.env.get(p, Obj(p))
        return TOP

    def comp(self, e, st, f):
        if len(e.generators) != 1:
            return TOP
        g = e.generators[0]
        it = self.ev(g.iter, st, f)
        if isinstance(it, Rng) and it.concrete() is not None:
            it = [const(k) for k in it.concrete()]
        if isinstance(it, dict):
            it = list(it)
        if not isinstance(it, (list, tuple)) or len(it) > 600:
            return TOP
        out = []
        s2 = State(st.env)
        for v in it:
            self.store(g.target, v, s2, f)
            ts = [self.truth(self.ev(c, s2, f)) for c in g.ifs]
            if any(t is False for t in ts):
                continue
            if any(t is None for t in ts):
                return TOP
            out.append(self.ev(e.elt, s2, f))
        return out

    e_ListComp = e_GeneratorExp = comp

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, f):
        fn = self.ev(e.func, st, f)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, f)
                if not isinstance(v, (list, tuple)):
                    return TOP
                args.extend(v)
            else:
                args.append(self.ev(a, st, f))
        kw = {k.arg: self.ev(k.value, st, f) for k in e.keywords if k.arg}
        if isinstance(fn, Fn):
            return self.inline(fn.f, args, kw, fn.me, st, fn.closure)
        if isinstance(fn, Ext):
            return self.ext(fn.name, args, kw, e, st, f)
        if isinstance(fn, Bound):
            return self.method(fn.base, fn.name, args, kw, e, st, f)
        if isinstance(fn, Obj):
            # a method of something known only by its path
            base, _, name = fn.path.rpartition('.')
            if base:
                self.lost(args, kw)
                return self.method(Obj(base), name, args, kw, e, st, f)
        return self.lost(args, kw)

    def inline(self, fn, args, kw, me, st, closure=None):
        if self.depth > 6 or len(self.visited) > CUT:
            return self.lost(args, kw)
        if fn.cls is not None and me is None and fn.is_class:
            return TOP
        # objects keep their paths, so that what the callee stores is seen by the caller
        v = self.call_with(fn, args, kw, me, {k: x for k, x in st.env.items() if closure is not None or '.' in k or '[' in k})
        if self.last is not None:
            for k, x in self.last.env.items():
                if '.' in k or '[' in k:
                    st.env[k] = x
        return v

    def call_with(self, fn, args, kw, me, shared):
        self.visited.add(fn)
        a = fn.node.args
        st = State(shared)
        names = [x.arg for x in a.posonlyargs + a.args]
        if me is not None:
            args = [me] + list(args)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for i, n in enumerate(names):
            st.env[n] = args[i] if i < len(args) else kw[n] if n in kw else self.ev(defaults[n], State(), fn) if n in defaults else TOP
        for x in a.kwonlyargs:
            n = x.arg
            st.env[n] = kw[n] if n in kw else self.ev(defaults[n], State(), fn) if n in defaults else TOP
        if a.vararg:
            st.env[a.vararg.arg] = tuple(args[len(names):])
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
            self.last = None
            return TOP
        self.depth += 1
        try:
            st = self.block(fn.node.body, st, fn)
        finally:
            self.depth -= 1
        self.last = st
        return self.result(st)

    def result(self, st):
        rets = st.ret
        if not rets:
            return None
        val = rets[-1][1] if st.dead else None
        for g, v in reversed(rets[:-1] if st.dead else rets):
            if not g:
                val = v
            else:
                key, pos = g[-1]
                val = self.merge(key, v, val) if pos else self.merge(key, val, v)
        return val

    ID = {'int', 'np.int8', 'np.uint8', 'np.int16', 'np.uint16', 'np.int32', 'np.uint32', 'np.int64', 'np.uint64', 'operator.index', 'numpy.asarray', 'numpy.array'}

    def ext(self, name, args, kw, e, st, f):
        n = name.replace('numpy.', 'np.')
        a = args[0] if args else None
        if n == 'int' and len(args) == 1:
            if isinstance(a, float):
                return const(int(a))
            v = self.num(a) if a is not TOP else None
            if v is None:
                return TOP
            if v.kind == 'real':
                if isinstance(v.lin, tuple) and v.lin[0] == 'over':
                    return self.divmod(v.lin[1], v.lin[2], False)
                rng = None
                if v.rng and None not in v.rng and v.rng[0] == 0 and v.rng[1] == int(v.rng[1]):
                    rng = (0, int(v.rng[1]) - 1)
                name = 'int(%s)' % v.key
                self.intof[name] = self.rform(v)
                return sym(name, None, rng)
            if v.key and isinstance(v.lin, dict):
                self.intof.setdefault(v.key, self.rform(v))
            return v
        if n == 'round' and len(args) == 1:
            v = self.num(a) if a is not TOP else None
            return self.fresh('round(%s)' % self.text(a)) if v is not None and v.kind == 'real' else v if v is not None else TOP
        if n in ('np.int8', 'np.uint8', 'np.int16', 'np.uint16', 'np.int32', 'np.uint32', 'np.int64', 'np.uint64'):
            v = self.num(a) if a is not TOP else None
            return v if v is not None else TOP
        if n in ('np.zeros', 'bytearray') and args:
            size = a
            d = kw.get('dtype', args[1] if len(args) > 1 else None)
            dn = self.text(d) if d is not None else ('uint8' if n == 'bytearray' else 'float')
            w = 8 if 'uint8' in dn else 16 if 'uint16' in dn else 32 if 'uint32' in dn else 64 if 'uint64' in dn else None
            return Arr(size, w, 'array@%d' % e.lineno)
        if n in ('np.array', 'np.asarray', 'list', 'tuple', 'bytes') and args and isinstance(a, (list, tuple, bytes)):
            return [const(x) if isinstance(x, int) and not isinstance(x, V) else x for x in a]
        if n in ('np.frombuffer',) and args and isinstance(a, (list, tuple)):
            return list(a)
        if n == 'len':
            if isinstance(a, (list, tuple, str, bytes, dict)):
                return const(len(a))
            if isinstance(a, Arr):
                v = self.num(a.size) if a.size is not TOP else None
                return v if v is not None and is_const(v) else sym('len(%s)' % a.name)
            return sym('len(%s)' % self.text(a), None, None)
        if n in ('range',):
            vs = [self.num(x) for x in args]
            if any(v is None for v in vs):
                return TOP
            if len(vs) == 1:
                return Rng(const(0), vs[0], const(1))
            return Rng(vs[0], vs[1], vs[2] if len(vs) > 2 else const(1))
        if n == 'enumerate':
            if isinstance(a, Rng) and a.concrete() is not None:
                a = [const(k) for k in a.concrete()]
            if isinstance(a, (list, tuple)):
                return [(const(k), const(x) if isinstance(x, int) else x) for k, x in enumerate(a)]
            return TOP
        if n == 'reversed':
            if isinstance(a, Rng) and a.concrete() is not None:
                a = [const(k) for k in a.concrete()]
            return list(reversed(a)) if isinstance(a, (list, tuple)) else TOP
        if n == 'divmod' and len(args) == 2:
            return (self.binop(ast.FloorDiv(), args[0], args[1]), self.binop(ast.Mod(), args[0], args[1]))
        if n == 'zip':
            cols = []
            for x in args:
                if isinstance(x, Rng) and x.concrete() is not None:
                    x = [const(k) for k in x.concrete()]
                if not isinstance(x, (list, tuple)):
                    return TOP
                cols.append(x)
            return [tuple(r) for r in zip(*cols)]
        if n in ('struct.pack', 'struct.pack_into'):
            off = 0
            fmt, vals = a, args[1:]
            tgt = None
            if n == 'struct.pack_into':
                if len(args) < 3:
                    return TOP
                tgt, o, vals = args[1], self.num(args[2]), args[3:]
                if o is None or not is_const(o):
                    return TOP
                off = o.rng[0]
            bs = self.pack(fmt, vals)
            if bs is TOP:
                if isinstance(tgt, Arr):
                    for k in list(tgt.cells):
                        tgt.cells[k] = TOP
                    tgt.cells['?'] = TOP
                return TOP
            if tgt is None:
                return bs
            if isinstance(tgt, Arr):
                for k, x in enumerate(bs):
                    tgt.cells[lin_key({(): off + k})] = x
            return None
        if n in ('np.clip', 'np.round', 'np.rint') and args:
            return self.method(a, n[3:], args[1:], kw, e, st, f)
        if n in ('bool', 'abs', 'min', 'max', 'sum', 'float', 'np.float32', 'np.float64'):
            if n == 'bool':
                d = self.truth(a)
                if d is not None:
                    return const(int(d))
            if n == 'sum' and isinstance(a, (list, tuple)):
                r = const(0)
                for x in a:
                    r = self.binop(ast.Add(), r, x)
                return r
            v = self.fresh('%s(%s)' % (n, ','.join(self.text(x) for x in args)))
            if n in ('min', 'max'):
                vs = [self.num(x) if x is not TOP and not isinstance(x, (float, str)) else None for x in (list(a) if len(args) == 1 and isinstance(a, (list, tuple)) else args)]
                rs = [self.linrange(x) if x is not None else None for x in vs]
                if rs and all(r is not None for r in rs):
                    pick = min if n == 'min' else max
                    lo, hi = pick(r[0] for r in rs), pick(r[1] for r in rs)
                    if lo == hi:
                        return const(lo)
                    v = self.fresh(v.key, (lo, hi))
            if 'float' in n:
                v.kind, v.bits, v.lin = 'real', (None,) * N, None
            return v
        if n == 'print' or n.startswith('warnings.'):
            return None
        if not n.startswith('np.'):
            self.lost(args, kw)
        return Obj('%s(%s)' % (n, ','.join(self.text(x) for x in args)))

    def pack(self, fmt, vals):
        if not isinstance(fmt, str):
            return TOP
        order = '<'
        s = fmt
        if s and s[0] in '<>=!@':
            order = {'>': '>', '!': '>'}.get(s[0], '<')
            s = s[1:]
        out, k, num = [], 0, ''
        size = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'I': 4, 'i': 4, 'L': 4, 'l': 4, 'Q': 8, 'q': 8}
        for ch in s:
            if ch.isdigit():
                num += ch
                continue
            rep = int(num) if num else 1
            num = ''
            if ch == 'x':
                out += [const(0)] * rep
                continue
            if ch not in size:
                return TOP
            for _ in range(rep):
                if k >= len(vals):
                    return TOP
                b = self.bytes_of(vals[k], size[ch], order)
                if b is TOP:
                    return TOP
                out += b
                k += 1
        return out

    def bytes_of(self, v, n, order):
        v = self.num(v) if v is not TOP else None
        if v is None:
            return TOP
        bs = [from_bits(v.bits[8 * k:8 * k + 8]) for k in range(n)]
        return bs if order == '<' else bs[::-1]

    def method(self, b, name, args, kw, e, st, f):
        if isinstance(b, dict):
            if name == 'items':
                return [(k, v) for k, v in b.items()]
            if name == 'keys':
                return list(b)
            if name == 'values':
                return list(b.values())
            if name == 'update' and args and isinstance(args[0], dict):
                b.update(args[0])
                return None
            if name == 'get' and args:
                try:
                    return b.get(cval(args[0]), args[1] if len(args) > 1 else None)
                except Undecided:
                    return TOP
            return TOP
        if isinstance(b, list):
            if name == 'append' and args:
                b.append(args[0])
                return None
            if name == 'extend' and args and isinstance(args[0], (list, tuple)):
                b.extend(args[0])
                return None
            return TOP
        if name == 'to_bytes' and args:
            o = args[1] if len(args) > 1 else kw.get('byteorder')
            n = self.num(args[0])
            if n is not None and is_const(n) and o in ('big', 'little'):
                return self.bytes_of(b, n.rng[0], '>' if o == 'big' else '<')
            return TOP
        if isinstance(b, Arr):
            if name == 'copy':
                return b.copy()
            if name in ('tofile', 'tobytes', 'astype', 'ravel'):
                return b
            return self.lost([b], {})
        if name == 'astype' and isinstance(b, (Obj, V)) and args:
            # a real value made an integer before it is rounded, or a narrow one before it is brought into range
            t, d = self.text(b), self.text(args[0])
            if re.search(r'\.(real|imag)\b', t) and re.search(r'int(8|16|32|64|)$', d.strip("'")) and '.trunc' not in t and '.narrow' not in t:
                if '.round' not in t and '.rint' not in t and re.search(r'\.(real|imag)(\|\([^)]*\)\.clip)?$', t):
                    return sym(t + '.trunc', None, None)
                if d.strip("'").endswith('int8') and '.clip' not in t and re.search(r'\.(round|rint)$', t):
                    return sym(t + '.narrow', None, None)
        if name in ('copy', 'astype', 'ravel', 'item', 'squeeze', 'flatten', 'view'):
            return b
        if isinstance(b, Ite):
            return self.merge(b.c, self.method(b.a, name, args, kw, e, st, f), self.method(b.b, name, args, kw, e, st, f))
        if name in ('round', 'rint', 'clip'):
            t = self.text(b)
            rng = None
            if name == 'clip' and len(args) >= 2:
                lo, hi = self.num(args[0]), self.num(args[1])
                if lo is not None and hi is not None and is_const(lo) and is_const(hi):
                    rng = (lo.rng[0], hi.rng[0])
                t += '|%s' % (rng,)
            return sym('%s.%s' % (t, name), None, rng)
        if isinstance(b, Ext):
            return TOP
        v = self.fresh('%s.%s(%s)' % (self.text(b), name, ','.join(self.text(x) for x in args)))
        return v


class Cond(object):
    def __init__(self, key, known=None):
        self.key, self.known, self.parts = key, known, None


class Bound(object):
    def __init__(self, base, name):
        self.base, self.name = base, name


class Rng(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def concrete(self):
        if all(is_const(x) for x in (self.start, self.stop, self.step)):
            r = range(self.start.rng[0], self.stop.rng[0], self.step.rng[0])
            return list(r) if len(r) <= 600 else None
        return None
