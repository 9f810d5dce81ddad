"""
Entries of the file caches: a path-sensitive typestate analysis of what a cache entry holds (nothing,
part of a file, an unconverted file, the whole file) on every way of leaving the functions that fill the
cache, including every exception and an interrupt.  Worlds pair entry states with the outcomes of tests.
"""
import ast
from collections import namedtuple
from ..common import Finding
from . import cfg as C
from .pypos import path, params
from .pyscope import Scope, post

W = namedtuple('W', 'ent facts tags exc hand chunk')
W0 = W(frozenset(), frozenset(), frozenset(), None, frozenset(), None)
LIMIT = 3000
QUIET = ('LSL_LOGGER.', 'logger.', 'logging.', 'print', 'sys.stdout.', 'sys.stderr.', 'time.')
IOERR = {'IOError', 'OSError', 'EnvironmentError'}
SUB = {'RuntimeError': {'Exception'}, 'ValueError': {'Exception'}, 'TypeError': {'Exception'}, 'IOError': {'OSError', 'EnvironmentError', 'Exception'},
       'OSError': {'IOError', 'EnvironmentError', 'Exception'}, 'KeyError': {'LookupError', 'Exception'}, 'EOFError': {'Exception'}, 'Exception': set()}


class TooMany(Exception):
    pass


class BCFG(C.CFG):
    """control-flow graph in which only a bare `except` or BaseException stops every exception"""

    def stmt(self, s, ends, ctx):
        b = C.BROAD
        C.BROAD = {'BaseException'}
        try:
            return C.CFG.stmt(self, s, ends, ctx)
        finally:
            C.BROAD = b


class Unroll(ast.NodeTransformer):
    """loops over a short literal tuple become straight-line code"""

    def __init__(self, known=None):
        self.known = known or {}

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Name) and n.iter.id in self.known:
            n.iter = self.known[n.iter.id]
        if isinstance(n.iter, (ast.Tuple, ast.List)) and 0 < len(n.iter.elts) <= 4 and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(y, (ast.Break, ast.Continue)) for b in n.body for y in ast.walk(b)) \
                and all(isinstance(e, (ast.Name, ast.Constant, ast.BinOp)) for e in n.iter.elts) \
                and not any(isinstance(y, ast.Name) and y.id == n.target.id and isinstance(y.ctx, ast.Store) for b in n.body for y in ast.walk(b)):
            import copy
            out = []
            for e in n.iter.elts:
                class T(ast.NodeTransformer):
                    def visit_Name(self, y):
                        return copy.deepcopy(e) if y.id == n.target.id and isinstance(y.ctx, ast.Load) else y
                out += [T().visit(copy.deepcopy(b)) for b in n.body]
            return out
        return n


def mapset(fs, k, v):
    return frozenset(x for x in fs if x[0] != k) | ({(k, v)} if v is not None else frozenset())


def getm(fs, k):
    for a, b in fs:
        if a == k:
            return b
    return None


class Fill(object):
    def __init__(self, repo):
        self.repo = repo
        self.scope = Scope(repo)
        self.findings, self.und = [], []
        self.n = dict(fillers=0, entries=0, worlds=0, transfers=0)
        self.caches = self.find_caches()
        self.sums, self.trans, self.touch, self.unrolled = {}, {}, {}, {}

    # ------------------------------------------------------------ which objects are caches
    def find_caches(self):
        R = self.repo
        kls = set()
        for m in R.mods.values():
            for c in m.classes.values():
                ms = {k for b in R.mro(c)[0] for k in b.methods}
                if c.name in ('FileCache', 'MemoryCache') or ({'open', 'remove', 'getsize', '_cache_management'} <= ms):
                    kls.add(c.qual)
        self.kls = kls
        out, givers = set(), set()
        for _ in range(3):
            for m in R.mods.values():
                if not m.name.startswith('lsl'):
                    continue
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        r = R.dotted(m, n.value.func)
                        if r is not None and (r[0] == 'class' and r[1].qual in kls or r[0] == 'func' and (r[1].mod.name, r[1].qual) in givers):
                            for t in n.targets:
                                p = path(t)
                                if p:
                                    out.add((m.name, p))
                    if isinstance(n, ast.FunctionDef):
                        rs = [x.value for x in ast.walk(n) if isinstance(x, ast.Return)]
                        if rs and all(v is not None and (m.name, path(v)) in out for v in rs):
                            givers.add((m.name, n.name))
        return out

    def is_cache(self, f, e, cp=()):
        p = self.scope.canon(f)(e)
        if p is None:
            return False
        if p in cp:
            return True
        if (f.mod.name, p) in self.caches:
            return True
        r = self.repo.dotted(f.mod, e)
        return False

    # ------------------------------------------------------------ helpers
    def key(self, f, e):
        """text of an entry name, with single-assignment locals written out"""
        cnt, val = {}, {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                cnt[n.id] = cnt.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                val[n.targets[0].id] = n.value
        ps = set(params(f.node)[0])

        def go(x, d=0):
            class T(ast.NodeTransformer):
                def visit_Name(self, y):
                    if isinstance(y.ctx, ast.Load) and cnt.get(y.id) == 1 and y.id in val and y.id not in ps and d < 4 and isinstance(val[y.id], (ast.BinOp, ast.Name, ast.JoinedStr)):
                        return go(val[y.id], d + 1)
                    return y
            import copy
            return T().visit(copy.deepcopy(x))
        return ast.unparse(go(e))

    def literals(self, f):
        """locals that hold one literal tuple or list and nothing else"""
        cnt, val = {}, {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                cnt[n.id] = cnt.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Tuple, ast.List)):
                val[n.targets[0].id] = n.value
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ('append', 'extend', 'insert', 'remove', 'pop', 'clear'):
                cnt[n.func.value.id] = 9
        return {k: v for k, v in val.items() if cnt.get(k) == 1}

    def emptied(self, f, loop, cp):
        """the loop (or comprehension) removes the entry of every element it goes over"""
        if isinstance(loop, ast.For):
            if loop.orelse or any(isinstance(y, (ast.Break, ast.Continue, ast.Return)) for b in loop.body for y in ast.walk(b)):
                return False
            t, es = loop.target, [b.value for b in loop.body if isinstance(b, ast.Expr)]
        else:
            if len(loop.generators) != 1 or loop.generators[0].ifs:
                return False
            t, es = loop.generators[0].target, [loop.elt]
        return isinstance(t, ast.Name) and any(isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'remove' and self.is_cache(f, e.func.value, cp)
                                               and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == t.id for e in es)

    def callee(self, f, c):
        fn = c.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and f.cls is not None:
            return self.repo.method(f.cls, fn.attr)
        r = self.repo.dotted(f.mod, fn)
        if r is not None and r[0] == 'func':
            return r[1]
        if isinstance(fn, ast.Name):
            return None
        return None

    def bind(self, g, c, bound):
        ps = list(params(g.node)[0])
        if bound and ps and ps[0] in ('self', 'cls'):
            ps = ps[1:]
        m = dict(zip(ps, c.args))
        for k in c.keywords:
            if k.arg:
                m[k.arg] = k.value
        if g.node.args.vararg is not None:
            n = len(g.node.args.posonlyargs) + len(g.node.args.args) - (1 if bound and (g.node.args.posonlyargs + g.node.args.args)[:1] and (g.node.args.posonlyargs + g.node.args.args)[0].arg in ('self', 'cls') else 0)
            m[g.node.args.vararg.arg] = ast.Tuple(elts=list(c.args[n:]), ctx=ast.Load())
        return m

    def touches(self, f, cp=frozenset(), stk=()):
        """the function writes or removes cache entries itself or through functions of the package"""
        k = (id(f.node), cp)
        if k in self.touch:
            return self.touch[k]
        if k in stk:
            return False
        r = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('open', 'remove') and self.is_cache(f, n.func.value, cp):
                    if n.func.attr == 'remove' or self.mode(n)[:1] in 'wax':
                        r = True
                        break
                g = self.callee(f, n)
                if g is not None and g is not f and self.touches(g, self.cpar(f, n, g, cp), stk + (k,)):
                    r = True
                    break
        self.touch[k] = r
        return r

    def cpar(self, f, c, g, cp):
        return frozenset(p for p, a in self.bind(g, c, g.cls is not None).items() if self.is_cache(f, a, cp))

    def mode(self, c):
        m = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == 'mode'), None)
        return m.value if isinstance(m, ast.Constant) and isinstance(m.value, str) else ('r' if m is None else '?')

    # ------------------------------------------------------------ transfers
    def is_transfer(self, f, d=0):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if self.scope.ext(f, n.func) in ('urllib.request.urlopen', '?urlopen', 'urlopen'):
                    return True
                if d < 2:
                    g = self.callee(f, n)
                    if g is not None and g is not f and self.is_transfer(g, d + 1):
                        return True
        return False

    def transfer(self, g):
        """(position of the byte count or None, position of the size or None, may report bytes of an incomplete transfer)"""
        k = id(g.node)
        if k in self.trans:
            return self.trans[k]
        self.trans[k] = (None, None, False)
        self.n['transfers'] += 1
        try:
            R = Walk(self, g, frozenset(), True)
            rets = R.returns()
        except TooMany:
            self.und.append(g.qual)
            return self.trans[k]
        pc = ps = None
        short = False
        for tags, chunk in rets:
            for i, t in enumerate(tags):
                if t in ('acc', 'ok', 'short'):
                    pc = i
                elif t == 'size':
                    ps = i
        if pc is None:
            self.und.append(g.qual)
        else:
            for tags, chunk in rets:
                if len(tags) > pc and (tags[pc] in ('acc', 'short') or tags[pc] == 'ok' and chunk == 'lost'):
                    short = True
        self.trans[k] = (pc, ps, short)
        return self.trans[k]

    # ------------------------------------------------------------ summaries
    def summary(self, f, cp=frozenset()):
        """set of (outcome, frozenset of (entry, state)); outcomes T F N X"""
        k = (id(f.node), cp)
        if k in self.sums:
            return self.sums[k]
        self.sums[k] = {('N', frozenset()), ('T', frozenset()), ('F', frozenset())}
        try:
            w = Walk(self, f, cp, False)
            self.sums[k] = w.summary()
        except TooMany:
            self.und.append(f.qual)
        return self.sums[k]


class Walk(object):
    def __init__(self, F, f, cp, tr, keep=False):
        self.F, self.f, self.cp, self.tr, self.keep = F, f, cp, tr, keep
        if id(f.node) not in F.unrolled:
            import copy
            F.unrolled[id(f.node)] = (ast.fix_missing_locations(Unroll(F.literals(f)).visit(copy.deepcopy(f.node))), f.node)
        node = F.unrolled[id(f.node)][0]
        self.g = BCFG(node)
        self.canon = F.scope.canon(f)
        self.calm = set()          # statements of handlers and finally blocks
        self.often = {}
        for n in ast.walk(node):
            if isinstance(n, (ast.Compare, ast.Call, ast.Name, ast.Attribute)):
                at = self.norm(n)[0]
                self.often[at] = self.often.get(at, 0) + 1
        for n in ast.walk(node):
            bodies = []
            if isinstance(n, ast.ExceptHandler):
                bodies = n.body
            elif isinstance(n, ast.Try):
                bodies = n.finalbody
            for b in bodies:
                for y in ast.walk(b):
                    self.calm.add(id(y))
        self.conv = self.converted()
        self.src = {}
        self.IN = C.forward(self.g, frozenset([W0]), self.transfer, self.join, self.edge)
        F.n['worlds'] += sum(len(v) for v in self.IN.values())

    def join(self, a, b):
        r = a | b
        if len(r) > LIMIT:
            raise TooMany()
        return r

    def converted(self):
        """entries this function reads and then writes again"""
        rd, wr = set(), set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and self.F.is_cache(self.f, n.func.value, self.cp) and n.args:
                (wr if self.F.mode(n)[:1] in 'wax' else rd).add(self.F.key(self.f, n.args[0]))
        return rd & wr

    # ------------------------------------------------------------ tests
    def norm(self, t):
        """(atom, value when the test is true)"""
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, o = ast.unparse(t.left), ast.unparse(t.comparators[0]), t.ops[0]
            T = {ast.Lt: ('lt', a, b, True), ast.GtE: ('lt', a, b, False), ast.Gt: ('lt', b, a, True), ast.LtE: ('lt', b, a, False)}.get(type(o))
            if T:
                return T[:3], T[3]
            if isinstance(o, (ast.Eq, ast.Is)):
                return ('eq',) + tuple(sorted((a, b))), True
            if isinstance(o, (ast.NotEq, ast.IsNot)):
                return ('eq',) + tuple(sorted((a, b))), False
            if isinstance(o, ast.In):
                return ('in', a, b), True
            if isinstance(o, ast.NotIn):
                return ('in', a, b), False
        return ('truth', ast.unparse(t)), True

    def cond(self, t, w):
        """[(truth, world)]"""
        if isinstance(t, ast.Constant):
            return [(bool(t.value), w)]
        if isinstance(t, ast.NamedExpr):
            out = []
            for w2 in self.assign(t.target, t.value, w, []):
                out += self.cond(t.target, w2)
            return out
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(not v, x) for v, x in self.cond(t.operand, w)]
        if isinstance(t, ast.BoolOp):
            isand = isinstance(t.op, ast.And)
            out, live = [], [w]
            for v in t.values:
                nxt = []
                for x in live:
                    for b, y in self.cond(v, x):
                        if b != isand:
                            out.append((b, y))
                        else:
                            nxt.append(y)
                live = nxt
            return out + [(isand, y) for y in live]
        if isinstance(t, ast.Call):
            r = self.calls(t, w, [])
            if any(v in ('T', 'F') for _, v in r):
                out = []
                for y, v in r:
                    out += [(v == 'T', y)] if v in ('T', 'F') else [(True, y), (False, y)]
                return out
            if isinstance(t.func, ast.Name) and t.func.id == 'bool' and len(t.args) == 1:
                return self.cond(t.args[0], w)
        at, pos = self.norm(t)
        vals = self.possible(at, w, t)
        out = []
        for v in vals:
            out.append((v == pos, self.learn(at, v, w)))
        return out

    def num(self, s):
        try:
            return float(ast.literal_eval(s))
        except Exception:
            return None

    def possible(self, at, w, t):
        v = getm(w.facts, at)
        if v is not None:
            return [v]
        if at[0] == 'in':
            c = t.comparators[0]
            if self.F.is_cache(self.f, c, self.cp):
                st = getm(w.ent, self.F.key(self.f, t.left))
                if st is not None:
                    return [st != 'gone']
            return [True, False]
        if at[0] == 'truth':
            tg = getm(w.tags, at[1])
            if tg == 'zero':
                return [False]
            if tg in ('ok', 'short'):
                return [True]
            return [True, False]
        a, b = at[1], at[2]
        ta, tb = getm(w.tags, a), getm(w.tags, b)
        na, nb = self.num(a), self.num(b)
        if at[0] == 'lt':
            if ta == 'zero' and nb is not None:
                return [0 < nb]
            if tb == 'zero' and na is not None:
                return [na < 0]
            if tb in ('ok', 'short') and na == 0:
                return [True]
            if ta in ('ok', 'short') and nb is not None and nb <= 1:
                return [False]
            if ta in ('ok', 'short') and tb == 'size':
                return [ta == 'short']
            if tb in ('ok', 'short') and ta == 'size':
                return [False]
        if at[0] == 'eq':
            for x, y, tx, ty, ny in ((a, b, ta, tb, nb), (b, a, tb, ta, na)):
                if tx == 'zero' and ny is not None:
                    return [ny == 0]
                if tx in ('ok', 'short') and ny == 0:
                    return [False]
                if tx in ('ok', 'short') and ty == 'size':
                    return [tx == 'ok']
        return [True, False]

    def learn(self, at, v, w):
        if self.keep or self.often.get(at, 2) > 1:
            w = w._replace(facts=mapset(w.facts, at, v))
        if at[0] == 'in':
            try:
                c = ast.parse(at[2], mode='eval').body
                if self.F.is_cache(self.f, c, self.cp):
                    k = self.F.key(self.f, ast.parse(at[1], mode='eval').body)
                    if getm(w.ent, k) is None:
                        w = w._replace(ent=mapset(w.ent, k, 'old' if v else 'gone'), facts=mapset(w.facts, at, None))
            except SyntaxError:
                pass
            return w
        if at[0] == 'truth':
            n = at[1]
            if not v:
                w = self.ended(w, n)
            return w
        a, b = at[1], at[2]
        ta, tb = getm(w.tags, a), getm(w.tags, b)
        if at[0] == 'lt' and ta == 'acc' and tb == 'size':
            w = w._replace(tags=mapset(w.tags, a, 'short' if v else 'ok'))
        if at[0] == 'lt' and tb == 'acc' and ta == 'size' and v:
            w = w._replace(tags=mapset(w.tags, b, 'ok'))
        if at[0] == 'eq':
            for x, y, tx, ty in ((a, b, ta, tb), (b, a, tb, ta)):
                if tx == 'acc' and ty == 'size':
                    w = w._replace(tags=mapset(w.tags, x, 'ok' if v else 'short'))
                if v and y in ("b''", "''", '0', 'None'):
                    w = self.ended(w, x)
        if at[0] == 'lt' and v and self.num(b) == 1:
            w = self.ended(w, a)
        if at[0] == 'lt' and not v and self.num(a) == 0:
            w = self.ended(w, b)
        return w

    def ended(self, w, n):
        """the value n (or len(n)) is empty: the source is exhausted"""
        if n.startswith('len(') and n.endswith(')'):
            n = n[4:-1]
        if isinstance(w.chunk, tuple) and w.chunk[1] == n:
            w = w._replace(chunk='eof' if w.chunk[0] != 'lost' else 'lost')
        return w

    # ------------------------------------------------------------ assignments
    def kill(self, w, name):
        def mentions(s):
            try:
                return any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(ast.parse(s, mode='eval')))
            except SyntaxError:
                return name in s
        facts = frozenset(x for x in w.facts if not any(mentions(p) for p in x[0][1:]))
        tags = frozenset(x for x in w.tags if x[0] != name)
        ent = w.ent
        if any(mentions(k) for k, _ in ent if '#' not in k and k[:1] != '*'):
            ent = frozenset((k + '#' if '#' not in k and k[:1] != '*' and mentions(k) and k != name + '#' else k, s) for k, s in ent)
        return w._replace(facts=facts, tags=tags, ent=ent)

    def read_of(self, v):
        """sized / unsized read of a source: (is a read, reads everything)"""
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ('read', 'read1'):
            return True, (not v.args or (isinstance(v.args[0], ast.UnaryOp)) or (isinstance(v.args[0], ast.Constant) and v.args[0].value in (None, -1)))
        return False, False

    def assign(self, t, v, w, X):
        """worlds after t = v"""
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                ws = [w]
                for a, b in zip(t.elts, v.elts):
                    ws = [y for x in ws for y in self.assign(a, b, x, X)]
                return ws
            names = [e.id if isinstance(e, ast.Name) else None for e in t.elts]
            out = []
            for w2, val in self.calls(v, w, X):
                for n in names:
                    if n:
                        w2 = self.kill(w2, n)
                if isinstance(val, tuple) and val[0] == 'tr':
                    _, pc, ps, q = val
                    if pc is not None and pc < len(names) and names[pc]:
                        w2 = w2._replace(tags=mapset(w2.tags, names[pc], q))
                    if ps is not None and ps < len(names) and names[ps]:
                        w2 = w2._replace(tags=mapset(w2.tags, names[ps], 'size'))
                out.append(w2)
            return out
        if not isinstance(t, ast.Name):
            return [x for x, _ in self.calls(v, w, X)]
        n = t.id
        if isinstance(v, ast.Constant):
            w = self.kill(w, n)
            if isinstance(v.value, bool) or v.value is None:
                w = w._replace(facts=mapset(w.facts, ('truth', n), bool(v.value)))
            elif isinstance(v.value, (int, float)) and v.value == 0:
                w = w._replace(tags=mapset(w.tags, n, 'zero'))
            return [w]
        if isinstance(v, ast.Name):
            tg, fa = getm(w.tags, v.id), getm(w.facts, ('truth', v.id))
            ch = w.chunk
            w = self.kill(w, n)
            if tg:
                w = w._replace(tags=mapset(w.tags, n, tg))
            if fa is not None:
                w = w._replace(facts=mapset(w.facts, ('truth', n), fa))
            if isinstance(ch, tuple) and ch[1] == v.id:
                w = w._replace(chunk=(ch[0], n, ch[2]))
            return [w]
        if isinstance(v, (ast.Compare, ast.BoolOp)) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            out = []
            for w1, _ in self.calls(v, w, X):
                for b, w2 in self.cond(v, w1):
                    w2 = self.kill(w2, n)
                    out.append(w2._replace(facts=mapset(w2.facts, ('truth', n), b)))
            return out
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == n:
            return self.augment(n, v.right, w, X)
        if isinstance(v, ast.IfExp):
            out = []
            for b, w2 in self.cond(v.test, w):
                out += self.assign(t, v.body if b else v.orelse, w2, X)
            return out
        rd, whole = self.read_of(v)
        if rd and not any(self.on_handle(v.func.value, w)):
            ch = 'lost' if isinstance(w.chunk, tuple) and w.chunk[0] in ('pend', 'lost') or w.chunk == 'lost' else None
            X.append(w)
            w = self.kill(w, n)
            return [w._replace(chunk=(ch or 'pend', n, whole))]
        names = {y.id for y in ast.walk(v) if isinstance(y, ast.Name)}
        if isinstance(w.chunk, tuple) and w.chunk[1] in names and not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'len'):
            X.append(w)
            ch = w.chunk
            w = self.kill(w, n)
            return [w._replace(chunk=('lost' if self.lossy(v, ch[1]) else ch[0], n, ch[2]))]
        out = []
        size = any(isinstance(y, ast.Constant) and y.value in ('Content-Length', 'content-length', 'Content-length') for y in ast.walk(v))
        for w2, val in self.calls(v, w, X):
            w2 = self.kill(w2, n)
            if size:
                w2 = w2._replace(tags=mapset(w2.tags, n, 'size'))
            elif val in ('T', 'F'):
                w2 = w2._replace(facts=mapset(w2.facts, ('truth', n), val == 'T'))
            elif val == 'acc':
                w2 = w2._replace(tags=mapset(w2.tags, n, 'acc'))
            elif isinstance(val, tuple) and val[0] == 'tr' and val[1] is None:
                pass
            elif isinstance(val, tuple) and val[0] == 'tr':
                self.src[n] = val
                w2 = w2._replace(tags=mapset(w2.tags, n, ('trres',) + val[1:]))
            elif isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name):
                tg = getm(w.tags, v.value.id)
                if isinstance(tg, tuple) and isinstance(v.slice, ast.Constant):
                    i = v.slice.value
                    w2 = w2._replace(tags=mapset(w2.tags, n, tg[3] if i == tg[1] else 'size' if i == tg[2] else None))
            out.append(w2)
        return out

    def lossy(self, v, n):
        """v keeps only part of the data in n"""
        if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice) and (v.slice.lower is not None or v.slice.upper is not None):
            return path(v.value) == n
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            if v.func.attr in ('strip', 'lstrip', 'rstrip') and path(v.func.value) == n:
                return True
            if v.func.attr == 'decompress' and (len(v.args) > 1 or any(k.arg == 'max_length' for k in v.keywords)):
                return not any(isinstance(y, ast.Attribute) and y.attr in ('unconsumed_tail', 'needs_input') for y in ast.walk(self.f.node))
        return False

    def augment(self, n, v, w, X):
        tg = getm(w.tags, n)
        out = []
        for w2, _ in self.calls(v, w, X):
            w2 = self.kill(w2, n)
            if tg in ('zero', 'acc', 'ok', 'short'):
                w2 = w2._replace(tags=mapset(w2.tags, n, 'acc'))
            out.append(w2)
        return out

    def drop(self, w, e):
        """world after the entries of all elements of e were removed"""
        F, f = self.F, self.f
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'set', 'sorted', 'reversed') and len(e.args) == 1:
            e = e.args[0]
        if isinstance(e, ast.Name):
            e = F.literals(f).get(e.id, e)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    w = self.drop(w, x.value)
                else:
                    w = w._replace(ent=mapset(w.ent, F.key(f, x), 'gone'))
            return w
        va = f.node.args.vararg
        if isinstance(e, ast.Name) and (e.id in params(f.node)[0] or va is not None and va.arg == e.id):
            return w._replace(ent=mapset(w.ent, '*' + e.id, 'gone'))
        # cannot be told which entries: any of them may be gone
        return w._replace(ent=frozenset((k, 'gone') for k, _ in w.ent))

    def on_handle(self, e, w):
        p = path(e)
        return [k for h, k in w.hand if h == p]

    # ------------------------------------------------------------ calls
    def quiet(self, c):
        s = ast.unparse(c.func)
        return s.startswith(QUIET)

    def calls(self, e, w, X):
        """evaluate the calls of an expression: [(world, value of the outermost call)]"""
        F, f = self.F, self.f
        ws = [(w, None)]
        inner = set()
        for c in post(e):
            if isinstance(c, (ast.ListComp, ast.SetComp)) and F.emptied(f, c, self.cp):
                inner |= {id(y) for y in ast.walk(c.elt)}
        for c in post(e):
            if id(c) in inner:
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp)) and F.emptied(f, c, self.cp):
                ws = [(self.drop(x, c.generators[0].iter), v) for x, v in ws]
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom, ast.Await)):
                X.extend(x for x, _ in ws)
                continue
            if isinstance(c, ast.Subscript) and isinstance(c.ctx, ast.Load):
                X.extend(x for x, _ in ws)
                continue
            if not isinstance(c, ast.Call):
                continue
            nxt = []
            for x, _ in ws:
                nxt += self.call(c, x, X)
            ws = nxt
        if not isinstance(e, ast.Call):
            ws = [(x, None) for x, _ in ws]
        return ws

    def call(self, c, w, X):
        F, f = self.F, self.f
        fn = c.func
        if isinstance(fn, ast.Attribute) and F.is_cache(f, fn.value, self.cp):
            if fn.attr == 'remove' and c.args:
                k = F.key(f, c.args[0])
                return [(w._replace(ent=mapset(w.ent, k, 'gone')), None)]
            X.append(w)
            return [(w, None)]
        if isinstance(fn, ast.Attribute) and fn.attr in ('write', 'writelines') and (self.on_handle(fn.value, w) or self.tr):
            ch = w.chunk
            arg = c.args[0] if c.args else None
            X.append(w)
            if isinstance(ch, tuple) and arg is not None and any(isinstance(y, ast.Name) and y.id == ch[1] for y in ast.walk(arg)):
                w = w._replace(chunk='lost' if ch[0] == 'lost' else 'eof' if ch[2] else 'flow')
            else:
                rd, whole = self.read_of(arg)
                if rd:
                    w = w._replace(chunk='eof' if whole else 'flow')
            return [(w, None)]
        if self.quiet(c):
            return [(w, None)]
        g = F.callee(f, c)
        hs = [k for a in list(c.args) + [k.value for k in c.keywords] for k in self.on_handle(a, w)]
        if g is not None and g is not f:
            if hs and F.is_transfer(g):
                pc, ps, short = F.transfer(g)
                X.append(w)
                out = []
                for q in ('zero', 'ok') + (('short',) if short else ()):
                    w2 = w
                    for k in hs:
                        w2 = w2._replace(ent=mapset(w2.ent, k, 'good' if q == 'ok' else 'bad'))
                    out.append((w2, ('tr', pc, ps, q)))
                return out
            if F.touches(g, F.cpar(f, c, g, self.cp)):
                bnd = F.bind(g, c, g.cls is not None)
                out = []
                for o, ent in F.summary(g, F.cpar(f, c, g, self.cp)):
                    w2 = w
                    for k, s in ent:
                        if k.startswith('*'):
                            w2 = self.drop(w2, bnd.get(k[1:], ast.Constant(value=None)))
                            continue
                        w2 = w2._replace(ent=mapset(w2.ent, self.subst(k, bnd), s))
                    if o == 'X':
                        X.append(w2)
                    else:
                        out.append((w2, o))
                return out
            if self.tr or hs:
                X.append(w)
                if hs:
                    w2 = w
                    for k in hs:
                        w2 = w2._replace(ent=mapset(w2.ent, k, 'good'))
                    return [(w2, 'acc' if self.counts(g) else None)]
                return [(w, 'acc' if self.counts(g) else None)]
        elif g is f and F.touches(f, self.cp):
            # recursion: by induction the call ends as this function must
            bnd = F.bind(g, c, g.cls is not None)
            X.append(w)
            w2 = w
            for p, a in bnd.items():
                k = F.key(f, a)
                if getm(w2.ent, k) is not None:
                    w2 = w2._replace(ent=mapset(w2.ent, k, 'good'))
            return [(w2, None)]
        if hs:
            X.append(w)
            for k in hs:
                w = w._replace(ent=mapset(w.ent, k, 'filled'))
            return [(w, None)]
        if not F.scope.tame(f, c):
            X.append(w)
            ext = F.scope.ext(f, fn) or ''
            if ext.endswith('copyfileobj') or ext.endswith('retrbinary'):
                w = w._replace(chunk='eof')
        return [(w, None)]

    def counts(self, g):
        """the function returns a count of the bytes it moved"""
        for n in ast.walk(g.node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and 'len(' in ast.unparse(n.value):
                for r in ast.walk(g.node):
                    if isinstance(r, ast.Return) and isinstance(r.value, ast.Name) and r.value.id == n.target.id:
                        return True
        return False

    def subst(self, k, bnd):
        try:
            t = ast.parse(k.rstrip('#'), mode='eval').body
        except SyntaxError:
            return k

        class T(ast.NodeTransformer):
            def visit_Name(self, y):
                return bnd.get(y.id, y)
        loc = [y.id for y in ast.walk(t) if isinstance(y, ast.Name)]
        if not any(n in bnd for n in loc):
            return '<%s>' % k
        try:
            e = T().visit(t)
            return self.F.key(self.f, e) + ('#' if k.endswith('#') else '')
        except Exception:
            return '<%s>' % k

    # ------------------------------------------------------------ nodes
    def transfer(self, n, ws):
        if n.kind in ('entry', 'exit', 'rexit', 'finally', 'jump', 'def', 'case', 'join', 'pass', 'dispatch'):
            return ws, ws
        out, X = set(), []
        calm = id(n.ast) in self.calm
        for w in ws:
            if n.kind == 'handler':
                out.add(w._replace(exc=None))
                continue
            x = []
            for r in self.node(n, w, x):
                out.add(r)
            X += x
        if len(out) > LIMIT:
            raise TooMany()
        if n.kind == 'raise':
            return frozenset(), frozenset(X)
        if n.kind == 'with_exit':
            return frozenset(out), frozenset(out)
        if calm:
            return frozenset(out), frozenset()
        return frozenset(out), frozenset(w._replace(exc='any') if w.exc is None else w for w in X)

    def node(self, n, w, X):
        F, f, a = self.F, self.f, n.ast
        if n.kind == 'test':
            # outcomes are kept as facts, the edge picks
            out = []
            for b, w2 in self.condX(n.extra, w, X):
                out.append(w2._replace(exc=('br', b)))
            return out
        if n.kind == 'eval':
            return [x for x, _ in self.calls(a, w, X)]
        if n.kind == 'iter':
            X.append(w)
            w1 = w
            it = a.iter
            if isinstance(a.target, ast.Name):
                w1 = self.kill(w1, a.target.id)
                src = isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'iter' and len(it.args) == 2
                if src:
                    lost = isinstance(w.chunk, tuple)
                    w2 = w1._replace(chunk=('lost' if lost else 'pend', a.target.id, False))
                    return [w2._replace(exc=('br', True)), w._replace(chunk='lost' if lost or w.chunk == 'lost' else 'eof', exc=('br', False))]
            else:
                for y in ast.walk(a.target):
                    if isinstance(y, ast.Name):
                        w1 = self.kill(w1, y.id)
            out = w
            if isinstance(a, ast.For) and F.emptied(f, a, self.cp):
                out = self.drop(w, it)
            return [w1._replace(exc=('br', True)), out._replace(exc=('br', False))]
        if n.kind == 'with_enter':
            ws = [w]
            for it in a.items:
                c = it.context_expr
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'open' and F.is_cache(f, c.func.value, self.cp) and c.args:
                    k = F.key(f, c.args[0])
                    wr = F.mode(c)[:1] in 'wax'
                    nx = []
                    for x in ws:
                        X.append(x)
                        if wr:
                            F.n['entries'] += 1
                            X.append(x._replace(ent=mapset(x.ent, k, 'part')))
                            x = x._replace(ent=mapset(x.ent, k, 'part'), chunk=None)
                            if isinstance(it.optional_vars, ast.Name):
                                x = x._replace(hand=mapset(x.hand, it.optional_vars.id, k))
                        elif k in self.conv and getm(x.ent, k) != 'raw':
                            x = x._replace(ent=mapset(x.ent, k, 'raw'))
                        nx.append(x)
                    ws = nx
                else:
                    ws = [y for x in ws for y, _ in self.calls(c, x, X)]
                    X.extend(ws)
                    if isinstance(it.optional_vars, ast.Name):
                        ws = [self.kill(x, it.optional_vars.id) for x in ws]
            return ws
        if n.kind == 'with_exit':
            for it in a.items:
                c = it.context_expr
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'open' and F.is_cache(f, c.func.value, self.cp) and c.args and F.mode(c)[:1] in 'wax':
                    k = F.key(f, c.args[0])
                    st = getm(w.ent, k)
                    if isinstance(it.optional_vars, ast.Name):
                        w = w._replace(hand=mapset(w.hand, it.optional_vars.id, None))
                    if n.extra != 'exc':
                        if st in ('part', 'filled'):
                            w = w._replace(ent=mapset(w.ent, k, 'good' if st == 'filled' and not isinstance(w.chunk, tuple) or w.chunk in (None, 'eof') else 'bad'))
                    elif st == 'filled':
                        w = w._replace(ent=mapset(w.ent, k, 'part'))
            return [w]
        if n.kind == 'raise':
            ex = 'any'
            if isinstance(a, ast.Raise) and a.exc is not None:
                e = a.exc.func if isinstance(a.exc, ast.Call) else a.exc
                if isinstance(e, ast.Name) and e.id[:1].isupper():
                    ex = e.id
            X.append(w._replace(exc=ex))
            return []
        if n.kind == 'return':
            return [x for x, _ in self.calls(a.value, w, X)] if a.value is not None and not self.boolish(a.value) else self.ret(a, w, X)
        if isinstance(a, ast.Assign):
            ws = [w]
            for t in a.targets:
                ws = [y for x in ws for y in self.assign(t, a.value, x, X)]
            return ws
        if isinstance(a, ast.AnnAssign):
            return self.assign(a.target, a.value, w, X) if a.value is not None else [w]
        if isinstance(a, ast.AugAssign):
            if isinstance(a.target, ast.Name):
                return self.augment(a.target.id, a.value, w, X) if isinstance(a.op, ast.Add) else [self.kill(x, a.target.id) for x, _ in self.calls(a.value, w, X)]
            return [x for x, _ in self.calls(a.value, w, X)]
        if isinstance(a, ast.Assert):
            out = []
            for b, w2 in self.condX(a.test, w, X):
                (out if b else X).append(w2 if b else w2._replace(exc='AssertionError'))
            return out
        if isinstance(a, ast.Expr):
            return [x for x, _ in self.calls(a.value, w, X)]
        if isinstance(a, (ast.Import, ast.ImportFrom)):
            X.append(w)
            return [w]
        return [w]

    def condX(self, t, w, X):
        if any(isinstance(y, ast.Call) for y in ast.walk(t)):
            r = []
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                return [(not b, x) for b, x in self.condX(t.operand, w, X)]
            if isinstance(t, ast.Call):
                for w2, v in self.calls(t, w, X):
                    if v in ('T', 'F'):
                        r.append((v == 'T', w2))
                    else:
                        r += self.cond0(t, w2)
                return r
            if not isinstance(t, ast.NamedExpr):
                self.calls(t, w, X)
        return self.cond(t, w)

    def cond0(self, t, w):
        at, pos = self.norm(t)
        return [(v == pos, self.learn(at, v, w)) for v in self.possible(at, w, t)]

    def ret(self, a, w, X):
        if a.value is None:
            return [w._replace(facts=mapset(w.facts, ('ret', '_'), 'N'))]
        return [x._replace(facts=mapset(x.facts, ('ret', '_'), 'T' if b else 'F')) for b, x in self.condX(a.value, w, X)]

    def boolish(self, e, seen=()):
        """the value can only be a truth value"""
        if isinstance(e, ast.Constant):
            return isinstance(e.value, bool) or e.value is None
        if isinstance(e, (ast.Compare,)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        if isinstance(e, ast.BoolOp):
            return all(self.boolish(v, seen) for v in e.values)
        if isinstance(e, ast.IfExp):
            return self.boolish(e.body, seen) and self.boolish(e.orelse, seen)
        if isinstance(e, ast.Call):
            g = self.F.callee(self.f, e)
            if isinstance(e.func, ast.Name) and e.func.id == 'bool':
                return True
            if g is not None and g is not self.f and self.F.touches(g, self.F.cpar(self.f, e, g, self.cp)):
                return any(o in ('T', 'F') for o, _ in self.F.summary(g, self.F.cpar(self.f, e, g, self.cp)))
            return False
        if isinstance(e, ast.Name) and e.id not in seen:
            vs = []
            for n in ast.walk(self.f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            vs.append(n.value)
                        elif any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(t) if not isinstance(t, (ast.Attribute, ast.Subscript))):
                            return False
                elif isinstance(n, (ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == e.id:
                    return False
                elif isinstance(n, (ast.For,)) and any(isinstance(y, ast.Name) and y.id == e.id for y in ast.walk(n.target)):
                    return False
            return bool(vs) and e.id not in params(self.f.node)[0] and all(self.boolish(v, seen + (e.id,)) for v in vs)
        return False

    # ------------------------------------------------------------ edges
    def edge(self, n, l, ws):
        if n.kind in ('test', 'iter') and l in ('t', 'f', 'n'):
            r = frozenset(w._replace(exc=None) for w in ws if not isinstance(w.exc, tuple) or w.exc[1] == (l == 't'))
            return r or None
        if n.kind == 'dispatch':
            if l == 'x':
                hs = n.ast.handlers
                r = frozenset(w for w in ws if w.exc in (None, 'any') or not any(self.catches(h, w.exc) for h in hs))
                return r or None
            return ws
        if l == 'x':
            return ws or None
        return ws or None

    def catches(self, h, exc):
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            if t is None:
                return True
            s = ast.unparse(t).split('.')[-1]
            if s == exc or s == 'BaseException' or s in SUB.get(exc, {'Exception'} if exc[:1].isupper() and exc not in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit') else ()):
                return True
        return False

    # ------------------------------------------------------------ results
    def summary(self):
        out = set()
        for w in self.IN.get(self.g.exit.id, ()):
            o = getm(w.facts, ('ret', '_')) or 'N'
            out.add((o, w.ent))
        for w in self.IN.get(self.g.rexit.id, ()):
            out.add(('X', w.ent))
        return out

    def returns(self):
        out = set()
        for n in self.g.nodes:
            if n.kind == 'return' and n.ast.value is not None:
                v = n.ast.value
                es = v.elts if isinstance(v, (ast.Tuple, ast.List)) else [v]
                for w in self.IN.get(n.id, ()):
                    out.add((tuple((getm(w.tags, e.id) if isinstance(e, ast.Name) else 'zero' if isinstance(e, ast.Constant) and e.value == 0 else None) for e in es), w.chunk if isinstance(w.chunk, str) else None))
        return out


SAY = {'part': 'part of a file', 'bad': 'a file that was not received in full', 'raw': 'a file that was not converted', 'good': 'the file', 'filled': 'the file'}


def check(F):
    """findings for every function that fills a cache"""
    R = F.repo
    fs = [f for f in R.funcs('lsl') if F.touches(f) and not (f.cls is not None and f.cls.qual in F.kls)]
    called = set()
    for f in fs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                g = F.callee(f, n)
                if g is not None and g is not f:
                    called.add(id(g.node))
    bad = set()

    def below(f, seen):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                g = F.callee(f, n)
                if g is not None and id(g.node) not in seen:
                    seen.add(id(g.node))
                    if id(g.node) in bad or below(g, seen):
                        return True
        return False

    def direct(f):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'open' and F.is_cache(f, n.func.value) and F.mode(n)[:1] in 'wax' for n in ast.walk(f.node))
    for f in sorted(fs, key=lambda f: not direct(f)):
        S = F.summary(f)
        if below(f, {id(f.node)}):
            continue          # reported where the entry is written
        n0 = len(F.findings)
        fetcher = any(o in ('T', 'F') for o, _ in S)
        if not fetcher and id(f.node) in called:
            continue
        F.n['fillers'] += 1
        done = set()
        for o, ent in sorted(S, key=repr):
            for k, s in sorted(ent):
                what = None
                if o in ('X', 'N', 'T') and s in ('part', 'bad', 'raw', 'filled'):
                    what = {'X': 'an exception or interrupt leaves %s in the cache under %s', 'T': 'success is reported with %s in the cache under %s',
                            'N': 'returns with %s in the cache under %s'}[o]
                elif o == 'F' and s in ('part', 'bad', 'raw', 'filled', 'good'):
                    what = 'failure is reported with %s left in the cache under %s'
                if what and (o, k) not in done:
                    done.add((o, k))
                    F.findings.append(Finding('incomplete-entry', '%s [%s %s]' % (f.qual, {'X': 'exception', 'T': 'success', 'F': 'failure', 'N': 'return'}[o], k),
                                              '%s:%d' % (f.mod.rel, f.node.lineno), what % (SAY[s], k)))
        # a function that makes sure of an entry must not return normally without it
        if not fetcher:
            ps = set(params(f.node)[0])
            for o, ent in S:
                if o == 'N':
                    for k, s in ent:
                        if k in ps and s == 'gone' and f.name not in ('remove', 'clear', 'delete', 'purge') and ('N', 'gone') not in done and filled(F, f, k):
                            done.add(('N', 'gone'))
                            F.findings.append(Finding('missing-entry', f.qual, '%s:%d' % (f.mod.rel, f.node.lineno), 'returns normally with nothing in the cache under %s' % k))
        if len(F.findings) > n0:
            bad.add(id(f.node))
    return len(fs)


# ------------------------------------------------------------ the caches themselves
def fold(e, env):
    """value of a pure string test for a given mode, or None"""
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.Subscript):
        b = fold(e.value, env)
        i = e.slice
        if isinstance(b, str):
            if isinstance(i, ast.Constant) and isinstance(i.value, int):
                return b[i.value:i.value + 1] if i.value >= 0 else b[i.value:]
            if isinstance(i, ast.Slice):
                lo, hi = (fold(x, env) if x is not None else None for x in (i.lower, i.upper))
                return b[lo:hi]
        return None
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        v = [fold(x, env) for x in e.elts]
        return None if None in v else tuple(v)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('startswith', 'endswith', 'find', 'count', 'lower', 'strip'):
        b, a = fold(e.func.value, env), [fold(x, env) for x in e.args]
        if isinstance(b, str) and None not in a:
            return getattr(b, e.func.attr)(*a)
        return None
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b = fold(e.left, env), fold(e.comparators[0], env)
        if a is None or b is None:
            return None
        o = type(e.ops[0])
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b,
                ast.Lt: lambda: a < b, ast.Gt: lambda: a > b, ast.LtE: lambda: a <= b, ast.GtE: lambda: a >= b}.get(o, lambda: None)()
    return None


def consistent(w, par, mode):
    for at, v in w.facts:
        if at[0] == 'ret':
            continue
        try:
            if at[0] == 'truth':
                r = fold(ast.parse(at[1], mode='eval').body, {par: mode})
            else:
                op = {'lt': ast.Lt, 'eq': ast.Eq, 'in': ast.In}[at[0]]()
                r = fold(ast.Compare(left=ast.parse(at[1], mode='eval').body, ops=[op], comparators=[ast.parse(at[2], mode='eval').body]), {par: mode})
        except SyntaxError:
            continue
        if r is not None and bool(r) != v:
            return False
    return True


def check_caches(F):
    """opening an entry for reading never makes one"""
    n = 0
    for m in F.repo.mods.values():
        for c in m.classes.values():
            if c.qual not in F.kls:
                continue
            f = F.repo.method(c, 'open')
            if f is None or len(params(f.node)[0]) < 3:
                continue
            n += 1
            par = params(f.node)[0][2]
            try:
                w = Walk(F, f, frozenset(), False, True)
            except TooMany:
                F.und.append(f.qual)
                continue
            for node in w.g.nodes:
                a = node.ast
                if node.kind != 'stmt' or a is None:
                    continue
                made = None
                if isinstance(a, ast.Assign):
                    for t in a.targets:
                        if isinstance(t, ast.Subscript) and (path(t.value) or '').startswith('self.'):
                            made = ast.unparse(t)
                for y in ast.walk(a):
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('setdefault', 'update') and (path(y.func.value) or '').startswith('self.'):
                        made = ast.unparse(y)
                if made and any(consistent(x, par, mo) for x in w.IN.get(node.id, ()) for mo in ('r', 'rb')):
                    F.findings.append(Finding('read-creates-entry', '%s.open [%s]' % (c.qual, made), '%s:%d' % (m.rel, a.lineno), 'opening a missing file for reading stores an entry for it'))
    return n


def filled(F, f, k):
    """some path of f fills the entry"""
    return any(s in ('good',) for o, ent in F.summary(f) for k2, s in ent if k2 == k)
