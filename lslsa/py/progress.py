"""
Progress of loops: on every way around a loop that is not bounded by what it iterates over, something its
end depends on must move.  A structured path enumeration of one round of the loop, with constants,
emptiness of what was read, the displacement of the stream and the exceptions that were caught.
"""
import ast
from collections import namedtuple
from ..common import Finding
from .pypos import path, params
from .pyscope import Scope, post
from ..fspec import FORMATS

W = namedtuple('W', 'env items disp ev opq')
LIMIT = 3000
EMPTY = ('empty',)
FALSY = ('falsy',)
NOCHANGE = {'append', 'extend', 'update', 'add', 'appendleft', 'extendleft'}
PUREB = {'len', 'min', 'max', 'sum', 'abs', 'int', 'float', 'str', 'bytes', 'repr', 'bool', 'sorted', 'reversed', 'enumerate', 'zip', 'range', 'isinstance', 'hasattr', 'getattr', 'type', 'print', 'set', 'list', 'tuple',
         'dict', 'frozenset', 'round', 'any', 'all', 'id', 'map', 'filter', 'callable', 'complex', 'ord', 'chr', 'hex', 'divmod', 'pow', 'format', 'slice', 'hash', 'issubclass', 'bytearray', 'memoryview', 'vars', 'dir'}
PUREX = ('numpy.', 'math.', 'os.path.', 'time.sleep', 'warnings.', 'copy.', 're.', 'os.fstat', 'os.stat', 'os.getpid', 'struct.', 'logging.', 'datetime.', 'functools.reduce', 'scipy.', 'collections.', 'calendar.', 'glob.',
         'itertools.', 'operator.', 'string.', 'sys.getsizeof', 'shutil.disk', 'os.getenv', 'os.listdir', 'os.environ', 'time.strftime', 'time.gmtime')
PUREM = {'find', 'rfind', 'index', 'count', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'lower', 'upper', 'decode', 'encode', 'join', 'format', 'group', 'groups', 'start', 'end', 'span', 'search',
         'match', 'sub', 'finditer', 'findall', 'keys', 'values', 'items', 'copy', 'max', 'min', 'mean', 'std', 'sum', 'tell', 'fileno', 'isatty', 'ravel', 'reshape', 'astype', 'view', 'tolist', 'debug', 'info', 'warning', 'warn', 'error',
         'critical', 'exception', 'isoformat', 'total_seconds', 'to', 'is_set', 'exists', 'title', 'zfill', 'splitlines', 'partition', 'rpartition', 'transpose', 'dot', 'any', 'all', 'round', 'conj', 'flush', 'close', 'log', 'splitext', 'locked', 'compressed', 'compress', 'filled', 'nonzero', 'argmax', 'argmin', 'var', 'cumsum', 'prod', 'real', 'imag', 'squeeze', 'flatten'}
CLOCK = ('time.time', 'time.monotonic', 'time.perf_counter', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'time.process_time', 'time.time_ns', 'time.monotonic_ns')
TAKES = {'pop', 'popleft', 'popitem', 'remove', 'discard', 'clear', 'get_nowait', 'nextkey', '__next__'}
READM = {'read', 'readline', 'readlines', 'recv', 'readinto'}
SUPER = {'EOFError': ('BaseReaderError', 'Exception', 'BaseException', 'RuntimeError', 'IOError', 'OSError'), 'SyncError': ('BaseReaderError', 'Exception', 'BaseException', 'RuntimeError', 'IOError', 'OSError'),
         'AssertionError': ('Exception', 'BaseException'), 'ValueError': ('Exception', 'BaseException'), 'IndexError': ('LookupError', 'Exception', 'BaseException'), 'KeyError': ('LookupError', 'Exception', 'BaseException'),
         'StopIteration': ('Exception', 'BaseException')}


class TooMany(Exception):
    pass


def mset(s, k, v):
    r = frozenset(x for x in s if x[0] != k)
    return r if v is None else r | {(k, v)}


def getm(s, k):
    for x in s:
        if x[0] == k:
            return x[1]
    return None


def refs(e):
    """names and attribute paths an expression reads"""
    out = set()

    def go(n):
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(n, (ast.Name, ast.Attribute)):
            p = path(n)
            if p:
                out.add(p)
                return
        for c in ast.iter_child_nodes(n):
            go(c)
    if e is not None:
        go(e)
    return out


class Progress(object):
    def __init__(self, repo):
        self.repo = repo
        self.scope = Scope(repo)
        self.findings, self.und, self.keys = [], [], set()
        self.n = dict(loops=0, worlds=0, strong=0)
        self.pure_ = {}
        self.bynm = {}
        self.props = {f.name for f in repo.funcs('lsl') if f.cls is not None and any((path(d) or '').split('.')[-1] in ('property', 'cached_property', 'lru_cache') for d in f.node.decorator_list)}
        for f in repo.funcs('lsl'):
            if f.cls is not None:
                self.bynm.setdefault(f.name, []).append(f)

    def bad(self, rule, f, what, line, msg):
        x = Finding(rule, '%s [%s]' % (f.qual, what), '%s:%d' % (f.mod.rel, line), msg)
        if x.key not in self.keys:
            self.keys.add(x.key)
            self.findings.append(x)

    # ------------------------------------------------------------ functions of the repository without effects
    def pure(self, g, d=0):
        k = id(g.node)
        if k in self.pure_:
            return self.pure_[k]
        if d > 4:
            return False
        self.pure_[k] = True
        ok = True
        loc = {y.id for y in ast.walk(g.node) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        for n in ast.walk(g.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
                ok = False
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if not (isinstance(b, ast.Name) and b.id in loc):
                    ok = False
            elif isinstance(n, ast.Call):
                if not self.purecall(g, n, d + 1):
                    ok = False
            if not ok:
                break
        self.pure_[k] = ok
        return ok

    def purecall(self, g, c, d=0):
        fn = c.func
        nm = (self.scope.ext(g, fn) or '')
        if isinstance(fn, ast.Name) and (fn.id.endswith(('Error', 'Exception', 'Warning')) or fn.id == 'StopIteration'):
            return True
        if nm in PUREB or any(nm.startswith(p) if p.endswith('.') else nm == p or nm.startswith(p) for p in PUREX) or nm in CLOCK:
            return True
        h = self.callee(g, fn)
        if h is not None:
            return self.pure(h, d)
        if isinstance(fn, ast.Attribute):
            if fn.attr in PUREM:
                return True
            if fn.attr == 'get' and c.args and not any(k.arg in ('block', 'timeout') for k in c.keywords):
                return True           # dictionary or configuration look-up
            hs = self.bynm.get(fn.attr, [])
            b = fn.value
            if hs and fn.attr not in TAKES and fn.attr not in NOCHANGE and fn.attr not in READM:
                return all(self.pure(x, d) for x in hs)
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name) and fn.attr in NOCHANGE | TAKES and any(isinstance(y, ast.Name) and y.id == b.id and isinstance(y.ctx, ast.Store) for y in ast.walk(g.node)):
                return True
        return False

    def streams(self, g, d=0):
        """what a function does to streams and clocks: subset of {'read', 'seek', 'clock', 'saved'}"""
        k = ('st', id(g.node))
        if k in self.pure_:
            return self.pure_[k]
        self.pure_[k] = frozenset()
        out = set()

        def go(n, saved):
            if isinstance(n, (ast.With, ast.AsyncWith)) and any(isinstance(i.context_expr, ast.Call) and (path(i.context_expr.func) or '').split('.')[-1] == 'FilePositionSaver' for i in n.items):
                for b in n.body:
                    go(b, True)
                return
            if isinstance(n, ast.Call):
                a = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                nm = self.scope.ext(g, n.func) or ''
                h = self.callee(g, n.func) if d < 3 else None
                if nm in CLOCK:
                    out.add('clock')
                elif a == 'seek':
                    out.add('saved' if saved else 'seek')
                elif a in READM or a.lstrip('_').startswith('read'):
                    out.add('saved' if saved else 'read')
                elif h is not None:
                    x = self.streams(h, d + 1)
                    out.update(x if not saved else {'saved' if y in ('read', 'seek') else y for y in x})
            for c in ast.iter_child_nodes(n):
                go(c, saved)
        for b in g.node.body:
            go(b, False)
        self.pure_[k] = frozenset(out)
        return self.pure_[k]

    def rewinding(self, f, fn, d=0):
        h = self.callee(f, fn)
        if h is None or d > 3:
            return False
        calls = [n for n in ast.walk(h.node) if isinstance(n, ast.Call)]
        if any(isinstance(n.func, ast.Attribute) and n.func.attr in ('seek', 'truncate') for n in calls):
            return False
        rs = [n for n in calls if (path(n.func) or '').split('.')[-1].lstrip('_').lower().startswith('read')]
        if not rs:
            return False
        for n in rs:
            if self.callee(h, n.func) is not None:
                if not self.rewinding(h, n.func, d + 1):
                    return False
            elif FORMATS.get(h.mod.name.split('.')[-1], {}).get('after_sync_error') != 'start':
                return False
        return True

    def callee(self, f, fn):
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and f.cls is not None:
            return self.repo.method(f.cls, fn.attr)
        r = self.repo.dotted(f.mod, fn)
        return r[1] if r is not None and r[0] == 'func' else None


class Loop(object):
    """one loop of one function"""

    def __init__(self, P, f, loop, only=None):
        self.P, self.f, self.loop = P, f, loop
        self.only = only        # one way of the loop's condition to hold: it has to end as well
        self.local = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.local.setdefault(t.id, []).append(n.value)
        self.files = {i.optional_vars.id for n in ast.walk(f.node) if isinstance(n, ast.With) for i in n.items if isinstance(i.optional_vars, ast.Name)}
        self.exits()

    # ------------------------------------------------------------ what ends the loop
    def exits(self):
        L = self.loop
        tests = []
        if isinstance(L, ast.While):
            tests.append((L.test, None))
        self.leaves_by = set()

        def leaves(stmts, inner):
            for s in stmts:
                for n in self.walk(s, inner):
                    if isinstance(n[0], (ast.Return, ast.Raise)) or isinstance(n[0], ast.Break) and not n[1]:
                        return True
            return False

        def go(stmts, inner):
            for s in stmts:
                if isinstance(s, ast.If):
                    if leaves(s.body, inner) or leaves(s.orelse, inner):
                        tests.append((s.test, s))
                    go(s.body, inner)
                    go(s.orelse, inner)
                elif isinstance(s, (ast.For, ast.While)):
                    if isinstance(s, ast.While):
                        tests.append((s.test, s)) if leaves(s.body + s.orelse, True) else None
                    go(s.body, True)
                    go(s.orelse, inner)
                elif isinstance(s, ast.Try):
                    go(s.body, inner)
                    for h in s.handlers:
                        go(h.body, inner)
                    go(s.orelse, inner)
                    go(s.finalbody, inner)
                elif isinstance(s, ast.With):
                    go(s.body, inner)
                elif isinstance(s, ast.Assert):
                    tests.append((s.test, s))
        go(L.body, False)
        self.tests = [t for t, _ in tests]
        self.called = {t.id for n in ast.walk(L) if isinstance(n, ast.Assign) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and path(c.func.value) and c.func.attr not in READM and (c.func.attr not in PUREM or c.func.attr in self.P.bynm) and not (self.P.scope.ext(self.f, c.func) or '').startswith(PUREX) for c in ast.walk(n.value)) for t in n.targets if isinstance(t, ast.Name)}
        self.intests = {n for t in self.tests for n in ast.walk(t) if isinstance(n, ast.Call)}
        rel = set()
        for t in self.tests:
            rel |= refs(t)
        self.direct = set(rel)
        ch = True
        while ch:
            ch = False
            for n in ast.walk(L):
                tg, vals = [], []
                if isinstance(n, ast.Assign):
                    tg, vals = n.targets, [n.value]
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                    tg, vals = [n.target], [n.value]
                elif isinstance(n, ast.NamedExpr):
                    tg, vals = [n.target], [n.value]
                elif isinstance(n, ast.For) and n is not L:
                    tg, vals = [n.target], [n.iter]
                ts = set()
                for t in tg:
                    for y in ast.walk(t):
                        p = path(y) if isinstance(y, (ast.Name, ast.Attribute)) else None
                        if p and isinstance(getattr(y, 'ctx', None), ast.Store):
                            ts.add(p)
                if ts & rel:
                    for v in vals:
                        new = refs(v) - rel
                        if new:
                            rel |= new
                            ch = True
        self.rel = rel
        # what the time is measured against
        self.clockrefs = set()
        for n in ast.walk(L):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) or isinstance(n, ast.Compare):
                if any(isinstance(c, ast.Call) and (self.P.scope.ext(self.f, c.func) or '') in CLOCK for c in ast.walk(n)):
                    self.clockrefs |= refs(n) & rel
        # lengths and ordered comparisons in the tests
        self.lens, self.cmps = set(), []
        for t in self.tests:
            for n in ast.walk(t):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'sum') and len(n.args) == 1 and path(n.args[0]):
                    self.lens.add(path(n.args[0]))
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    if self.only is not None and t is L.test and not any(n is y for y in ast.walk(self.only)):
                        inner = {q for s in L.body for y in ast.walk(s) if isinstance(y, (ast.If, ast.While, ast.IfExp, ast.Assert)) for q in refs(y.test)}
                        if not (refs(n) & self.stored(L)) & inner:
                            continue
                    self.cmps.append((n.left, n.ops[0], n.comparators[0]))
                p = path(n) if isinstance(n, (ast.Name, ast.Attribute)) else None
                if p:
                    self.lens.add(p) if isinstance(t, (ast.Name, ast.Attribute)) or (isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)) else None
        self.assigned = set()
        for n in ast.walk(L):
            p = path(n) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) else None
            if p:
                self.assigned.add(p)

    @staticmethod
    def stored(L):
        return {path(n) for n in ast.walk(L) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and path(n)}

    def walk(self, s, inner):
        st = [(s, inner)]
        while st:
            n, i = st.pop()
            yield n, i
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            for c in ast.iter_child_nodes(n):
                st.append((c, i or (isinstance(n, (ast.For, ast.While)) and c in n.body)))

    # ------------------------------------------------------------ values
    def val(self, e, w):
        if isinstance(e, ast.Constant):
            return ('c', e.value)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return EMPTY if not e.elts else None
        if isinstance(e, ast.Dict):
            return EMPTY if not e.keys else None
        p = path(e)
        if p:
            return getm(w.env, p)
        if isinstance(e, ast.Call):
            nm = self.P.scope.ext(self.f, e.func) or ''
            if not e.args and not e.keywords and nm in ('list', 'dict', 'set', 'tuple', 'collections.deque', 'collections.OrderedDict', 'bytearray', 'bytes', 'str'):
                return EMPTY
            if nm == 'collections.deque' and e.args and self.val(e.args[0], w) == EMPTY:
                return EMPTY
            if nm == 'len' and e.args and self.val(e.args[0], w) == EMPTY:
                return ('c', 0)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('decode', 'encode', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'translate') and self.val(e.func.value, w) == EMPTY:
                return EMPTY
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('find', 'rfind') and self.val(e.func.value, w) == EMPTY:
                return ('c', -1)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('startswith', 'endswith') and self.val(e.func.value, w) == EMPTY and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value:
                return ('c', False)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('split', 'rsplit') and self.val(e.func.value, w) == EMPTY:
                return ('split', 1 if e.args and not (isinstance(e.args[0], ast.Constant) and e.args[0].value is None) else 0)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and self.val(e.value, w) == EMPTY:
            return EMPTY
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.val(e.operand, w)
            if v is not None and v[0] == 'c' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
                return ('c', -v[1])
        return None

    def truth(self, v):
        if v is None or v[0] == 'nz':
            return True if v is not None else None
        if v[0] == 'c':
            return bool(v[1])
        if v == EMPTY or v == FALSY:
            return False
        if v[0] == 'got':
            return None
        if v[0] == 'split':
            return v[1] > 0
        return None

    def cond(self, t, w):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(not b, x) for b, x in self.cond(t.operand, w)]
        if isinstance(t, ast.BoolOp):
            isand = isinstance(t.op, ast.And)
            out, live = [], [w]
            for v in t.values:
                nxt = []
                for x in live:
                    for b, y in self.cond(v, x):
                        (nxt if b == isand else out).append(y if b == isand else (b, y))
                live = nxt
            return out + [(isand, y) for y in live]
        if isinstance(t, ast.NamedExpr):
            out = []
            for k, x in self.ev(t, w, []):
                v = getm(x.env, t.target.id)
                b = self.truth(v)
                out += [(b, x)] if b is not None else [(True, x), (False, x._replace(env=mset(x.env, t.target.id, FALSY)))]
            return out
        b = None
        v = self.val(t, w)
        if v is not None:
            b = self.truth(v)
        elif isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, c, o = self.val(t.left, w), self.val(t.comparators[0], w), t.ops[0]
            if a is not None and a[0] == 'got' and c == ('c', None) and isinstance(o, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                none = isinstance(o, (ast.Is, ast.Eq))
                q = path(t.left)
                return [(none, w._replace(items=(w.items - {('opaque', a[1]), ('weak', q)}) | ({('const', q, 'None')} if ('weak', q) in w.items else set()), env=mset(w.env, q, ('c', None)))), (not none, w._replace(env=mset(w.env, q, ('nz', ''))))]
            if a is not None and a[0] == 'nz' and c == ('c', None):
                b = {ast.Is: False, ast.IsNot: True, ast.Eq: False, ast.NotEq: True}.get(type(o))
            elif a is not None and c is not None and a[0] == 'c' and c[0] == 'c':
                try:
                    b = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Is: lambda x, y: x is y or x == y, ast.IsNot: lambda x, y: not (x is y or x == y), ast.Lt: lambda x, y: x < y,
                         ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}.get(type(o), lambda x, y: None)(a[1], c[1])
                except TypeError:
                    b = None
            elif EMPTY in (a, c):
                z = c if a == EMPTY else a
                if z is not None and z[0] == 'c' and isinstance(o, (ast.Eq, ast.NotEq)):
                    b = (z[1] in ('', b'')) == isinstance(o, ast.Eq)
                elif z == EMPTY and isinstance(o, (ast.Eq, ast.NotEq)):
                    b = isinstance(o, ast.Eq)
                elif z == ('c', None):
                    b = isinstance(o, (ast.IsNot, ast.NotEq))
                elif a == EMPTY and isinstance(o, (ast.In, ast.NotIn)) is False:
                    b = None
        if b is not None:
            return [(b, w)]
        p = path(t)
        if any(isinstance(n, ast.Attribute) and n.attr in self.P.props and not isinstance(n.value, ast.Name) or isinstance(n, ast.Name) and n.id in self.called for n in ast.walk(t)) or any(isinstance(n, ast.Call) and (not self.P.purecall(self.f, n) or isinstance(n.func, ast.Attribute) and n.func.attr in ('is_set', 'exists', 'locked', 'isfile', 'isdir', 'get', 'full', 'empty', 'qsize', 'is_alive', 'poll')) for n in ast.walk(t)):
            w = w._replace(opq=True)
        if p and isinstance(t, ast.Name):
            return [(True, w._replace(env=mset(w.env, p, ('nz', '')))), (False, w._replace(env=mset(w.env, p, FALSY)))]
        return [(True, w), (False, w)]

    # ------------------------------------------------------------ streams
    def is_read(self, c):
        """a call that takes a frame or bytes from a stream: (kind, stream)"""
        fn = c.func
        if isinstance(fn, ast.Attribute) and fn.attr in READM and not (isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls')) and path(fn.value):
            return 'bytes', path(fn.value)
        cands = [fn]
        if isinstance(fn, ast.Name) and fn.id in self.local:
            cands = []
            for v in self.local[fn.id]:
                cands += [v.body, v.orelse] if isinstance(v, ast.IfExp) else [v]
        nm = [(path(x) or '').split('.')[-1].lstrip('_') for x in cands]
        if nm and all(x.startswith('read') for x in nm):
            if c.args and path(c.args[0]):
                return 'frame', path(c.args[0])
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls'):
                return 'frame', 'self'
            if isinstance(fn, ast.Attribute):
                return 'frame', path(fn.value) or '?'
        return None

    def rewinds(self, c):
        """the reader puts the position back to where it was when the synchronisation word is wrong"""
        fn = c.func
        cands = [fn]
        if isinstance(fn, ast.Name) and fn.id in self.local:
            cands = [x for v in self.local[fn.id] for x in ([v.body, v.orelse] if isinstance(v, ast.IfExp) else [v])]
        return bool(cands) and all(self.P.rewinding(self.f, x) for x in cands)

    def lin(self, e, w, d=0):
        """(a, b): a frame sizes plus b, or None"""
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
            return (0, e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v = self.lin(e.operand, w, d)
            return None if v is None else (-v[0], -v[1]) if isinstance(e.op, ast.USub) else v
        if isinstance(e, ast.BinOp):
            a, b = self.lin(e.left, w, d), self.lin(e.right, w, d)
            if a is None or b is None:
                return None
            if isinstance(e.op, ast.Add):
                return (a[0] + b[0], a[1] + b[1])
            if isinstance(e.op, ast.Sub):
                return (a[0] - b[0], a[1] - b[1])
            if isinstance(e.op, ast.Mult) and (a[0] == 0 or b[0] == 0):
                k, v = (a[1], b) if a[0] == 0 else (b[1], a)
                return (k * v[0], k * v[1])
            return None
        p = path(e)
        if p and p.split('.')[-1].upper() in ('FRAME_SIZE', 'FRAMESIZE'):
            return (1, 0)
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and str(e.slice.value).upper() == 'FRAME_SIZE':
            return (1, 0)
        if isinstance(e, ast.Call) and (path(e.func) or '').split('.')[-1] == 'get_frame_size':
            return (1, 0)
        if p:
            v = getm(w.env, p)
            if v is not None and v[0] == 'c' and isinstance(v[1], int):
                return (0, v[1])
            vs = self.local.get(p, [])
            if len(vs) == 1 and d < 4:
                return self.lin(vs[0], w, d + 1)
        return None

    def place(self, e, w):
        """an absolute position relative to where the round began"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'tell':
            return w.disp
        v = getm(w.env, path(e) or '#')
        if v is not None and v[0] == 'mark':
            return v[1]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'max' and e.args:
            return self.place(e.args[0], w)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
            a, b = self.place(e.left, w), self.lin(e.right, w)
            if a is None and isinstance(e.op, ast.Add):
                a, b = self.place(e.right, w), self.lin(e.left, w)
            if a is not None and b is not None:
                k = 1 if isinstance(e.op, ast.Add) else -1
                return (a[0] + k * b[0], a[1] + k * b[1])
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, w, X):
        """evaluate: list of ('n', world); exceptions are appended to X as (kind, world)"""
        ws = [w]
        if e is None:
            return [('n', w)]
        for c in post(e):
            if isinstance(c, (ast.Yield, ast.YieldFrom, ast.Await)):
                ws = [x._replace(items=x.items | {('strong', 'yield')}) for x in ws]
                for x in ws:
                    X.append(('any', x))
            elif isinstance(c, ast.NamedExpr) and isinstance(c.target, ast.Name):
                ws = [y for x in ws for y in self.assign([c.target], c.value, x, X, evaluated=True)]
            elif isinstance(c, ast.Subscript) and isinstance(c.ctx, ast.Load):
                for x in list(ws):
                    if self.val(c.value, x) == EMPTY and not isinstance(c.slice, ast.Slice):
                        X.append(('IndexError', x))
                        ws.remove(x)
                    else:
                        X.append(('soft', x))
            elif isinstance(c, ast.BinOp):
                for x in ws:
                    X.append(('soft', x))
            elif isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Load):
                for x in ws:
                    X.append(('soft', x))
            elif isinstance(c, ast.Call):
                nxt = []
                for x in ws:
                    nxt += self.call(c, x, X)
                ws = nxt
            if len(ws) > LIMIT:
                raise TooMany()
        return [('n', x) for x in ws]

    def add(self, w, *items):
        return w._replace(items=w.items | set(items))

    def call(self, c, w, X):
        fn = c.func
        nm = self.P.scope.ext(self.f, fn) or ''
        r = self.is_read(c)
        if r is not None:
            k, s = r
            size = (1, 0) if k == 'frame' else (0, 1)
            d = w.disp
            moved = w._replace(disp=None if d is None else (d[0] + size[0], d[1] + size[1]))
            ended = w._replace(ev=w.ev | {('end of data', s)})
            if k == 'frame':
                X.append(('EOFError', ended))
                lost = w if self.rewinds(c) else moved
                X.append(('SyncError', lost._replace(ev=lost.ev | {('lost synchronisation', s)})))
                X.append(('any', self.add(moved, ('stream', s))))
                return [self.add(moved, ('stream', s))]
            X.append(('any', w))
            if fn.attr == 'readinto':
                return [self.add(moved, ('stream', s), ('weak', 'readinto')), ended._replace(env=mset(ended.env, '@read', EMPTY))]
            return [self.add(moved, ('stream', s))._replace(env=mset(w.env, '@read', ('nz', ''))), ended._replace(env=mset(ended.env, '@read', EMPTY))]
        if isinstance(fn, ast.Attribute) and fn.attr == 'seek' and c.args:
            wh = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == 'whence'), None)
            s = path(fn.value) or '?'
            rel = (isinstance(wh, ast.Constant) and wh.value == 1) or (path(wh) or '').endswith('SEEK_CUR') if wh is not None else False
            X.append(('any', w))
            if rel:
                v = self.lin(c.args[0], w)
                d = w.disp
                return [w._replace(disp=None if v is None or d is None else (d[0] + v[0], d[1] + v[1]), items=w.items | {('seek', s)})]
            v = self.place(c.args[0], w)
            if v is not None:
                return [w._replace(disp=v, items=w.items | {('seek', s)})]
            return [w._replace(disp=None, items=w.items | {('seek', s)})]
        if nm in CLOCK:
            return [self.add(w, ('strong', 'clock') if c in self.intests else ('clock', ''))]
        h = self.P.callee(self.f, fn)
        if h is not None:
            st = self.P.streams(h)
            if 'clock' in st and c in self.intests:
                X.append(('any', w))
                return [self.add(w, ('strong', 'clock'))]
            if 'seek' in st:
                X.append(('any', w))
                for k in ('EOFError', 'SyncError'):
                    X.append((k, self.add(w, ('opaque', ast.unparse(fn)[:50]))))
                return [self.add(w, ('opaque', ast.unparse(fn)[:50]))]
            if 'read' in st:
                d = w.disp
                moved = w._replace(disp=None if d is None else (d[0] + 1, d[1]))
                X.append(('EOFError', w._replace(ev=w.ev | {('end of data', h.name)})))
                lost = w if self.P.rewinding(self.f, fn) else moved
                X.append(('SyncError', lost._replace(ev=lost.ev | {('lost synchronisation', h.name)})))
                X.append(('any', self.add(moved, ('stream', h.name))))
                return [self.add(moved, ('stream', h.name))]
            if st == {'saved'}:
                X.append(('any', w))
                return [w]
        if nm == 'next' and c.args:
            X.append(('StopIteration', w._replace(ev=w.ev | {('end of data', ast.unparse(c.args[0]))})))
            return [self.add(w, ('strong', 'next(%s)' % ast.unparse(c.args[0])))]
        if nm in ('int', 'float') and c.args and self.val(c.args[0], w) == EMPTY:
            X.append(('ValueError', w))
            return []
        if isinstance(fn, ast.Attribute):
            b = path(fn.value)
            if fn.attr in TAKES or (fn.attr == 'get' and (not c.args or any(k.arg in ('block', 'timeout') for k in c.keywords))):
                X.append(('IndexError', w))
                X.append(('any', w))
                if b and b in self.lens | self.rel or fn.attr not in ('clear', 'discard'):
                    w = self.add(w, ('strong', 'takes from %s' % b) if fn.attr != 'get' else ('opaque', ast.unparse(c)[:50]))
                return [w._replace(env=mset(w.env, b, None)) if b else w]
            if fn.attr in NOCHANGE:
                if c.args and all(self.val(a, w) == EMPTY for a in c.args) and fn.attr != 'add' and not (b and getm(w.env, b) == EMPTY and fn.attr == 'append'):
                    return [w]            # handing over nothing
                X.append(('any', w))
                w = w._replace(env=mset(w.env, b, None)) if b else w
                if b and b in self.lens and not self.bounded(b):
                    return [self.add(w, ('strong', 'grows %s' % b))]
                if b and b in self.rel:
                    return [self.add(w, ('weak', b))]
                if b and (b in self.local or b.split('.')[0] in self.local):
                    return [w]
                return [self.add(w, ('opaque', '%s.%s' % (b, fn.attr)))]
        X.append(('any', w))
        if self.P.purecall(self.f, c):
            return [w]
        if any(nm.startswith(p) for p in ('os.', 'shutil.')):
            return [self.add(w, ('weak', nm))]
        if isinstance(fn, ast.Attribute) and fn.attr in ('write', 'writelines', 'put', 'notify', 'set', 'release', 'acquire', 'truncate', 'send', 'sendall', 'sort', 'reverse', 'inc', 'compute', 'flock') or nm.startswith('fcntl.'):
            if path(fn.value) in self.rel:
                return [self.add(w, ('weak', path(fn.value)))]
            return [w]
        return [self.add(w, ('opaque', ast.unparse(fn)[:50]))]

    def bounded(self, b):
        for v in self.local.get(b, []):
            if isinstance(v, ast.Call) and (self.P.scope.ext(self.f, v.func) or '').endswith('deque') and (len(v.args) > 1 or any(k.arg == 'maxlen' for k in v.keywords)):
                return True
        return False

    # ------------------------------------------------------------ assignments
    def step_of(self, t, v):
        """('+'|'*', constant) when v is t plus / times a constant"""
        if isinstance(v, ast.BinOp):
            l, r = v.left, v.right
            p = path(t)
            if isinstance(v.op, (ast.Add, ast.Sub)):
                if path(l) == p:
                    k = self.num(r)
                    return None if k is None else ('+', k if isinstance(v.op, ast.Add) else -k)
                if path(r) == p and isinstance(v.op, ast.Add):
                    k = self.num(l)
                    return None if k is None else ('+', k)
            if isinstance(v.op, (ast.Div, ast.FloorDiv, ast.Mult, ast.RShift)) and path(l) == p:
                k = self.num(r)
                if k is not None and k > 0:
                    return ('*', k if isinstance(v.op, ast.Mult) else 1.0 / k if not isinstance(v.op, ast.RShift) else 2.0 ** -k)
        return None

    def num(self, e):
        try:
            v = ast.literal_eval(e)
            return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None
        except Exception:
            pass
        if isinstance(e, ast.BinOp):
            a, b = self.num(e.left), self.num(e.right)
            if a is not None and b is not None:
                try:
                    return {ast.Add: a + b, ast.Sub: a - b, ast.Mult: a * b}.get(type(e.op)) if not isinstance(e.op, ast.Div) else a / b
                except ZeroDivisionError:
                    return None
        if isinstance(e, ast.Name) and e.id not in self.assigned:
            vs = self.local.get(e.id, [])
            if len(vs) == 1:
                return self.num(vs[0])
        return None

    def assign(self, targets, value, w, X, evaluated=False, aug=None):
        if not evaluated:
            ws = [x for _, x in self.ev(value, w, X)]
        else:
            ws = [w]
        out = []
        for x in ws:
            v = self.val(value, x) if value is not None and aug is None else None
            isread = isinstance(value, ast.Call) and self.is_read(value) is not None
            if isread and self.is_read(value)[0] == 'bytes' and value.func.attr != 'readinto':
                v = getm(x.env, '@read')
            pl = self.place(value, x) if value is not None and aug is None else None
            if pl is not None:
                v = ('mark', pl)
            if v is None and aug is None and isinstance(value, ast.Call) and isinstance(value.func, ast.Attribute) and value.func.attr == 'get' and not value.args and ('opaque', ast.unparse(value)[:50]) in x.items:
                v = ('got', ast.unparse(value)[:50])
            x = x._replace(env=mset(x.env, '@read', None))
            ok = True
            for t in targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    if v is not None and v[0] == 'split' and not any(isinstance(e, ast.Starred) for e in t.elts) and len(t.elts) != v[1]:
                        X.append(('ValueError', x))
                        ok = False
                        break
                    X.append(('soft', x))
                    for i, e in enumerate(t.elts):
                        x = self.bind(e, None, x, value, None, X)
                else:
                    x = self.bind(t, v, x, value, aug, X)
            if ok:
                out.append(x)
        return out

    def bind(self, t, v, x, value, aug, X):
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Subscript):
            b = path(t.value)
            X.append(('any', x))
            if b:
                x = x._replace(env=mset(x.env, b, None))
                if b in self.rel:
                    x = self.add(x, ('weak', b))
            return x
        p = path(t)
        if not p:
            return x
        if isinstance(value, ast.BinOp) and isinstance(value.op, (ast.Add, ast.Sub)) and path(value.left) == p and self.val(value.right, x) in (('c', 0), EMPTY):
            return x
        if isinstance(value, ast.Call) and len(value.args) == 1 and path(value.args[0]) == p and (self.P.scope.ext(self.f, value.func) or '') in ('list', 'tuple', 'sorted', 'copy.copy', 'copy.deepcopy', 'int', 'float', 'str'):
            return x
        old = getm(x.env, p)
        x = x._replace(env=mset(x.env, p, v))
        for q, _ in list(x.env):
            if q.startswith(p + '.'):
                x = x._replace(env=mset(x.env, q, None))
        if p not in self.rel:
            return x
        # what kind of change
        st = aug if aug is not None else self.step_of(t, value) if value is not None else None
        if st is not None:
            return self.add(x, ('step', p, st[0], st[1]))
        if v is not None and v[0] in ('c',):
            if old == v:
                return x
            return self.add(x, ('const', p, repr(v[1])))
        if v == EMPTY:
            return x if old == v else self.add(x, ('const', p, 'nothing'))
        if v is not None and v[0] == 'mark':
            return x
        if value is not None:
            if isinstance(value, ast.Subscript) and path(value.value) == p and isinstance(value.slice, ast.Slice):
                return self.add(x, ('strong', 'shortens %s' % p))
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('rsplit', 'split', 'partition', 'rpartition') and path(n.func.value) == p for n in ast.walk(value)):
                return self.add(x, ('strong', 'shortens %s' % p))
            if any(isinstance(n, ast.Call) and (self.P.scope.ext(self.f, n.func) or '').lstrip('?') in ('os.path.dirname', 'os.path.split') and n.args and path(n.args[0]) == p for n in ast.walk(value)):
                return self.add(x, ('strong', 'shortens %s' % p))
            if p in self.clockrefs and any(isinstance(n, ast.Call) and (self.P.scope.ext(self.f, n.func) or '') in CLOCK for n in ast.walk(value)):
                return self.add(x, ('reset', p))
            if any(isinstance(n, ast.Call) and (self.P.scope.ext(self.f, n.func) or '') in CLOCK for n in ast.walk(value)):
                return self.add(x, ('strong', 'clock %s' % p))
            if any(('strong', 'clock %s' % q) in x.items for q in refs(value)):
                return self.add(x, ('strong', 'clock %s' % p))
            # a value that does not change between rounds
            if not any(isinstance(n, ast.Call) for n in ast.walk(value)) and not refs(value) & self.assigned and not any(q.split('.')[0] in self.assigned for q in refs(value)):
                return x
            # a function of a state that has not changed in this round
            if not any(i[0] in ('weak', 'step', 'const', 'opaque', 'strong', 'stream', 'seek', 'clock') for i in x.items) and aug is None and p not in refs(value) and \
                    all(self.P.purecall(self.f, n) and not (self.P.scope.ext(self.f, n.func) or '').startswith(('os.', 'shutil.', 'glob.', 'time.')) and 'random' not in (self.P.scope.ext(self.f, n.func) or '') for n in ast.walk(value) if isinstance(n, ast.Call)):
                return x
        return self.add(x, ('weak', p))

    # ------------------------------------------------------------ statements
    def seq(self, stmts, ws):
        out = {'n': set(ws), 'brk': set(), 'cont': set(), 'ret': set(), 'exc': set()}
        for s in stmts:
            cur, out['n'] = out['n'], set()
            for w in cur:
                r = self.stmt(s, w)
                for k in out:
                    out[k] |= set(r.get(k, ()))
            if len(out['n']) > LIMIT or len(out['exc']) > 4 * LIMIT:
                raise TooMany()
            if not out['n']:
                break
        return out

    def stmt(self, s, w):
        X = []
        R = {'n': [], 'brk': [], 'cont': [], 'ret': [], 'exc': []}
        if isinstance(s, ast.Expr):
            R['n'] = [x._replace(env=mset(x.env, '@read', None)) for _, x in self.ev(s.value, w, X)]
        elif isinstance(s, ast.Assign):
            R['n'] = self.assign(s.targets, s.value, w, X)
        elif isinstance(s, ast.AnnAssign):
            R['n'] = self.assign([s.target], s.value, w, X) if s.value is not None else [w]
        elif isinstance(s, ast.AugAssign):
            v = ast.BinOp(left=s.target, op=s.op, right=s.value)
            ws = [x for _, x in self.ev(s.value, w, X)]
            for x in ws:
                st = self.step_of(s.target, v)
                R['n'] += self.assign([s.target], v, x, X, evaluated=True, aug=st)
        elif isinstance(s, ast.If):
            for _, x in self.ev(s.test, w, X):
                b = None
                for b, y in self.cond(s.test, x):
                    r = self.seq(s.body if b else s.orelse, [y])
                    for k in R:
                        R[k] += list(r[k])
        elif isinstance(s, ast.While):
            for _, x in self.ev(s.test, w, X):
                for b, y in self.cond(s.test, x):
                    if not b:
                        r = self.seq(s.orelse, [y])
                        for k in R:
                            R[k] += list(r[k])
                    else:
                        r = self.seq(s.body, [y])
                        R['n'] += [z for z in list(r['n']) + list(r['cont']) + list(r['brk'])]
                        R['ret'] += list(r['ret'])
                        R['exc'] += list(r['exc'])
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            for _, x in self.ev(s.iter, w, X):
                one = x
                for y in ast.walk(s.target):
                    if isinstance(y, ast.Name):
                        one = self.bind(y, None, one, None, None, X)
                it = path(s.iter)
                if it and it in self.files:
                    one = self.add(one, ('stream', it))
                    x0 = x._replace(ev=x.ev | {('end of data', it)})
                else:
                    x0 = x
                known = None
                if isinstance(s.iter, ast.Call) and (self.P.scope.ext(self.f, s.iter.func) or '') == 'range':
                    known = True          # at least once: counts are positive
                if self.val(s.iter, x) == EMPTY:
                    one = None
                if isinstance(s.iter, (ast.List, ast.Tuple)) and s.iter.elts:
                    known = True
                if not known or one is None:
                    r = self.seq(s.orelse, [x0])
                    for k in R:
                        R[k] += list(r[k])
                if one is not None:
                    r = self.seq(s.body, [one])
                    R['ret'] += list(r['ret'])
                    R['exc'] += list(r['exc'])
                    R['n'] += list(r['brk'])
                    r2 = self.seq(s.orelse, set(r['n']) | set(r['cont']))
                    for k in R:
                        R[k] += list(r2[k])
                X.append(('soft', x))
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            ws = [w]
            for i in s.items:
                ws = [x for y in ws for _, x in self.ev(i.context_expr, y, X)]
                if i.optional_vars is not None:
                    ws = [self.bind(i.optional_vars, None, x, None, None, X) if path(i.optional_vars) else x for x in ws]
            r = self.seq(s.body, ws)
            sup = any(isinstance(i.context_expr, ast.Call) and (self.P.scope.ext(self.f, i.context_expr.func) or '') == 'contextlib.suppress' for i in s.items)
            for k in R:
                if k == 'exc' and sup:
                    for kind, x in r[k]:
                        R['n'].append(x._replace(ev=x.ev | {('an error', kind)}))
                        R['exc'].append((kind, x))
                else:
                    R[k] += list(r[k])
        elif isinstance(s, ast.Try):
            r = self.seq(s.body, [w])
            nxt = self.seq(s.orelse, r['n'])
            acc = {k: list(nxt[k]) + (list(r[k]) if k != 'n' else []) for k in R}
            exc = list(r['exc'])
            acc['exc'] = list(nxt['exc'])
            for kind, x in exc:
                caught = False
                for h in s.handlers:
                    m = self.catches(h, kind)
                    if m:
                        y = x if kind in ('EOFError', 'SyncError') and x.ev else x._replace(ev=x.ev | {('an error', kind if kind not in ('any', 'soft') else ast.unparse(h.type) if h.type is not None else 'any')})
                        if h.name:
                            y = y._replace(env=mset(y.env, h.name, None))
                        hr = self.seq(h.body, [y])
                        for k in acc:
                            acc[k] += list(hr[k])
                        if m == 'must':
                            caught = True
                            break
                if not caught:
                    acc['exc'].append((kind, x))
            if s.finalbody:
                for k in R:
                    for z in set(acc[k]):
                        kind, x = z if k == 'exc' else (None, z)
                        fr = self.seq(s.finalbody, [x])
                        for k2 in R:
                            if k2 == 'n':
                                R[k] += [(kind, y) for y in fr['n']] if k == 'exc' else list(fr['n'])
                            else:
                                R[k2] += list(fr[k2])
            else:
                R = acc
        elif isinstance(s, ast.Break):
            R['brk'] = [w]
        elif isinstance(s, ast.Continue):
            R['cont'] = [w]
        elif isinstance(s, ast.Return):
            R['ret'] = [x for _, x in self.ev(s.value, w, X)]
        elif isinstance(s, ast.Raise):
            ws = [x for _, x in self.ev(s.exc, w, X)] if s.exc is not None else [w]
            k = 'any'
            if s.exc is not None:
                e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
                k = (path(e) or 'any').split('.')[-1]
                if not k[:1].isupper():
                    k = 'any'
            R['exc'] = [('!' + k, x) for x in ws]
        elif isinstance(s, ast.Assert):
            for _, x in self.ev(s.test, w, X):
                for b, y in self.cond(s.test, x):
                    if b:
                        R['n'].append(y)
                    else:
                        R['exc'].append(('AssertionError', y))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                b = path(t.value) if isinstance(t, ast.Subscript) else None
                X.append(('any', w))
                if b:
                    w = self.add(w, ('strong', 'takes from %s' % b) if b in self.lens else ('weak', b))
                    w = w._replace(env=mset(w.env, b, None))
            R['n'] = [w]
        else:
            R['n'] = [w]
        R['exc'] = list(R['exc']) + X
        return {k: set(v) for k, v in R.items()}

    def catches(self, h, kind):
        strict = kind.startswith('!')
        kind = kind.lstrip('!')
        names = [None] if h.type is None else [(path(t) or '?').split('.')[-1] for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if kind in ('any',):
            return 'must' if None in names or 'BaseException' in names or 'Exception' in names else 'may'
        if kind == 'soft':
            # arithmetic, look-ups: not the errors of the operating system
            if None in names or 'BaseException' in names or 'Exception' in names:
                return 'must'
            return 'may' if any(n in ('KeyError', 'IndexError', 'ValueError', 'TypeError', 'ZeroDivisionError', 'AttributeError', 'NameError', 'LookupError', 'ArithmeticError', 'FloatingPointError', 'OverflowError') for n in names) else None
        if None in names or kind in names or any(n in SUPER.get(kind, ('Exception', 'BaseException')) for n in names):
            return 'must'
        return None

    # ------------------------------------------------------------ verdict
    def strong(self, w):
        """an item that cannot go on for ever, or None"""
        again = any(i[0] == 'reset' for i in w.items)
        for i in w.items:
            if i[0] == 'strong' and not (again and str(i[1]).startswith('clock')):
                return i[1]
        steps = {}
        for i in w.items:
            if i[0] == 'step':
                steps.setdefault(i[1], []).append(i[2:])
        for p, ss in steps.items():
            if ('weak', p) in w.items or any(i[0] == 'const' and i[1] == p for i in w.items) or len(ss) != 1:
                continue
            op, k = ss[0]
            for l, o, r in self.cmps:
                for a, b, fl in ((l, r, False), (r, l, True)):
                    if p not in refs(a) or p in refs(b):
                        continue
                    inv = not any(q in self.assigned or q.split('.')[0] in self.assigned for q in refs(b))
                    if not inv:
                        return 'moving bound'
                    if op == '+':
                        if k == 0:
                            continue
                        if isinstance(o, (ast.Eq, ast.NotEq)):
                            return 'counts %s' % p
                        if path(a) != p:
                            return 'counts %s' % p
                        # away from the bound?  either side can be the exit: only a pure loop test says which
                        if self.loop_test(l, o, r):
                            up = isinstance(o, (ast.Lt, ast.LtE)) != fl
                            if (k > 0) != up:
                                return None
                        return 'counts %s' % p
                    if op == '*':
                        if k == 1:
                            continue
                        if path(a) == p and self.loop_test(l, o, r) and (k > 1) != (isinstance(o, (ast.Lt, ast.LtE)) != fl) and isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                            return None
                        return 'scales %s' % p
        if any(i[0] == 'stream' for i in w.items):
            if w.disp is not None and (w.disp[0] > 0 or w.disp[0] == 0 and w.disp[1] > 0):
                return 'reads on'
            if not any(i[0] == 'seek' for i in w.items):
                return 'reads on'
        elif any(e[0] == 'lost synchronisation' for e in w.ev):
            if w.disp is not None and (w.disp[0] > 0 or w.disp[0] == 0 and w.disp[1] > 0):
                return 'reads on'
        elif any(i[0] == 'seek' for i in w.items) and w.disp is not None and (w.disp[0] > 0 or w.disp[0] == 0 and w.disp[1] > 0):
            return None if any(e[0] == 'end of data' for e in w.ev) else 'moves on'
        return None

    def loop_test(self, l, o, r):
        if not isinstance(self.loop, ast.While):
            return False
        t = self.loop.test if self.only is None else self.only
        parts = t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]
        return any(isinstance(x, ast.Compare) and x.left is l and x.comparators[0] is r for x in parts)

    def run(self):
        P, f, L = self.P, self.f, self.loop
        P.n['loops'] += 1
        w0 = W(frozenset(), frozenset(), (0, 0), frozenset(), False)
        back = self.round([w0])
        P.n['worlds'] += len(back)
        und = False
        for w in back:
            if self.strong(w):
                P.n['strong'] += 1
                continue
            rs = [i for i in w.items if i[0] == 'reset']
            if rs and any(i[0] == 'strong' and str(i[1]).startswith('clock') for i in w.items) and any(e[0] == 'an error' for e in w.ev) and not any(i[0] == 'stream' for i in w.items):
                # the wait is limited only by a clock, and the clock is restarted after a failure: and again in the next round
                nxt = self.round([W(w.env, frozenset(), (0, 0), frozenset(), False)])
                if any(set(rs) <= x.items and x.env == w.env and x.ev and not self.strong(x) and not any(i[0] == 'stream' for i in x.items) for x in nxt):
                    P.bad('clock-restarted', f, 'loop over %s' % (ast.unparse(L.test)[:50] if isinstance(L, ast.While) else ''), L.lineno,
                          'the loop gives up only when a clock has run long enough, and %s is started again after a failure, so the limit need never be reached' % rs[0][1])
                    continue
            if any(i[0] == 'const' for i in w.items):
                # a switch was set: it has to end the loop in the next round
                nxt = self.round([W(w.env, frozenset(), (0, 0), frozenset(), False)])
                live = [x for x in nxt if not self.strong(x)]
                if not live:
                    P.n['strong'] += 1
                    continue
                # the same values again, round after round
                same = [x for x in live if x.env == w.env and all(i[0] == 'const' for i in x.items) and x.ev and x.ev == w.ev]
                if same and all(i[0] == 'const' for i in w.items):
                    w = same[0]._replace(items=frozenset())
                elif any(i[0] in ('weak', 'opaque', 'const') for x in live for i in x.items) or any(i[0] in ('weak', 'opaque') for i in w.items):
                    und = True
                    continue
                else:
                    w = live[0]
            if any(i[0] == 'opaque' for i in w.items):
                und = True
                continue
            weak = [i for i in w.items if i[0] in ('weak', 'step')] + ([('seek',)] if any(i[0] == 'seek' for i in w.items) and w.disp is None else [])
            if not weak:
                if w.opq and not w.ev:
                    und = True
                    continue
                why = ', '.join(sorted('%s%s' % (e[0], ' (%s)' % e[1] if e[0] == 'an error' else '') for e in w.ev))
                P.bad('stuck', f, 'loop over %s' % (ast.unparse(L.test)[:50] if isinstance(L, ast.While) else ast.unparse(L.iter)[:50]), L.lineno,
                      'the loop can go round for ever%s: nothing its end depends on (%s) changes on that way round' % (' after ' + why if why else '', ', '.join(sorted(self.direct))[:120] or 'nothing'))
                continue
            if any(i[0] == 'seek' for i in weak) and not any(i[0] == 'opaque' for i in w.items) and any(i[0] == 'seek' for i in w.items):
                P.bad('unbounded-search', f, 'loop over %s' % (ast.unparse(L.test)[:50] if isinstance(L, ast.While) else ''), L.lineno,
                      'the loop moves back and forth in the file and nothing limits the number of rounds')
                continue
            wrong = [i for i in weak if i[0] == 'step']
            if wrong and len(wrong) == len(weak):
                P.bad('wrong-way', f, 'loop over %s' % (ast.unparse(L.test)[:50] if isinstance(L, ast.While) else ''), L.lineno, '%s is changed by %s in each round, away from the end of the loop' % (wrong[0][1], wrong[0][3]))
                continue
            if self.converges(w, weak):
                P.bad('unbounded-iteration', f, 'loop over %s' % (ast.unparse(L.test)[:50] if isinstance(L, ast.While) else ''), L.lineno,
                      'the loop ends only when computed values (%s) happen to meet its condition; nothing limits the number of rounds' % ', '.join(sorted({str(i[1]) for i in weak if len(i) > 1})))
                continue
            und = True
        if und:
            P.und.append('%s:%d' % (f.qual, L.lineno))

    def converges(self, w, weak):
        """the end is an ordered comparison of computed numbers"""
        ps = {i[1] for i in weak if len(i) > 1}
        for l, o, r in self.cmps:
            if isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and not w.opq:
                for q in (path(l), path(r)):
                    if q in ps and self.real(q):
                        return True
                for e in (l, r):
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('max', 'min', 'sum', 'std', 'mean', 'median') and \
                            (path(e.func.value) in ps or e.args and path(e.args[0]) in ps):
                        return True
        return False

    def real(self, q, seen=()):
        """a number computed with a division or by a mathematical function"""
        for v in self.local.get(q, []):
            for n in ast.walk(v):
                if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.Pow)):
                    return True
                if isinstance(n, ast.Call) and ((self.P.scope.ext(self.f, n.func) or '').split('.')[0] in ('numpy', 'math', 'scipy') or isinstance(n.func, ast.Name) and n.func.id == 'abs'):
                    return True
        return False

    def round(self, ws):
        L = self.loop
        out = set()
        for w in ws:
            X = []
            if isinstance(L, ast.While):
                t = L.test if self.only is None else self.only
                for _, x in self.ev(t, w, X):
                    for b, y in self.cond(t, x):
                        if b:
                            r = self.seq(L.body, [y])
                            out |= r['n'] | r['cont']
            else:
                r = self.seq(L.body, [w])
                out |= r['n'] | r['cont']
        return out


def endless_for(P, f, n):
    """for over an endless iterator"""
    return isinstance(n.iter, ast.Call) and (P.scope.ext(f, n.iter.func) or '') in ('itertools.count', 'itertools.cycle') or \
        isinstance(n.iter, ast.Call) and (P.scope.ext(f, n.iter.func) or '') == 'itertools.repeat' and len(n.iter.args) < 2 and not n.iter.keywords


def check(P):
    for f in P.repo.funcs('lsl'):
        own = []
        st = list(f.node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.While) or isinstance(n, ast.For) and endless_for(P, f, n):
                own.append(n)
            elif isinstance(n, ast.For) and path(n.iter) and not isinstance(n, ast.AsyncFor):
                grow(P, f, n)
            st += list(ast.iter_child_nodes(n))
        for L in own:
            try:
                ways = disjuncts(L.test) if isinstance(L, ast.While) else [None]
                for d in ways if len(ways) > 1 else [None]:
                    Loop(P, f, L, d).run()
            except (TooMany, RecursionError):
                P.und.append('%s:%d' % (f.qual, L.lineno))
            except Exception as e:           # a form that is not understood: not decided
                P.und.append('%s:%d (%s)' % (f.qual, L.lineno, type(e).__name__))


def disjuncts(t):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        return [d for v in t.values for d in disjuncts(v)]
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.BoolOp) and isinstance(t.operand.op, ast.And):
        return [d for v in t.operand.values for d in disjuncts(ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=v), v))]
    return [t]


def grow(P, f, n):
    """iterating over a list that grows in each round"""
    it = path(n.iter)
    P.n['for'] = P.n.get('for', 0) + 1
    for s in n.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append', 'extend', 'insert') and path(s.value.func.value) == it:
            if not any(isinstance(y, (ast.Break, ast.Return, ast.Raise)) for b in n.body for y in ast.walk(b)):
                P.bad('stuck', f, 'loop over %s' % it, n.lineno, 'the list %s grows in each round of the loop over it' % it)
