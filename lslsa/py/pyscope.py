"""
Things held or switched for the duration of an operation: locks, the floating-point error mode, the
working directory, swapped attributes, scratch directories.  A may-held typestate analysis over
control-flow graphs with exception edges, with summaries of the methods of the same object.
"""
import ast
from ..common import Finding
from . import cfg as C
from .pypos import path, params
from . import stream


TAME = {'os.path.join', 'os.path.dirname', 'os.path.basename', 'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'time.time', 'time.monotonic', 'time.perf_counter', 'len', 'isinstance', 'bool', 'str', 'repr', 'type', 'id',
        'callable', 'hasattr', 'dict', 'list', 'tuple', 'set', 'numpy.geterr', 'os.getpid', 'threading.get_ident', 'threading.current_thread', 'time.sleep'}
STRM = {'startswith', 'endswith', 'find', 'rfind', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'keys', 'values', 'items', 'copy'}


def call_name(c):
    return path(c.func) if isinstance(c, ast.Call) else None


class Scope(object):
    def __init__(self, repo):
        self.repo = repo
        self.sum = {}
        self.n_acq = 0
        self.findings = []
        self.und = []
        self.al = {}

    def ext(self, f, fn):
        """dotted external name of a called function"""
        r = self.repo.dotted(f.mod, fn)
        if r is not None and r[0] == 'ext':
            return r[1]
        if r is not None and r[0] == 'builtin':
            return r[1]
        p = path(fn)
        return None if p is None else ('?' + p)

    def canon(self, f):
        """function: expression -> text of the object it names, with local names for other objects written out"""
        k = id(f.node)
        if k not in self.al:
            cnt, val = {}, {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    cnt[n.id] = cnt.get(n.id, 0) + 1
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    val[n.targets[0].id] = n.value
            ps = set(params(f.node)[0])
            self.al[k] = {x: v for x, v in val.items() if cnt.get(x) == 1 and x not in ps and isinstance(v, (ast.Attribute, ast.Subscript, ast.Name)) and chain(v)}
        al = self.al[k]

        def go(e, d=0):
            if isinstance(e, ast.Name):
                return go(al[e.id], d + 1) if e.id in al and d < 6 else e.id
            if isinstance(e, ast.Attribute):
                b = go(e.value, d)
                return None if b is None else b + '.' + e.attr
            if isinstance(e, ast.Subscript):
                b = go(e.value, d)
                return None if b is None else '%s[%s]' % (b, ast.unparse(e.slice))
            return None
        return go

    # ------------------------------------------------------------ events of one expression
    def events(self, f, ms, e, st, x):
        """sequence of ('acq', key, node) / ('rel', key, node) caused by evaluating e"""
        out = []
        path = self.canon(f)
        for n in post(e):
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            if isinstance(fn, ast.Attribute) and fn.attr in ('acquire', 'release') and path(fn.value):
                out.append(('acq' if fn.attr == 'acquire' else 'rel', ('lock', path(fn.value)), n))
                continue
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == 'self' and fn.attr in ms and ms[fn.attr] is not f:
                a, r = self.summary(ms, ms[fn.attr])
                out += [('rel', k, n) for k in sorted(r)] + [('acq', k, n) for k in sorted(a)]
                continue
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
                pr = self.opener(self.instance(f, fn.value.id))
                if pr and fn.attr in pr[0]:
                    out.append(('acq', ('lock', fn.value.id + ' (opened)'), n))
                    continue
                if pr and fn.attr in pr[1]:
                    out.append(('rel', ('lock', fn.value.id + ' (opened)'), n))
                    continue
                if fn.attr in ('__exit__', 'cleanup', 'close') and any(k[:2] == ('scratch directory', fn.value.id) for k in st):
                    out.append(('rel', ('scratch directory', fn.value.id), n))
                    continue
            g = self.callee(f, n)
            if g is not None:
                for p, a in bind(g, n).items():
                    if path(a) and self.must_call(g, {}, lambda fx, path2, c2: self.ext(fx, c2.func) == 'shutil.rmtree' and c2.args and path2(c2.args[0]) == p):
                        out.append(('rel', ('scratch directory', path(a)), n))
                    if path(a) and self.must_call(g, {}, lambda fx, path2, c2: isinstance(c2.func, ast.Attribute) and c2.func.attr == 'release' and path2(c2.func.value) == p, unheld=p):
                        out.append(('rel', ('lock', path(a)), n))
                    elif path(a) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'acquire' and self.canon(g)(y.func.value) == p for y in ast.walk(g.node)):
                        h = self.held_params(g)
                        if p in h:
                            out.append(('acq', ('lock', path(a)), n))
                continue
            nm = self.ext(f, fn)
            if nm in ('numpy.seterr', 'np.seterr'):
                sv = self.saved.get('fp', set())
                if any(k.arg is None and path(k.value) in sv for k in n.keywords) or \
                        (n.keywords and all(isinstance(k.value, ast.Subscript) and path(k.value.value) in sv for k in n.keywords)):
                    out.append(('rel', ('fp error mode', ''), n))
                elif any(k.arg is None for k in n.keywords):
                    pass
                elif n.keywords or n.args:
                    out.append(('acq', ('fp error mode', ''), n))
            elif nm == 'os.chdir' and n.args:
                if path(n.args[0]) in self.saved.get('cwd', set()):
                    out.append(('rel', ('working directory', ''), n))
                else:
                    out.append(('acq', ('working directory', ''), n))
            elif nm in ('shutil.rmtree', 'os.rmdir', 'os.unlink', 'os.remove') and n.args and path(n.args[0]):
                out.append(('rel', ('scratch directory', path(n.args[0])), n))
            elif nm in ('atexit.register', 'weakref.finalize'):
                names = {path(y) for a in n.args for y in ast.walk(a)}
                for y in ast.walk(f.node):
                    if isinstance(y, ast.FunctionDef) and y is not f.node and y.name in names:
                        names |= {path(z) for z in ast.walk(y)}
                for k in st:
                    if k[0] == 'scratch directory' and k[1] in names:
                        out.append(('rel', k[:2], n))
        return out

    def callee(self, f, c):
        """module-level function of the package a call goes to"""
        r = self.repo.dotted(f.mod, c.func)
        return r[1] if r is not None and r[0] == 'func' and r[1] is not f and r[1].cls is None and not self.is_cm(r[1]) else None

    def held_params(self, g):
        """parameters of a helper whose lock it leaves taken when it returns"""
        k = ('held', id(g.node))
        if k not in self.sum:
            self.sum[k] = set()
            save = getattr(self, 'saved', None), getattr(self, 'swaps', None)
            n, x = self.run(g, {})
            self.saved, self.swaps = save
            self.sum[k] = {y[1] for y in n or () if y[0] == 'lock'}
        return self.sum[k]

    def kls(self, f, c):
        r = self.repo.dotted(f.mod, c.func) if isinstance(c, ast.Call) else None
        return r[1] if r is not None and r[0] == 'class' else None

    def instance(self, f, name):
        """class of the package the object in a local can be an instance of"""
        k = ('inst', id(f.node), name)
        if k in self.sum:
            return self.sum[k]
        self.sum[k] = None
        for n in ast.walk(f.node):
            vs = []
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                vs = [n.value]
            for v in vs:
                c = self.kls(f, v)
                if c is None and isinstance(v, (ast.Subscript, ast.Call)) and f.cls is not None:
                    b = v.value if isinstance(v, ast.Subscript) else v.func.value if isinstance(v.func, ast.Attribute) and v.func.attr in ('get', 'setdefault', 'pop') else None
                    b = path(b) if b is not None else None
                    if b and b.startswith('self.'):
                        for m in stream.methods(self.repo, f.cls).values():
                            for y in ast.walk(m.node):
                                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Subscript) and path(t.value) == b for t in y.targets):
                                    c = c or self.kls(m, y.value)
                if c is not None:
                    self.sum[k] = c
        return self.sum[k]

    def opener(self, c):
        """(methods that leave a lock of the object taken, methods that give it back) or None"""
        if c is None:
            return None
        k = ('open', c.qual, id(c))
        if k not in self.sum:
            self.sum[k] = None
            ms = stream.methods(self.repo, c)
            op = {nm for nm, m in ms.items() if nm not in ('acquire', '__enter__', '__init__') and self.summary(ms, m)[0]}
            cl = {nm for nm, m in ms.items() if nm not in ('release', '__exit__') and nm not in op and self.summary(ms, m)[1]}
            if op and cl:
                self.sum[k] = (op, cl)
        return self.sum[k]

    def scratch(self, f, c):
        """the call makes an object that owns a scratch directory until its with block ends"""
        c = self.kls(f, c)
        if c is None:
            return False
        k = ('scr', c.qual, id(c))
        if k not in self.sum:
            ms = stream.methods(self.repo, c)
            self.sum[k] = '__exit__' in ms and '__del__' not in ms and '__init__' in ms and any(isinstance(n, ast.Call) and self.ext(ms['__init__'], n.func) == 'tempfile.mkdtemp' for n in ast.walk(ms['__init__'].node))
        return self.sum[k]

    def prepare(self, f):
        """locals holding a saved setting"""
        self.saved = {'fp': set(), 'cwd': set()}
        self.swaps = {}            # path -> locals saved from it
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and path(n.targets[0]):
                v, t = n.value, path(n.targets[0])
                nm = self.ext(f, v.func) if isinstance(v, ast.Call) else None
                if nm in ('numpy.geterr', 'numpy.seterr'):
                    self.saved['fp'].add(t)
                elif nm in ('os.getcwd', 'os.getcwdb') or (nm in ('os.path.abspath', 'os.path.realpath') and v.args and isinstance(v.args[0], ast.Constant) and v.args[0].value in ('.', '')):
                    self.saved['cwd'].add(t)
                elif isinstance(n.targets[0], ast.Name) and isinstance(v, (ast.Attribute, ast.Subscript)) and self.canon(f)(v):
                    self.swaps.setdefault(self.canon(f)(v), set()).add(t)

    def tame(self, f, e):
        """only reads names and attributes, does arithmetic and builds strings: does not fail for arguments of the right type"""
        if isinstance(e, (ast.Assert, ast.Raise)):
            return False
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                nm = self.ext(f, n.func)
                if nm in TAME:
                    continue
                if isinstance(n.func, ast.Attribute) and n.func.attr in STRM and not isinstance(n.func.value, ast.Call):
                    continue
                return False
            if isinstance(n, (ast.Subscript, ast.Await, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom, ast.Starred, ast.Delete, ast.For, ast.While, ast.With)):
                return False
        return True

    def is_cm(self, f):
        return any(d.split('.')[-1] in ('contextmanager', 'asynccontextmanager') for d in f.decorators)

    # ------------------------------------------------------------ one function
    def run(self, f, ms):
        self.prepare(f)
        path = lv = self.canon(f)
        g = C.CFG(f.node)
        cm = self.is_cm(f)
        swaps = dict(self.swaps)
        restored = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                for t in n.targets:
                    if lv(t) in swaps and n.value.id in swaps[lv(t)]:
                        restored.add(lv(t))
        saved, scope = self.saved, self
        flags = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) \
                    and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ('acquire', 'locked') and path(n.value.func.value):
                flags[n.targets[0].id] = ('lock', path(n.value.func.value))

        def step(st, evs):
            mid = [st]
            for kind, k, n in evs:
                if kind == 'acq':
                    mid.append(st)                 # the acquisition itself failed
                    st = frozenset(y for y in st if y[:2] != k) | {k + (n.lineno,)}
                else:
                    st = frozenset(y for y in st if y[:2] != k)
                    mid.append(st)
            return st, mid

        def tr(n, st):
            o, x = tr0(n, st)
            e = n.extra if n.kind == 'test' else n.ast
            if n.kind in ('stmt', 'test', 'eval', 'return') and e is not None and scope.tame(f, e):
                x = None
            return o, x

        def tr0(n, st):
            a = n.ast
            if n.kind in ('entry', 'exit', 'rexit', 'finally', 'dispatch', 'handler', 'jump', 'def', 'case', 'join', 'pass'):
                return st, st
            self.saved = saved
            if n.kind == 'with_exit':
                return st, st
            if n.kind == 'iter':
                return st, st
            es = [n.extra] if n.kind == 'test' else [it.context_expr for it in a.items] if n.kind == 'with_enter' else [a]
            o, X = st, []
            for e in es:
                if n.kind == 'with_enter' and isinstance(e, ast.Call) and (self.ext(f, e.func) or '').split('.')[-1] in ('errstate', 'closing', 'ExitStack'):
                    continue
                if n.kind == 'with_enter' and isinstance(e, ast.Name):
                    o = frozenset(y for y in o if y[:2] != ('scratch directory', e.id))
                evs = scope.events(f, ms, e, o, None)
                o, mid = step(o, evs)
                if evs and any(isinstance(y, ast.Yield) for y in ast.walk(e)):
                    mid.append(o)
                held = {y[1] for y in o if y[0] == 'scratch directory'}
                for y in ast.walk(e) if held else ():
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ('enter_context', 'push'):
                        o = frozenset(z for z in o if not (z[0] == 'scratch directory' and any(isinstance(q, ast.Name) and q.id == z[1] for q in ast.walk(y))))
                # an exception leaves with the state before (no events) or after a release / before an acquisition
                X += mid[1:] if evs else mid
            if n.kind in ('test', 'eval', 'with_enter'):
                return o, union(X)
            if isinstance(a, ast.Assert):
                k = unlocked(a.test, False)
                x = union(X)
                return o, frozenset(y for y in x if y[:2] not in k)
            if isinstance(a, ast.Assign):
                v = a.value
                nm = scope.ext(f, v.func) if isinstance(v, ast.Call) else None
                for t in a.targets:
                    if (nm in ('tempfile.mkdtemp',) or isinstance(v, ast.Call) and scope.scratch(f, v)) and isinstance(t, ast.Name):
                        o = o | {('scratch directory', t.id, a.lineno)}
                        scope.n_acq += 1
                    if nm == 'tempfile.mkstemp' and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[1], ast.Name):
                        o = o | {('scratch directory', t.elts[1].id, a.lineno)}
                        scope.n_acq += 1
                    p = lv(t)
                    if p is not None and not isinstance(t, ast.Name):
                        if isinstance(v, ast.Name) and v.id in swaps.get(p, ()):
                            o = frozenset(y for y in o if y[:2] != ('setting', p))
                            X = [frozenset(y for y in x if y[:2] != ('setting', p)) for x in X]
                        elif p in restored or (cm and isinstance(t, ast.Attribute) and n.id in before_yield and not p.startswith('self._lock')):
                            o = o | {('setting', p, a.lineno)}
                    # a scratch directory handed to the object or another name is no longer this function's
                    if isinstance(v, ast.Name) and not isinstance(t, ast.Name):
                        o = frozenset(y for y in o if y[:2] != ('scratch directory', v.id))
            if isinstance(a, ast.Return) and a.value is not None:
                for y in ast.walk(a.value):
                    if isinstance(y, ast.Name):
                        o = frozenset(k for k in o if k[:2] != ('scratch directory', y.id))
            if isinstance(a, ast.Expr) and isinstance(a.value, (ast.Yield,)) and a.value.value is not None:
                pass
            return o, union(X) if X else st

        before_yield = set()
        if cm:
            ys = [n for n in g.nodes if n.ast is not None and n.kind in ('stmt', 'return') and any(isinstance(y, ast.Yield) for y in ast.walk(n.ast))]
            todo = list(ys)
            while todo:
                n = todo.pop()
                for p, _ in n.pred:
                    if p.id not in before_yield:
                        before_yield.add(p.id)
                        todo.append(p)

        def unlocked(t, val):
            """resources certainly not held when test t has this value"""
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                return unlocked(t.operand, not val)
            if isinstance(t, ast.BoolOp):
                if isinstance(t.op, ast.And) and val or isinstance(t.op, ast.Or) and not val:
                    return set().union(*[unlocked(v, val) for v in t.values])
                return set()
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in ('locked', 'acquire') and path(t.func.value) and not val:
                return {('lock', path(t.func.value))}
            if isinstance(t, ast.Name) and t.id in flags and not val:
                return {flags[t.id]}
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in (True, False, None) and isinstance(t.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                same = isinstance(t.ops[0], (ast.Is, ast.Eq))
                want = bool(t.comparators[0].value) == (val if same else not val) if same or True else val
                return unlocked(t.left, (bool(t.comparators[0].value) if (val == same) else not bool(t.comparators[0].value)))
            return set()

        def edge(n, l, st):
            if n.kind == 'test' and l in ('t', 'f'):
                k = unlocked(n.extra, l == 't')
                if k:
                    st = frozenset(y for y in st if y[:2] not in k)
            return st
        IN = C.forward(g, frozenset(), tr, lambda a, b: a | b, edge)
        return IN.get(g.exit.id), IN.get(g.rexit.id)

    def summary(self, ms, f):
        """(resources held on leaving normally, resources released) by a method"""
        k = id(f.node)
        if k in self.sum:
            return self.sum[k]
        self.sum[k] = (set(), set())
        if self.is_cm(f) or f.name in ('__enter__', '__exit__'):
            return self.sum[k]
        save = getattr(self, 'saved', None), getattr(self, 'swaps', None)
        held = set()
        n, x = self.run(f, ms)
        if n:
            held = {y[:2] for y in n if y[0] == 'lock' and y[1].startswith('self.')}
        rel = set()
        for c in ast.walk(f.node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'release' and (path(c.func.value) or '').startswith('self.'):
                if ('lock', path(c.func.value)) not in held:
                    rel.add(('lock', path(c.func.value)))
        # must release: on every normal path
        ok = set()
        for k2 in rel:
            if self.must_release(f, ms, k2):
                ok.add(k2)
        self.saved, self.swaps = save
        self.sum[k] = (held, ok)
        return self.sum[k]

    def must_release(self, f, ms, key):
        return self.must_call(f, ms, lambda fx, path, c: isinstance(c.func, ast.Attribute) and c.func.attr == 'release' and path(c.func.value) == key[1],
                              unheld=key[1])

    def must_call(self, f, ms, pred, absent=None, unheld=None, depth=0):
        """every normal path through f makes a call satisfying pred (itself or in a method of the same object), or finds there is nothing to do"""
        g = C.CFG(f.node)
        path = self.canon(f)

        def has(e):
            for c in post(e):
                if isinstance(c, ast.Call):
                    if pred(f, path, c):
                        return True
                    if depth < 3 and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == 'self' and c.func.attr in ms \
                            and self.must_call(ms[c.func.attr], ms, pred, absent, unheld, depth + 1):
                        return True
            return False

        def tr(n, st):
            e = n.extra if n.kind == 'test' else n.ast
            if n.kind in ('stmt', 'test', 'eval', 'return') and e is not None and has(e):
                return True, st
            if n.kind == 'with_enter' and any(has(i.context_expr) for i in n.ast.items):
                return True, st
            return st, st

        def edge(n, l, st):
            if n.kind == 'test' and l in ('t', 'f'):
                t = n.extra
                neg = l == 'f'
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t, neg = t.operand, not neg
                if unheld and neg and isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr == 'locked' and path(t.func.value) == unheld:
                    return True
                if absent:
                    if isinstance(t, ast.Compare) and len(t.ops) == 1 and path(t.left) == absent and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                        if isinstance(t.ops[0], (ast.Is, ast.Eq)) != neg:
                            return True
                    if path(t) == absent and neg:
                        return True
            return st
        IN = C.forward(g, False, tr, lambda a, b: a and b, edge)
        r = IN.get(g.exit.id)
        return True if r is None else bool(r)

    # ------------------------------------------------------------ verdicts
    def check_function(self, f):
        ms = stream.methods(self.repo, f.cls) if f.cls is not None else {}
        interesting = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = call_name(n) or ''
                if nm.endswith(('.acquire', '.seterr', '.chdir', '.mkdtemp', '.mkstemp')):
                    interesting = True
                    if not nm.endswith(('.mkdtemp', '.mkstemp')):
                        self.n_acq += 1
                if self.scratch(f, n):
                    interesting = True
                    self.n_acq += 1
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and (self.opener(self.instance(f, n.func.value.id)) or ((), ()))[0]:
                    interesting = True
                elif self.callee(f, n) is not None and self.held_params(self.callee(f, n)):
                    interesting = True
        self.prepare(f)
        lv = self.canon(f)
        sw = any(isinstance(n, ast.Assign) and any(lv(t) in self.swaps for t in n.targets if not isinstance(t, ast.Name)) for n in ast.walk(f.node))
        cm = self.is_cm(f)
        helper = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and n.func.attr in ms
                     and ms[n.func.attr] is not f and self.summary(ms, ms[n.func.attr])[0] for n in ast.walk(f.node))
        if not (interesting or sw or cm or helper):
            return False
        if f.name in ('acquire', '__enter__', '__init__') and not cm:
            n, x = self.run(f, ms)
            n = frozenset(y for y in (n or ()) if y[0] not in ('lock',))
            x = frozenset(y for y in (x or ()) if y[0] != 'lock' or f.name not in ('acquire', '__init__'))
        else:
            n, x = self.run(f, ms)
        used = set()
        for y in ast.walk(f.node):
            if isinstance(y, (ast.With, ast.AsyncWith)):
                used |= {id(i.context_expr) for i in y.items}
            elif isinstance(y, (ast.Assign, ast.Return)) and isinstance(y.value, ast.Call):
                used.add(id(y.value))
            elif isinstance(y, ast.Call):
                used |= {id(q) for q in y.args}
        for y in ast.walk(f.node):
            if isinstance(y, ast.Call) and id(y) not in used and self.scratch(f, y):
                self.findings.append(Finding('not-given-back', '%s scratch directory %s' % (f.qual, ast.unparse(y.func)), '%s:%d' % (f.mod.rel, y.lineno), 'the scratch directory made here is never removed'))
        paired = set()
        if f.cls is not None and not cm:
            for nm, m in ms.items():
                if m is f or nm == f.name:
                    continue
                path = self.canon(m)
                for c in ast.walk(m.node):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'release' and path(c.func.value) and \
                            not any(isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'acquire' and path(d.func.value) == path(c.func.value) for d in ast.walk(m.node)):
                        paired.add(('lock', path(c.func.value)))
        out = {}
        ps = set(params(f.node)[0]) if f.cls is None and not cm else ()
        for y in n or ():
            if y[0] == 'lock' and y[1] in ps:
                continue          # taken for the caller: followed there
            if y[:2] not in paired:
                out.setdefault(y, []).append('when it returns')
        for y in x or ():
            out.setdefault(y, []).append('when an exception ends it')
        for y, how in sorted(out.items()):
            what = {'lock': 'the lock %s is still held' % y[1], 'fp error mode': 'the numpy error mode is still changed', 'working directory': 'the working directory is still changed',
                    'setting': 'the value of %s is not put back' % y[1], 'scratch directory': 'the scratch directory %s is left behind' % y[1]}[y[0]]
            self.findings.append(Finding('not-given-back', '%s %s %s' % (f.qual, y[0], y[1]), '%s:%d' % (f.mod.rel, f.node.lineno),
                                         '%s on some path %s (taken at line %d)' % (what, ' and '.join(how), y[2])))
        return True

    def check_class(self, c):
        """what a class acquires in acquire()/__enter__ its release()/__exit__ gives back"""
        ms = stream.methods(self.repo, c)
        done = 0
        F = stream.Fresh(self.repo)
        for a, r in (('acquire', 'release'), ('__enter__', '__exit__')):
            if a not in ms or r not in ms or (ms[a].cls is not c and ms[r].cls is not c):
                continue
            done += 1
            fa, fr = ms[a], ms[r]
            path = self.canon(fa)
            where = '%s:%d' % (fr.mod.rel, fr.node.lineno)
            # locks
            for n in ast.walk(fa.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'acquire' and (path(n.func.value) or '').startswith('self'):
                    p = path(n.func.value)
                    if p == 'self':
                        ok = self.must_call(fr, ms, lambda fx, path, c2: isinstance(c2.func, ast.Attribute) and c2.func.attr == 'release' and path(c2.func.value) == 'self')
                    else:
                        ok = self.must_release(fr, ms, ('lock', p))
                    if not ok:
                        self.findings.append(Finding('pair-not-released', '%s.%s %s' % (c.name, r, p), where, '%s() takes %s but %s() does not release it on every path' % (a, p, r)))
                    break
            if a == 'acquire':
                fresh = F.of(c, fr)
                for n in ast.walk(fa.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            p = path(t)
                            if p and p.startswith('self.') and p.count('.') == 1 and not (isinstance(n.value, ast.Constant) and not n.value.value):
                                if fresh is not stream.ALL and p[5:] not in fresh:
                                    self.findings.append(Finding('pair-not-released', '%s.%s %s' % (c.name, r, p), where,
                                                                 '%s() marks the lock as held in %s but %s() does not reset it on every path' % (a, p, r)))
                for n in ast.walk(fa.node):
                    if isinstance(n, ast.Call) and (self.ext(fa, n.func) or '') == 'fcntl.flock' and 'LOCK_UN' not in ast.unparse(n):
                        held = [p for p in attrs_of_value(fa, n.args[0])]
                        for p in held:
                            ok = self.must_call(fr, ms, lambda fx, path, c2: (self.ext(fx, c2.func) == 'fcntl.flock' and path(c2.args[0]) == p and 'LOCK_UN' in ast.unparse(c2)) or
                                           (isinstance(c2.func, ast.Attribute) and c2.func.attr == 'close' and path(c2.func.value) == p), absent=p)
                            if not ok:
                                self.findings.append(Finding('pair-not-released', '%s.%s %s' % (c.name, r, p), where, 'the file lock taken by %s() on %s is not given up on every path' % (a, p)))
            # swapped globals and scratch directories
            for src in [ms[x] for x in ('__init__', '__enter__') if x in ms] if a == '__enter__' else []:
                for n in ast.walk(src.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        t = path(n.targets[0])
                        if t and t.startswith('self.') and isinstance(n.value, ast.Call) and self.ext(src, n.value.func) == 'tempfile.mkdtemp':
                            if not self.must_call(fr, ms, lambda fx, path, c2: self.ext(fx, c2.func) == 'shutil.rmtree' and c2.args and path(c2.args[0]) == t):
                                self.findings.append(Finding('pair-not-released', '%s.%s %s' % (c.name, r, t), where, 'the scratch directory %s is not removed on every path' % t))
                        if t and t.startswith('self.') and path(n.value) in ('sys.stdout', 'sys.stderr', 'sys.stdin'):
                            gname = path(n.value)
                            if not any(isinstance(m, ast.Assign) and any(path(q) == gname for q in m.targets) and path(m.value) == t for m in ast.walk(fr.node)):
                                self.findings.append(Finding('pair-not-released', '%s.%s %s' % (c.name, r, gname), where, '%s is not put back from %s' % (gname, t)))
        return done


def bind(g, c):
    ps = list(params(g.node)[0])
    m = dict(zip(ps, c.args))
    for k in c.keywords:
        if k.arg:
            m[k.arg] = k.value
    return m


def attrs_of_value(f, e):
    """attributes of self the value of local e is stored in"""
    p = path(e)
    if p and p.startswith('self.'):
        return [p]
    return sorted({path(t) for n in ast.walk(f.node) if isinstance(n, ast.Assign) and path(n.value) == p for t in n.targets if (path(t) or '').startswith('self.')})


def chain(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return isinstance(e, ast.Name)


def lv(e):
    """text of an attribute or constant-keyed element that can be saved and put back"""
    if isinstance(e, ast.Attribute):
        b = path(e.value) or (ast.unparse(e.value) if isinstance(e.value, ast.Subscript) else None)
        return None if b is None else b + '.' + e.attr
    if isinstance(e, ast.Subscript):
        return ast.unparse(e)
    return None


def union(xs):
    r = frozenset()
    for x in xs:
        r = r | x
    return r


def post(e):
    """sub-expressions in evaluation order, without the bodies of functions and lambdas"""
    if isinstance(e, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return
    for c in ast.iter_child_nodes(e):
        for y in post(c):
            yield y
    yield e
