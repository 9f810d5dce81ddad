"""
State that outlives a call: module-level objects, class-level containers, default argument values and
remembered results.  A result may only be reused when everything it was computed from is the same,
and nothing a call leaves behind may change what a later call with the same arguments gives.

  shared-modified    a function writes through a module-level object (a table, station, default ...)
  default-modified   a default argument value is modified (in the function, or in the class that keeps it)
  class-modified     a container created once in the class body is modified through an instance
  cached-modified    the result of a memoised function, or an entry of a memo table, is modified afterwards
  memo-key           a memo entry is computed from an input its key does not determine
  memo-ambient       a memoised function depends on something other than its arguments (a file named by an
                     argument, settings, time, mutable attributes)
"""
import ast
from . import cfg, names
from .effects import Alias, Effects, NONE, private
from ..common import Finding

MEMO = ('lru_cache', 'functools.lru_cache', 'cache', 'functools.cache', 'cached_property', 'functools.cached_property')
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MUTABLE_CALL = {'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'deque', 'bytearray', 'Counter', 'array', 'zeros', 'ones', 'empty', 'arange', 'linspace'}
# state that exists to be changed: logging, telemetry, user configuration
SKIP = ('lsl.logger', 'lsl.logger_gui', 'lsl.misc.telemetry', 'lsl.config', 'lsl.testing')


def is_memo(f):
    return any(d.split('(')[0] in MEMO for d in f.decorators)


def mutable(e):
    if isinstance(e, MUTABLE):
        return True
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
        return n in MUTABLE_CALL
    return False


class State(Effects):
    """effects on pseudo parameters: ('g', module, name) module-level objects, ('c', func) results of memoised functions"""

    def __init__(self, repo):
        Effects.__init__(self, repo)
        self._g = {}

    def glob(self, f, name):
        if name in self.nom.locals(f):
            return None
        p = f.parent
        while p is not None:
            if name in self.nom.locals(p):
                return None
            p = p.parent
        key = (f.mod.name, name)
        if key not in self._g:
            r = self.repo.lookup(f.mod.name, name)
            ans = None
            if r is not None and r[0] == 'val' and all(isinstance(x, (ast.Assign, ast.AnnAssign)) for x in r[1]):
                ans = ('g', r[2].name, name)
                m = r[2]
                # imported under another name: find the defining one
                imp = f.mod.imports.get(name)
                if imp and imp[0] == 'from':
                    ans = ('g', m.name, imp[2])
            self._g[key] = ans
        return self._g[key]

    def value(self, e, st, f):
        if isinstance(e, ast.Name) and e.id not in st:
            g = self.glob(f, e.id)
            if g is not None:
                return Alias(frozenset([g]), True)
            return NONE
        if isinstance(e, ast.Attribute):
            r = self.repo.dotted(f.mod, e, self.nom.locals(f))
            if r is not None and r[0] == 'val' and all(isinstance(x, (ast.Assign, ast.AnnAssign)) for x in r[1]):
                return Alias(frozenset([('g', r[2].name, e.attr)]), True)
        if isinstance(e, ast.Call):
            r = self.repo.dotted(f.mod, e.func, self.nom.locals(f))
            tg = self.target(e, f, r)
            if tg is not None:
                func = tg[0]
                if is_memo(func):
                    return Alias(frozenset([('c', func)]), True)
                self.analyse(func)
                v = Effects.value(self, e, st, f)
                extra = frozenset(x for x in self.returns[func] if isinstance(x, tuple))
                if extra:
                    return Alias(v.par | extra, v.arr, v.sh)
                return v
        return Effects.value(self, e, st, f)


def site(f, line):
    return '%s:%s' % (f.mod.rel, line)


# ---------------------------------------------------------------- what an expression is computed from
LOSSY = {'int', 'round', 'floor', 'ceil', 'len', 'bool', 'abs', 'hash', 'id', 'rint', 'trunc', 'sum', 'min', 'max'}
EXACT_CALL = {'float', 'str', 'repr', 'tuple', 'list', 'frozenset', 'tobytes', 'complex'}


class Slice(object):
    """flow-insensitive backward slice inside one function: parameters (and attribute paths of them) a value depends on"""

    def __init__(self, f, cut=()):
        self.f, self.cut = f, set(cut)
        a = f.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.defs = {}
        self.ctrl = {}
        self._collect(f.node.body, ())

    def _bind(self, t, v, ctx):
        if isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append((v, ctx))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for x, y in zip(t.elts, v.elts):
                    self._bind(x, y, ctx)
            else:
                for x in t.elts:
                    self._bind(x, v, ctx)
        elif isinstance(t, ast.Starred):
            self._bind(t.value, v, ctx)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            b = t
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and b.id not in self.params:
                self.defs.setdefault(b.id, []).append((v, ctx))
                if isinstance(t, ast.Subscript):
                    self.defs[b.id].append((t.slice, ctx))

    def _collect(self, body, ctx):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    self._bind(t, s.value, ctx)
            elif isinstance(s, ast.AugAssign):
                self._bind(s.target, s.value, ctx)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self._bind(s.target, s.value, ctx)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                self._bind(s.target, s.iter, ctx)
            elif isinstance(s, (ast.With, ast.AsyncWith)):
                for i in s.items:
                    if i.optional_vars is not None:
                        self._bind(i.optional_vars, i.context_expr, ctx)
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    for y in ast.walk(x):
                        if isinstance(y, ast.NamedExpr):
                            self._bind(y.target, y.value, ctx)
                        elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.attr in ('append', 'extend', 'insert', 'add', 'update'):
                            for z in y.args:
                                self._bind(y.func.value, z, ctx)
            c2 = ctx + (s,) if isinstance(s, (ast.If, ast.While)) else ctx
            for fld in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, fld, None)
                if isinstance(sub, list):
                    self._collect(sub, c2)
            for h in getattr(s, 'handlers', []):
                self._collect(h.body, ctx)

    def deps(self, e, outer=(), seen=None):
        """set of access paths ('p',) / ('p', 'attr') of parameters"""
        seen = seen if seen is not None else set()
        if ast.unparse(e) in self.cut:
            return set()
        out = set()
        if isinstance(e, ast.Attribute):
            parts, b = [], e
            while isinstance(b, ast.Attribute):
                parts.append(b.attr)
                b = b.value
            if isinstance(b, ast.Name) and b.id in self.params and b.id not in self.defs:
                return {(b.id,) + tuple(reversed(parts))}
            return self.deps(b, outer, seen)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1:
            return {p + ('size',) for p in self.deps(e.args[0], outer, seen)}
        if isinstance(e, ast.Name):
            if e.id in self.params:
                out.add((e.id,))
            if e.id not in seen:
                seen.add(e.id)
                for v, ctx in self.defs.get(e.id, ()):
                    out |= self.deps(v, outer, seen)
                    for c in ctx:
                        if c not in outer:
                            out |= self.deps(c.test, outer, seen)
            return out
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                out |= self.deps(e.func.value, outer, seen)
            for a in e.args:
                out |= self.deps(a, outer, seen)
            for k in e.keywords:
                out |= self.deps(k.value, outer, seen)
            return out
        for x in ast.iter_child_nodes(e):
            if isinstance(x, (ast.expr, ast.comprehension)):
                out |= self.deps(x, outer, seen) if isinstance(x, ast.expr) else set().union(*[self.deps(y, outer, seen) for y in [x.iter] + x.ifs])
        return out

    def exact(self, e, seen=None):
        """access paths an expression determines without loss"""
        seen = seen if seen is not None else set()
        if isinstance(e, (ast.Tuple, ast.List)):
            return set().union(set(), *[self.exact(x, seen) for x in e.elts])
        if isinstance(e, ast.Attribute):
            d = self.deps(e)
            b = e
            while isinstance(b, ast.Attribute):
                b = b.value
            return d if isinstance(b, ast.Name) and b.id in self.params and len(d) == 1 else set()
        if isinstance(e, ast.Name):
            if e.id in self.params and e.id not in self.defs:
                return {(e.id,)}
            ds = self.defs.get(e.id, ())
            if e.id in self.params or len(ds) != 1 or e.id in seen:
                # rebound parameter: p = p * 1.0 and the like keep their information
                if e.id in self.params and len(ds) == 1 and e.id not in seen:
                    return self.exact(ds[0][0], seen | {e.id}) or ({(e.id,)} if self.keeps(ds[0][0], e.id) else set())
                return {(e.id,)} if e.id in self.params and e.id in seen else set()
            return self.exact(ds[0][0], seen | {e.id})
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add, ast.Sub, ast.Div)):
            if isinstance(e.right, ast.Constant):
                return self.exact(e.left, seen)
            if isinstance(e.left, ast.Constant):
                return self.exact(e.right, seen)
            return set()
        if isinstance(e, ast.Call):
            n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
            if n in EXACT_CALL:
                src = e.args[0] if e.args else e.func.value if isinstance(e.func, ast.Attribute) else None
                return self.exact(src, seen) if src is not None else set()
            return set()
        if isinstance(e, ast.JoinedStr):
            return set().union(set(), *[self.exact(x.value, seen) for x in e.values if isinstance(x, ast.FormattedValue) and x.format_spec is None])
        if isinstance(e, ast.Subscript):
            return set()
        return set()

    def keeps(self, e, name):
        return False


def covered(p, have):
    return any(p[:len(q)] == q for q in have)


def key_parts(sl, e):
    """expressions (texts) that are components of a key, following single definitions"""
    if isinstance(e, (ast.Tuple, ast.List)):
        return set().union(set(), *[key_parts(sl, x) for x in e.elts])
    out = {ast.unparse(e)}
    if isinstance(e, ast.Name):
        ds = sl.defs.get(e.id, ())
        if len(ds) == 1 and isinstance(ds[0][0], (ast.Tuple, ast.List)):
            out |= key_parts(sl, ds[0][0])
    return out


def stores_of(f, text):
    """(statement, key expression, value expression) of every store into the table"""
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and ast.unparse(t.value) == text:
                    yield s, t.slice, s.value
        elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('setdefault', '__setitem__') and ast.unparse(s.func.value) == text and len(s.args) == 2:
            yield s, s.args[0], s.args[1]


def enclosing(f, stmt):
    out = []

    def go(body, ctx):
        for s in body:
            if s is stmt or any(x is stmt for x in ast.walk(s)) and not any(isinstance(getattr(s, fl, None), list) for fl in ('body',)):
                out.extend(ctx)
                return True
            c2 = ctx + [s] if isinstance(s, (ast.If, ast.While)) else ctx
            for fld in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, fld, None)
                if isinstance(sub, list) and go(sub, c2):
                    return True
            for h in getattr(s, 'handlers', []):
                if go(h.body, ctx):
                    return True
        return False
    go(f.node.body, [])
    return tuple(out)


def missing(f, stmt, key, values):
    """inputs the values depend on and the key does not determine"""
    sl = Slice(f)
    have = sl.exact(key)
    sl2 = Slice(f, key_parts(sl, key))
    out = set()
    enc = enclosing(f, stmt) if stmt is not None else ()
    for v in values:
        out |= {p for p in sl2.deps(v, enc) if not covered(p, have)}
    return out


# ---------------------------------------------------------------- memoised functions
OPEN = {'open', 'io.open', 'tarfile.open', 'zipfile.ZipFile', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'os.stat', 'os.path.getsize', 'os.path.getmtime', 'os.listdir',
        'os.path.exists', 'os.scandir', 'glob.glob', 'h5py.File', 'astropy.io.fits.open', 'gzip.open', 'json.load', 'sqlite3.connect', 'tarfile.TarFile', 'os.path.isfile', 'os.path.isdir'}
AMBIENT = {'time.time', 'time.monotonic', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.now', 'datetime.utcnow', 'os.getcwd', 'os.getenv', 'random.random', 'numpy.random.rand',
           'numpy.random.randn', 'numpy.random.random', 'ephem.now', 'datetime.datetime.today', 'datetime.date.today', 'numpy.random.normal', 'time.strftime', 'os.getpid'}


def handle(sl, e):
    """an open file (of the packaged data, say), not a name of one"""
    return all(isinstance(v, ast.Call) and (v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, 'id', '')) in ('open', 'BytesIO', 'StringIO', 'extractfile') for v, _ in sl.defs[e.id])


def opens(repo, E, f, depth=0, busy=()):
    """parameters of f that name a file f looks at: {param: line}"""
    out = {}
    if depth > 3 or f in busy or isinstance(f.node, ast.Lambda):
        return out
    sl = Slice(f)
    loc = E.nom.locals(f)
    for c in names.own(f.node):
        if not isinstance(c, ast.Call):
            continue
        r = repo.dotted(f.mod, c.func, loc)
        nm = r[1] if r is not None and r[0] in ('ext', 'builtin') else None
        if nm in OPEN and c.args:
            if isinstance(c.args[0], ast.Name) and any(isinstance(v, ast.Call) for v, _ in sl.defs.get(c.args[0].id, ())) and nm not in ('tarfile.open', 'os.stat') and handle(sl, c.args[0]):
                continue
            for p in sl.deps(c.args[0]):
                out.setdefault(p[0], c.lineno)
        elif r is not None and r[0] == 'func':
            sub = opens(repo, E, r[1], depth + 1, busy + (f,))
            for pn, arg in E.bind(r[1], 0, c):
                if pn in sub:
                    for p in sl.deps(arg):
                        out.setdefault(p[0], c.lineno)
    return out


STAT = ('os.stat', 'os.fstat', 'os.path.getmtime', 'os.lstat')


def stat_args(repo, E, memo, busy=()):
    """does every caller pass something that changes with the file (its modification time, size, inode)?"""
    seen = 0
    for g in repo.funcs():
        for c in names.own(g.node):
            if isinstance(c, ast.Call):
                r = repo.dotted(g.mod, c.func, E.nom.locals(g))
                if r is not None and r[0] == 'func' and r[1] is memo:
                    seen += 1
                    ok = False
                    sl = Slice(g)
                    params = {a.arg for a in g.node.args.args + g.node.args.kwonlyargs}
                    todo, done = [a for a in c.args] + [k.value for k in c.keywords], set()
                    while todo:
                        e = todo.pop()
                        for x in ast.walk(e):
                            if isinstance(x, ast.Call):
                                rr = repo.dotted(g.mod, x.func, E.nom.locals(g))
                                if rr is not None and rr[0] == 'ext' and rr[1] in STAT:
                                    ok = True
                                elif rr is not None and rr[0] == 'func':
                                    todo.extend(y.value for y in ast.walk(rr[1].node) if isinstance(y, ast.Return) and y.value is not None and rr[1] not in done)
                                    todo.extend(y.value for y in ast.walk(rr[1].node) if isinstance(y, ast.Assign) and rr[1] not in done)
                                    done.add(rr[1])
                            if isinstance(x, ast.Name) and x.id not in done:
                                done.add(x.id)
                                todo.extend(v for v, _ in sl.defs.get(x.id, ()))
                    if not ok and done & params and g is not memo and g not in busy:
                        ok = stat_args(repo, E, g, busy + (memo,))      # handed on: what do the callers of this one give?
                    if not ok:
                        return False
    return seen > 0


def ambient(repo, E, f, changing, out):
    loc = E.nom.locals(f)
    where = '%s:%s' % (f.mod.rel, f.qual)
    for c in names.own(f.node):
        if isinstance(c, (ast.Call, ast.Attribute, ast.Name)):
            r = repo.dotted(f.mod, c.func if isinstance(c, ast.Call) else c, loc)
            if r is None:
                continue
            if r[0] == 'ext' and isinstance(c, ast.Call) and r[1] in AMBIENT or r[0] == 'ext' and r[1] == 'os.environ':
                out.append(Finding('memo-ambient', '%s:%s' % (where, r[1]), site(f, c.lineno), 'the memoised function reads %s, which changes between calls' % r[1]))
            if isinstance(c, ast.Name) and r[0] == 'val' and isinstance(c.ctx, ast.Load):
                g = E.glob(f, c.id)
                src = [x.value for x in r[1] if isinstance(x, ast.Assign)]
                if g in changing:
                    out.append(Finding('memo-ambient', '%s:%s' % (where, c.id), site(f, c.lineno), 'the memoised function reads %s, which other functions change' % c.id))
                elif any('LSL_CONFIG' in ast.unparse(x) for x in src):
                    out.append(Finding('memo-ambient', '%s:%s' % (where, c.id), site(f, c.lineno), 'the memoised function reads the user configuration %s, which can change between calls' % c.id))
    for p, line in sorted(opens(repo, E, f).items()):
        if not stat_args(repo, E, f):
            out.append(Finding('memo-ambient', '%s:%s' % (where, p), site(f, line), 'the memoised function looks at the file named by %r, which can change while its name stays the same' % p))
    if f.cls is not None and not f.is_static and not f.is_class:
        me = f.node.args.args[0].arg if f.node.args.args else None
        written = set()
        for k in [f.cls] + repo.subclasses(f.cls) + repo.mro(f.cls)[0]:
            for ms in k.methods.values():
                for g in ms:
                    if g.node.name == '__init__' or g is f:
                        continue
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and g.node.args.args and x.value.id == g.node.args.args[0].arg:
                            written.add(x.attr)
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Load) and (x.attr in written or not x.attr.startswith('_') and repo.method(f.cls, x.attr) is None):
                out.append(Finding('memo-ambient', '%s:self.%s' % (where, x.attr), site(f, x.lineno), 'the memoised method reads self.%s, which can change between calls' % x.attr))
                break


# ---------------------------------------------------------------- containers kept by classes
MUTM = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'sort', 'reverse', 'add', 'discard', 'setdefault', 'popitem', 'appendleft', 'popleft', 'fill', 'resize', '__setitem__'}


def attr_writes(repo, c, attr):
    """(method, line) of each in-place change of self.<attr> in the hierarchy of c"""
    out, fresh = [], []
    fam = list(dict.fromkeys(repo.mro(c)[0] + repo.subclasses(c)))
    for k in fam:
        for ms in k.methods.values():
            for g in ms:
                if g.is_static or not g.node.args.args:
                    continue
                me = g.node.args.args[0].arg

                def mine(x):
                    return isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id in (me, k.name, 'cls')

                def below(x):
                    while isinstance(x, (ast.Subscript, ast.Attribute)) and not mine(x):
                        x = x.value
                    return mine(x)
                for x in ast.walk(g.node):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and below(x.value):
                        out.append((g, x.lineno))
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTM and below(x.func.value) and mine(x.func.value):
                        out.append((g, x.lineno))
                    elif isinstance(x, ast.AugAssign) and mine(x.target):
                        out.append((g, x.lineno))
                    elif isinstance(x, ast.Assign) and any(mine(t) for t in x.targets):
                        fresh.append((g, x))
    return out, fresh


def check(repo, res):
    E = State(repo)
    out = []
    n = dict(functions_with_state_rules=0, memoised_functions=0, memo_tables=0, memo_stores=0, mutable_defaults=0, class_containers=0, shared_objects_written=0)
    funcs = [f for f in repo.funcs() if not f.mod.name.startswith(SKIP)]
    tables, changing = {}, set()
    for f in funcs:
        n['functions_with_state_rules'] += 1
        E.analyse(f)
    for f in funcs:
        for (k, line), (why, deep) in sorted(E.writes.get(f, {}).items(), key=str):
            if not isinstance(k, tuple):
                continue
            if k[0] == 'c':
                out.append(Finding('cached-modified', '%s:%s:%s' % (f.mod.rel, f.qual, k[1].qual), site(f, line),
                                   'the remembered result of %s() is modified (%s), so later calls get the modified object' % (k[1].qual, why)))
                continue
            if why.startswith('call of') and why.count('.') == 1 and not any(mutable(x.value) for x in repo.mods[k[1]].bind.get(k[2], ()) if isinstance(x, ast.Assign)):
                continue          # an object managing itself (open-file registry, cache directory)
            tables.setdefault(k, []).append((f, line, why))
        for s in ast.walk(f.node):
            if isinstance(s, ast.Global):
                changing |= {('g', f.mod.name, x) for x in s.names}
    # module-level objects that functions write to
    for k, ws in sorted(tables.items(), key=str):
        n['shared_objects_written'] += 1
        changing.add(k)
        init = [x.value for x in repo.mods[k[1]].bind.get(k[2], ()) if isinstance(x, ast.Assign)]
        memo = all(isinstance(x, ast.Dict) and not x.keys or isinstance(x, ast.Call) and not x.args and not x.keywords for x in init) and init and not filled(repo.mods[k[1]], k[2])
        n['memo_tables'] += bool(memo)
        for f, line, why in ws:
            where = '%s:%s:%s' % (f.mod.rel, f.qual, k[2])
            sts = [s for s in stores_of(f, k[2]) if s[0].lineno <= line <= getattr(s[0], 'end_lineno', line)] if memo else []
            if memo and sts:
                for stmt, key, val in sts:
                    n['memo_stores'] += 1
                    bad = lift(repo, E, f, stmt, key, [val], 0)
                    if bad:
                        out.append(Finding('memo-key', where, site(f, line), 'the entry stored in %s depends on %s, which its key does not determine' % (k[2], ', '.join(sorted('.'.join(p) for p in bad)))))
            elif memo and (why.startswith('call of %s.' % k[2]) and why.rsplit('.', 1)[-1] in ('pop', 'clear', 'popitem', 'move_to_end', 'setdefault') or isinstance_del(f, line)):
                pass          # dropping entries only costs time
            elif memo:
                out.append(Finding('cached-modified', where, site(f, line), 'an entry of the memo table %s is modified after it was stored (%s)' % (k[2], why)))
            else:
                out.append(Finding('shared-modified', where, site(f, line), 'the module-level object %s.%s is modified (%s): later calls see the change' % (k[1], k[2], why)))
    out += rebound(repo, E, funcs, n)
    # memoised functions
    for f in funcs:
        if is_memo(f):
            n['memoised_functions'] += 1
            ambient(repo, E, f, changing, out)
    # default argument values
    for f in funcs:
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in pairs:
            if not mutable(d):
                continue
            n['mutable_defaults'] += 1
            ws = [(ln, w) for (p, ln), w in E.writes.get(f, {}).items() if p == x.arg]
            where = '%s:%s:%s' % (f.mod.rel, f.qual, x.arg)
            if ws:
                out.append(Finding('default-modified', where, site(f, min(ws)[0]), 'the default value of %r is created once and modified here (%s)' % (x.arg, min(ws)[1][0])))
                continue
            if f.cls is not None and f.node.args.args:
                me = f.node.args.args[0].arg
                for s in ast.walk(f.node):
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and s.value.id == x.arg:
                        for t in s.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                                w, _ = attr_writes(repo, f.cls, t.attr)
                                if w:
                                    out.append(Finding('default-modified', where, site(w[0][0], w[0][1]), 'the default value of %r is kept as self.%s and modified here, for all objects that use the default' % (x.arg, t.attr)))
    # containers of classes
    for m in repo.mods.values():
        if m.name.startswith(SKIP) or not m.name.startswith('lsl'):
            continue
        for c in m.classes.values():
            for s in c.node.body:
                if isinstance(s, ast.Assign) and (mutable(s.value) or isinstance(s.value, ast.Name) and shared_table(repo, m, s.value.id)):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            n['class_containers'] += 1
                            w, fresh = attr_writes(repo, c, t.id)
                            if w and isinstance(s.value, (ast.Dict, ast.Call)) and not getattr(s.value, 'keys', None) and not getattr(s.value, 'args', None):
                                # an empty table shared by the class: a memo if every write is a keyed store
                                n['memo_tables'] += 1
                                rest = []
                                for g, line in w:
                                    me = g.node.args.args[0].arg
                                    sts = [x for b in (me, c.name) for x in stores_of(g, '%s.%s' % (b, t.id)) if x[0].lineno == line]
                                    if not sts:
                                        rest.append((g, line))
                                    for stmt, key, val in sts:
                                        n['memo_stores'] += 1
                                        bad = {p for p in lift(repo, E, g, stmt, key, [val], 0) if not (g.is_class and p[0] == me)}
                                        if bad:
                                            out.append(Finding('memo-key', '%s:%s:%s' % (m.rel, g.qual, t.id), site(g, line), 'the entry stored in %s, which all objects share, depends on %s, which its key does not determine'
                                                               % (t.id, ', '.join(sorted('.'.join(p) for p in bad)))))
                                w = [x for x in rest if not isinstance_del(*x)]
                            if w and not any(g.node.name == '__init__' for g, _ in fresh):
                                out.append(Finding('class-modified', '%s:%s.%s' % (m.rel, c.qual, t.id), site(w[0][0], w[0][1]), 'the container %s belongs to the class and is modified here for all its objects' % t.id))
    res.count(**n)
    return out


SEED = {'numpy.random.seed', 'random.seed', 'numpy.random.set_state', 'random.setstate'}


def rebound(repo, E, funcs, n):
    """state in module-level names, in attributes of functions, classes or modules, and in the random generators of the process"""
    out = []
    n['names_and_attributes_rebound'] = 0
    for f in funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        loc = E.nom.locals(f)
        glob = {x for s in names.own(f.node) if isinstance(s, ast.Global) for x in s.names}
        sl = None
        for s in names.own(f.node):
            if isinstance(s, ast.Call):
                r = repo.dotted(f.mod, s.func, loc)
                if r is not None and r[0] == 'ext' and r[1] in SEED:
                    out.append(Finding('process-state', '%s:%s:%s' % (f.mod.rel, f.qual, r[1]), site(f, s.lineno), '%s() changes the random numbers that later calls in the whole process get' % r[1]))
            if not isinstance(s, (ast.Assign, ast.AugAssign)):
                continue
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                nm = None
                if isinstance(t, ast.Name) and t.id in glob:
                    nm = t.id
                elif isinstance(t, ast.Attribute):
                    r = repo.dotted(f.mod, t.value, loc)
                    if r is not None and r[0] in ('func', 'class', 'mod') and not (r[0] == 'class' and f.cls is not None and f.is_class):
                        nm = ast.unparse(t)
                if nm is None:
                    continue
                n['names_and_attributes_rebound'] += 1
                sl = sl or Slice(f)
                dep = sorted({p[0] for p in sl.deps(s.value)} - {'self', 'cls'})
                if isinstance(s, ast.AugAssign) or dep:
                    if used(repo, f, nm, s):
                        out.append(Finding('state-kept', '%s:%s:%s' % (f.mod.rel, f.qual, nm), site(f, s.lineno), '%s is set from %s and read again by later calls, which get what an earlier call left there'
                                           % (nm, ', '.join(dep) or 'its old value')))
    return out


def used(repo, f, nm, stmt):
    """is the name or attribute read anywhere in its module, other than in a test of whether it is set at all?"""
    last = nm.split('.')[-1]
    for g in f.mod.funcs:
        for x in ast.walk(g.node):
            if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, ast.Load) and ast.unparse(x) == nm:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'getattr' and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == last:
                return True
    return False


def shared_table(repo, m, name):
    r = repo.lookup(m.name, name)
    return r is not None and r[0] == 'val' and bool(r[1]) and all(isinstance(x, ast.Assign) and mutable(x.value) for x in r[1])


def filled(mod, name):
    """the module itself puts entries into the table when it is loaded"""
    for s in mod.tree.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for x in ast.walk(s):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == name:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTM and isinstance(x.func.value, ast.Name) and x.func.value.id == name:
                return True
    return False


def isinstance_del(f, line):
    return any(isinstance(s, ast.Delete) and s.lineno == line for s in ast.walk(f.node))


def lift(repo, E, f, stmt, key, values, depth):
    """missing key components; a private helper that is handed both key and value is judged at its callers"""
    bad = missing(f, stmt, key, values)
    if not bad or depth > 2 or not f.node.name.startswith('_'):
        return bad
    sl = Slice(f)
    kp = {p[0] for p in sl.deps(key)}
    vp = {p[0] for v in values for p in sl.deps(v)}
    me = f.node.args.args[0].arg if f.cls is not None and f.node.args.args else None
    if any(p not in sl.params for p in kp | vp) or me in kp | vp:
        return bad
    # what the key keeps of its parts, and what it loses: the latter must follow from the former at every caller
    whole, lost = {p[0] for p in sl.exact(key)}, {p[0] for p in bad}
    res, seen = set(), 0
    for g in repo.funcs():
        for c in names.own(g.node):
            if isinstance(c, ast.Call):
                r = repo.dotted(g.mod, c.func, E.nom.locals(g))
                if r is not None and r[0] == 'func' and r[1] is f:
                    seen += 1
                    b = E.bind(f, 0, c)
                    ks = [x for p, x in b if p in whole]
                    vs = [x for p, x in b if p in lost]
                    res |= lift(repo, E, g, c, ast.Tuple(elts=ks, ctx=ast.Load()), vs, depth + 1)
    return res if seen else bad
