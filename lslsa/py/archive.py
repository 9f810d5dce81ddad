"""
Unpacking of archives: a path-sensitive guard analysis.  At every extraction of an archive member the
tests passed on the way must show that the place it is written to lies inside the scratch directory and
that the member is not a link; names taken from the archive may only be opened under the same tests.
"""
import ast
import copy
from collections import namedtuple
from ..common import Finding
from .cachefill import BCFG, mapset, getm, SUB
from . import cfg as C
from .pypos import path, params
from .pyscope import Scope, post

W = namedtuple('W', 'facts env exc')
W0 = W(frozenset(), frozenset(), None)
LIMIT = 4000
PURE = ('os.path.join', 'os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'os.path.commonpath', 'os.path.commonprefix', 'os.path.relpath', 'os.path.dirname', 'os.path.basename',
        'os.path.normcase', 'str', 'os.path.sep.join', 'pathlib.Path')
NORM = ('os.path.abspath', 'os.path.normpath', 'os.path.realpath', 'os.path.normcase')


class TooMany(Exception):
    pass


class One(ast.NodeTransformer):
    """a loop over a literal of one element becomes a block that can be left early"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Tuple, ast.List)) and len(n.iter.elts) == 1 and not isinstance(n.iter.elts[0], ast.Starred) and not n.orelse:
            class B(ast.NodeTransformer):
                def visit_Continue(self, y):
                    return ast.copy_location(ast.Break(), y)

                def visit_For(self, y):
                    return y

                def visit_While(self, y):
                    return y
            body = [B().visit(b) for b in n.body]
            a = ast.copy_location(ast.Assign(targets=[n.target], value=n.iter.elts[0]), n)
            w = ast.copy_location(ast.While(test=ast.copy_location(ast.Constant(value=True), n), body=[a] + body + [ast.copy_location(ast.Break(), n)], orelse=[]), n)
            return w
        return n


_NI = {}


def names_in(s):
    if s not in _NI:
        _NI[s] = _names_in(s)
    return _NI[s]


def _names_in(s):
    try:
        return {y.id for y in ast.walk(ast.parse(s, mode='eval')) if isinstance(y, ast.Name)}
    except SyntaxError:
        return set()


class Arch(object):
    def __init__(self, repo):
        self.repo = repo
        self.scope = Scope(repo)
        self.findings, self.und = [], []
        self.n = dict(extractions=0, reads=0, functions=0, worlds=0)
        self.keys = set()
        self.mem = {}
        self.fx = {}
        self.obl = {}

    def bad(self, rule, f, what, line, msg):
        x = Finding(rule, '%s [%s]' % (f.qual, what), '%s:%d' % (f.mod.rel, line), msg)
        if x.key not in self.keys:
            self.keys.add(x.key)
            self.findings.append(x)

    def callee(self, f, c):
        fn = c.func
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls') and f.cls is not None:
            return self.repo.method(f.cls, fn.attr)
        r = self.repo.dotted(f.mod, fn)
        return r[1] if r is not None and r[0] == 'func' else None

    def gives(self, f, e, pred, d=0):
        """the expression is, or the function called by it returns, something satisfying pred"""
        if isinstance(e, ast.Call):
            if pred(f, e):
                return True
            g = self.callee(f, e)
            if g is not None and d < 4:
                return any(isinstance(n, ast.Return) and n.value is not None and self.gives(g, n.value, pred, d + 1) for n in ast.walk(g.node))
        if isinstance(e, ast.Name) and d < 4:
            return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and self.gives(f, n.value, pred, d + 1) for n in ast.walk(f.node)) \
                or any(isinstance(n, (ast.With,)) and any(isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == e.id and self.gives(f, i.context_expr, pred, d + 1) for i in n.items) for n in ast.walk(f.node))
        return False

    def is_tar(self, f, e):
        return self.gives(f, e, lambda g, c: self.scope.ext(g, c.func) in ('tarfile.open', 'tarfile.TarFile', 'tarfile.TarFile.open'))

    def is_zip(self, f, e):
        return self.gives(f, e, lambda g, c: (self.scope.ext(g, c.func) or '').startswith('zipfile.'))

    def is_members(self, f, e):
        return self.gives(f, e, lambda g, c: isinstance(c.func, ast.Attribute) and c.func.attr == 'getmembers') or \
            (isinstance(e, ast.Name) and self.is_tar(f, e))

    def relevant(self, f):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('extract', 'extractall') and (n.args or n.keywords)
                   and (self.is_tar(f, n.func.value) or isinstance(n.func.value, ast.Name) and n.func.value.id in params(f.node)[0]) and not self.is_zip(f, n.func.value) for n in ast.walk(f.node))

    def exit_facts(self, g):
        """(facts holding whenever g returns something true, whenever it returns at all) in terms of its parameters"""
        k = id(g.node)
        if k in self.fx:
            return self.fx[k]
        self.fx[k] = (frozenset(), frozenset())
        if len(list(ast.walk(g.node))) > 600:
            return self.fx[k]          # not a predicate
        try:
            w = Walk(self, g, quiet=True)
        except (TooMany, RecursionError):
            return self.fx[k]
        T, N = None, None
        ps = set(params(g.node)[0])
        for x in w.IN.get(w.g.exit.id, ()):
            fs = set(y for y in x.facts if all(names_in(p) <= ps | {'os', 'tarfile'} for p in y[0][1:]) and y[0][0] in ('eq', 'truth', 'in', 'lt'))
            for p in ps:
                if w.nolink(x, p):
                    fs.add((('nolink', p), True))
                for q in ps - {p}:
                    if w.contained(x, p, q) == 'in':
                        fs.add((('within', p, q), True))
            r = getm(x.facts, ('ret', '_'))
            N = set(fs) if N is None else N & fs
            if r is not False:
                T = set(fs) if T is None else T & fs
        self.fx[k] = (frozenset(T or ()), frozenset(N or ()))
        return self.fx[k]


class Walk(object):
    def __init__(self, A, f, quiet=False, init=frozenset()):
        self.A, self.f, self.quiet = A, f, quiet
        node = ast.fix_missing_locations(One().visit(copy.deepcopy(f.node)))
        self.node_ = node
        self.g = BCFG(node)
        self.dirs = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('extract', 'extractall'):
                d = self.darg(n)
                if d is not None:
                    self.dirs.add(ast.unparse(d))
        self.rel = None
        if not quiet:
            rel = set()
            for n in ast.walk(node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('extract', 'extractall'):
                    for a in n.args:
                        rel |= names_in(ast.unparse(a))
                if isinstance(n, ast.Call) and ast.unparse(n.func).endswith('path.join'):
                    for a in n.args:
                        if isinstance(a, ast.Attribute) and a.attr in ('name', 'path') and isinstance(a.value, ast.Name):
                            rel.add(a.value.id)
            for _ in range(3):
                for n in ast.walk(node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in rel for t in n.targets):
                        rel |= {y.id for y in ast.walk(n.value) if isinstance(y, ast.Name)} - {'os', 'tarfile', 'self', 'tempfile', 'shutil'}
            self.rel = rel
        # truth values that remember a test of a member
        self.flags = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and not isinstance(n.value, ast.Constant) and self.rel is not None \
                    and {y.id for y in ast.walk(n.value) if isinstance(y, ast.Name)} & self.rel:
                self.flags.add(n.targets[0].id)
        self.need = []            # obligations left to the callers: (member text, dir text)
        self.IN = C.forward(self.g, frozenset([W0._replace(facts=init)]), self.transfer, self.join, self.edge)
        A.n['worlds'] += sum(len(v) for v in self.IN.values())

    def join(self, a, b):
        r = a | b
        if len(r) > LIMIT:
            raise TooMany()
        return r

    def darg(self, c):
        i = 1 if c.func.attr == 'extract' else 0
        return c.args[i] if len(c.args) > i else next((k.value for k in c.keywords if k.arg == 'path'), None)

    # ------------------------------------------------------------ canonical text
    def can(self, e, w):
        env = dict(w.env)

        class T(ast.NodeTransformer):
            def visit_Name(self, y):
                if isinstance(y.ctx, ast.Load) and y.id in env:
                    try:
                        return ast.parse(env[y.id], mode='eval').body
                    except SyntaxError:
                        return y
                return y
        return ast.unparse(T().visit(copy.deepcopy(e)))

    def pure(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                nm = self.A.scope.ext(self.f, n.func) or ''
                if nm.lstrip('?') not in PURE and not (isinstance(n.func, ast.Attribute) and n.func.attr in ('startswith', 'endswith', 'isfile', 'isdir', 'isreg', 'issym', 'islnk', 'isdev', 'replace', 'lstrip')):
                    return False
            elif isinstance(n, (ast.Yield, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.NamedExpr)):
                return False
        return True

    def kill(self, w, name):
        facts = frozenset(x for x in w.facts if name not in set().union(set(), *[names_in(str(p)) for p in x[0][1:]]))
        env = frozenset(x for x in w.env if x[0] != name and name not in names_in(x[1]))
        return w._replace(facts=facts, env=env)

    # ------------------------------------------------------------ tests
    def cond(self, t, w):
        if isinstance(t, ast.Constant):
            return [(bool(t.value), w)]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return [(not v, x) for v, x in self.cond(t.operand, w)]
        if isinstance(t, ast.BoolOp):
            isand = isinstance(t.op, ast.And)
            out, live = [], [w]
            for v in t.values:
                nxt = []
                for x in live:
                    for b, y in self.cond(v, x):
                        if b != isand:
                            out.append((b, y))
                        else:
                            nxt.append(y)
                live = nxt
            return out + [(isand, y) for y in live]
        if isinstance(t, ast.Name):
            v = getm(w.env, t.id)
            if v is not None:
                try:
                    e = ast.parse(v, mode='eval').body
                    if not isinstance(e, ast.Name):
                        return self.cond(e, w)
                except SyntaxError:
                    pass
        if isinstance(t, ast.Call):
            if isinstance(t.func, ast.Name) and t.func.id in ('any', 'all', 'bool') and len(t.args) == 1:
                a = t.args[0]
                if t.func.id == 'bool':
                    return self.cond(a, w)
                if isinstance(a, (ast.Tuple, ast.List)) and a.elts:
                    return self.cond(ast.BoolOp(op=ast.Or() if t.func.id == 'any' else ast.And(), values=list(a.elts)), w)
            g = self.A.callee(self.f, t)
            if g is not None and g.node is not self.f.node:
                T, N = self.A.exit_facts(g)
                b = self.bindings(g, t)
                at = ('truth', self.can(t, w))
                w1 = w._replace(facts=w.facts | self.substf(N, b, w))
                if self.rel is not None and not names_in(at[1]) & self.rel:
                    return [(True, w), (False, w)]
                return [(True, w1._replace(facts=mapset(w1.facts | self.substf(T, b, w), at, True))), (False, w1._replace(facts=mapset(w1.facts, at, False)))]
        at, pos = self.norm(t, w)
        v = getm(w.facts, at)
        if at[0] == 'eq' and at[1] == at[2]:
            return [(pos, w)]
        vals = [v] if v is not None else [True, False]
        if self.rel is not None and not any(names_in(p) & self.rel for p in at[1:]):
            return [(True, w), (False, w)]
        return [(x == pos, w._replace(facts=mapset(w.facts, at, x))) for x in vals]

    def norm(self, t, w):
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            a, b, o = self.can(t.left, w), self.can(t.comparators[0], w), t.ops[0]
            if isinstance(o, (ast.Eq, ast.Is)):
                return ('eq',) + tuple(sorted((a, b))), True
            if isinstance(o, (ast.NotEq, ast.IsNot)):
                return ('eq',) + tuple(sorted((a, b))), False
            if isinstance(o, ast.In):
                return ('in', a, b), True
            if isinstance(o, ast.NotIn):
                return ('in', a, b), False
            T = {ast.Lt: ('lt', a, b, True), ast.GtE: ('lt', a, b, False), ast.Gt: ('lt', b, a, True), ast.LtE: ('lt', b, a, False)}.get(type(o))
            if T:
                return T[:3], T[3]
        return ('truth', self.can(t, w)), True

    def bindings(self, g, c):
        ps = list(params(g.node)[0])
        if g.cls is not None and ps and ps[0] in ('self', 'cls') and not g.is_static:
            ps = ps[1:]
        m = dict(zip(ps, c.args))
        for k in c.keywords:
            if k.arg:
                m[k.arg] = k.value
        return m

    def substf(self, facts, bnd, w):
        out = set()

        def sub(s):
            try:
                t = ast.parse(s, mode='eval').body
            except SyntaxError:
                return s

            class T(ast.NodeTransformer):
                def visit_Name(self, y):
                    return copy.deepcopy(bnd[y.id]) if y.id in bnd else y
            return self.can(T().visit(t), w)
        for at, v in facts:
            a2 = (at[0],) + tuple(sub(p) for p in at[1:])
            if a2[0] == 'eq':
                a2 = ('eq',) + tuple(sorted(a2[1:]))
            out.add((a2, v))
        return frozenset(out)

    # ------------------------------------------------------------ what the facts show
    def target(self, e):
        """(directory, member, normalised) of a path expression join(d, m.name)"""
        norm = False
        while isinstance(e, ast.Call) and len(e.args) >= 1:
            nm = (self.A.scope.ext(self.f, e.func) or '').lstrip('?')
            if nm in NORM:
                norm = True
                e = e.args[0]
            else:
                break
        if isinstance(e, ast.Call) and (self.A.scope.ext(self.f, e.func) or '').lstrip('?') == 'os.path.join' and len(e.args) == 2 and isinstance(e.args[1], ast.Attribute) and e.args[1].attr in ('name', 'path'):
            return ast.unparse(e.args[0]), ast.unparse(e.args[1].value), norm
        return None

    def shows(self, at, v, m, d):
        """'in' contained, 'weak' a test that is not enough, '?' a test that is not understood, '' no bearing"""
        if at[0] in ('contained', 'within'):
            return 'in' if v and at[1] == m and at[2] == d else ''
        try:
            es = [ast.parse(p, mode='eval').body for p in at[1:]]
        except SyntaxError:
            return ''
        def strip(e):
            while isinstance(e, ast.Call) and e.args and (self.A.scope.ext(self.f, e.func) or '').lstrip('?') in NORM:
                e = e.args[0]
            return ast.unparse(e)

        def same(e):
            try:
                return strip(e) == strip(ast.parse(d, mode='eval').body)
            except SyntaxError:
                return False
        if at[0] == 'eq':
            for a, b in (es, es[::-1]):
                if isinstance(a, ast.Call):
                    nm = (self.A.scope.ext(self.f, a.func) or '').lstrip('?')
                    if nm in ('os.path.commonpath', 'os.path.commonprefix') and len(a.args) == 1 and isinstance(a.args[0], (ast.List, ast.Tuple)) and len(a.args[0].elts) == 2:
                        x, y = a.args[0].elts
                        for p, q in ((x, y), (y, x)):
                            if not names_in(m) & names_in(ast.unparse(q)):
                                continue
                            t = self.target(q)
                            if not v or nm != 'os.path.commonpath' or any(isinstance(z, ast.Call) and (self.A.scope.ext(self.f, z.func) or '').lstrip('?') == 'os.path.basename' for z in ast.walk(q)):
                                return 'weak'
                            if t is not None and t[1] == m:
                                td = ast.parse(t[0], mode='eval').body
                                if same(td) and same(p) and same(b):
                                    return 'in' if t[2] else 'weak'
                                if d.startswith('os.path.dirname(') and t[0] in d:
                                    return 'weak'
        if at[0] == 'truth' and isinstance(es[0], ast.Call) and isinstance(es[0].func, ast.Attribute):
            c = es[0]
            if c.func.attr == 'startswith' and c.args:
                t = self.target(c.func.value)
                if t is not None and t[1] == m and t[0] == d and not v:
                    return 'weak'
                if t is not None and t[1] == m and t[0] == d and v:
                    a = c.args[0]
                    s = ast.unparse(a)
                    if t[2] and s in ("%s + os.sep" % d, "%s + os.path.sep" % d, "%s + '/'" % d, "os.path.join(%s, '')" % d, "f'{%s}/'" % d):
                        return 'in'
                    return 'weak' if s == d or not t[2] else '?'
                r = c.func.value
                if isinstance(r, ast.Call) and (self.A.scope.ext(self.f, r.func) or '').lstrip('?') == 'os.path.relpath' and len(r.args) == 2:
                    t = self.target(r.args[0])
                    if v and t is not None and t[1] == m:
                        return 'weak'
                    if t is not None and t[1] == m and ast.unparse(r.args[1]) == d and ast.unparse(c.args[0]) in ("'..'", 'os.pardir', "'../'"):
                        return 'in' if ast.unparse(c.args[0]) != "'../'" else '?'
        # unrelated unless it speaks of both the member and the directory
        tx = [names_in(p) for p in at[1:]]
        both = set().union(*tx) if tx else set()
        if names_in(m) & both and names_in(d) & both:
            return '?'
        return ''

    def contained(self, w, m, d):
        r = [self.shows(at, v, m, d) for at, v in w.facts]
        if 'in' in r:
            return 'in'
        return '?' if '?' in r and 'weak' not in r else 'out'

    def nolink(self, w, m):
        sy = {}
        for at, v in w.facts:
            if at[0] == 'truth':
                s = at[1]
                for k in ('isfile', 'isreg', 'isdir'):
                    if s == '%s.%s()' % (m, k) and v:
                        return True
                for k in ('issym', 'islnk'):
                    if s == '%s.%s()' % (m, k) and not v:
                        sy[k] = True
            if at[0] in ('contained', 'nolink') and v and at[1] == m:
                return True
            if at[0] == 'in' and v and at[1] == m + '.type':
                return True
        return len(sy) == 2

    # ------------------------------------------------------------ calls
    def calls(self, e, w, X):
        A, f = self.A, self.f
        tame = True
        for c in post(e):
            if isinstance(c, (ast.Subscript, ast.Yield, ast.Await)):
                tame = False
            if not isinstance(c, ast.Call):
                continue
            if not A.scope.tame(f, c):
                X.append(w)
            fn = c.func
            if isinstance(fn, ast.Attribute) and fn.attr in ('extract', 'extractall') and (A.is_tar(f, fn.value) or isinstance(fn.value, ast.Name) and fn.value.id in params(f.node)[0]) and not A.is_zip(f, fn.value):
                w = self.extract(c, w)
                continue
            g = A.callee(f, c)
            if g is not None and g.node is not f.node:
                T, N = A.exit_facts(g)
                b = self.bindings(g, c)
                for m, d, line in A.obl.get(id(g.node), ()):
                    fs = self.substf({(('truth', m), True), (('truth', d), True)}, b, w)
                    mm = [self.can(b[m], w) if m in b else None, self.can(b[d], w) if d in b else None]
                    if None not in mm:
                        self.judge(w, mm[0], mm[1], c.lineno, True)
                if N:
                    w = w._replace(facts=w.facts | self.substf(N, b, w))
            self.reads(c, w)
        if not tame:
            X.append(w)
        return w

    def judge(self, w, m, d, line, link):
        A, f = self.A, self.f
        k = self.contained(w, m, d)
        if k != 'in' or not self.nolink(w, m):
            ps = params(f.node)[0]
            if m in ps and d in ps and k != '?' and not link:
                self.need.append((m, d, line))
                return
        if k == 'out':
            if not self.quiet:
                A.bad('unpack-outside', f, 'member %s' % m, line, 'the member %s can be unpacked outside of %s: no test on some path shows where it would end up' % (m, d))
        elif k == '?':
            A.und.append('%s:%d' % (f.qual, line))
        elif not self.nolink(w, m) and not self.quiet:
            A.bad('unpack-link', f, 'member %s' % m, line, 'the member %s can be a link: what is written or read through it lies outside of %s' % (m, d))
        if getm(w.facts, ('exhausted', m)) and not self.quiet:
            A.bad('search-found-nothing', f, 'member %s' % m, line, 'the search for %s can end without a find and its last candidate is used' % m)

    def extract(self, c, w):
        A, f = self.A, self.f
        if not self.quiet:
            A.n['extractions'] += 1
        flt = next((k.value for k in c.keywords if k.arg == 'filter'), None)
        safe = flt is not None and ast.unparse(flt) in ("'data'", "'tar'", 'tarfile.data_filter') and ast.unparse(flt) != "'tar'"
        d = self.darg(c)
        if d is None:
            if not self.quiet:
                A.bad('unpack-outside', f, ast.unparse(c)[:60], c.lineno, 'members are unpacked into the working directory')
            return w
        d = self.can(d, w)
        if c.func.attr == 'extractall':
            ms = next((k.value for k in c.keywords if k.arg == 'members'), c.args[1] if len(c.args) > 1 else None)
            if not safe and not self.quiet:
                if ms is None:
                    A.bad('unpack-outside', f, 'all members', c.lineno, 'all members are unpacked into %s whatever their names' % d)
                else:
                    A.und.append('%s:%d' % (f.qual, c.lineno))
            return w
        m = self.can(c.args[0], w) if c.args else None
        if m is None:
            return w
        if not safe:
            self.judge(w, m, d, c.lineno, False)
        elif getm(w.facts, ('exhausted', m)) and not self.quiet:
            A.bad('search-found-nothing', f, 'member %s' % m, c.lineno, 'the search for %s can end without a find and its last candidate is used' % m)
        return w._replace(facts=mapset(w.facts, ('contained', m, d), True))

    def reads(self, c, w):
        A, f = self.A, self.f
        nm = (A.scope.ext(f, c.func) or '').lstrip('?')
        if nm.startswith('os.path.') or self.quiet:
            return
        for a in list(c.args) + [k.value for k in c.keywords]:
            try:
                t = self.target(ast.parse(self.can(a, w), mode='eval').body)
            except SyntaxError:
                continue
            if t is None or t[0] not in self.dirs:
                continue
            A.n['reads'] += 1
            k = self.contained(w, t[1], t[0])
            if k == 'out':
                A.bad('read-outside', f, 'member %s' % t[1], c.lineno, 'the name of %s is opened although it may lead outside of %s' % (t[1], t[0]))
            elif k == '?':
                A.und.append('%s:%d' % (f.qual, c.lineno))

    # ------------------------------------------------------------ nodes
    def transfer(self, n, ws):
        if n.kind in ('entry', 'exit', 'rexit', 'finally', 'jump', 'def', 'case', 'join', 'pass', 'dispatch', 'with_exit'):
            return ws, ws
        out, X = set(), []
        for w in ws:
            if n.kind == 'handler':
                w = w._replace(exc=None)
                if n.ast.name:
                    w = self.kill(w, n.ast.name)
                out.add(w)
                continue
            x = []
            out.update(self.step(n, w, x))
            X += x
        if len(out) > LIMIT:
            raise TooMany()
        return frozenset(out), frozenset(w if isinstance(w.exc, str) else w._replace(exc='any') for w in X)

    def bindt(self, t, w):
        for y in ast.walk(t):
            if isinstance(y, ast.Name):
                w = self.kill(w, y.id)
        return w

    def step(self, n, w, X):
        a = n.ast
        if n.kind == 'test':
            w = self.calls(n.extra, w, X)
            X.append(w)
            return [x._replace(exc=('br', b)) for b, x in self.cond(n.extra, w)]
        if n.kind == 'eval':
            return [self.calls(a, w, X)]
        if n.kind == 'iter':
            X.append(w)
            lid = ('loop', str(n.id))
            if self.rel is not None and not (isinstance(a.target, ast.Name) and a.target.id in self.rel):
                return [self.bindt(a.target, w)._replace(exc=('br', True)), w._replace(exc=('br', False))]
            L = self.can(a.iter, w)
            v = a.target.id if isinstance(a.target, ast.Name) else None
            st = getm(w.facts, lid)
            good = [at for at, val in w.facts if at[0] == 'contained' and val and v is not None and at[1] == v]
            ds = {at[2] for at in good} | {d for d in self.dirs if v is not None and self.contained(w, v, d) == 'in'}
            if st is None:
                sofar = None
            elif st == 'first':
                sofar = frozenset(ds)
            else:
                sofar = frozenset(ds) & st
            base = w._replace(facts=mapset(w.facts, lid, None))
            brk = any(isinstance(y, ast.Break) for b in a.body for y in ast.walk(b))
            # another element
            t = self.bindt(a.target, base)
            t = t._replace(facts=mapset(t.facts, lid, 'first' if sofar is None else sofar if sofar else frozenset()))
            for at, val in list(base.facts):
                if at[0] == 'all' and at[1] == L and v is not None:
                    t = t._replace(facts=mapset(t.facts, ('contained', v, at[2]), True))
            # none left
            e = base
            if v is not None and st is not None and brk and self.A.is_members(self.f, a.iter):
                e = e._replace(facts=mapset(e.facts, ('exhausted', v), True))
            for d in (self.dirs if sofar is None else sofar):
                e = e._replace(facts=mapset(e.facts, ('all', L, d), True))
            return [t._replace(exc=('br', True)), e._replace(exc=('br', False))]
        if n.kind == 'with_enter':
            for it in a.items:
                w = self.calls(it.context_expr, w, X)
                X.append(w)
                if it.optional_vars is not None:
                    w = self.bindt(it.optional_vars, w)
            return [w]
        if n.kind == 'raise':
            ex = 'any'
            if isinstance(a, ast.Raise) and a.exc is not None:
                e = a.exc.func if isinstance(a.exc, ast.Call) else a.exc
                if isinstance(e, ast.Name) and e.id[:1].isupper():
                    ex = e.id
            X.append(w._replace(exc=ex))
            return []
        if n.kind == 'return':
            if a.value is None:
                return [w._replace(facts=mapset(w.facts, ('ret', '_'), False))]
            w = self.calls(a.value, w, X)
            if self.quiet and len(self.g.nodes) < 120:
                return [x._replace(facts=mapset(x.facts, ('ret', '_'), b)) for b, x in self.cond(a.value, w)]
            return [w]
        if isinstance(a, ast.Assign):
            w = self.calls(a.value, w, X)
            ws = [w]
            if len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
                n_ = a.targets[0].id
                if self.can(a.value, w) == n_:
                    return [w]
                if isinstance(a.value, ast.Constant) and isinstance(a.value.value, bool) and (self.quiet or n_ in self.flags) or (self.pure(a.value) and n_ not in names_in(self.can(a.value, w))):
                    t = self.can(a.value, w)
                    w2 = self.kill(w, n_)
                    if self.rel is not None and not names_in(t) & self.rel and not isinstance(a.value, ast.Constant):
                        return [w2]
                    return [w2._replace(env=mapset(w2.env, n_, t))]
                if isinstance(a.value, ast.Call):
                    g = self.A.callee(self.f, a.value)
                    if g is not None and g.node is not self.f.node and self.A.exit_facts(g)[0] - self.A.exit_facts(g)[1]:
                        # remembers the outcome of a test made by a function
                        t = self.can(a.value, w)
                        w2 = self.kill(w, n_)
                        return [w2._replace(env=mapset(w2.env, n_, t))]
            for t in a.targets:
                if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                    w = self.bindt(t, w)
            return [w]
        if isinstance(a, (ast.AugAssign, ast.AnnAssign)):
            if a.value is not None:
                w = self.calls(a.value, w, X)
            return [self.bindt(a.target, w) if isinstance(a.target, ast.Name) else w]
        if isinstance(a, ast.Assert):
            w = self.calls(a.test, w, X)
            out = []
            for b, x in self.cond(a.test, w):
                (out if b else X).append(x if b else x._replace(exc='AssertionError'))
            return out
        if isinstance(a, ast.Expr):
            return [self.calls(a.value, w, X)]
        if isinstance(a, (ast.Import, ast.ImportFrom)):
            X.append(w)
        return [w]

    def edge(self, n, l, ws):
        if n.kind in ('test', 'iter') and l in ('t', 'f', 'n'):
            return frozenset(w._replace(exc=None) for w in ws if not isinstance(w.exc, tuple) or w.exc[1] == (l == 't')) or None
        if n.kind == 'dispatch' and l == 'x':
            return frozenset(w for w in ws if w.exc in (None, 'any') or not any(self.catches(h, w.exc) for h in n.ast.handlers)) or None
        if n.kind == 'dispatch':
            return ws or None
        return ws or None

    def catches(self, h, exc):
        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            if t is None:
                return True
            s = ast.unparse(t).split('.')[-1]
            if s == exc or s == 'BaseException' or s in SUB.get(exc, {'Exception'}):
                return True
        return False


def check(A):
    fs = [f for f in A.repo.funcs('lsl') if A.relevant(f)]
    callers = []
    for f in fs:
        A.n['functions'] += 1
        try:
            w = Walk(A, f)
        except TooMany:
            A.und.append(f.qual)
            continue
        if w.need:
            A.obl[id(f.node)] = sorted(set(w.need))
            callers.append(f)
    if callers:
        ids = {id(f.node): f for f in callers}
        met = set()
        for f in A.repo.funcs('lsl'):
            if any(isinstance(n, ast.Call) and (lambda g: g is not None and id(g.node) in ids)(A.callee(f, n)) for n in ast.walk(f.node)):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call):
                        g = A.callee(f, n)
                        if g is not None and id(g.node) in ids:
                            met.add(id(g.node))
                try:
                    Walk(A, f)
                except TooMany:
                    A.und.append(f.qual)
        for i, f in ids.items():
            if i not in met:
                for m, d, line in A.obl[i]:
                    A.bad('unpack-outside', f, 'member %s' % m, line, 'the member %s can be unpacked outside of %s: neither this function nor a caller tests where it would end up' % (m, d))
    return len(fs)
