"""
Observing files: what the writer puts under a keyword, the reader has to put back where it came from.

Both sides are evaluated over symbolic values.  The writer yields its lines (keyword, indices, the attributes
written, the conditions on the way); the reader is specialised, keyword by keyword, to the stores the keyword
causes, and those are followed through the construction of the objects to their attributes.
"""
import ast
import re
from ..common import Finding

TOP = ('t',)
STRM = {'startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split', 'rsplit', 'partition', 'rpartition', 'isdigit', 'find', 'index', 'count', 'title', 'removeprefix', 'removesuffix', 'ljust', 'rjust', 'join', 'format', 'zfill', 'center'}
HEAD = re.compile(r'^([A-Z][A-Z0-9]*_[A-Z0-9_]*\+?)((?:\[[^\]]*\]?)*)')
MAXDEPTH = 7


def deps(v):
    """the references a value is made from"""
    k = v[0] if isinstance(v, tuple) and v else None
    if k == 'ref':
        out = {v}
        for p in v[2]:
            if isinstance(p, tuple) and p[0] == 'v':
                out |= deps(p[1])
        return out
    if k == 'd':
        return set(v[1])
    if k in ('alt', 'tup'):
        return set().union(*[deps(x) for x in v[1]]) if v[1] else set()
    if k == 's':
        return set().union(*[deps(p[1]) for p in v[1] if p[0] == 'v']) if v[1] else set()
    if k == 'dict':
        return set().union(*[deps(x) for _, x in v[1]]) if v[1] else set()
    if k == 'copy':
        return deps(v[2])
    if k in ('len', 'rep'):
        return deps(v[1])
    if k == 'mth':
        return deps(v[1])
    return set()


def tags(v):
    k = v[0] if isinstance(v, tuple) and v else None
    if k == 'd':
        return v[2]
    if k in ('alt', 'tup'):
        return frozenset().union(*[tags(x) for x in v[1]]) if v[1] else frozenset()
    if k == 'copy':
        return tags(v[2])
    return frozenset()


def der(vs, tg=()):
    ds, ts = set(), set(tg)
    for v in vs:
        ds |= deps(v)
        ts |= tags(v)
    return ('d', frozenset(ds), frozenset(ts))


def isconst(v):
    return v[0] == 'c'


def alt(vs):
    out = []
    for v in vs:
        for x in (v[1] if v[0] == 'alt' else (v,)):
            if x not in out:
                out.append(x)
    if len(out) > 12:
        return der(out)
    return out[0] if len(out) == 1 else ('alt', tuple(out))


def pieces(v):
    """a value as parts of a text, or None"""
    if v[0] == 's':
        return v[1]
    if v[0] == 'c' and isinstance(v[1], str):
        return (('l', v[1]),)
    return None


def hold(v, spec):
    """a value inserted into a text"""
    if v[0] == 'c' and spec is not None:
        try:
            return (('l', spec % (v[1],)),)
        except Exception:
            pass
    if v[0] == 's' and spec in ('%s', None, ''):
        return v[1]
    return (('v', v, spec),)


def pct(fmt, v):
    """fmt % v"""
    args = list(v[1]) if v[0] == 'tup' else [v]
    out, pos, n = [], 0, 0
    spread = len(args) == 1 and v[0] != 'tup'
    for m in re.finditer(r'%(\([^)]*\))?[-+ #0]*(\*|\d+)?(\.\d+)?[hlL]?([a-zA-Z%])', fmt):
        if m.start() > pos:
            out.append(('l', fmt[pos:m.start()]))
        pos = m.end()
        if m.group(4) == '%':
            out.append(('l', '%'))
            continue
        if m.group(1):
            if v[0] != 'dict':
                return der([v])
            w = dict(v[1]).get(('c', m.group(1)[1:-1]), TOP)
            out += hold(w, m.group(0).replace(m.group(1), ''))
            continue
        if spread:
            w = v if fmt.count('%') == 1 else elem(v, ('c', n))
        elif n < len(args):
            w = args[n]
        else:
            return der([v])
        n += 1
        out += hold(w, m.group(0))
    out.append(('l', fmt[pos:]))
    return ('s', tuple(out))


def elem(v, i):
    """v[i]"""
    if v[0] == 'ref':
        s = ('k', i[1]) if i[0] == 'c' else ('v', i)
        return ('ref', v[1], v[2] + (s,))
    if v[0] == 'tup' and i[0] == 'c' and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
        return v[1][i[1]]
    if v[0] == 'dict' and i[0] == 'c':
        for k, x in v[1]:
            if k == i:
                return x
        return TOP
    if v[0] == 'alt':
        return alt([elem(x, i) for x in v[1]])
    if v[0] == 'rep':
        return v[1]
    if v[0] == 'c' and i[0] == 'c':
        try:
            return ('c', v[1][i[1]])
        except Exception:
            return TOP
    if v[0] in ('d',):
        return ('d', v[1], v[2] | ({'item'} if i[0] == 'c' and 'split' in v[2] else set()))
    return der([v, i])


class Stop(Exception):
    pass


class Frame(object):
    def __init__(self, fn, env, depth, cls=None):
        self.fn, self.env, self.depth, self.cls = fn, env, depth, cls
        self.returns = []


class Event(object):
    __slots__ = ('kind', 'root', 'path', 'value', 'guards', 'loop', 'node', 'cls', 'n')

    def __init__(self, kind, root, path, value, guards, loop, node, cls=None, n=0):
        self.kind, self.root, self.path, self.value, self.guards, self.loop, self.node, self.cls, self.n = kind, root, path, value, guards, loop, node, cls, n


class World(object):
    """the names a module sees: its own functions and classes and those it takes from the library"""

    def __init__(self, P, mod):
        self.P, self.mod = P, mod
        self.funcs, self.classes, self.consts = {}, {}, {}
        self._take(mod, None)
        for name, imp in mod.imports.items():
            if imp[0] == 'from':
                other = self.module(imp[1])
                if other is not None and imp[2] != '*':
                    self._take(other, imp[2], name)

    def module(self, dotted):
        mods = self.P.mods
        return mods.get(dotted) if isinstance(mods, dict) else next((m for m in mods if m.name == dotted), None)

    def _take(self, mod, only, alias=None):
        for s in mod.tree.body:
            if isinstance(s, ast.FunctionDef) and only in (None, s.name):
                self.funcs[alias or s.name] = s
            elif isinstance(s, ast.ClassDef) and only in (None, s.name):
                self.classes[alias or s.name] = s
                if only is not None:
                    for b in s.bases:
                        if isinstance(b, ast.Name) and b.id not in self.classes:
                            self._take(mod, b.id)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and only in (None, s.targets[0].id):
                self.consts[alias or s.targets[0].id] = s.value

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in self.classes and c not in out:
                out.append(c)
                todo += [b.id for b in self.classes[c].bases if isinstance(b, ast.Name)]
        return out

    def method(self, cls, name, after=None, decorated=None):
        """(class, node) of the method that answers"""
        seq = self.mro(cls)
        if after is not None and after in seq:
            seq = seq[seq.index(after) + 1:]
        for c in seq:
            found = None
            for s in self.classes[c].body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    dec = [ast.unparse(d) for d in s.decorator_list]
                    if decorated == 'setter' and any(d.endswith('.setter') for d in dec):
                        found = s
                    elif decorated == 'getter' and 'property' in dec:
                        found = s
                    elif decorated is None and not any(d.endswith('.setter') or d == 'property' for d in dec):
                        found = s
                if found is None and decorated and isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'property' and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    args = list(s.value.args) + [None, None]
                    for k in s.value.keywords:
                        if k.arg in ('fget', 'fset'):
                            args[('fget', 'fset').index(k.arg)] = k.value
                    a = args[0 if decorated == 'getter' else 1]
                    if isinstance(a, ast.Name):
                        found = next((x for x in self.classes[c].body if isinstance(x, ast.FunctionDef) and x.name == a.id), None)
            if found is not None:
                return c, found
        return None, None


class Evaluator(object):
    def __init__(self, world, keyword=None, kwnames=()):
        self.w = world
        self.keyword, self.kwnames = keyword, kwnames
        self.events, self.lines = [], []
        self.guards = []
        self.frames = []
        self.loopdepth = 0            # inside the loop over the lines, after the keyword is known
        self.uid = 0
        self.loops = {}               # path of the things looped over -> number of conditions outside
        self.exits = []
        self.stored = frozenset()
        self.steps = 0
        self.consts = {}
        self.listloop = 0
        self.rounded = []
        self.partial = set()          # loops over only some of the entries
        self.here = None

    # ---------------------------------------------------------------- names
    def lookup(self, name, fr):
        if name in fr.env:
            return fr.env[name]
        if name in self.w.classes:
            return ('cls', name)
        if name in self.w.funcs:
            return ('fn', name)
        if name in self.w.consts:
            if name not in self.consts:
                self.consts[name] = TOP
                n = self.w.consts[name]
                if isinstance(n, (ast.Dict, ast.Tuple, ast.List, ast.Constant, ast.UnaryOp, ast.Set, ast.Lambda)):
                    self.consts[name] = self.ev(n, Frame(None, {}, 0))
            return self.consts[name]
        return ('b', name)

    # ---------------------------------------------------------------- expressions
    def ev(self, n, fr):
        self.steps += 1
        if self.steps > 400000:
            raise Stop()
        m = getattr(self, 'e_' + n.__class__.__name__, None)
        if m is not None:
            return m(n, fr)
        return der([self.ev(c, fr) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)])

    def e_Constant(self, n, fr):
        return ('c', n.value)

    def e_Name(self, n, fr):
        return self.lookup(n.id, fr)

    def e_Attribute(self, n, fr):
        return self.attr(self.ev(n.value, fr), n.attr)

    def attr(self, b, name):
        if b[0] == 'ref':
            return ('ref', b[1], b[2] + (name,))
        if b[0] == 'alt':
            return alt([self.attr(x, name) for x in b[1]])
        return ('mth', b, name)

    def e_Subscript(self, n, fr):
        b = self.ev(n.value, fr)
        if isinstance(n.slice, ast.Slice):
            parts = [None if x is None else self.ev(x, fr) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if b[0] == 'c' and all(p is None or p[0] == 'c' for p in parts):
                try:
                    return ('c', b[1][slice(*[None if p is None else p[1] for p in parts])])
                except Exception:
                    return TOP
            if b[0] == 'tup' and all(p is None or p[0] == 'c' for p in parts):
                return ('tup', b[1][slice(*[None if p is None else p[1] for p in parts])])
            cut = parts[1] is not None and parts[1][0] == 'c' and isinstance(parts[1][1], int) and 0 < parts[1][1] < 4000 and parts[0] in (None, ('c', 0))
            return der([b], ('cut',) if cut else ())
        return elem(b, self.ev(n.slice, fr))

    def e_Tuple(self, n, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                out += list(v[1]) if v[0] == 'tup' else [v]
            else:
                out.append(self.ev(e, fr))
        return ('tup', tuple(out))

    e_List = e_Tuple
    e_Set = e_Tuple

    def e_Dict(self, n, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, fr)
                if x[0] == 'dict':
                    items += list(x[1])
                else:
                    return ('copy', False, x)
                continue
            items.append((self.ev(k, fr), self.ev(v, fr)))
        return ('dict', tuple(items))

    def e_Lambda(self, n, fr):
        return ('lam', n, tuple(sorted(fr.env.items(), key=lambda x: x[0])))

    def e_IfExp(self, n, fr):
        t, f = self.test(n.test, fr)
        if t is True:
            return self.ev(n.body, fr)
        if t is False:
            return self.ev(n.orelse, fr)
        a, b = self.ev(n.body, fr), self.ev(n.orelse, fr)
        cond = deps_formula(f)
        if any(r[1] == 'LINE' for r in cond):
            return der([a, b, ('d', frozenset(cond), frozenset())], ('cmp',))
        return alt([a, b])

    def e_BoolOp(self, n, fr):
        t, _ = self.test(n, fr)
        if t is not None and all(isinstance(x, (ast.Compare, ast.UnaryOp)) for x in n.values):
            return ('c', t)
        vs = [self.ev(x, fr) for x in n.values]
        if any(isinstance(x, ast.Compare) for x in n.values):
            return der(vs, ('cmp',))
        return alt(vs)

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if v[0] == 'c':
            try:
                return ('c', {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Not: lambda x: not x, ast.Invert: lambda x: ~x}[type(n.op)](v[1]))
            except Exception:
                return TOP
        return der([v], ('cmp',) if isinstance(n.op, ast.Not) else ())

    def e_BinOp(self, n, fr):
        a, b = self.ev(n.left, fr), self.ev(n.right, fr)
        return self.bin(n.op, a, b)

    def bin(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            try:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Mod: lambda x, y: x % y, ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y}[type(op)]
                if isinstance(op, ast.Mult) and isinstance(a[1], str) and len(a[1]) * b[1] > 2000:
                    return TOP
                return ('c', f(a[1], b[1]))
            except Exception:
                return TOP
        if isinstance(op, ast.Mod) and a[0] == 'c' and isinstance(a[1], str):
            v = pct(a[1], b)
            self.digits(v)
            return v
        if isinstance(op, ast.Mod) and a[0] == 's' and all(p[0] == 'l' for p in a[1]):
            return pct(''.join(p[1] for p in a[1]), b)
        if isinstance(op, ast.Add):
            pa, pb = pieces(a), pieces(b)
            if pa is not None and pb is not None:
                return ('s', pa + pb)
            if pa is not None or pb is not None:
                if pa is None and a[0] in ('ref', 'd', 'alt'):
                    pa = (('v', a, '%s'),)
                if pb is None and b[0] in ('ref', 'd', 'alt'):
                    pb = (('v', b, '%s'),)
                if pa is not None and pb is not None:
                    return ('s', pa + pb)
            if a[0] == 'tup' and b[0] == 'tup':
                return ('tup', a[1] + b[1])
        if isinstance(op, (ast.Add, ast.Sub)):
            sg = 1 if isinstance(op, ast.Add) else -1
            if a[0] in ('id', 'ix') and b[0] == 'c' and isinstance(b[1], int):
                return (a[0], a[1], a[2] + sg * b[1])
            if b[0] in ('id', 'ix') and a[0] == 'c' and isinstance(a[1], int) and sg == 1:
                return (b[0], b[1], b[2] + a[1])
        if isinstance(op, ast.Mult) and a[0] == 'tup' and len(a[1]) == 1 and b[0] != 'c':
            return ('rep', a[1][0])
        if isinstance(op, ast.Mult) and b[0] == 'tup' and len(b[1]) == 1 and a[0] != 'c':
            return ('rep', b[1][0])
        t = ['num']
        if isinstance(op, ast.Div) and b[0] == 'c' and b[1] in (10, 100, 1000, 10000, 100000, 1000000):
            t.append('/%d' % (len(str(int(b[1]))) - 1))
        return der([a, b], t)

    def e_Compare(self, n, fr):
        t, f = self.test(n, fr)
        if t is not None:
            return ('c', t)
        return ('d', frozenset(deps_formula(f)), frozenset({'cmp'}))

    def e_JoinedStr(self, n, fr):
        out = ()
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += (('l', v.value),)
            else:
                x = self.ev(v.value, fr)
                spec = None
                if v.format_spec is not None:
                    sp = self.e_JoinedStr(v.format_spec, fr)
                    spec = ''.join(p[1] for p in sp[1]) if all(p[0] == 'l' for p in sp[1]) else None
                    if x[0] == 'c' and spec is not None:
                        try:
                            out += (('l', format(x[1], spec)),)
                            continue
                        except Exception:
                            pass
                    spec = '{' + (spec or '') + '}'
                    out += (('v', x, spec),)
                else:
                    out += hold(x, '%s')
        self.digits(('s', out))
        return ('s', out)

    def digits(self, v):
        """a quantity in small units, divided to larger ones and rounded when it is put into a text"""
        if self.keyword is None or v[0] != 's':
            return
        fs = [p for p in v[1] if p[0] == 'v']
        whole = [p for p in fs if any(t.startswith('/') for t in tags(p[1]))]
        if len(whole) >= 2 and all(conv(p[2]) in ('i', 'd') for p in whole):
            for r in set().union(*[deps(p[1]) for p in whole]):
                if keyof(r[2]) is not None:
                    self.rounded.append((r[1], keyof(r[2]), 0, max(int(t[1:]) for p in whole for t in tags(p[1]) if t.startswith('/')), self.here))
        for p in fs:
            m = re.search(r'\.(\d+)[fF]\}?$', p[2] or '')
            if m is None and conv(p[2]) in ('f', 'F'):
                m = re.search(r'()$', '')
                n = 6
            elif m is None:
                continue
            else:
                n = int(m.group(1))
            ks = [int(t[1:]) for t in tags(p[1]) if t.startswith('/')]
            if ks and n < max(ks):
                for r in deps(p[1]):
                    k = keyof(r[2])
                    if k is not None:
                        self.rounded.append((r[1], k, n, max(ks), self.here))

    def comp(self, n, elts, fr):
        env = dict(fr.env)
        sub = Frame(fr.fn, env, fr.depth, fr.cls)
        sub.returns = fr.returns
        consts = None
        for g in n.generators:
            it = self.ev(g.iter, sub)
            if it[0] == 'tup' and len(n.generators) == 1 and not g.ifs and len(it[1]) <= 16:
                consts = it[1]
                break
            self.bind(g.target, self.member(it), sub, quiet=True)
        if consts is not None:
            out = []
            for c in consts:
                self.bind(n.generators[0].target, c, sub, quiet=True)
                out.append([self.ev(e, sub) for e in elts])
            return out, True
        return [[self.ev(e, sub) for e in elts]], False

    def e_ListComp(self, n, fr):
        vs, full = self.comp(n, [n.elt], fr)
        if full:
            return ('tup', tuple(v[0] for v in vs))
        return ('rep', vs[0][0])

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, fr):
        vs, full = self.comp(n, [n.key, n.value], fr)
        if full:
            return ('dict', tuple((a, b) for a, b in vs))
        return der([x for p in vs for x in p])

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.bind(n.target, v, fr)
        return v

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_Await(self, n, fr):
        return self.ev(n.value, fr)

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, fr):
        args, kws = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                args += list(v[1]) if v[0] == 'tup' else [v]
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if v[0] == 'dict':
                    for kk, x in v[1]:
                        if kk[0] == 'c':
                            kws[kk[1]] = x
                else:
                    kws['**'] = v
            else:
                kws[k.arg] = v
        if isinstance(n.func, ast.Attribute):
            if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super' and fr.cls is not None:
                selfv = fr.env.get('self', TOP)
                start = selfv[1].split('#')[0][4:] if selfv[0] == 'ref' and selfv[1].startswith('new:') else getattr(self, 'selfcls', fr.cls)
                c, m = self.w.method(start, n.func.attr, after=fr.cls)
                return self.call(m, [selfv] + args, kws, fr, c) if m is not None else der(args + list(kws.values()))
            b = self.ev(n.func.value, fr)
            if b[0] == 'cls' and n.func.attr == '__init__':
                c, m = self.w.method(b[1], '__init__')
                return self.call(m, args, kws, fr, c) if m is not None else TOP
            if b[0] == 'cls':
                c, m = self.w.method(b[1], n.func.attr)
                if m is not None:
                    dec = [ast.unparse(d) for d in m.decorator_list]
                    if 'staticmethod' in dec:
                        return self.call(m, args, kws, fr, c)
                    if 'classmethod' in dec:
                        return self.call(m, [b] + args, kws, fr, c)
                    return self.call(m, args, kws, fr, c)
            return self.method(n, b, n.func.attr, args, kws, fr)
        f = self.ev(n.func, fr)
        return self.apply(n, f, args, kws, fr)

    def apply(self, n, f, args, kws, fr):
        if f[0] == 'alt':
            return alt([self.apply(n, x, args, kws, fr) for x in f[1]])
        if f[0] == 'fn':
            return self.call(self.w.funcs[f[1]], args, kws, fr)
        if f[0] == 'node':
            return self.call(f[1], args, kws, fr, env=dict(f[2].env) if f[2] is not None else None, closure=f[2])
        if f[0] == 'cls':
            return self.construct(n, f[1], args, kws, fr)
        if f[0] == 'lam':
            env = dict(f[2])
            env.update({a.arg: v for a, v in zip(f[1].args.args, args)})
            return self.ev(f[1].body, Frame(fr.fn, env, fr.depth + 1, fr.cls))
        if f[0] == 'mth':
            return self.method(n, f[1], f[2], args, kws, fr)
        if f[0] == 'ref':
            if len(f[2]) and isinstance(f[2][-1], str):
                return self.method(n, ('ref', f[1], f[2][:-1]), f[2][-1], args, kws, fr)
            return der([f] + args + list(kws.values()))
        if f[0] == 'b':
            return self.builtin(n, f[1], args, kws, fr)
        return der([f] + args + list(kws.values()))

    def construct(self, n, cls, args, kws, fr):
        c, init = self.w.method(cls, '__init__')
        bound = {}
        if init is not None:
            names = [a.arg for a in init.args.args][1:]
            bound.update({p: v for p, v in zip(names, args)})
            bound.update(kws)
        self.uid += 1
        root = 'new:%s#%d' % (cls, self.uid)
        self.events.append(Event('new', root, (), tuple(sorted(bound.items(), key=lambda x: x[0])), tuple(self.guards), self.loopdepth, n, cls, len(self.events)))
        return ('ref', root, ())

    def builtin(self, n, name, args, kws, fr):
        a0 = args[0] if args else None
        if name in ('int', 'float') and a0 is not None:
            if a0[0] == 'c':
                try:
                    return ('c', {'int': int, 'float': float}[name](a0[1]))
                except Exception:
                    return TOP
            if a0[0] in ('id', 'ix'):
                return a0
            if a0[0] == 'ref' and a0[1] != 'LINE':
                return a0
            return ('d', frozenset(deps(a0)), (tags(a0) - {'cut', 'item', 'case'}) | {name})
        if name == 'bool' and a0 is not None:
            if a0[0] == 'c':
                return ('c', bool(a0[1]))
            if any(r[1] == 'LINE' for r in deps(a0)) and not tags(a0) & {'int', 'float', 'cmp', 'num'}:
                return der([a0], ('textbool',))
            return der([a0], ('cmp',)) if a0[0] != 'ref' or a0[1] == 'LINE' else a0
        if name == 'str' and a0 is not None:
            if a0[0] == 'c':
                return ('c', str(a0[1]))
            return a0 if a0[0] in ('ref', 's', 'd', 'alt') else ('s', (('v', a0, '%s'),))
        if name in ('tuple', 'list', 'sorted', 'reversed', 'set') and len(args) == 1:
            return a0 if a0[0] != 'ref' or name != 'list' else a0
        if name in ('list', 'dict') and not args:
            return ('tup', ()) if name == 'list' else ('dict', tuple((('c', k), v) for k, v in sorted(kws.items())))
        if name == 'dict' and len(args) == 1:
            if a0[0] == 'dict':
                d = dict(a0[1])
                d.update({('c', k): v for k, v in kws.items()})
                return ('dict', tuple(d.items()))
            return ('copy', False, a0)
        if name == 'len' and len(args) == 1:
            if a0[0] == 'tup':
                return ('c', len(a0[1]))
            if a0[0] == 'c' and isinstance(a0[1], str):
                return ('c', len(a0[1]))
            return ('len', a0)
        if name == 'range':
            if len(args) == 1 and isinstance(n.args[0], ast.BinOp) and isinstance(n.args[0].op, (ast.FloorDiv, ast.Sub, ast.RShift)) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' for x in ast.walk(n.args[0])):
                return ('range', der([args[0]], ('part',)))
            return ('range',) + tuple(args)
        if name == 'enumerate' and a0 is not None:
            return ('enum', a0, args[1] if len(args) > 1 else kws.get('start', ('c', 0)))
        if name == 'zip':
            return ('zip', tuple(args))
        if name == 'setattr' and len(args) == 3 and args[1][0] == 'c':
            self.store(args[0], args[1][1], args[2], n)
            return TOP
        if name == 'getattr' and len(args) >= 2 and args[1][0] == 'c':
            return self.attr(args[0], args[1][1])
        if name in ('print', 'isinstance', 'hasattr', 'super', 'type', 'callable'):
            return TOP
        if name in ('all', 'any') and a0 is not None:
            return der(args, ('cmp',))
        return der(args + list(kws.values()))

    def method(self, n, b, name, args, kws, fr):
        if b[0] == 'alt':
            return alt([self.method(n, x, name, args, kws, fr) for x in b[1]])
        if b[0] == 'b' and b[1] == 'copy' and args:
            if args[0][0] == 'dict':
                return args[0]
            return ('copy', name == 'deepcopy', args[0])
        if b[0] == 'b' and b[1] == 're':
            return TOP
        if name == 'group' and len(args) == 1 and args[0][0] == 'c':
            m = re.match(r'^id_?(\d+)$', str(args[0][1]))
            if m:
                return ('id', int(m.group(1)) - 1, 0)
        if b[0] in ('c', 's', 'tup') and name == 'join' and len(args) == 1 and b[0] == 'c' and isinstance(b[1], str):
            a = args[0]
            if a[0] == 'tup':
                out = ()
                for i, x in enumerate(a[1]):
                    p = pieces(x)
                    out += ((('l', b[1]),) if i else ()) + (p if p is not None else (('v', x, '%s'),))
                return ('s', out)
            return der([a])
        if b[0] == 'c' and isinstance(b[1], str) and name in STRM and name != 'format':
            if all(a[0] == 'c' for a in args):
                try:
                    r = getattr(b[1], name)(*[a[1] for a in args])
                    return ('tup', tuple(('c', x) for x in r)) if isinstance(r, (list, tuple)) else ('c', r)
                except Exception:
                    return TOP
            if name in ('startswith', 'endswith') and len(args) == 1 and args[0][0] == 'tup' and all(a[0] == 'c' for a in args[0][1]):
                return ('c', getattr(b[1], name)(tuple(a[1] for a in args[0][1])))
        if name == 'format' and b[0] == 'c' and isinstance(b[1], str):
            return self.strformat(b[1], args, kws)
        if name in ('ljust', 'rjust') and b[0] == 's' and all(p[0] == 'l' for p in b[1]) and args and args[0][0] == 'c':
            return ('c', getattr(''.join(p[1] for p in b[1]), name)(args[0][1]))
        if name in ('append', 'insert', 'add', 'appendleft') and args:
            self.emit(args[-1], n)
            if b[0] == 'ref':
                own = self.special(b, name)
                if own is not None:
                    return self.call(own[1], own[2] + args, kws, fr, own[0])
                self.events.append(Event('append', b[1], b[2], args[-1], tuple(self.guards), self.loopdepth, n, None, len(self.events)))
                src = args[-1]
                if src[0] == 'dict' or src[0] == 'copy' and src[2][0] == 'ref' and src[2][1] != b[1]:
                    self.stored = self.stored | {(b[1], '*')}
            return TOP
        if name in ('write', 'writelines', 'extend') and args:
            self.emit(args[0], n)
            return TOP
        if b[0] == 'dict':
            if name == 'get' and args and args[0][0] == 'c':
                for k, v in b[1]:
                    if k == args[0]:
                        return v
                return args[1] if len(args) > 1 else ('c', None)
            if name == 'copy':
                return b
            if name in ('items', 'keys', 'values'):
                return ('tup', tuple({'items': ('tup', (k, v)), 'keys': k, 'values': v}[name] for k, v in b[1]))
            if name == 'get':
                return alt([v for _, v in b[1]] or [TOP])
        if b[0] == 'ref' and name == 'clear' and not args:
            self.events.append(Event('bind', b[1], b[2], ('tup', ()), tuple(self.guards), self.loopdepth, n, None, len(self.events)))
            return TOP
        if b[0] == 'ref' and name == 'copy' and not args:
            return ('copy', False, b)
        if b[0] == 'ref' and name == 'get' and args and b[1] != 'LINE':
            return elem(b, args[0])
        if b[0] == 'ref' and name == 'setdefault' and len(args) == 2:
            return elem(b, args[0])
        if b[0] == 'ref' and name == 'update' and args and args[0][0] == 'dict' and args[0][1] and all(k[0] == 'c' for k, _ in args[0][1]):
            for k, v in args[0][1]:
                self.store(b, ('k', k[1]), v, n)
            return TOP
        if b[0] == 'ref' and name == 'update' and args and args[0][0] in ('dict', 'copy', 'ref'):
            self.events.append(Event('bind', b[1], b[2], args[0], tuple(self.guards), self.loopdepth, n, None, len(self.events)))
            return TOP
        if b[0] == 'ref' and name == 'update' and kws and not args:
            for k, v in kws.items():
                self.store(b, ('k', k), v, n)
            return TOP
        own = self.special(b, name)
        if own is not None:
            return self.call(own[1], own[2] + args, kws, fr, own[0])
        if b[0] == 'ref' and b[1] == 'LINE' or b[0] == 'd' and any(r[1] == 'LINE' for r in deps(b)):
            t = ()
            if name in ('lower', 'upper', 'title', 'capitalize', 'swapcase'):
                t = ('case',)
            if name in ('split', 'rsplit') and (len(args) < 2 and 'maxsplit' not in kws):
                t = ('split',)
            return der([b] + args, t)
        return der([b] + args + list(kws.values()), ('case',) if name in ('lower', 'upper', 'title', 'capitalize', 'swapcase') and b[0] in ('ref', 'd', 'alt') else ())

    def special(self, b, name):
        """the method of a known object"""
        if b[0] == 'ref' and not b[2]:
            cls = None
            if b[1].startswith('new:'):
                cls = b[1][4:].split('#')[0]
            elif b[1] == 'self':
                cls = getattr(self, 'selfcls', None)
            if cls is not None:
                c, m = self.w.method(cls, name)
                if m is not None:
                    dec = [ast.unparse(d) for d in m.decorator_list]
                    return c, m, [] if 'staticmethod' in dec else [('cls', cls)] if 'classmethod' in dec else [b]
        return None

    def strformat(self, fmt, args, kws):
        import string
        out, auto = (), 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    out += (('l', lit),)
                if field is None:
                    continue
                head = re.match(r'^(\w*)(.*)$', field)
                if head.group(1) == '':
                    v = args[auto] if auto < len(args) else TOP
                    auto += 1
                elif head.group(1).isdigit():
                    v = args[int(head.group(1))] if int(head.group(1)) < len(args) else TOP
                else:
                    v = kws.get(head.group(1), TOP)
                for m in re.finditer(r'\.(\w+)|\[(\w+)\]', head.group(2)):
                    v = self.attr(v, m.group(1)) if m.group(1) else elem(v, ('c', int(m.group(2)) if m.group(2).isdigit() else m.group(2)))
                if v[0] == 'c' and spec:
                    try:
                        out += (('l', format(v[1], spec)),)
                        continue
                    except Exception:
                        pass
                out += hold(v, '%s') if not spec else (('v', v, '{' + spec + '}'),)
        except ValueError:
            return der(args + list(kws.values()))
        return ('s', out)

    def call(self, fn, args, kws, fr, cls=None, env=None, closure=None):
        if fr.depth >= MAXDEPTH or any(f.fn is fn for f in self.frames if f is not None):
            return der(args + list(kws.values()))
        e = dict(env or {})
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        given = {}
        for nm, v in zip(names, args):
            given[nm] = v
        if fn.args.vararg is not None:
            given[fn.args.vararg.arg] = ('tup', tuple(args[len(names):]))
        for k, v in kws.items():
            given[k] = v
        dflt = list(fn.args.defaults)
        for nm, d in zip(names[len(names) - len(dflt):], dflt):
            if nm not in given:
                given[nm] = self.ev(d, Frame(None, {}, fr.depth))
        for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
            if a.arg not in given:
                given[a.arg] = self.ev(d, Frame(None, {}, fr.depth)) if d is not None else TOP
        for nm in names:
            given.setdefault(nm, TOP)
        e.update(given)
        new = Frame(fn, e, fr.depth + 1, cls)
        new.closure = closure
        self.frames.append(new)
        g, lp = len(self.guards), self.listloop
        try:
            self.block(fn.body, new)
        finally:
            self.frames.pop()
            del self.guards[g:]
            self.listloop = lp
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
            return TOP
        return alt(new.returns) if new.returns else ('c', None)

    # ---------------------------------------------------------------- conditions
    def test(self, n, fr):
        """(truth or None, formula)"""
        if isinstance(n, ast.BoolOp):
            parts = [self.test(x, fr) for x in n.values]
            isand = isinstance(n.op, ast.And)
            ts = [t for t, _ in parts]
            if isand and any(t is False for t in ts):
                return False, ('?',)
            if not isand and any(t is True for t in ts):
                return True, ('?',)
            fs = tuple(f for t, f in parts if t is None)
            if not fs:
                return isand, ('?',)
            return None, (('and' if isand else 'or', fs) if len(fs) > 1 else fs[0])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.test(n.operand, fr)
            return (None if t is None else not t), neg(f)
        if isinstance(n, ast.Compare):
            vs = [self.ev(n.left, fr)] + [self.ev(c, fr) for c in n.comparators]
            if len(n.ops) > 1:
                fs = []
                for i, op in enumerate(n.ops):
                    t, f = self.cmp(op, vs[i], vs[i + 1])
                    if t is False:
                        return False, ('?',)
                    if t is None:
                        fs.append(f)
                return (None, ('and', tuple(fs))) if fs else (True, ('?',))
            t, f = self.cmp(n.ops[0], vs[0], vs[1])
            return t, f + ((n.lineno, n.col_offset), True) if f[0] == '?' and len(f) == 2 else f
        v = self.ev(n, fr)
        if v[0] == 'c':
            return bool(v[1]), ('?',)
        if v[0] in ('tup', 'dict'):
            return bool(v[1]), ('?',)
        if v[0] in ('fn', 'cls', 'lam', 'node'):
            return True, ('?',)
        if v[0] == 'ref':
            return None, ('truthy', v)
        return None, ('?', frozenset(deps(v)), (n.lineno, n.col_offset), True)

    def cmp(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            pol = isinstance(op, ast.In)
            if b[0] == 'dict':
                b = ('tup', tuple(k for k, _ in b[1]))
            if a[0] == 'c' and b[0] == 'tup' and all(x[0] == 'c' for x in b[1]):
                return (a in b[1]) == pol, ('?',)
            if a[0] == 'c' and b[0] == 'c':
                try:
                    return (a[1] in b[1]) == pol, ('?',)
                except Exception:
                    return None, ('?', frozenset())
            if a[0] == 'd' and b[0] == 'tup' and b[1] and all(x[0] == 'c' and isinstance(x[1], str) for x in b[1]) and {r[:2] for r in deps(a)} == {('ref', 'LINE')} and not tags(a) & {'case', 'cut', 'item', 'int', 'float', 'num', 'cmp'}:
                a = ('ref', 'LINE', ())
            if b[0] == 'tup' and all(x[0] == 'c' for x in b[1]) and a[0] in ('ref', 'id'):
                f = ('or', tuple(('cmp', a, '==', x[1]) for x in b[1]))
                return None, f if pol else neg(f)
            return None, ('?', frozenset(deps(a) | deps(b)))
        if a[0] == 'c' and b[0] == 'c':
            try:
                f = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y,
                     ast.Is: lambda x, y: x is y or x == y, ast.IsNot: lambda x, y: not (x is y or x == y)}[type(op)]
                return bool(f(a[1], b[1])), ('?',)
            except Exception:
                return None, ('?', frozenset())
        sym = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: '==', ast.IsNot: '!='}[type(op)]
        if a[0] == 'c' and b[0] in ('ref', 'id'):
            a, b = b, a
            sym = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(sym, sym)
        if b[0] == 'c' and a[0] in ('fn', 'cls', 'lam', 'node', 'tup', 'dict') and b[1] is None:
            return sym == '!=', ('?',)
        if a[0] == 'd' and b[0] == 'c' and isinstance(b[1], str) and b[1] and {r[:2] for r in deps(a)} == {('ref', 'LINE')} and not tags(a) & {'case', 'cut', 'item', 'int', 'float', 'num', 'cmp'}:
            return None, ('cmp', ('ref', 'LINE', ()), sym, b[1])
        if a[0] in ('ref', 'id') and b[0] == 'c':
            try:
                hash(b[1])
                return None, ('cmp', a, sym, b[1])
            except TypeError:
                pass
        return None, ('?', frozenset(deps(a) | deps(b)))

    # ---------------------------------------------------------------- statements
    def block(self, body, fr):
        """False when control does not come out at the end"""
        g = len(self.guards)
        try:
            for s in body:
                if not self.stmt(s, fr):
                    return False
            return True
        finally:
            if fr.depth == 0 and body is fr.fn.body:
                del self.guards[g:]

    def stmt(self, s, fr):
        self.here = s
        m = getattr(self, 's_' + s.__class__.__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c, fr)
            return True
        r = m(s, fr)
        return True if r is None else r

    def s_Expr(self, s, fr):
        if isinstance(s.value, (ast.Yield,)) and s.value.value is not None:
            self.emit(self.ev(s.value.value, fr), s)
            return
        if isinstance(s.value, ast.YieldFrom):
            self.ev(s.value.value, fr)
            return
        self.ev(s.value, fr)

    def s_FunctionDef(self, s, fr):
        fr.env[s.name] = ('node', s, fr)

    def s_Return(self, s, fr):
        if s.value is not None:
            fr.returns.append(self.ev(s.value, fr))
        else:
            fr.returns.append(('c', None))
        return False

    def s_Raise(self, s, fr):
        return False

    def leave(self):
        if self.loopdepth and self.listloop == 0:
            self.exits.append(self.stored)

    def s_Continue(self, s, fr):
        self.leave()
        return False

    def s_Break(self, s, fr):
        self.leave()
        return False

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        self.emit(v, s)
        for t in s.targets:
            self.bind(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        v = self.ev(s.value, fr)
        self.emit(v, s)
        if isinstance(s.target, ast.Name):
            old = fr.env.get(s.target.id, TOP)
            if old[0] in ('c', 'id', 'ix') and v[0] == 'c' and not isinstance(v[1], str):
                fr.env[s.target.id] = self.bin(s.op, old, v)
            else:
                fr.env[s.target.id] = der([old, v]) if old[0] not in ('s',) and not (old[0] == 'c' and isinstance(old[1], str)) else TOP
        else:
            old = self.ev(s.target, fr)
            self.bind(s.target, der([old, v]), fr)

    def s_Delete(self, s, fr):
        pass

    def s_If(self, s, fr):
        t, f = self.test(s.test, fr)
        if t is True:
            return self.block(s.body, fr)
        if t is False:
            return self.block(s.orelse, fr)
        g = len(self.guards)
        env0, st0 = dict(fr.env), self.stored
        self.guards.append(f)
        a = self.block(s.body, fr)
        env1, st1 = dict(fr.env), self.stored
        del self.guards[g:]
        fr.env.clear()
        fr.env.update(env0)
        self.stored = st0
        self.guards.append(neg(f))
        b = self.block(s.orelse, fr)
        del self.guards[g:]
        if a and b:
            env2 = dict(fr.env)
            fr.env.clear()
            for k in set(env1) | set(env2):
                x, y = env1.get(k), env2.get(k)
                fr.env[k] = y if x is None else x if y is None or x == y else alt([x, y])
            self.stored = both(st1, self.stored)
            return True
        if a:
            fr.env.clear()
            fr.env.update(env1)
            self.stored = st1
            self.guards.append(f)
            return True
        if b:
            self.guards.append(neg(f))
            return True
        return False

    def s_Try(self, s, fr):
        env0, st0, g = dict(fr.env), self.stored, len(self.guards)
        a = self.block(s.body, fr)
        if a and s.orelse:
            a = self.block(s.orelse, fr)
        env1, st1 = dict(fr.env), self.stored
        extra = self.guards[g:]
        del self.guards[g:]
        out, outenv = a, env1
        for h in s.handlers:
            fr.env.clear()
            fr.env.update(env0)
            self.stored = st0
            self.guards.append(('except',))
            b = self.block(h.body, fr)
            del self.guards[g:]
            if b and not out:
                out, outenv = True, dict(fr.env)
            elif b and out:
                for k, v in fr.env.items():
                    if k not in outenv:
                        outenv[k] = v
                    elif outenv[k] != v and not (outenv[k][0] in ('id', 'tup')) and env0.get(k) != v:
                        outenv[k] = alt([outenv[k], v])
        self.stored = st1
        fr.env.clear()
        fr.env.update(outenv)
        self.guards.extend(x for x in extra)
        if s.finalbody:
            return self.block(s.finalbody, fr) and out
        return out

    def s_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, ('ref', 'FILE', ()) if self.keyword is not None else v, fr)
        return self.block(s.body, fr)

    def member(self, it):
        """a thing found in an iterable"""
        if it[0] == 'ref':
            if it[1] == 'FILE':
                return ('ref', 'LINE', ())
            self.uid += 1
            return ('ref', it[1], it[2] + (('i', self.uid),))
        if it[0] == 'enum':
            x = self.member(it[1])
            st = it[2][1] if it[2][0] == 'c' and isinstance(it[2][1], int) else None
            lid = x[2][-1][1] if x[0] == 'ref' and x[2] and isinstance(x[2][-1], tuple) and x[2][-1][0] == 'i' else None
            if st is None or lid is None:
                return ('tup', (TOP, x))
            return ('tup', (('ix', lid, st), x))
        if it[0] == 'zip':
            return ('tup', tuple(self.member(x) for x in it[1]))
        if it[0] == 'range':
            self.uid += 1
            if len(it) == 2:
                if 'part' in tags(it[1]):
                    self.partial.add(self.uid)
                return ('ix', self.uid, 0)
            if len(it) == 3 and it[1][0] == 'c' and isinstance(it[1][1], int):
                return ('ix', self.uid, it[1][1])
            return TOP
        if it[0] == 'rep':
            return it[1]
        if it[0] == 'alt':
            return alt([self.member(x) for x in it[1]])
        if it[0] == 'copy':
            return self.member(it[2])
        return der([it])

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if it[0] == 'range' and all(x[0] == 'c' for x in it[1:]):
            try:
                vals = list(range(*[x[1] for x in it[1:]]))
                it = ('tup', tuple(('c', x) for x in vals)) if len(vals) <= 8 else it
            except Exception:
                pass
        if it[0] == 'enum' and it[1][0] == 'tup' and it[2][0] == 'c':
            it = ('tup', tuple(('tup', (('c', i + it[2][1]), x)) for i, x in enumerate(it[1][1])))
        if it[0] == 'dict':
            it = ('tup', tuple(k for k, _ in it[1]))
        islines = it[0] == 'ref' and it[1] == 'FILE' or self.keyword is not None and self.linesof(it)
        if islines:
            it = ('ref', 'FILE', ())
        g = len(self.guards)
        if it[0] == 'tup' and 0 < len(it[1]) <= 40:
            self.listloop += 1
            for x in it[1]:
                self.bind(s.target, x, fr, quiet=True)
                st = self.stored
                self.block(s.body, fr)
                self.stored = st | self.stored
                del self.guards[g:]
            self.listloop -= 1
            return self.block(s.orelse, fr) if s.orelse else True
        x = self.member(it)
        self.bind(s.target, x, fr, quiet=True)
        y = x[1][1] if x[0] == 'tup' and len(x[1]) == 2 else x
        lid = y[2][-1][1] if y[0] == 'ref' and y[2] and isinstance(y[2][-1], tuple) and y[2][-1][0] == 'i' else None
        if lid is None and y[0] == 'ix':
            lid = y[1]
        if lid is not None:
            self.loops[lid] = g
        env0, st0, d0 = dict(fr.env), self.stored, self.loopdepth
        if not islines:
            self.listloop += 1
            self.guards.append(('loop', lid))
        out = self.block(s.body, fr)
        if islines and out:
            self.leave()
        if not islines:
            self.listloop -= 1
            self.stored = st0 | self.stored if self.whole(it) else st0
        else:
            self.stored = st0
        self.loopdepth = d0
        del self.guards[g:]
        if not out:
            fr.env.clear()
            fr.env.update(env0)
        if s.orelse:
            self.block(s.orelse, fr)
        return True

    def whole(self, it):
        return it[0] == 'range' and len(it) == 2 and it[1][0] == 'len'

    def linesof(self, it):
        if it[0] == 'ref' and it[1] == 'FILE':
            return True
        if it[0] in ('d', 'mth') and any(r[1] == 'FILE' for r in deps(it)):
            return True
        return it[0] == 'enum' and self.linesof(it[1])

    def s_While(self, s, fr):
        t, f = self.test(s.test, fr)
        if t is False:
            return True
        g = len(self.guards)
        self.guards.append(('loop', None))
        self.listloop += 1
        env0 = dict(fr.env)
        if not self.block(s.body, fr):
            fr.env.clear()
            fr.env.update(env0)
        self.listloop -= 1
        del self.guards[g:]
        return True

    # ---------------------------------------------------------------- stores
    def bind(self, t, v, fr, quiet=False):
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Name):
            if self.keyword is not None and t.id in self.kwnames and not (v[0] == 'c' and v[1] is None):
                fr.env[t.id] = ('c', self.keyword)
                self.loopdepth = max(self.loopdepth, 1)
                return
            if not quiet and fr.depth == 0 and self.keyword is not None and self.container(v):
                self.events.append(Event('bind', t.id, (), v, tuple(self.guards), self.loopdepth, t, None, len(self.events)))
                fr.env[t.id] = ('ref', t.id, ())
                return
            fr.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                x = elem(v, ('c', i)) if v[0] == 'tup' else ('d', frozenset(deps(v)), tags(v) - {'split'}) if v[0] != 'ref' or v[1] == 'LINE' else elem(v, ('c', i))
                self.bind(e, x, fr, quiet)
            return
        if isinstance(t, ast.Attribute):
            self.store(self.ev(t.value, fr), t.attr, v, t)
            return
        if isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            i = TOP if isinstance(t.slice, ast.Slice) else self.ev(t.slice, fr)
            if b[0] == 'tup' and isinstance(t.value, ast.Name):
                if i[0] == 'c' and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
                    l = list(b[1])
                    l[i[1]] = v
                    fr.env[t.value.id] = ('tup', tuple(l))
                else:
                    fr.env[t.value.id] = der([b, v])
                return
            if b[0] == 'dict' and isinstance(t.value, ast.Name) and i[0] == 'c':
                d = dict(b[1])
                d[i] = v
                fr.env[t.value.id] = ('dict', tuple(d.items()))
                return
            self.store(b, ('k', i[1]) if i[0] == 'c' else ('v', i), v, t)

    def container(self, v):
        if v[0] == 'dict' or v[0] == 'rep':
            return True
        if v[0] == 'tup':
            return len(v[1]) == 0
        if v[0] == 'copy':
            return True
        return v[0] == 'alt' and all(self.container(x) for x in v[1])

    def store(self, b, last, v, node):
        if b[0] == 'alt':
            for x in b[1]:
                self.store(x, last, v, node)
            return
        if b[0] != 'ref':
            return
        path = b[2] + (last,)
        self.events.append(Event('store', b[1], path, v, tuple(self.guards), self.loopdepth, node, None, len(self.events)))
        k = keyof(path)
        if k is not None:
            self.stored = self.stored | {(b[1], k)}

    # ---------------------------------------------------------------- lines of the file
    def emit(self, v, node):
        if self.keyword is not None:
            return
        if v[0] in ('tup', 'alt'):
            for x in v[1]:
                self.emit(x, node)
            return
        p = pieces(v)
        if p is None:
            return
        lines, cur = [], []
        for x in p:
            if x[0] == 'l':
                parts = x[1].split('\n')
                for i, t in enumerate(parts):
                    if i:
                        lines.append(cur)
                        cur = []
                    if t:
                        cur.append(('l', t))
            else:
                cur.append(x)
        lines.append(cur)
        for ln in lines:
            self.line(ln, node)

    def line(self, ln, node):
        text, vals = '', []
        for x in ln:
            if x[0] == 'l':
                text += x[1]
            else:
                text += '\x00%d\x01' % len(vals)
                vals.append((x[1], x[2]))
        m = HEAD.match(text)
        if m is None:
            m2 = re.match(r'^([A-Z][A-Z0-9]*_[A-Z0-9_]*)\x00', text)
            return
        rest = text[m.end():]
        if not rest or not (rest[0].isspace()):
            return
        ids = []
        for x in re.findall(r'\[([^\]]*)\]', m.group(2)):
            y = re.match(r'^\x00(\d+)\x01$', x)
            if y:
                ids.append(vals[int(y.group(1))][0])
            elif x.isdigit():
                ids.append(('c', int(x)))
            else:
                ids.append(TOP)
        out = [vals[int(i)] for i in re.findall(r'\x00(\d+)\x01', rest)]
        key = (m.group(1), tuple(ids), tuple(out), tuple(self.guards))
        if any(l[0] == key for l in self.lines):
            return
        self.lines.append((key, m.group(1), tuple(ids), tuple(out), tuple(self.guards), node, dict(self.loops)))


def both(a, b):
    """what is stored either way; (variable, '*') stands for all of a new entry"""
    return frozenset(x for x in a | b if all(x in s or (x[0], '*') in s for s in (a, b)))


def neg(f):
    k = f[0]
    if k == 'cmp':
        return ('cmp', f[1], {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[f[2]], f[3])
    if k == 'truthy':
        return ('falsy', f[1])
    if k == 'falsy':
        return ('truthy', f[1])
    if k == 'and':
        return ('or', tuple(neg(x) for x in f[1]))
    if k == 'or':
        return ('and', tuple(neg(x) for x in f[1]))
    if k == '?':
        return f[:3] + (not f[3],) if len(f) > 3 else f
    return f


def deps_formula(f):
    k = f[0]
    if k == 'cmp':
        return deps(f[1])
    if k in ('truthy', 'falsy'):
        return deps(f[1])
    if k in ('and', 'or'):
        return set().union(*[deps_formula(x) for x in f[1]]) if f[1] else set()
    if k == '?' and len(f) > 1:
        return set(f[1])
    return set()


def keyof(path):
    for p in path:
        if isinstance(p, tuple) and p[0] == 'k' and isinstance(p[1], str):
            return p[1]
    return None


def split(path):
    """(attributes on the way, the attribute, what is selected inside it)"""
    last = max([i for i, p in enumerate(path) if isinstance(p, str)], default=None)
    if last is None:
        return (), None, path
    return tuple(p for p in path[:last] if isinstance(p, str)), path[last], path[last + 1:]


class ClassModel(object):
    """how the attributes of a class come from the arguments of its constructor and from one another"""

    def __init__(self, world, cls):
        self.w, self.cls = world, cls
        self.fed = {}                 # argument -> attributes
        self.const = {}               # attribute -> constant set by the constructor
        self.default = {}             # attribute -> constant set without any argument, or a repeated one
        self.params = {}              # argument -> default constant
        c, init = world.method(cls, '__init__')
        self.ok = True
        if init is not None:
            ev = Evaluator(world)
            ev.selfcls = cls
            names = [a.arg for a in init.args.args]
            env = {names[0]: ('ref', 'self', ())} if names else {}
            for n in names[1:]:
                env[n] = ('ref', 'arg:' + n, ())
            for n, d in zip(names[len(names) - len(init.args.defaults):], init.args.defaults):
                if isinstance(d, (ast.Constant, ast.UnaryOp)):
                    v = ev.ev(d, Frame(None, {}, 0))
                    if v[0] == 'c':
                        self.params[n] = v
            fr = Frame(init, env, 0, c)
            ev.frames.append(fr)
            try:
                ev.block(init.body, fr)
            except Stop:
                self.ok = False
            for e in ev.events:
                if e.kind != 'store' or e.root != 'self' or not e.path or not isinstance(e.path[0], str):
                    continue
                a = e.path[0]
                ds = [r for r in deps(e.value) if r[1].startswith('arg:')]
                for r in ds:
                    self.fed.setdefault(r[1][4:], set()).update(self.setter(a))
                if e.value[0] == 'c' and not ds:
                    self.const.setdefault(a, set()).add(e.value[1]) if hashable(e.value[1]) else None
                if not ds and len(e.path) == 1:
                    self.default[a] = e.value
                elif len(e.path) == 1 and e.value[0] == 'ref' and e.value[1].startswith('arg:') and e.value[1][4:] in self.params:
                    self.default[a] = self.params[e.value[1][4:]]
        self.fedattrs = set().union(*self.fed.values()) if self.fed else set()
        self._d = {}

    def setter(self, a, seen=()):
        """the attributes that an assignment to a changes"""
        out = {a}
        if a in seen:
            return out
        c, m = self.w.method(self.cls, a, decorated='setter')
        if m is not None:
            me = m.args.args[0].arg
            for n in ast.walk(m):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out |= self.setter(n.attr, seen + (a,))
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == me:
                    out.add(n.value.attr)
        return out

    def reads(self, node, me, depth=0):
        out = set()
        if depth > 4:
            return out
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                c, m = self.w.method(self.cls, n.attr)
                if m is not None:
                    if m.args.args:
                        out |= self.reads(m, m.args.args[0].arg, depth + 1)
                    continue
                out.add(n.attr)
        return out

    def texts(self, a):
        """the texts an attribute computed by the class can be, or None"""
        out = set()

        def take(x, depth=0):
            if depth > 4:
                return False
            if isinstance(x, ast.Constant):
                if isinstance(x.value, str):
                    out.add(x.value)
                    return True
                return x.value is None
            if isinstance(x, ast.IfExp):
                return take(x.body, depth + 1) and take(x.orelse, depth + 1)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self':
                c, m = self.w.method(self.cls, x.func.attr)
                if m is None:
                    return False
                assigned = {t.id: n.value for n in ast.walk(m) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
                many = [t.id for n in ast.walk(m) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)]
                rets = [n.value for n in ast.walk(m) if isinstance(n, ast.Return)]
                for r in rets:
                    if r is None:
                        return False
                    if isinstance(r, ast.Name):
                        if r.id not in assigned:
                            return False
                        if not all(take(n.value, depth + 1) for n in ast.walk(m) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in n.targets)):
                            return False
                    elif not take(r, depth + 1):
                        return False
                return bool(rets)
            return False
        some = False
        for cc in self.w.mro(self.cls):
            for m in self.w.classes[cc].body:
                if isinstance(m, ast.FunctionDef):
                    for n in ast.walk(m):
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == 'self' for t in n.targets):
                            some = True
                            if not take(n.value):
                                return None
        return out if some else None

    def derived(self, a, seen=()):
        """a and the attributes it is computed from"""
        if a in self._d and not seen:
            return self._d[a]
        out = {a}
        if a not in seen:
            c, m = self.w.method(self.cls, a, decorated='getter')
            if m is not None and m.args.args:
                for x in self.reads(m, m.args.args[0].arg):
                    out |= self.derived(x, seen + (a,))
            elif a not in self.fedattrs:
                for cc in self.w.mro(self.cls):
                    for m in self.w.classes[cc].body:
                        if isinstance(m, ast.FunctionDef) and m.args.args and not any(ast.unparse(d).endswith('.setter') for d in m.decorator_list):
                            me = m.args.args[0].arg
                            for n in ast.walk(m):
                                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == me for t in n.targets):
                                    for x in self.reads(n.value, me):
                                        out |= self.derived(x, seen + (a,))
        if not seen:
            self._d[a] = out
        return out


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


class Line(object):
    def __init__(self, kw, ids, values, guards, node, loops):
        self.kw, self.ids, self.values, self.guards, self.node, self.loops = kw, ids, values, guards, node, loops


class Pair(object):
    """a writer and a reader of the same kind of file"""

    def __init__(self, P, mod, cls, render, parse):
        self.P, self.mod, self.cls, self.render, self.parse = P, mod, cls, render, parse
        self.w = World(P, mod)
        self.findings, self.und = [], []
        self.n = {'lines': 0, 'keywords': 0, 'stores': 0, 'attributes': 0, 'classes': 0, 'resets': 0}
        self.models = {}
        self._stores = {}
        self._restored = {}
        self._modes = None

    def where(self, node, fn):
        return '%s:%s:%s' % (self.mod.rel, fn, getattr(node, 'lineno', '?'))

    def bad(self, rule, construct, node, msg, fn=None):
        fn = fn or self.parse.name
        f = Finding(rule, '%s %s' % (self.mod.name, construct), self.where(node, fn), msg)
        if not any(x.rule == f.rule and x.construct == f.construct for x in self.findings):
            self.findings.append(f)

    def model(self, cls):
        if cls not in self.models:
            self.models[cls] = ClassModel(self.w, cls)
        return self.models[cls]

    # ---------------------------------------------------------------- both sides
    def written(self):
        ev = Evaluator(self.w)
        ev.selfcls = self.cls
        a = self.render.args.args
        env = {a[0].arg: ('ref', 'self', ())}
        for x in a[1:]:
            env[x.arg] = ('ref', 'arg:' + x.arg, ())
        fr = Frame(self.render, env, 0, self.cls)
        ev.frames.append(fr)
        ev.block(self.render.body, fr)
        self.lines = [Line(kw, ids, vals, g, node, loops) for _, kw, ids, vals, g, node, loops in ev.lines]

    def kwnames(self):
        """the variables that hold the keyword of a line"""
        group, cmps = set(), {}
        for fn in self.closure(self.parse):
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'group' and n.value.args and isinstance(n.value.args[0], ast.Constant) and n.value.args[0].value in ('keyword', 'kwd', 'key'):
                    group |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and len(n.comparators) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value in self.kws:
                    cmps.setdefault(n.left.id, set()).add(n.comparators[0].value)
        if group:
            return group
        best = sorted(cmps, key=lambda x: -len(cmps[x]))
        return {best[0]} if best and len(cmps[best[0]]) >= 5 else set()

    def closure(self, fn):
        out, todo = [], [fn]
        while todo:
            f = todo.pop()
            if f in out:
                continue
            out.append(f)
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and n.id in self.w.funcs:
                    todo.append(self.w.funcs[n.id])
        return out

    def read(self):
        self.kws = {l.kw for l in self.lines}
        names = self.kwnames()
        if not names:
            self.und.append('%s: the keyword of a line was not recognised' % self.parse.name)
            return False
        universe = set(self.kws)
        for fn in self.closure(self.parse):
            for n in ast.walk(fn):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r'^[A-Z][A-Z0-9]*_[A-Z0-9_]*[A-Z0-9]$', n.value):
                    universe.add(n.value)
        for v in self.w.consts.values():
            if isinstance(v, ast.Dict):
                ks = [k.value for k in v.keys if isinstance(k, ast.Constant)]
                if sum(k in self.kws for k in ks) >= 3:
                    universe |= {k for k in ks if isinstance(k, str)}
        self.events, self.certain, self.rounded, self.partial = {}, {}, [], {}
        for kw in sorted(universe):
            ev = Evaluator(self.w, keyword=kw, kwnames=names)
            env = {a.arg: ('ref', 'arg:' + a.arg, ()) for a in self.parse.args.args}
            if self.parse.args.args:
                env[self.parse.args.args[0].arg] = ('ref', 'FILENAME', ())
            fr = Frame(self.parse, env, 0)
            ev.frames.append(fr)
            try:
                ev.block(self.parse.body, fr)
            except Stop:
                self.und.append('%s: too large for %s' % (self.parse.name, kw))
                continue
            self.events[kw] = ev.events
            sure = ev.exits[0] if ev.exits else frozenset()
            for x in ev.exits[1:]:
                sure = both(sure, x)
            self.certain[kw] = sure
            self.rounded += ev.rounded
            self.partial[kw] = ev.partial
        return True

    # ---------------------------------------------------------------- where a store ends up
    def stores(self, kw):
        """the stores a keyword's text decides"""
        if kw in self._stores:
            return self._stores[kw]
        out = []
        for e in self.events.get(kw, ()):
            if e.loop and e.kind in ('store', 'append'):
                g = set().union(*[deps_formula(f) for f in e.guards]) if e.guards else set()
                if any(r[1] == 'LINE' for r in deps(e.value)) or any(r[1] == 'LINE' for r in g):
                    out.append(e)
        # collected in a local first
        local = {e.root for e in out if e.kind == 'append' and not e.path}
        if local:
            out += [e for e in self.events.get(kw, ()) if e.loop and e.kind == 'store' and e not in out and any(r[1] in local and not r[2] for r in deps(e.value))]
        self._stores[kw] = out
        return out

    def flows(self):
        """(variable, key) -> [(class, attribute, condition)] and the objects built"""
        self.built = {}               # class -> [(guards, fed)]
        self.flow = {}
        seen = set()
        made = {}
        for kw in self.events:
            for e in self.events[kw]:
                if e.kind == 'new':
                    made.setdefault((kw, e.root), set()).update(r for _, v in e.value for r in deps(v))

        def through(kw, v):
            out, todo = set(), list(deps(v))
            while todo:
                r = todo.pop()
                if r in out:
                    continue
                out.add(r)
                todo += made.get((kw, r[1]), ())
            return out
        for kw, e in [(kw, e) for kw in self.events for e in self.events[kw]]:
            if e.kind == 'new':
                md = self.model(e.cls)
                for r in set().union(*[deps_formula(g) for g in e.guards]) if e.guards else ():
                    k = keyof(r[2])
                    if k is None or r[1].startswith('new:') or r[1] in ('LINE', 'FILE'):
                        continue
                    for a, cs in md.const.items():
                        if any(isinstance(c, str) for c in cs):
                            key = (r[1], k, e.cls, a, ())
                            if key not in seen:
                                seen.add(key)
                                self.flow.setdefault((r[1], k), []).append((e.cls, a, (), None))
                if not md.ok:
                    self.und.append('constructor of %s' % e.cls)
                for p, v in e.value:
                    for r in through(kw, v):
                        k = keyof(r[2])
                        if k is None or r[1].startswith('new:') or r[1] in ('LINE', 'FILE'):
                            continue
                        for a in md.fed.get(p, ()):
                            key = (r[1], k, e.cls, a, e.guards)
                            if key not in seen:
                                seen.add(key)
                                self.flow.setdefault((r[1], k), []).append((e.cls, a, e.guards, p))
                        self.built.setdefault(e.cls, {}).setdefault((r[1], k), set()).update(md.fed.get(p, ()))
            elif e.kind == 'store' and e.root.startswith('new:'):
                cls = e.root[4:].split('#')[0]
                if not isinstance(e.path[0], str):
                    continue
                md = self.model(cls)
                for r in through(kw, e.value):
                    k = keyof(r[2])
                    if k is None or r[1].startswith('new:') or r[1] in ('LINE', 'FILE'):
                        continue
                    _, a, _ = split(e.path)
                    self.built.setdefault(cls, {}).setdefault((r[1], k), set()).update(md.setter(a))
                    for x in md.setter(a):
                        key = (r[1], k, cls, x, e.guards)
                        if key not in seen:
                            seen.add(key)
                            self.flow.setdefault((r[1], k), []).append((cls, x, e.guards, None))

    def dests(self, e):
        """[(owner, attribute, selection)] a store ends up in"""
        if e.root.startswith('new:'):
            way, a, subs = split(e.path)
            if a is None:
                return []
            return [(way or (e.root[4:].split('#')[0],), a, subs)]
        k = keyof(e.path)
        if k is None:
            return []
        i = next(i for i, p in enumerate(e.path) if isinstance(p, tuple) and p[0] == 'k' and p[1] == k)
        return [(('cls', c), a, e.path[i + 1:]) for c, a, _, _ in self.flow.get((e.root, k), ())]

    # ---------------------------------------------------------------- rules
    def parts(self, v):
        """the alternatives of a written value: [(owner, attribute, selection, ref)]"""
        if v[0] == 'alt':
            return [x for y in v[1] for x in self.parts(y)]
        if v[0] == 'len':
            return []
        out = []
        rs = deps(v)
        for r in rs:
            if r[1] != 'self':
                continue
            way, a, subs = split(r[2])
            if a is None:
                continue
            out.append((way, a, subs, r))
        return out

    def consistent(self, line, e):
        """can this store happen for this line?"""
        def value(g):
            if g[0] == 'cmp' and g[1][0] == 'id':
                k, off, c = g[1][1], g[1][2], g[3]
                if not isinstance(c, int) or isinstance(c, bool):
                    return None
                if k < len(line.ids):
                    v = line.ids[k]
                    if v[0] == 'c' and isinstance(v[1], int):
                        x = v[1] + off
                        return {'==': x == c, '!=': x != c, '<': x < c, '<=': x <= c, '>': x > c, '>=': x >= c}[g[2]]
                    if v[0] == 'ix':
                        lo = v[2] + off          # smallest index written
                        if g[2] == '==' and c < lo or g[2] == '<' and c <= lo or g[2] == '<=' and c < lo:
                            return False
                        if g[2] == '!=' and c < lo or g[2] == '>=' and c <= lo or g[2] == '>' and c < lo:
                            return True
                elif g[2] in ('==', '!='):
                    x = -1 + off
                    return (x == c) == (g[2] == '==')
                return None
            if g[0] == 'and':
                vs = [value(x) for x in g[1]]
                return False if False in vs else True if all(x is True for x in vs) else None
            if g[0] == 'or':
                vs = [value(x) for x in g[1]]
                return True if True in vs else False if all(x is False for x in vs) else None
            return None
        return not any(value(g) is False for g in e.guards)

    def check(self):
        self.written()
        self.n['lines'] = len(self.lines)
        if not self.read():
            return
        self.flows()
        self.n['keywords'] = len(self.events)
        self.n['classes'] = len(self.built)
        self.vote()
        self.rule_restored()
        self.rule_kinds()
        self.rule_overwritten()
        self.rule_index()
        self.rule_all()
        self.rule_read()
        self.rule_written()
        self.rule_defaults()
        self.rule_carry()
        self.rule_lists()
        self.rule_same()
        self.rule_kind()

    def vote(self):
        """which class of the reader stands for which part of the written plan"""
        count = {}
        for l in self.lines:
            for v, _ in l.values:
                for way, a, subs, r in self.parts(v):
                    for e in self.stores(l.kw):
                        for own, b, _ in self.dests(e):
                            if own[0] == 'cls' and a in self.model(own[1]).setter(b) | {b}:
                                count.setdefault(own, {}).setdefault(way, set()).add(l.kw)
        self.owner = {}
        for own, d in count.items():
            best = max(len(x) for x in d.values())
            self.owner[own] = {w for w, x in d.items() if len(x) == best}
        self.ways = {}
        for own, ws in self.owner.items():
            for w in ws:
                self.ways.setdefault(w, set()).add(own[1])

    def near(self, way, own):
        """does the reader's owner stand for the writer's?"""
        if own[0] == 'cls':
            return own not in self.owner or way in self.owner[own]
        if own == way:
            return True
        # an object of its own: decided only by another attribute chain of the same length
        return not way and own == (self.cls,) or own[-1:] == way[-1:] or (way and own[0] in self.w.classes and own != (self.cls,) and len(own) == 1)

    def roots(self, way, a):
        """the attributes a written attribute stands for"""
        out = {a}
        for c in self.ways.get(way, ()):
            out |= self.model(c).derived(a)
        return out

    def restored(self, line, way, a, only=None):
        """the stores of the line's keyword that put the attribute back"""
        key = (id(line), way, a)
        if key in self._restored:
            return self._restored[key]
        hit, other = self._restore(line, way, a)
        self._restored[key] = (hit, other)
        if hit and all(e.value[0] == 'c' for e, _, _, _ in hit):
            vals = [e.value[1] for e, _, _, _ in hit]
            for _, aa, subs, _ in [p for v, _ in line.values for p in self.parts(v)]:
                if aa == a:
                    known, d = self.default_of(line, way, a, subs)
                    if known and all(type(x) is type(d) and x == d for x in vals):
                        self._restored[key] = ([], other)
                    break
        return self._restored[key]

    def _restore(self, line, way, a):
        want = self.roots(way, a)
        hit, other = [], []
        for e in self.stores(line.kw):
            if not self.consistent(line, e):
                continue
            for own, b, subs in self.dests(e):
                got = self.model(own[1]).setter(b) | {b} if own[0] == 'cls' else {b}
                if self.near(way, own) and got & want or own[0] != 'cls' and way and b == way[-1] and own == way[:-1]:
                    hit.append((e, own, b, subs))
                else:
                    other.append((e, own, b, subs))
        return hit, other

    def rule_restored(self):
        back = {}
        for l in self.lines:
            if l.kw.endswith('+'):
                continue
            for e in self.stores(l.kw):
                for own, b, subs in self.dests(e):
                    if own[0] == 'cls':
                        for w in self.owner.get(own, ()):
                            back.setdefault(w, {}).setdefault(b, set()).add(l.kw)
                    else:
                        back.setdefault(own, {}).setdefault(b, set()).add(l.kw)
        for l in self.lines:
            if l.kw.endswith('+'):
                continue
            for v, spec in l.values:
                ps = self.parts(v)
                if not ps:
                    continue
                fine, miss, odd = [], [], []
                for way, a, subs, r in ps:
                    hit, other = self.restored(l, way, a)
                    self.n['attributes'] += 1
                    if hit:
                        fine.append(a)
                        continue
                    # computed from what other lines restore?
                    roots = self.roots(way, a) - {a}
                    own = set(back.get(way, ()))
                    silent = not other and not any(e.kind == 'store' for e in self.stores(l.kw))
                    if silent and a in own and any(k != l.kw for k in back[way][a]) or not other and roots and roots & own and not any(a in self.model(c).fedattrs for c in self.ways.get(way, ())):
                        fine.append(a)
                        continue
                    (odd if other else miss).append((way, a, other))
                if fine or not (miss or odd):
                    continue
                way, a, other = (odd or miss)[0]
                if l.kw not in self.events:
                    self.und.append(l.kw)
                    continue
                if self.unresolved(l.kw):
                    self.und.append('%s: where it is stored' % l.kw)
                    continue
                if odd:
                    what = sorted({b for _, _, b, _ in other})
                    self.bad('misplaced', '%s %s' % (l.kw, a), other[0][0].node, 'the line %s holds %r of the plan, and the reader puts it into %s instead' % (l.kw, a, ', '.join(what)))
                elif not any(e.loop and e.kind == 'store' and self.relevant(e) for e in self.events[l.kw]):
                    self.bad('not-read', '%s %s' % (l.kw, a), l.node, 'the writer writes %r under %s, and the reader does not take it from there' % (a, l.kw), self.render.name)
                else:
                    self.bad('not-restored', '%s %s' % (l.kw, a), l.node, 'the writer writes %r under %s; what the reader takes from that line never reaches the plan' % (a, l.kw), self.render.name)

    def relevant(self, e):
        return any(r[1] == 'LINE' for r in deps(e.value))

    def unresolved(self, kw):
        """the reader hands the text somewhere that was not followed"""
        for e in self.stores(kw):
            if e.root.startswith('arg:'):
                return True
            if not e.root.startswith('new:') and keyof(e.path) is None and e.kind == 'store':
                return True
            if e.kind == 'append':
                continue
            if not e.root.startswith('new:') and not self.flow.get((e.root, keyof(e.path))) and not any(x[0] == e.root for x in self.flow):
                return True
        return False

    def kinds(self):
        """class -> the kinds of entry it is built for, with the attribute that says so"""
        out = {}
        for (root, k), d in self.mode_of().items():
            for l in self.lines:
                for e in self.stores(l.kw):
                    if e.root == root and keyof(e.path) == k and len(l.values) == 1:
                        ps = self.parts(l.values[0][0])
                        if len(ps) == 1:
                            for m, cs in d.items():
                                for c in cs:
                                    out.setdefault(c, set()).add((ps[0][0], ps[0][1], m))
        return out

    def rule_kinds(self):
        """in every kind of entry"""
        kinds = self.kinds()
        given = {}                    # class -> argument -> keywords that decide it
        for (root, k), fl in self.flow.items():
            kws = {kw for kw in self.events for e in self.stores(kw) if e.root == root and keyof(e.path) == k}
            for c, a, _, p in fl:
                given.setdefault(c, {}).setdefault(p, set()).update(kws)
        for l in self.lines:
            if l.kw.endswith('+') or len(l.values) != 1:
                continue
            for way, a, subs, r in self.parts(l.values[0][0]):
                for c in sorted(self.ways.get(way, ())):
                    ks = kinds.get(c)
                    if ks and all(excluded(l.guards, w, at, m) for w, at, m in ks):
                        continue
                    if len(self.parts(l.values[0][0])) != 1:
                        continue
                    md = self.model(c)
                    want = md.derived(a)
                    hits = others = None
                    hits, others = [], []
                    for e in self.stores(l.kw):
                        if not self.consistent(l, e):
                            continue
                        for own, b, _ in self.dests(e):
                            if own != ('cls', c):
                                continue
                            (hits if (md.setter(b) | {b}) & want else others).append((e, b))
                    feeders = [p for p in md.fed if md.fed[p] & ({a} | (want if a not in md.fedattrs else set()))]
                    if hits or not feeders:
                        continue
                    rest = {b for e, b in others if any(x[1] == b for x in self.written_attrs(way))}
                    if rest:
                        self.bad('misplaced', '%s %s %s' % (l.kw, a, c), others[0][0].node, 'for a %s, the reader puts what the line %s holds (%r of the plan) into %s' % (c, l.kw, a, ', '.join(sorted(rest))))
                    elif not any(given.get(c, {}).get(p) for p in feeders) and self.stores(l.kw) and not self.unresolved(l.kw) and c in self.built:
                        self.bad('not-restored', '%s %s %s' % (l.kw, a, c), l.node, 'for a %s, the reader does not use what the writer puts under %s (%r)' % (c, l.kw, a), self.render.name)

    def written_attrs(self, way):
        return [(w, a) for l in self.lines if not l.kw.endswith('+') for v, _ in l.values for w, a, _, _ in self.parts(v) if w == way]

    def rule_overwritten(self):
        """a line does not change what another line holds"""
        of = {}
        for l in self.lines:
            if l.kw.endswith('+'):
                continue
            for v, _ in l.values:
                for way, a, subs, r in self.parts(v):
                    for e, own, b, _ in self.restored(l, way, a)[0]:
                        if self.relevant(e):
                            of.setdefault((own, b), set()).add(l.kw)
        for l in self.lines:
            if l.kw.endswith('+'):
                continue
            ps = [p for v, _ in l.values for p in self.parts(v)]
            if not ps:
                continue
            mine = set().union(*[self.roots(w, a) for w, a, _, _ in ps])
            for e in self.stores(l.kw):
                if e.kind != 'store' or not any(r[1] == 'LINE' for r in deps(e.value)) or not self.consistent(l, e):
                    continue
                ds = self.dests(e)
                if not ds or any(b in mine for _, b, _ in ds):
                    continue
                for own, b, _ in ds:
                    if of.get((own, b), set()) - {l.kw} and not b.startswith('_'):
                        o = sorted(of[(own, b)] - {l.kw})[0]
                        self.bad('misplaced', '%s %s' % (l.kw, b), e.node, 'the line %s holds %r of the plan, and the reader (also) puts it into %r, which the line %s holds' % (l.kw, ps[0][1], b, o))
                        break

    def rule_index(self):
        for l in self.lines:
            if l.kw.endswith('+'):
                continue
            for v, spec in l.values:
                for way, a, subs, r in self.parts(v):
                    hit, _ = self.restored(l, way, a)
                    for e, own, b, got in hit:
                        mine = subs
                        got = tuple(got)
                        if len(got) != len(mine):
                            continue
                        for s, g in zip(mine, got):
                            if isinstance(g, tuple) and isinstance(s, tuple) and g[0] == s[0] == 'k' and g[1] != s[1] and not (isinstance(g[1], int) and g[1] < 0):
                                self.bad('wrong-entry', '%s %s' % (l.kw, a), e.node, 'entry %r of %r is written under %s, and the reader puts it at %r' % (s[1], a, l.kw, g[1]))
                                continue
                            if not (isinstance(g, tuple) and g[0] == 'v' and g[1][0] == 'id'):
                                continue
                            k, off = g[1][1], g[1][2]
                            if k >= len(l.ids):
                                self.bad('wrong-entry', '%s[%d]' % (l.kw, k), e.node, 'the reader places %s by its index %d, which the line does not have' % (l.kw, k + 1))
                                continue
                            i = l.ids[k]
                            if i[0] == 'ix' and isinstance(s, tuple) and s[0] == 'i':
                                if s[1] != i[1]:
                                    self.bad('wrong-entry', '%s[%d]' % (l.kw, k), e.node, 'entry %r of the plan is written under another index than the one by which the reader places it' % a)
                                elif i[2] + off != 0:
                                    self.bad('wrong-entry', '%s[%d]' % (l.kw, k), e.node, 'the first entry of %r is written with the index %d, and the reader puts it at position %d' % (a, i[2], i[2] + off))
                            elif i[0] == 'c' and isinstance(s, tuple) and s[0] == 'k' and isinstance(s[1], int):
                                if i[1] + off != s[1]:
                                    self.bad('wrong-entry', '%s[%d]' % (l.kw, k), e.node, 'entry %d of %r is written with the index %d, and the reader puts it at position %d' % (s[1], a, i[1], i[1] + off))

    def rule_all(self):
        """a line for all the entries is one for all of them"""
        for l in self.lines:
            if l.kw.endswith('+') or len(l.values) != 1:
                continue
            for way, a, subs, r in self.parts(l.values[0][0]):
                for k, i in enumerate(l.ids):
                    if i[0] != 'c' or k >= len(subs) or subs[k] != ('k', 0):
                        continue
                    if not any(m.kw == l.kw and len(m.ids) == len(l.ids) and m.ids[k][0] == 'ix' for m in self.lines) or i[1] != 0:
                        continue
                    for e, own, b, got in self.restored(l, way, a)[0]:
                        if len(got) != len(subs) or e.kind != 'store':
                            continue
                        g = got[k]
                        part = isinstance(g, tuple) and (g[0] == 'k' and isinstance(g[1], int) or g[0] == 'v' and g[1][0] == 'ix' and (g[1][1] in self.partial.get(l.kw, ()) or g[1][2] > 0))
                        if part:
                            self.bad('only-some', '%s[%d]' % (l.kw, k), e.node, 'one line %s holds all the entries of %r, and the reader sets only some of them' % (l.kw, a))
                    ds = [d for f in l.guards if f[0] in ('?', 'and', 'or') for d in deps_formula(f) if d[0] == 'ref' and d[1] == 'self']
                    way0 = [split(d[2]) for d in ds]
                    mine = [x for x in way0 if x[0] == way and x[1] == a and not (x[2] and x[2][0][0] == 'k')]
                    other = [x for x in way0 if x[0] == way and x[1] not in (a, None) and x[2] and x[2][0][0] == 'i']
                    if other and not mine:
                        self.bad('only-some', '%s %s' % (l.kw, a), l.node, 'the first entry of %r is written for all when those of %r are the same' % (a, other[0][1]), self.render.name)

    def rule_read(self):
        """the text of a line is taken for what it says"""
        for kw in sorted(self.events):
            lines = [l for l in self.lines if l.kw == kw]
            for e in self.stores(kw):
                if 'textbool' in tags(e.value):
                    self.bad('text-taken-for-true', kw, e.node, 'the truth of the text of %s is stored: the text "0" counts as true' % kw)
                if not lines or any(len(l.values) != 1 for l in lines):
                    continue
                specs = {conv(l.values[0][1]) for l in lines}
                if specs <= {'i', 'd'} and 'float' in tags(e.value) and 'int' not in tags(e.value):
                    self.bad('fraction-lost', kw, lines[0].node, '%s is read as a real number and written as a whole one' % kw, self.render.name)
                if specs and specs <= {'f', 'e', 'g', 'F', 'E', 'G'} and 'int' in tags(e.value) and not tags(e.value) & {'float', 'split', 'num'}:
                    self.bad('unreadable', kw, e.node, '%s is written as a real number and read as a whole one' % kw)
                if specs == {'s'} and e.kind == 'store' and not self.guarded(e):
                    plain = all(p[0] == 'ref' or p[0] == 'alt' and all(x[0] in ('ref', 'c') for x in p[1]) for l in lines for p in [l.values[0][0]])
                    own = [t for t in ('cut', 'case', 'item') if t in tags(e.value)]
                    if own and plain and not any(not tags(x.value) & {'cut', 'case', 'item'} for x in self.stores(kw) if x is not e and x.path == e.path):
                        self.bad('text-changed', kw, e.node, 'the text of %s is stored %s' % (kw, {'cut': 'cut short', 'case': 'in another case', 'item': 'only up to the first blank'}[own[0]]))

        for l in self.lines:
            if l.kw.endswith('+') or l.kw not in self.events:
                continue
            for v, spec in l.values:
                t = tags(v) & {'cut', 'case'}
                if t and len(self.parts(v)) == 1 and conv(spec) == 's' and v[0] in ('d', 'alt') and 'num' not in tags(v):
                    self.bad('text-changed', l.kw, l.node, '%r is written %s' % (self.parts(v)[0][1], 'cut short' if 'cut' in t else 'in another case'), self.render.name)
        for root, k, n, want, node in self.rounded:
            kws = sorted(kw for kw in self.events for e in self.stores(kw) if e.root == root and keyof(e.path) == k and 'int' in tags(e.value))
            if kws:
                self.bad('digits-lost', kws[0], node, 'what the line %s holds is divided by 10^%d and rounded to %d decimals on its way into the plan' % (kws[0], want, n))
        for pat, node in self.patterns():
            for l in self.lines:
                text = l.kw.rstrip('+') + ''.join('[%d]' % (10 * (i + 1) + 2) for i in range(len(l.ids)))
                m = pat.match(text)
                if m is None or m.group('keyword') != l.kw.rstrip('+'):
                    self.bad('unreadable', l.kw, node, 'the reader does not recognise the keyword %s' % l.kw)
                    continue
                for i in range(len(l.ids)):
                    g = m.groupdict()
                    if 'id%d' % (i + 1) in g and g['id%d' % (i + 1)] != str(10 * (i + 1) + 2):
                        self.bad('unreadable', '%s[%d]' % (l.kw, i), node, 'the reader does not recognise index %d of %s when it has more than one digit' % (i + 1, l.kw))

    def patterns(self):
        out = []
        for fn in self.closure(self.parse):
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'compile' and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and '(?P<keyword>' in n.args[0].value and len(n.args) == 1:
                    try:
                        out.append((re.compile(n.args[0].value), n))
                    except re.error:
                        pass
        for name, v in self.w.consts.items():
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'compile' and v.args and isinstance(v.args[0], ast.Constant) and isinstance(v.args[0].value, str) and '(?P<keyword>' in v.args[0].value and len(v.args) == 1:
                try:
                    out.append((re.compile(v.args[0].value), v))
                except re.error:
                    pass
        return out

    def guarded(self, e):
        g = set().union(*[deps_formula(f) for f in e.guards]) if e.guards else set()
        return False if not g else not any(r[1] == 'LINE' for r in deps(e.value))

    def mode_of(self):
        """(variable, key) -> kind named in the file -> classes built for it"""
        if self._modes is not None:
            return self._modes
        sites = {}
        for kw in self.events:
            for e in self.events[kw]:
                if e.kind != 'new':
                    continue
                for g in e.guards:
                    alts = [x for x in (g[1] if g[0] == 'or' else (g,))]
                    if all(x[0] == 'cmp' and x[2] == '==' and isinstance(x[3], str) and x[1][0] == 'ref' and keyof(x[1][2]) is not None and x[1] == alts[0][1] for x in alts):
                        r = alts[0][1]
                        if r[1].startswith('new:') or r[1] in ('LINE', 'FILE'):
                            continue
                        x = sites.setdefault((r[1], keyof(r[2]), id(e.node)), (set(), set()))
                        x[0].update(y[3] for y in alts)
                        x[1].add(e.cls)
        keys, self.mixed = {}, set()
        for (root, k, node), (ms, cs) in sites.items():
            for m in ms:
                for c in cs:
                    own = set().union(*self.model(c).const.values()) if self.model(c).const else set()
                    if len(cs) > 1 and len(ms) > 1:
                        if m not in own:
                            continue
                    keys.setdefault((root, k), {}).setdefault(m, set()).add(c)
        self._modes = keys
        return keys

    def rule_kind(self):
        for (root, k), d in self.mode_of().items():
            attr = None
            for l in self.lines:
                for e in self.stores(l.kw):
                    if e.root == root and keyof(e.path) == k and len(l.values) == 1:
                        ps = self.parts(l.values[0][0])
                        if len(ps) == 1:
                            attr = ps[0][1]
            if attr is None:
                continue
            for m, classes in d.items():
                for c in classes:
                    consts = self.model(c).const.get(attr)
                    if consts and all(isinstance(x, str) for x in consts) and m not in consts:
                        self.bad('wrong-kind', '%s %s' % (m, c), self.parse, 'a %r entry of the file becomes a %s, whose %s is %s' % (m, c, attr, '/'.join(sorted(consts))))

    def rule_written(self):
        """what the reader takes from a keyword is written under it"""
        # all keywords that restore a slot
        slots = {}
        for kw in self.events:
            for e in self.stores(kw):
                if e.root.startswith('new:'):
                    if e.path and isinstance(e.path[-1], str):
                        slots.setdefault((e.root.split('#')[0], e.path), set()).add(kw)
                else:
                    k = keyof(e.path)
                    if k is not None and self.flow.get((e.root, k)):
                        slots.setdefault((e.root, k), set()).add(kw)
        have = {l.kw for l in self.lines}
        for slot, kws in sorted(slots.items(), key=str):
            if not kws & have:
                kw = sorted(kws)[0]
                what = slot[1] if isinstance(slot[1], str) else slot[1][-1]
                self.bad('not-written', '%s' % kw, self.render, 'the reader takes %r from %s, which the writer never writes' % (what, kw), self.render.name)
        # and for every key of a table
        tables = {}
        for l in self.lines:
            for v, _ in l.values:
                for way, a, subs, r in self.parts(v):
                    if subs and isinstance(subs[0], tuple):
                        tables.setdefault((way, a), set()).add(subs[0])
        for (way, a), subs in sorted(tables.items(), key=str):
            if any(s[0] != 'k' for s in subs):
                continue
            for c in sorted(self.w.classes):
                d = self.model(c).default.get(a)
                if d is None or d[0] != 'dict' or not self.attr_class(way, c) and not self.attr_owner(way, c):
                    continue
                keys = {k[1] for k, _ in d[1] if k[0] == 'c' and isinstance(k[1], str)}
                have2 = {s[1] for s in subs}
                if len(keys & have2) >= 2:
                    for k in sorted(keys - have2):
                        self.bad('not-written', '%s %s' % (a, k), self.render, 'the writer leaves out entry %r of %r' % (k, a), self.render.name)
        # and in every kind of entry that uses it
        for (root, k), d in self.mode_of().items():
            attr = way = None
            for l in self.lines:
                for e in self.stores(l.kw):
                    if e.root == root and keyof(e.path) == k and len(l.values) == 1:
                        ps = self.parts(l.values[0][0])
                        if len(ps) == 1:
                            way, attr = ps[0][0], ps[0][1]
            if attr is None:
                continue
            for m, classes in sorted(d.items()):
                active = [l for l in self.lines if not excluded(l.guards, way, attr, m)]
                for c in sorted(classes):
                    for (r, key), attrs in sorted(self.built.get(c, {}).items()):
                        if r != root:
                            continue
                        kws = slots.get((r, key), set())
                        if kws and kws & have and not any(l.kw in kws for l in active):
                            self.bad('not-written', '%s %s' % (m, sorted(kws)[0]), self.render, 'the reader needs %s to restore a %s entry, and the writer does not write it for one' % (sorted(kws)[0], m), self.render.name)

    # ---------------------------------------------------------------- what is left out
    def default_of(self, line, way, a, subs):
        """the constant a slot holds when its line is not there: (known, value)"""
        hit, _ = self.restored(line, way, a)
        vals = set()
        for e, own, b, got in hit:
            if b not in (a, '_' + a) and a not in (self.model(own[1]).setter(b) if own[0] == 'cls' else ()):
                return False, None
            if e.root.startswith('new:'):
                cands = [c for c in self.w.classes if a in self.model_safe(c).default and self.attr_class(way, c)]
                if len(cands) != 1:
                    return False, None
                v = self.model(cands[0]).default[a]
            else:
                v = self.initial(e.root, keyof(e.path))
            for s in subs:
                if v is None:
                    break
                v = v[1] if v[0] == 'rep' else elem(v, ('c', s[1])) if isinstance(s, tuple) and s[0] == 'k' else (v[1][0] if v[0] == 'tup' and v[1] and all(x == v[1][0] for x in v[1]) else None)
            if v is None or v[0] != 'c' or not hashable(v[1]):
                return False, None
            vals.add((type(v[1]).__name__ if v[1] is None else '', v[1]))
        if len(vals) != 1:
            return False, None
        return True, vals.pop()[1]

    def model_safe(self, c):
        return self.model(c)

    def attr_owner(self, way, c):
        return bool(self.built.get(c)) or any(e.root.startswith('new:' + c) for kw in self.events for e in self.events[kw])

    def attr_class(self, way, c):
        """is c the class of the things at this place of the plan?"""
        if not way:
            return c == self.cls
        for n in ast.walk(self.w.classes[self.cls]):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == way[-1] for t in n.targets) and any(isinstance(x, ast.Name) and x.id == c for x in ast.walk(n.value)):
                return True
        return False

    def initial(self, root, k):
        for kw in self.events:
            for e in self.events[kw]:
                if e.kind == 'bind' and e.root == root and not e.loop:
                    v = e.value
                    if v[0] == 'copy' and v[2][0] == 'ref':
                        return self.initial(v[2][1], k) if v[2][1] != root else None
                    if v[0] == 'dict':
                        return dict(v[1]).get(('c', k))
                    if v[0] == 'tup':
                        for x in self.events[kw]:
                            if x.kind == 'append' and x.root == root and x.value[0] == 'copy' and x.value[2][0] == 'ref' and x.value[2][1] != root:
                                return self.initial(x.value[2][1], k)
                        for kw2 in self.events:
                            for x in self.events[kw2]:
                                if x.kind == 'append' and x.root == root:
                                    if x.value[0] == 'copy' and x.value[2][0] == 'ref' and x.value[2][1] != root:
                                        return self.initial(x.value[2][1], k)
                                    if x.value[0] == 'dict':
                                        return dict(x.value[1]).get(('c', k))
            break
        return None

    def rule_defaults(self):
        for l in self.lines:
            if l.kw.endswith('+'):
                continue
            refs = [p for v, _ in l.values for p in self.parts(v)]
            if not refs:
                continue
            for way, a, subs, r in refs:
                if any(way != w2 or a != a2 for w2, a2, _, _ in refs):
                    continue
                for g in l.guards:
                    self.omitted(l, g, way, a, subs, r, refs)

    def omitted(self, l, g, way, a, subs, r, refs):
        """the line is left out when g is false: then the value has to be the default"""
        parts = list(g[1]) if g[0] == 'and' else [g]
        for p in parts:
            alts = list(p[1]) if p[0] == 'or' else [p]
            same = [q for q in alts if q[0] in ('cmp', 'truthy', 'falsy') and q[1][0] == 'ref' and q[1][1] == 'self' and split(q[1][2])[:2] == (way, a)]
            if len(same) != len(alts) or not same:
                continue
            exact = [q for q in same if same_subs(split(q[1][2])[2], subs)]
            if not exact:
                if len(refs) == 1 and len(alts) == 1 and all(isinstance(s, tuple) and s[0] == 'k' for s in subs) and subs and same[0][0] == 'cmp' and same[0][2] == '!=':
                    other = split(same[0][1][2])[2]
                    if len(other) == len(subs) and all(isinstance(s, tuple) and s[0] == 'k' for s in other):
                        self.bad('left-out', '%s %s' % (l.kw, a), l.node, '%s is left out of the file whenever another entry of %r has its default' % (l.kw, a), self.render.name)
                continue
            q = exact[0]
            known, d = self.default_of(l, way, a, subs)
            if not known:
                self.und.append('%s: default of %s' % (l.kw, a))
                continue
            self.n['defaults'] = self.n.get('defaults', 0) + 1
            if q[0] == 'truthy':
                if d:
                    self.bad('left-out', '%s %s' % (l.kw, a), l.node, '%s is left out of the file when %r is empty, zero or false, and the reader then takes %r' % (l.kw, a, d), self.render.name)
                elif isinstance(d, (int, float)) and not isinstance(d, bool) and d != 0:
                    self.bad('left-out', '%s %s' % (l.kw, a), l.node, '%s is left out of the file when %r is zero' % (l.kw, a), self.render.name)
            elif q[0] == 'cmp' and q[2] == '!=':
                if d != q[3]:
                    self.bad('left-out', '%s %s' % (l.kw, a), l.node, '%s is left out of the file when %r is %r, and the reader then takes %r' % (l.kw, a, q[3], d), self.render.name)
            elif q[0] == 'cmp' and q[2] in ('>', '>=') and isinstance(q[3], int) and isinstance(d, int) and not isinstance(d, bool):
                low = q[3] if q[2] == '>' else q[3] - 1
                if low > d:
                    self.bad('left-out', '%s %s' % (l.kw, a), l.node, '%s is left out of the file when %r is %d, and the reader then takes %d' % (l.kw, a, low, d), self.render.name)

    # ---------------------------------------------------------------- one entry and the next
    def rule_carry(self):
        # keys that a line of every entry settles
        sure, cond = {}, {}
        for l in self.lines:
            for e in self.stores(l.kw):
                k = keyof(e.path)
                if k is None or e.root.startswith('new:'):
                    continue
                own = [(w, loop) for v, _ in l.values for w, _, _, r in self.parts(v) for loop in [ownerloop(r)]]
                inner = self.inner(l, own)
                if inner is False and (e.root, k) in self.certain.get(l.kw, ()) and not nested(e.path, k):
                    sure.setdefault(e.root, set()).add(k)
                else:
                    cond.setdefault(e.root, {}).setdefault(k, (l.kw, e))
        used = {}
        for (root, k), fl in self.flow.items():
            used.setdefault(root, set()).add(k)
        for root in sorted(cond):
            keys = {k for k in cond[root] if k in used.get(root, ()) and k not in sure.get(root, ())}
            if not keys:
                continue
            # entries of a list: each starts from something
            apps = {}
            for kw in self.events:
                for e in self.events[kw]:
                    if e.kind == 'append' and e.root == root and not e.path and e.loop:
                        apps.setdefault((getattr(e.node, 'lineno', 0), e.value), (kw, e))
            if apps:
                for (_, v), (kw, e) in sorted(apps.items(), key=str):
                    self.n['resets'] += 1
                    for x in (v[1] if v[0] == 'alt' else (v,)):
                        lost = self.kept(x, keys, root)
                        if lost:
                            k = sorted(lost)[0]
                            self.bad('carried-over', '%s %s' % (root, kw), e.node, 'a new entry starts from an earlier one: without a line of its own it keeps the earlier %s' % ', '.join(sorted(lost)))
                continue
            # a dictionary used again: settled anew once its entry is built
            done = False
            for kw in sorted(self.events):
                evs = self.events[kw]
                news = [e for e in evs if e.kind == 'new' and e.loop and any(r[1] == root for _, v in e.value for r in deps(v))]
                if not news:
                    continue
                done = True
                self.n['resets'] += 1
                left = set(keys)
                last = max(e.n for e in news)
                site = {g for g in news[-1].guards}
                for e in evs:
                    if e.n < last or e.root != root or not set(e.guards) <= site | set(self.common(news)):
                        continue
                    if e.kind == 'bind' and not e.path:
                        left = self.kept(e.value, left, root, keys)
                    elif e.kind == 'store' and keyof(e.path) in left and not nested(e.path, keyof(e.path)) and not any(r[1] in ('LINE', root) for r in deps(e.value)):
                        left.discard(keyof(e.path))
                if left:
                    self.bad('carried-over', '%s %s' % (root, kw), news[-1].node, 'after an entry is built its settings stay: the next one, without a line of its own, takes over %s' % ', '.join(sorted(left)))
            if not done:
                self.und.append('%s: where its entries are built' % root)

    def rule_lists(self):
        """the parts collected for one entry are not those of the next"""
        roots = {e.root for kw in self.events for e in self.events[kw] if e.kind == 'append' and not e.path and e.loop and not e.root.startswith('new:')}
        for kw in sorted(self.events):
            evs = self.events[kw]
            for root in sorted(roots):
                news = [e for e in evs if e.kind == 'new' and e.loop and any(r[1] == root for _, v in e.value for r in deps(v))]
                if not news:
                    continue
                self.n['resets'] += 1
                last = max(e.n for e in news)
                site = {g for e in news for g in e.guards}
                if not any(e.n > last and e.loop and set(e.guards) <= site and e.root == root and not e.path and e.kind == 'bind' and (e.value == ('tup', ()) or e.value[0] in ('rep', 'copy')) for e in evs):
                    self.bad('carried-over', '%s %s list' % (root, kw), news[-1].node, 'what is collected in %r for one entry is still there when the next one is built' % root)

    def rule_same(self):
        """different values are not read as the same"""
        generic = None
        for l in self.lines:
            if l.kw.endswith('+') or l.kw not in self.events or len(l.values) != 1:
                continue
            ps = self.parts(l.values[0][0])
            if len({(w, a) for w, a, _, _ in ps}) != 1:
                continue
            way, a = ps[0][:2]
            st = [e for e in self.stores(l.kw) if self.consistent(l, e)]
            if not st or any(any(r[1] == 'LINE' for r in deps(e.value)) for e in st):
                continue
            if generic is None:
                count = {}
                for kw in self.events:
                    for g in {g for e in self.stores(kw) for g in e.guards}:
                        count[g] = count.get(g, 0) + 1
                generic = {g for g in count if count[g] > 5}
            common = generic
            if any(g[0] == '?' and any(r[1] == 'LINE' for r in deps_formula(g)) for e in st for f in e.guards if f not in common for g in flatten([f])):
                continue
            for c in sorted({own[1] for e in st for own, _, _ in self.dests(e) if own[0] == 'cls'}):
                texts = self.model(c).texts(a)
                if not texts or len(texts) < 2:
                    continue
                # one way through the reader at a time
                plain = [frozenset(g for g in e.guards if not any(r[1] == 'LINE' for r in deps_formula(g)) and g[0] != 'loop') for e in st]
                for ctx in set(plain):
                    seen = {}
                    here = [e for e, p in zip(st, plain) if p <= ctx and self.own(e, c)]
                    if not any(any(r[1] == 'LINE' for g in e.guards if g not in common for r in deps_formula(g)) for e, p in zip(st, plain) if p == ctx and self.own(e, c)):
                        continue
                    for t in sorted(texts):
                        last = {}
                        for e in here:
                            if not any(self.truth(g, t) is False for g in e.guards):
                                last.setdefault((str(e.root), str(e.path)), []).append(str(e.value))
                        out = tuple(sorted((k, v[-1]) for k, v in last.items()))
                        if out in seen:
                            self.bad('taken-for-another', '%s %s' % (l.kw, t), st[0].node, 'the reader does not tell %r from %r on the line %s' % (t, seen[out], l.kw))
                        seen[out] = t

    def own(self, e, c):
        ds = [x for x in self.dests(e) if x[0][0] == 'cls']
        return not ds or any(x[0][1] == c for x in ds)

    def truth(self, g, text):
        if g[0] == 'cmp' and g[1][0] == 'ref' and g[1][1] == 'LINE':
            if g[2] == '==':
                return text == g[3]
            if g[2] == '!=':
                return text != g[3]
            return None
        if g[0] in ('and', 'or'):
            vs = [self.truth(x, text) for x in g[1]]
            if g[0] == 'and':
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        return None

    def common(self, news):
        return set(news[-1].guards)

    def kept(self, v, keys, root, allkeys=None):
        """the keys that do not start afresh"""
        if v[0] == 'dict':
            have = {k[1] for k, _ in v[1] if k[0] == 'c'}
            return {k for k in keys if False} if have else set(keys) if v[1] else set()
        if v[0] == 'copy':
            src = v[2]
            if src[0] == 'dict':
                return set()
            if src[0] == 'ref':
                if src[1] == root:
                    return set(keys)
                mut = {keyof(e.path) for kw in self.events for e in self.events[kw] if e.kind == 'store' and e.root == src[1] and e.loop}
                out = {k for k in keys if k in mut}
                if not v[1]:
                    deep = {keyof(e.path) for kw in self.events for e in self.events[kw] if e.kind == 'store' and e.root == root and e.loop and nested(e.path, keyof(e.path))}
                    for k in keys:
                        d = self.initial(src[1], k)
                        if k in deep and (d is None or d[0] in ('rep', 'tup', 'dict')):
                            out.add(k)
                return out
            return set()
        if v[0] == 'ref' and v[1] != root and v[1] not in ('LINE', 'FILE') and not v[1].startswith('arg:'):
            # the template itself, not a copy of it
            return set(keys) if any(e.kind == 'bind' and e.root == v[1] for kw in self.events for e in self.events[kw]) else set()
        if v[0] == 'alt':
            return set().union(*[self.kept(x, keys, root) for x in v[1]])
        if v[0] == 'c' or v[0] == 'ref':
            return set(keys)
        self.und.append('%s: what an entry starts from' % root)
        return set()

    def inner(self, l, own):
        """is the line written for every entry (False), or only for some?"""
        if not own:
            return False
        way, lid = own[0]
        start = l.loops.get(lid)
        if start is None:
            return True
        for g in l.guards[start:]:
            if g[0] == 'loop' and g[1] == lid:
                continue
            if g[0] in ('loop', 'except'):
                return True
            for f in flatten([g]):
                if f[0] == 'cmp' and f[2] in ('==', '!=') and isinstance(f[3], str) and f[1][0] == 'ref' and split(f[1][2])[1] in self.kindattrs():
                    continue
                return True
        return False

    def kindattrs(self):
        if not hasattr(self, '_kinds'):
            out = set()
            for (root, k), d in self.mode_of().items():
                for l in self.lines:
                    for e in self.stores(l.kw):
                        if e.root == root and keyof(e.path) == k:
                            out |= {a for v, _ in l.values for _, a, _, _ in self.parts(v)}
            self._kinds = out
        return self._kinds


def flatten(gs):
    for g in gs:
        if g[0] in ('and', 'or'):
            yield from flatten(g[1])
        else:
            yield g


def nested(path, k):
    i = next((i for i, p in enumerate(path) if isinstance(p, tuple) and p[0] == 'k' and p[1] == k), None)
    return i is not None and i + 1 < len(path)


def ownerloop(r):
    """the loop that runs over the entries a reference belongs to"""
    last = max([i for i, p in enumerate(r[2]) if isinstance(p, str)], default=0)
    for p in reversed(r[2][:last]):
        if isinstance(p, tuple) and p[0] == 'i':
            return p[1]
    return None


def same_subs(a, b):
    return tuple(a) == tuple(b)


def conv(spec):
    if not spec:
        return 's'
    if spec[0] == '{':
        return spec[-2] if spec[-2:-1].isalpha() else 's'
    return spec[-1]


def excluded(guards, way, attr, m):
    """do these conditions rule out that the entry is of kind m?"""
    def val(g):
        if g[0] == 'cmp' and g[1][0] == 'ref' and isinstance(g[3], str):
            w, a, subs = split(g[1][2])
            if a == attr and w == way and not subs:
                if g[2] == '==':
                    return g[3] == m
                if g[2] == '!=':
                    return g[3] != m
        if g[0] == 'and':
            vs = [val(x) for x in g[1]]
            return False if False in vs else True if all(x is True for x in vs) else None
        if g[0] == 'or':
            vs = [val(x) for x in g[1]]
            return True if True in vs else False if all(x is False for x in vs) else None
        return None
    return any(val(g) is False for g in guards)


# -------------------------------------------------------------------- finding the pairs
def templates(node):
    out = set()
    for n in ast.walk(node):
        s = None
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            s = n.value
        elif isinstance(n, ast.JoinedStr) and n.values and isinstance(n.values[0], ast.Constant):
            s = n.values[0].value
        if s:
            m = re.match(r'^([A-Z][A-Z0-9]*_[A-Z0-9_]*)', s)
            if m and len(m.group(1)) > 3:
                out.add(m.group(1).rstrip('_'))
    return out


def pairs(P):
    out = []
    mods = P.mods.values() if isinstance(P.mods, dict) else P.mods
    for mod in mods:
        if 'tests' in mod.rel or '/data/' in mod.rel:
            continue
        funcs = {s.name: s for s in mod.tree.body if isinstance(s, ast.FunctionDef)}
        classes = {s.name: s for s in mod.tree.body if isinstance(s, ast.ClassDef)}
        if not funcs or not classes:
            continue

        def reach(node, own):
            seen, todo = [], [node]
            while todo:
                f = todo.pop()
                if f in seen:
                    continue
                seen.append(f)
                for n in ast.walk(f):
                    if isinstance(n, ast.Name) and n.id in funcs:
                        todo.append(funcs[n.id])
                    if isinstance(n, ast.Attribute) and own is not None and isinstance(n.value, ast.Name) and n.value.id in ('self', own.name):
                        todo += [m for m in own.body if isinstance(m, ast.FunctionDef) and m.name == n.attr]
            return seen

        reads = {}
        for name, f in funcs.items():
            tables = [n.value for n in mod.tree.body if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Dict, ast.Tuple, ast.List))]
            cl = reach(f, None)
            names = {n.id for g in cl for n in ast.walk(g) if isinstance(n, ast.Name)}
            t = set().union(*[templates(g) for g in cl])
            for s in mod.tree.body:
                if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id in names for x in s.targets):
                    t |= templates(s.value)
            loops = any(isinstance(n, ast.For) for g in cl for n in ast.walk(g))
            if len(t) >= 12 and loops and any(isinstance(n, ast.Name) and n.id == 'open' for g in cl for n in ast.walk(g)):
                reads[name] = (t, cl)
        if not reads:
            continue
        for cname, c in classes.items():
            best = None
            for m in c.body:
                if not isinstance(m, ast.FunctionDef) or not m.args.args:
                    continue
                t = set().union(*[templates(g) for g in reach(m, c)])
                for n in ast.walk(m):
                    if isinstance(n, ast.Name) and n.id in [x.id for s in mod.tree.body if isinstance(s, ast.Assign) for x in s.targets if isinstance(x, ast.Name)]:
                        for s in mod.tree.body:
                            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n.id for x in s.targets):
                                t |= templates(s.value)
                if len(t) < 12:
                    continue
                if best is None or len(t) > len(best[1]) or len(t) == len(best[1]) and m in [g for g in reach(best[0], c)] and False:
                    best = (m, t)
                elif len(t) == len(best[1]) and best[0] in reach(m, c) and any(isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'open' for n in ast.walk(m)):
                    pass            # writes to disk what best renders
                elif len(t) == len(best[1]) and best[0] in reach(m, c):
                    best = (m, t)
            if best is None:
                continue
            cand = [(len(t & best[1]), n) for n, (t, cl) in reads.items()]
            cand = [(k, n) for k, n in cand if k >= 10]
            if not cand:
                continue
            top = max(cand)[0]
            names = [n for k, n in cand if k == top]
            # the innermost of those that open the file
            names.sort(key=lambda n: len(reads[n][1]))
            out.append((mod, cname, best[0], funcs[names[0]]))
    return out


def check(P):
    found = []
    for mod, cname, render, parse in pairs(P):
        p = Pair(P, mod, cname, render, parse)
        try:
            p.check()
        except Stop:
            p.und.append('%s: too large' % mod.name)
        found.append(p)
    return found
