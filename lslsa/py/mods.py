"""The Python modules of the repository: syntax trees, names, classes, functions, import resolution."""
import ast
import builtins
import os
import re
import symtable
import tokenize
from .. import common
from ..common import AnalysisError


class Func(object):
    def __init__(self, mod, node, qual, cls=None, parent=None):
        self.mod, self.node, self.qual, self.cls, self.parent = mod, node, qual, cls, parent
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.decorators = [ast.unparse(d) for d in getattr(node, 'decorator_list', [])]

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_class(self):
        return 'classmethod' in self.decorators or self.name in ('__new__', '__init_subclass__', '__class_getitem__')

    def __repr__(self):
        return '%s:%s' % (self.mod.name, self.qual)


class Class(object):
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual, self.name = mod, node, qual, node.name
        self.methods = {}
        self.attrs = {}
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    def __repr__(self):
        return '%s:%s' % (self.mod.name, self.qual)


class Mod(object):
    def __init__(self, name, path, rel, ispkg):
        self.name, self.path, self.rel, self.ispkg = name, path, rel, ispkg
        with tokenize.open(path) as fh:
            self.src = fh.read()
        try:
            self.tree = ast.parse(self.src, rel)
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (rel, e))
        self.funcs = []
        self.classes = {}
        self.imports = {}          # local name -> ('mod', dotted) | ('from', dotted, name)
        self.stars = []
        self.bind = {}             # top-level name -> list of ast nodes binding it
        self._walk(self.tree.body, None, None, '')
        self._top(self.tree.body)

    def _walk(self, body, cls, parent, pre):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(self, s, pre + s.name, cls, parent)
                self.funcs.append(f)
                if cls is not None and parent is None:
                    cls.methods.setdefault(s.name, []).append(f)
                self._walk(s.body, None if cls is None else cls, f, pre + s.name + '.')
            elif isinstance(s, ast.ClassDef):
                c = Class(self, s, pre + s.name)
                self.classes[pre + s.name] = c
                self._walk(s.body, c, None, pre + s.name + '.')
            else:
                for fld in ('body', 'orelse', 'finalbody', 'handlers', 'cases'):
                    sub = getattr(s, fld, None)
                    if isinstance(sub, list):
                        for x in sub:
                            if isinstance(x, (ast.ExceptHandler, ast.match_case)):
                                self._walk(x.body, cls, parent, pre)
                        self._walk([x for x in sub if isinstance(x, ast.stmt)], cls, parent, pre)

    def _b(self, name, node):
        self.bind.setdefault(name, []).append(node)

    def _target(self, t, node):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self._b(n.id, node)

    def _top(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self._b(s.name, s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    loc = a.asname or a.name.split('.')[0]
                    self.imports[loc] = ('mod', a.name if a.asname else a.name.split('.')[0])
                    self._b(loc, s)
            elif isinstance(s, ast.ImportFrom):
                base = self.resolve_from(s)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append((base, s))
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
                        self._b(a.asname or a.name, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self._target(t, s)
            elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
                self._target(s.target, s)
            elif isinstance(s, (ast.For,)):
                self._target(s.target, s)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        self._target(i.optional_vars, s)
            for e in ast.iter_child_nodes(s):
                for n in ast.walk(e) if not isinstance(e, ast.stmt) else ():
                    if isinstance(n, ast.NamedExpr):
                        self._b(n.target.id, s)
            for fld in ('body', 'orelse', 'finalbody'):
                sub = getattr(s, fld, None)
                if isinstance(sub, list) and not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self._top(sub)
            for h in getattr(s, 'handlers', []):
                if h.name:
                    self._b(h.name, h)
                self._top(h.body)
        return

    def resolve_from(self, s):
        if not s.level:
            return s.module or ''
        parts = self.name.split('.')
        if not self.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))


_cache = {}


def native_modules():
    """extension modules named by the repository's build description and the names they export"""
    out = {}
    for root, _, files in os.walk(os.path.join(common.REPO, 'lsl')):
        for f in files:
            if f.endswith('.cpp'):
                t = open(os.path.join(root, f), errors='replace').read()
                m = re.search(r'PyModuleDef\s+\w+\s*=\s*\{\s*PyModuleDef_HEAD_INIT\s*,\s*"([\w.]+)"', t)
                names = set(re.findall(r'\{\s*"(\w+)"\s*,\s*\(?PyCFunction', t)) | set(re.findall(r'\{\s*"(\w+)"\s*,\s*reinterpret_cast<PyCFunction>', t))
                names |= set(re.findall(r'\{\s*"(\w+)"\s*,\s*\(PyCFunction\)', t))
                names |= set(re.findall(r'PyModule_Add\w+\(\s*\w+\s*,\s*"(\w+)"', t))
                names |= set(re.findall(r'PyDict_SetItemString\(\s*\w+\s*,\s*"(\w+)"', t))
                mod = 'lsl.' + os.path.relpath(os.path.join(root, f), os.path.join(common.REPO, 'lsl')).replace(os.sep, '.')[:-4]
                parts = mod.split('.')
                out['.'.join(parts[:-1] + ['_' + parts[-1]])] = names
    return out


class Repo(object):
    def __init__(self):
        self.mods = {}
        top = common.REPO
        for base in ('lsl',):
            for root, dirs, files in os.walk(os.path.join(top, base)):
                dirs[:] = sorted(d for d in dirs if d not in ('__pycache__', 'data') and not d.startswith('.'))
                for f in sorted(files):
                    if not f.endswith('.py'):
                        continue
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, top)
                    name = rel[:-3].replace(os.sep, '.')
                    pk = name.endswith('.__init__')
                    if pk:
                        name = name[:-9]
                    if name == 'lsl.version':
                        continue
                    self.mods[name] = Mod(name, p, rel, pk)
        sd = os.path.join(top, 'scripts')
        if os.path.isdir(sd):
            for f in sorted(os.listdir(sd)):
                if f.endswith('.py'):
                    self.mods['scripts.' + f[:-3]] = Mod('scripts.' + f[:-3], os.path.join(sd, f), 'scripts/' + f, False)
        if len(self.mods) < 40:
            raise AnalysisError('only %d Python modules found' % len(self.mods))
        self.native = native_modules()
        self._exp = {}
        self.see_through()

    def see_through(self):
        """decorators of the repository that hand back what they decorate (or a wrapper that only passes the call on) change neither signature nor attributes"""
        memo = {}

        def plain(f):
            if f in memo:
                return memo[f]
            memo[f] = False
            a = f.node.args
            if len(a.args) != 1 or a.vararg or a.kwarg or a.kwonlyargs:
                return False
            p = a.args[0].arg
            inner = {n.name: n for n in ast.walk(f.node) if isinstance(n, ast.FunctionDef) and n is not f.node}

            def passes(w):
                wa = w.args
                if not wa.vararg or not wa.kwarg or wa.kwonlyargs or len(wa.args) > 1:
                    return False
                first = [x.arg for x in wa.args]
                for c in ast.walk(w):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == p:
                        pos = [x for x in c.args if not isinstance(x, ast.Starred)]
                        if [x.id for x in pos if isinstance(x, ast.Name)] == first and len(pos) == len(first) and any(isinstance(x, ast.Starred) for x in c.args) and any(k.arg is None for k in c.keywords):
                            return True
                return False
            rets = []
            todo = list(f.node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, ast.Return):
                    rets.append(n.value)
                todo.extend(ast.iter_child_nodes(n))
            ok = bool(rets) and all(isinstance(v, ast.Name) and (v.id == p or v.id in inner and passes(inner[v.id])) for v in rets)
            memo[f] = ok
            return ok
        for m in self.mods.values():
            for x in list(m.funcs) + list(m.classes.values()):
                keep = []
                for d in getattr(x.node, 'decorator_list', []):
                    r = self.dotted(m, d)
                    if r is not None and r[0] == 'func' and plain(r[1]):
                        continue
                    keep.append(ast.unparse(d))
                x.decorators = keep

    def __getitem__(self, k):
        return self.mods[k]

    def funcs(self, prefix='lsl'):
        for m in self.mods.values():
            if m.name == prefix or m.name.startswith(prefix + '.'):
                for f in m.funcs:
                    yield f

    # ------------------------------------------------------------ names
    def all_list(self, m):
        """(names of __all__ or None, fully known)"""
        out, known, seen = [], True, False
        for s in ast.walk(m.tree):
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Name) and t.id == '__all__' for t in ts):
                    seen = True
                    for e in ast.walk(s.value):
                        if isinstance(e, ast.Constant) and isinstance(e.value, str):
                            out.append((e.value, e))
                        elif isinstance(e, (ast.Attribute, ast.Call, ast.Name)):
                            known = False
            elif isinstance(s, ast.Call) and ast.unparse(s.func) in ('__all__.extend', '__all__.append'):
                for e in ast.walk(s):
                    if isinstance(e, ast.Constant) and isinstance(e.value, str):
                        out.append((e.value, e))
                    elif isinstance(e, ast.Name) and e.id != '__all__':
                        known = False
        return (out if seen else None), known

    def names(self, name, _stk=()):
        """(set of module-level names, complete?) of a repo module"""
        if name in self._exp:
            return self._exp[name]
        m = self.mods[name]
        ns = set(m.bind) | {'__name__', '__file__', '__doc__', '__path__', '__package__', '__spec__', '__loader__', '__builtins__', '__dict__', '__version__' if '__version__' in m.bind else '__name__'}
        comp = True
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Global):
                ns |= set(s.names)
            if isinstance(s, ast.Call) and ast.unparse(s.func).startswith(('globals()', 'setattr', 'exec', 'vars(')):
                if 'globals()' in ast.unparse(s) or 'exec' == ast.unparse(s.func):
                    comp = False
        for base, st in m.stars:
            if base in self.mods and base not in _stk:
                sub, c = self.names(base, _stk + (name,))
                al, known = self.all_list(self.mods[base])
                comp = comp and c
                if al is not None and known:
                    ns |= {a for a, _ in al}
                else:
                    ns |= {x for x in sub if not x.startswith('_')}
            else:
                comp = False
        for other in self.mods:
            if other.startswith(name + '.') and '.' not in other[len(name) + 1:]:
                ns.add(other[len(name) + 1:])
        for other in self.native:
            if other.startswith(name + '.'):
                ns.add(other[len(name) + 1:].split('.')[0])
        if name == 'lsl':
            ns.add('version')
        if '__getattr__' in m.bind:
            comp = False
        if not _stk:
            self._exp[name] = (ns, comp)
        return ns, comp

    def lookup(self, modname, name, depth=0):
        """what a module-level name refers to: ('func', Func) ('class', Class) ('mod', dotted) ('ext', dotted) ('val', node, mod) or None"""
        if depth > 8:
            return None
        m = self.mods.get(modname)
        if m is None:
            return None
        b = m.bind.get(name)
        if not b:
            for base, st in m.stars:
                if base in self.mods:
                    r = self.lookup(base, name, depth + 1)
                    if r is not None:
                        return r
            if modname + '.' + name in self.mods:
                return ('mod', modname + '.' + name)
            return None
        if len(b) > 1 and len({type(x) for x in b}) > 1:
            kinds = [x for x in b if isinstance(x, (ast.FunctionDef, ast.ClassDef))]
            if len(kinds) != 1 or not all(isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)) for x in b):
                return ('val', b, m)
            return ('val', b, m)
        n = b[-1]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if len(b) > 1:
                return ('val', b, m)
            for f in m.funcs:
                if f.node is n:
                    return ('func', f)
        if isinstance(n, ast.ClassDef):
            if len(b) > 1:
                return ('val', b, m)
            return ('class', m.classes[n.name]) if n.name in m.classes else None
        if name in m.imports:
            if len(b) > 1 and len({ast.dump(x) for x in b}) > 1:
                return ('val', b, m)
            return self.imp(m.imports[name], depth)
        return ('val', b, m)

    def imp(self, i, depth=0):
        if i[0] == 'mod':
            return ('mod', i[1]) if i[1] in self.mods else ('ext', i[1])
        base, nm = i[1], i[2]
        if base in self.mods:
            r = self.lookup(base, nm, depth + 1)
            if r is not None:
                return r
            return ('mod', base + '.' + nm) if base + '.' + nm in self.mods else None
        if base in self.native:
            return ('ext', base + '.' + nm)
        return ('ext', base + '.' + nm)

    def dotted(self, m, expr, local=()):
        """resolve Name / Attribute chains through modules"""
        if isinstance(expr, ast.Name):
            if expr.id in local:
                return getattr(local, 'imports', {}).get(expr.id)
            r = self.lookup(m.name, expr.id)
            if r is None and hasattr(builtins, expr.id):
                return ('builtin', expr.id)
            return r
        if isinstance(expr, ast.Attribute):
            b = self.dotted(m, expr.value, local)
            if b is None:
                return None
            if b[0] == 'mod':
                r = self.lookup(b[1], expr.attr)
                if r is None and b[1] + '.' + expr.attr in self.mods:
                    return ('mod', b[1] + '.' + expr.attr)
                return r
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + expr.attr)
            if b[0] == 'class':
                f = self.method(b[1], expr.attr)
                return ('umethod', f, b[1]) if f is not None else None
        return None

    # ------------------------------------------------------------ classes
    def bases(self, c):
        """(resolved repo bases, all resolved?)"""
        out, full = [], True
        for b in c.node.bases:
            r = self.dotted(c.mod, b)
            if r is not None and r[0] == 'class':
                out.append(r[1])
            elif r is not None and r == ('builtin', 'object'):
                pass
            else:
                full = False
        if c.node.keywords:
            full = full and all(k.arg == 'metaclass' for k in c.node.keywords)
        return out, full

    def mro(self, c, seen=None):
        seen = seen if seen is not None else []
        if c in seen:
            return seen, True
        seen.append(c)
        bs, full = self.bases(c)
        for b in bs:
            _, f2 = self.mro(b, seen)
            full = full and f2
        return seen, full

    def method(self, c, name):
        for k in self.mro(c)[0]:
            if name in k.methods:
                fs = k.methods[name]
                return fs[-1] if len(fs) == 1 else None
        return None

    def subclasses(self, c):
        out = []
        for m in self.mods.values():
            for k in m.classes.values():
                if k is not c and c in self.mro(k)[0]:
                    out.append(k)
        return out


def load():
    if common.REPO not in _cache:
        _cache[common.REPO] = Repo()
    return _cache[common.REPO]
