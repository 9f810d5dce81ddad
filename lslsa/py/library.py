"""
The names the installed library modules offer (listed by importing the *library* in the interpreter
the repository is built for; the repository itself is never imported).
"""
import json
import os
import subprocess
import sys

PY = '/opt/venv/bin/python'
TOP = ('numpy', 'math', 'os', 'time', 'struct', 'datetime', 'sys', 're', 'json', 'glob', 'shutil', 'logging', 'copy', 'calendar', 'ctypes', 'string', 'tempfile', 'subprocess',
       'threading', 'socket', 'functools', 'itertools', 'collections', 'warnings', 'random', 'cmath', 'gzip', 'zipfile', 'tarfile', 'contextlib', 'operator', 'io', 'uuid', 'hashlib',
       'ephem', 'scipy', 'astropy', 'pytz', 'fcntl', 'queue', 'signal', 'pickle', 'abc', 'enum', 'platform', 'errno', 'locale', 'getpass', 'mmap', 'configparser', 'concurrent', 'urllib')

SRC = r"""
import sys, json, importlib, types, inspect, re
req = json.load(sys.stdin)
out = {}
objs = {}


def find(name):
    parts = name.split('.')
    for k in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:k]))
        except BaseException:
            continue
        try:
            for a in parts[k:]:
                o = getattr(o, a)
        except BaseException:
            return None
        return o
    return None


failed = []
for name in req['imports']:
    try:
        importlib.import_module(name)
    except BaseException:
        o = find(name)
        if o is None:
            failed.append(name)
for name in req['modules']:
    try:
        try:
            o = importlib.import_module(name)
        except ImportError:
            mod, _, a = name.rpartition('.')
            o = getattr(importlib.import_module(mod), a)
            if not isinstance(o, types.ModuleType):
                continue
        if isinstance(o, types.ModuleType):
            n = set(dir(o))
            n |= set(getattr(o, '__all__', ()))
            if hasattr(o, '__path__'):
                import pkgutil
                n |= {x.name for x in pkgutil.iter_modules(o.__path__)}
            out[name] = sorted(n) if '__getattr__' not in vars(o) or name.startswith(('numpy', 'scipy')) else None
    except BaseException:
        pass
sigs = {}
for name in req['calls']:
    o = find(name)
    if o is None or not callable(o):
        continue
    try:
        sg = inspect.signature(o)
        src = ''
        try:
            src = inspect.getsource(inspect.unwrap(o)) if not isinstance(o, type) else ''
        except BaseException:
            pass
        if 'deprecat' in src or hasattr(o, '__wrapped__') and not type(o).__module__.startswith('numpy') and 'array_function' not in repr(o):
            continue
        ps = list(sg.parameters.values())
        sigs[name] = [[p.name, str(p.kind)] for p in ps]
    except BaseException:
        pass
bases = {}
for name in req['bases']:
    o = find(name)
    if not isinstance(o, type):
        continue
    try:
        n = set()
        for k in o.__mro__:
            if '__getattr__' in vars(k) or '__getattribute__' in vars(k) and k is not object:
                n = None
                break
            n |= set(dir(k))
            if k.__module__ in ('builtins',):
                continue
            try:
                src = inspect.getsource(k)
            except BaseException:
                continue
            if 'setattr(' in src or '__dict__' in src:
                n = None
                break
            n |= set(re.findall(r'\b\w+\.([A-Za-z_]\w*)\s*(?:=(?!=)|,[^=()]*=(?!=))', src))
        if n is not None:
            bases[name] = sorted(n)
    except BaseException:
        pass
uni = set()
seen = set()
todo = [object]
while todo:
    c = todo.pop()
    if c in seen:
        continue
    seen.add(c)
    try:
        uni.update(dir(c))
        todo.extend(type.__subclasses__(c))
    except BaseException:
        pass
ids = re.compile(r'[A-Za-z_]\w*')
for nm, mod in list(sys.modules.items()):
    try:
        uni.update(dir(mod))
        fn = getattr(mod, '__file__', None)
        if fn and fn.endswith('.py'):
            t = open(fn, encoding='utf-8', errors='replace').read()
            uni.update(ids.findall(t))
    except BaseException:
        pass
json.dump(dict(modules=out, sigs=sigs, bases=bases, universe=sorted(uni), failed=failed), sys.stdout)
"""


class Library(object):
    def __init__(self):
        self._n, self.sigs, self.universe, self.failed, self.bases = {}, {}, None, [], {}

    def prepare(self, modules, calls=(), imports=(), bases=()):
        todo = sorted(m for m in modules if m.split('.')[0] in TOP)
        py = PY if os.path.exists(PY) else sys.executable
        try:
            r = subprocess.run([py, '-W', 'ignore', '-c', SRC], input=json.dumps(dict(modules=todo, calls=sorted(c for c in calls if c.split('.')[0] in TOP), imports=sorted(imports), bases=sorted(bases))),
                               capture_output=True, text=True, timeout=300, cwd='/', env=dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'))
            d = json.loads(r.stdout)
        except (ValueError, OSError, subprocess.SubprocessError):
            d = dict(modules={}, sigs={}, bases={}, universe=None, failed=[])
        self._n = {k: set(v) for k, v in d['modules'].items() if v is not None}
        self.sigs, self.failed, self.bases = d['sigs'], d['failed'], {k: set(v) for k, v in d['bases'].items()}
        self.universe = set(d['universe']) if d['universe'] is not None else None

    def names(self, mod):
        return self._n.get(mod)
