"""
C++ front end: compiles every extension source of the analysed tree to LLVM
bitcode with the build's own definitions, inlines the project's helper
functions into their callers, promotes locals to SSA form and converts the
result to Python objects.  Nothing is linked or executed.
"""
import os
import re
import subprocess
import tempfile
import concurrent.futures as cf

from . import llvm
from .common import REPO, AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
INC = os.path.join(os.path.dirname(HERE), 'include')

EXT = {   # extension module -> sources (mirrors setup.py, cross-checked at load time)
    'reader._gofast': ['lsl/reader/gofast.cpp', 'lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/drspec.cpp',
                       'lsl/reader/vdif.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/tbx.cpp'],
    'correlator._spec': ['lsl/correlator/spec.cpp'],
    'correlator._stokes': ['lsl/correlator/stokes.cpp'],
    'correlator._core': ['lsl/correlator/core.cpp'],
    'imaging._gridder': ['lsl/imaging/gridder.cpp'],
    'misc._beamformer': ['lsl/misc/beamformer.cpp'],
    'sim._simfast': ['lsl/sim/simfast.cpp'],
    'misc._wisdom': ['lsl/misc/wisdom.cpp'],
}

_PYAPI = re.compile(r'(python3|/numpy/)')


def _includes():
    out = subprocess.run(['/opt/venv/bin/python', '-c',
                          'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
                         stdout=subprocess.PIPE, check=True).stdout.decode().split()
    return out


def sources():
    """All C++ translation units of the tree (from setup.py's Extension list)."""
    txt = open(os.path.join(REPO, 'setup.py')).read()
    srcs = re.findall(r"'(lsl/[\w/]+\.cpp)'", txt)
    have = [s for s in dict.fromkeys(srcs) if os.path.exists(os.path.join(REPO, s))]
    if len(have) < 14:
        raise AnalysisError('only %d C++ extension sources found, expected at least 14' % len(have))
    return have


def demangle(names):
    names = list(names)
    p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE, check=True)
    return dict(zip(names, p.stdout.decode().split('\n')))


def numpy_api():
    """PyArray_API slot -> API function name, read from numpy's header."""
    inc = _includes()[1]
    txt = open(os.path.join(inc, 'numpy', '__multiarray_api.h')).read()
    out = {}
    name = None
    for tok in re.finditer(r'#define (\w+)|PyArray_API\[(\d+)\]', txt):
        if tok.group(1):
            name = tok.group(1)
        elif name:
            out.setdefault(int(tok.group(2)), name)
    if len(out) < 200:
        raise AnalysisError('numpy API table not understood')
    return out


def _compile(args):
    src, out, incs, omp = args
    base = ['clang++', '-O2', '-Xclang', '-disable-llvm-passes', '-g'] + (['-fopenmp'] if omp else []) + ['-DNDEBUG', '-emit-llvm', '-c', '-w',
            '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '--std=c++11', '-fno-discard-value-names'] + \
           ['-I' + i for i in incs] + ['-I' + INC]
    for extra in (['-fno-exceptions'], []):
        p = subprocess.run(base + extra + [src, '-o', out], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            return None
    return p.stdout.decode('utf-8', 'replace')


class CUnit(object):
    """One translation unit after normalisation."""

    def __init__(self, src, mod, dem, api):
        self.src = src
        self.mod = mod
        self.api = api
        self.fns = mod.functions(lambda n: n in self._keep)
        self.strings = mod.strings()

    _keep = ()


def _short(dem):
    """Function name without template arguments, parameters and return type."""
    s = dem
    # cut parameter list at depth 0
    depth = 0
    out = []
    for ch in s:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0:
            break
        elif depth == 0:
            out.append(ch)
    return ''.join(out).split(' ')[-1].split('::')[-1]


def load(only=None, inline=True, files=None, extra=None, omp=True):
    """Compile + normalise; returns list of CUnit-like objects."""
    srcs = files or sources()
    if only and not files:
        srcs = [s for s in srcs if s in only]
        missing = [s for s in only if s not in srcs]
        if missing:
            raise AnalysisError('source vanished: %s' % missing)
    incs = _includes()
    api = numpy_api()
    units = []
    with tempfile.TemporaryDirectory(prefix='lslsa.') as td:
        jobs = [(s, os.path.join(td, s.replace('/', '_') + '.bc'), incs, omp) for s in srcs]
        with cf.ThreadPoolExecutor(8) as ex:
            for (s, o, _, _), err in zip(jobs, ex.map(_compile, jobs)):
                if err is not None:
                    raise AnalysisError('clang cannot compile %s:\n%s' % (s, err[-2000:]))
        ctx = llvm.CtxCreate()
        for s, o, _, _ in jobs:
            units.append(_normalise(ctx, s, o, api, inline, extra))
    return units


def _normalise(ctx, src, bc, api, inline, extra=None):
    m = llvm.Module(ctx, bc)
    defs = {}
    for f, n, d in m.raw_functions():
        if not d:
            defs[n] = f
    calls = {n: m.callees(f) & set(defs) for n, f in defs.items()}
    # strongly connected components (recursion) are never inlined
    import networkx as nx
    g = nx.DiGraph()
    for n, cs in calls.items():
        g.add_node(n)
        for c in cs:
            g.add_edge(n, c)
    rec = set()
    for comp in nx.strongly_connected_components(g):
        if len(comp) > 1 or any(n in calls[n] for n in comp):
            rec |= comp
    files = {n: (m.fn_source(f)[0] or '') for n, f in defs.items()}
    keep = set()
    for n, f in defs.items():
        m.attr(f, 'noinline', False)
        m.attr(f, 'optnone', False)
        pyapi = bool(_PYAPI.search(files[n]))
        if pyapi:
            m.attr(f, 'alwaysinline', False)
            m.attr(f, 'noinline')
        elif n in rec or '.omp_outlined' in n or not inline:
            m.attr(f, 'alwaysinline', False)
            m.attr(f, 'noinline')
        else:
            m.attr(f, 'alwaysinline')
        if not pyapi:
            keep.add(n)
    m.run('always-inline,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,'
          'simplifycfg,gvn<no-load-pre>,adce,simplifycfg)')
    if extra:
        m.run(extra)
    u = CUnit.__new__(CUnit)
    u.src, u.mod, u.api = src, m, api
    present = {n for f, n, d in m.raw_functions() if not d}
    u.fns = m.functions(lambda n: n in keep and n in present)
    u.strings = m.strings()
    u.tables = m.tables()
    u.dem = demangle([n for f, n, d in m.raw_functions()])
    u.short = {n: _short(d) for n, d in u.dem.items()}
    for n, fn in u.fns.items():
        fn.short = u.short.get(n, n)
        fn.pretty = u.dem.get(n, n)
        fn.unit = u
        fn.recursive = n in rec
    return u
