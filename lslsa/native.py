"""Runs the native (C++) engines over the whole tree and over the self-test fixture."""
import os
import re

from . import cfront, capi, psim, crace, chist
from .common import VERIF, AnalysisError

INIT = {'PyModule_AddObject', 'PyModule_AddObjectRef', 'PyModule_Add', 'PyModuleDef_Init', 'PyModule_Create2', 'PyModule_AddStringConstant',
        'PyModule_AddIntConstant', 'PyModule_Create'}


def is_init(u, fn):
    return any(i.op == 'call' and capi.callee_name(u, i) in INIT for i in fn.instrs())


def is_region(name):
    return 'omp_outlined_debug__' in name


def subjects(units):
    """(unit, fn, is parallel region): every function body that runs after module initialisation"""
    for u in units:
        for n, f in u.fns.items():
            if '.omp_outlined' in n and not is_region(n):
                continue
            if is_init(u, f):
                continue
            yield u, f, is_region(n)


def simulate(units, rules, res=None):
    out = []
    nf = nr = st = ob = 0
    for u, f, reg in subjects(units):
        s = psim.Sim(u, f, region=reg)
        fs = s.run()
        nf += 1
        nr += reg
        st += s.visited
        ob += s.nobl
        out.extend(x for x in fs if x.rule in rules)
    if res is not None:
        res.count(translation_units=len(units), functions_analysed=nf, parallel_regions=nr, path_states=st, obligations=ob)
    return out


def races(units, res=None):
    out = []
    n = ns = sh = 0
    for u, f, reg in subjects(units):
        if reg:
            r = crace.Region(u, f)
            out.extend(r.analyse())
            n += 1
            ns += r.nstores
            sh += r.nshared
    if res is not None:
        res.count(translation_units=len(units), parallel_regions=n, stores_in_regions=ns, shared_stores_proved_disjoint=sh)
    return out


def history(units, res=None):
    return chist.analyse(units, res)


def selftest(rules):
    """the fixture's defects must be found, its clean function must stay clean"""
    path = os.path.join(VERIF, 'fixtures', 'native.cpp')
    want = {}
    for m in re.finditer(r'// EXPECT (\w+) ([\w-]+)', open(path).read()):
        if m.group(2) in rules:
            want.setdefault(m.group(1), set()).add(m.group(2))
    units = cfront.load(files=[path])
    got = {}
    for f in simulate(units, rules) + (races(units) if 'race' in rules else []) + (history(units) if 'history' in rules else []):
        got.setdefault(re.sub(r'\..*', '', f.construct.split(':')[1]), set()).add(f.rule)
    for fn, rs in want.items():
        if not rs <= got.get(fn, set()):
            raise AnalysisError('self-test: rule %s is not reported for fixture %s' % (rs, fn))
    for fn, rs in got.items():
        if fn.startswith('ok_'):
            raise AnalysisError('self-test: %s reported for clean fixture %s' % (rs, fn))
    return sum(len(v) for v in want.values())
