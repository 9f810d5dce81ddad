"""C24: compiled routines stay inside the arrays and buffers they are given or make."""
import multiprocessing
import os
from .. import cbounds, cfront, native
from ..common import REPO, AnalysisError, Finding, Result

ASSUME = [
    'sizes and offsets do not overflow the machine integers',
    'an array whose rank is only known as a range has no dimension of length zero among those not looked at',
    'an allocation or conversion that returned NULL is not used (C04)',
    'accesses whose index is read from the data (header words, pixel coordinates, baseline tables) are recorded as undecided',
]


def _line(u, f, ins):
    """where in the tree the access is (inlined library code is reported at the routine)"""
    w = ins.where()
    return w if w.startswith('lsl/') else '%s:%s' % (u.src, f.short)


def _one(src):
    out = []
    try:
        for u in cfront.load(only=[src], omp=False):
            for n, f in u.fns.items():
                if native.is_init(u, f):
                    continue
                r = cbounds.Routine(u, f).run()
                if not r.stat['accesses']:
                    continue
                fs = {}
                for ins, what, desc, env, root in r.found:
                    w = _line(u, f, ins)
                    if (w, what, desc) not in fs:
                        e = ', '.join('%s = %d' % (cbounds.show(a, r.b), v) for a, v in env.items())
                        fs[(w, what, desc)] = ('outside', '%s(): %s %s outside %s' % (f.short, w, what, desc), w,
                                               'no test on the way rules out %s, for which the access leaves %s' % (e or 'any call', desc))
                for x, ins, what in r.strided.values():
                    fs[('s', x.v)] = ('layout', '%s(): array of line %s' % (f.short, x.line), x.where(),
                                      'the array is walked element by element (%s) but was not requested with its elements next to each other' % _line(u, f, ins))
                out.append((u.src, f.short, dict(r.stat), dict(r.why), list(fs.values())))
    except AnalysisError as e:
        return str(e)
    return out


def run(tier='quick'):
    res = Result()
    srcs = cfront.sources()
    srcs.sort(key=lambda s: -os.path.getsize(os.path.join(REPO, s)))
    srcs.sort(key=lambda s: 'stokes' not in s)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        parts = pool.map(_one, srcs, 1)
    tot = {'accesses': 0, 'proved': 0, 'undecided': 0, 'outside': 0}
    why, table, routines = {}, {}, 0
    for p in parts:
        if isinstance(p, str):
            raise AnalysisError(p)
        for src, name, stat, w, fs in p:
            routines += 1
            for k in tot:
                tot[k] += stat[k]
            for k, v in w.items():
                why[k] = why.get(k, 0) + v
            t = table.setdefault('%s %s()' % (src, name), [0, 0])
            t[0] += stat['proved']
            t[1] += stat['undecided']
            res.add(Finding(*f) for f in fs)
    res.need('routines', routines, 15)
    if not res.findings:
        res.need('proved', tot['proved'], 800)
    res.count(accesses=tot['accesses'], undecided=tot['undecided'], undecided_because=why,
              per_routine={k: '%d proved, %d undecided' % tuple(v) for k, v in sorted(table.items())})
    return res
