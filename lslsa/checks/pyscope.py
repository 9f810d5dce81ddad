import warnings
from ..common import Result
from ..py import mods, pyscope

ASSUME = ['reading names and attributes, arithmetic, string building and path joining do not fail for arguments of the right type']


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    R = mods.load()
    S = pyscope.Scope(R)
    n = d = 0
    for f in R.funcs('lsl'):
        n += bool(S.check_function(f))
    for m in R.mods.values():
        if m.name == 'lsl' or m.name.startswith('lsl.'):
            for c in m.classes.values():
                d += S.check_class(c)
    res.add(S.findings)
    res.need('functions_holding_or_switching', n, 8)
    res.need('acquire_release_pairs', d, 5)
    res.count(acquisitions=S.n_acq)
    return res
