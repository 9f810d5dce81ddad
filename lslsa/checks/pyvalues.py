import warnings
from ..common import Result
from ..py import mods, values

ASSUME = ['comparisons of the plain values (numbers, strings, dates) an object holds are themselves consistent; NaN is excluded',
          'subclasses outside the repository do not redefine the compared attributes',
          'pickle and copy restore an object from its __reduce__ as documented']


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    V = values.Values(mods.load())
    values.check(V)
    res.add(V.findings)
    res.need('classes_compared', V.n['classes'], 8)
    res.need('outcomes', V.n['worlds'], 30)
    res.need('pickled_forms', V.n['reduces'], 8)
    res.count(attributes_restored=V.n['attributes_restored'], items=V.n['indices'], operators=V.n['operators'], hashes=V.n['hashes'], undecided=len(set(V.und)), undecided_list=sorted(set(V.und)))
    return res
