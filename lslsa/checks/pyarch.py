import warnings
from ..common import Result
from ..py import mods, archive

ASSUME = ['the scratch directory is named by an absolute path without links', 'the archive is not changed while it is read']


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    A = archive.Arch(mods.load())
    n = archive.check(A)
    res.add(A.findings)
    res.need('functions_unpacking', n, 1)
    res.count(extractions_in_worlds=A.n['extractions'], reads_in_worlds=A.n['reads'], worlds=A.n['worlds'], undecided=len(set(A.und)), undecided_list=sorted(set(A.und)))
    return res
