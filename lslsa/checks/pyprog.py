import warnings
from ..common import Result
from ..py import mods, progress

ASSUME = ['files are finite and are not extended while they are read', 'iterators, queues and databases hand out finitely many items', 'frame sizes are positive', 'assertions are not switched off']


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    P = progress.Progress(mods.load())
    progress.check(P)
    res.add(P.findings)
    res.need('loops', P.n['loops'], 20)
    res.count(ways_round=P.n['worlds'], ways_round_with_progress=P.n['strong'], loops_over_lists=P.n.get('for', 0), undecided=len(set(P.und)), undecided_list=sorted(set(P.und)))
    return res
