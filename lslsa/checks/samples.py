from .. import cfront, cheader, csample
from ..common import AnalysisError, Result


def run(tier):
    res = Result()
    units = cfront.load([s for s in cfront.sources() if s.startswith('lsl/reader/')], extra=cheader.EXTRA)
    fs, decided = csample.analyse(units, res)
    res.add(fs)
    if not fs and not decided:
        raise AnalysisError('no frame reader stores samples in a recognisable way')
    return res
