from .. import cfront, cheader
from ..common import Result



def run(tier):
    res = Result()
    units = cfront.load([s for s in cfront.sources() if s.startswith('lsl/reader/')], extra=cheader.EXTRA)
    res.add(cheader.analyse(units, res))
    return res
