from .. import cfront, creader
from ..common import Result



def run(tier):
    res = Result()
    units = cfront.load([s for s in cfront.sources() if s.startswith('lsl/reader/')])
    res.add(creader.analyse(units, res))
    return res
