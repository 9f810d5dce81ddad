from .. import cfront, native
from ..common import Result



def run(tier):
    res = Result()
    res.count(selftest_defects_found=native.selftest(('race',)))
    res.add(native.races(cfront.load(), res))
    res.need('parallel_regions', res.coverage['parallel_regions'], 20)
    return res
