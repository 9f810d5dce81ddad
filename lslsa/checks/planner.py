from .. import cfront, native
from ..common import Result

RULES = ('planner-nogil',)


def run(tier):
    res = Result()
    res.count(selftest_defects_found=native.selftest(RULES))
    units = cfront.load()
    res.add(native.simulate(units, RULES, res))
    res.need('functions_analysed', res.coverage['functions_analysed'], 60)
    return res
