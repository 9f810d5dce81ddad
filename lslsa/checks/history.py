from .. import cfront, native
from ..common import Result



def run(tier):
    res = Result()
    res.count(selftest_defects_found=native.selftest(('history',)))
    srcs = [s for s in cfront.sources() if not s.startswith('lsl/reader/')]
    res.add(native.history(cfront.load(srcs), res))
    res.need('functions_analysed', res.coverage['functions_analysed'], 40)
    return res
