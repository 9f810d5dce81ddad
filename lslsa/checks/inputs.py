import warnings
from .. import calias, cfront
from ..common import Result
from ..py import effects, mods


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    res.add(effects.check(mods.load(), res))
    res.add(calias.analyse(cfront.load(), res))
    res.need('parameters', res.coverage['parameters'], 500)
    res.need('native_entry_points', res.coverage['native_entry_points'], 20)
    return res
