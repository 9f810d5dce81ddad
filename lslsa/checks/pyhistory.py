import warnings
from ..common import Result
from ..py import mods, pystate


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    res.add(pystate.check(mods.load(), res))
    res.need('functions_with_state_rules', res.coverage['functions_with_state_rules'], 800)
    return res
