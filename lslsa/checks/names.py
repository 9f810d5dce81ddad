import warnings
from ..common import Result
from ..py import mods, names


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    repo = mods.load()
    n = names.Names(repo, res)
    res.add(n.run())
    res.count(modules=len(repo.mods), **n.n)
    res.need('names_resolved', n.n['names_resolved'], 10000)
    res.need('calls_bound', n.n['calls_bound'], 300)
    res.need('library_modules_listed', len(n.lib._n), 5)
    return res
