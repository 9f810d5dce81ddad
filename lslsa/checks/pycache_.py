import warnings
from ..common import Result
from ..py import mods, cachefill

ASSUME = ['the process is not killed outright between writing and removing an entry',
          'an FTP transfer that ends with a positive reply is complete',
          'removing an entry from the cache does not fail']


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    F = cachefill.Fill(mods.load())
    n = cachefill.check(F)
    d = cachefill.check_caches(F)
    res.add(F.findings)
    res.need('functions_changing_the_cache', n, 6)
    res.need('cache_classes', d, 2)
    res.need('network_transfers', F.n['transfers'], 1)
    res.count(functions_filling_the_cache=F.n['fillers'], entries_opened_for_writing=F.n['entries'], worlds=F.n['worlds'], undecided=len(set(F.und)))
    return res
