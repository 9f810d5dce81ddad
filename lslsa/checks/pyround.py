import warnings
from ..common import Result
from ..py import mods, roundtrip

ASSUME = ['text that is written (names, comments) holds no line break',
          'values are numbers within what the written format keeps (the documented number of decimals)',
          'the file is read back by the reader of the same version']


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    ps = roundtrip.check(mods.load())
    for p in ps:
        res.add(p.findings)
    und = sorted({'%s %s' % (p.mod.name, u) for p in ps for u in p.und})
    tot = {}
    for p in ps:
        for k, v in p.n.items():
            tot[k] = tot.get(k, 0) + v
    res.need('file_formats', len(ps), 1)
    res.need('lines_written', tot.get('lines', 0), 40)
    res.count(attributes_followed=tot.get('attributes', 0), keywords_read=tot.get('keywords', 0), classes_built=tot.get('classes', 0), defaults_compared=tot.get('defaults', 0), starts_of_an_entry=tot.get('resets', 0),
              undecided=len(und), undecided_list=und)
    return res
