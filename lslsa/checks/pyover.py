import ast
import warnings
from ..common import Result, Finding
from ..py import mods, overwrite

SWITCH = ('overwrite', 'clobber', 'force')


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    R = mods.load()
    O = overwrite.Over(R)
    n, und, paths = 0, [], 0
    for f in R.funcs('lsl'):
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        sw = [p for p in ps if p in SWITCH]
        tg = [p for p in ps if p in ('filename', 'name', 'path', 'outname')]
        if not sw or not tg or f.name.startswith('_') and f.name != '__init__':
            continue
        n += 1
        dv = default(a, sw[0])
        if dv is not None and not (isinstance(dv, ast.Constant) and not dv.value):
            O.findings[('overwrites-by-default', f.qual, f.mod.rel)] = Finding('overwrites-by-default', '%s.%s' % (f.mod.name, f.qual), '%s:%d' % (f.mod.rel, f.node.lineno),
                                                                               'existing files are replaced unless the caller says otherwise')
        try:
            nn, xx = O.check(f, tg[0], sw[0])
            paths += len(nn) + len(xx)
        except (RuntimeError, RecursionError, overwrite.Undecided):
            und.append(f.qual)
            O.findings = {k: v for k, v in O.findings.items() if k[1:] != (f.qual, f.mod.rel) or k[0] == 'overwrites-by-default'}
    res.add(O.findings.values())
    res.need('writers', n, 5)
    res.need('destructive_operations', len(O.sinks), 5)
    res.count(final_states=paths, undecided=len(und), undecided_list=und)
    return res


def default(a, name):
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == name:
            return d
    return None
