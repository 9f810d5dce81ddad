import warnings
from ..common import Result, Finding
from ..py import mods, pypos, stream

ASSUME = ['a compiled reader function moves the handle it is given; other functions outside the library that are given a handle are counted as undecided']


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    R = mods.load()
    P = pypos.Pos(R)
    und, n = [], 0
    H = pypos.all_handle_params(R, list(R.funcs('lsl')))

    def judge(f, c, h, label):
        s = P.summary(f, c, h)
        how = [w for w, v in (('when it returns', s[0]), ('when it raises', s[1])) if v == pypos.MOVED]
        if how:
            res.findings.append(Finding('position-not-restored', '%s %s' % (label, f.name), '%s:%d' % (f.mod.rel, f.node.lineno),
                                        '%s leaves the position of %s changed %s (%s)' % (f.name, h, ' and '.join(how), s[3])))
        elif pypos.UNK in s[:2]:
            und.append('%s %s' % (label, f.name))

    for f in R.funcs('lsl.reader'):
        if f.cls is None and f.parent is None and not f.name.startswith('_') and not f.name[0].isupper() and not pypos.consuming(f.name) and not P.is_gen(f):
            for h in sorted(H.get(id(f.node), ())):
                n += 1
                judge(f, None, h, f.mod.name)
    W = stream.Writes(R)
    nm_, classes = 0, 0
    for m in R.mods.values():
        if not m.name.startswith('lsl.reader'):
            continue
        for c in m.classes.values():
            hs = pypos.handle_attrs(R, c)
            ms = stream.methods(R, c)
            if not hs or 'read' not in ms:
                continue
            classes += 1
            S = stream.stream_attrs(R, c, hs)
            used = set()
            for k, f in ms.items():
                if k.startswith('read'):
                    used |= stream.loads(R, c, f)
            for k, f in sorted(ms.items()):
                public = not k.startswith('_') or (k.startswith('__') and k.endswith('__'))
                if pypos.consuming(k) or P.is_gen(f) or not (public or k == '_describe_file'):
                    continue
                nm_ += 1
                for h in sorted(hs):
                    judge(f, c, h, c.name)
                if k == '_describe_file':
                    continue
                for a, w in sorted(W.of(c, f).items()):
                    if a in S or a in used:
                        res.findings.append(Finding('inspection-changes-stream', '%s.%s %s' % (c.name, k, a), '%s:%d' % (w[0].mod.rel, w[1]),
                                                    '%s changes the %s that later reads use (%s)' % (k, a, w[2])))
    res.need('inspection_functions', n, 25)
    res.need('inspection_methods', nm_, 30)
    res.need('reader_classes', classes, 5)
    res.count(handle_operations=P.sites, undecided=len(und), undecided_list=und)
    return res
