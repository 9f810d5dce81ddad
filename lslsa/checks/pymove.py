import re
import warnings
from ..common import Result, Finding
from ..py import mods, pypos, stream

MOVE = re.compile(r'^(offset|reset|rewind|skip|seek)|^read_frame')


def run(tier):
    warnings.simplefilter('ignore')
    res = Result()
    R = mods.load()
    W = stream.Writes(R)
    F = stream.Fresh(R, W)
    n, ob, classes = 0, 0, 0
    for m in R.mods.values():
        if not m.name.startswith('lsl.reader'):
            continue
        for c in m.classes.values():
            hs = pypos.handle_attrs(R, c)
            ms = stream.methods(R, c)
            if not hs or 'read' not in ms or 'get_info' not in ms:
                continue
            S = stream.stream_attrs(R, c, hs)
            meta = F.meta(c)
            if not S:
                continue
            classes += 1
            for k, f in sorted(ms.items()):
                if not MOVE.match(k):
                    continue
                n += 1
                fresh = F.of(c, f)
                if fresh is stream.ALL:
                    continue
                need = set(S) | (set() if k.startswith('read_frame') else meta)
                for a in sorted(need):
                    ob += 1
                    if a not in fresh:
                        what = 'still holds what was read at the old position' if a in S else 'still describes the old position'
                        res.findings.append(Finding('stale-stream-state', '%s.%s %s' % (c.name, k, a), '%s:%d' % (f.mod.rel, f.node.lineno),
                                                    'after %s() self.%s %s on some path, and the next read() uses it' % (k, a, what)))
    res.need('reader_classes', classes, 5)
    res.need('moving_methods', n, 12)
    res.need('obligations', ob, 25)
    return res
