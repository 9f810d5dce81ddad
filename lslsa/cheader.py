"""Header rule: every header attribute a frame reader sets carries exactly the bits of its wire field."""
from . import cbits, fspec
from .common import Finding, AnalysisError

EXTRA = ('function(loop-simplify,lcssa,loop(loop-rotate,indvars,loop-unroll-full),sroa<modify-cfg>,instcombine<no-verify-fixpoint>,'
         'simplifycfg,gvn,adce)')


def show(bits):
    out, k = [], 0
    b = list(bits)
    while k < len(b):
        x = b[k]
        j = k
        while j + 1 < len(b) and isinstance(x, tuple) and x[0] == 'f' and isinstance(b[j + 1], tuple) and b[j + 1][0] == 'f' \
                and b[j + 1][1] == x[1] and b[j + 1][2] == b[j][2] + 1:
            j += 1
        if isinstance(x, tuple) and x[0] == 'f':
            out.append('byte %d bits %d-%d' % (x[1], x[2], b[j][2]))
        elif isinstance(x, tuple):
            out.append('/'.join(map(str, x)))
        else:
            out.append(str(x) if x is not None else 'unknown')
        k = j + 1
    return '; '.join(out)


def same_int(desc, want, signed):
    """exactly the wire bits, unsigned unless the recorder defines the field as signed"""
    return desc[0] == 'int' and desc[1] == want and (signed or not desc[2])


def readers(units):
    for u in units:
        st = fspec.stem(u.src)
        for n, f in u.fns.items():
            fr = cbits.Frame(u, f)
            if not fr.reads or '.omp_outlined' in n:
                continue
            if st not in fspec.FORMATS:
                raise AnalysisError('frame reader in %s has no wire format description' % u.src)
            yield u, f, fr, fspec.FORMATS[st], st


def alts(t):
    """the alternatives of a term (values that depend on the path), without choices inside"""
    if t[0] == 'alt':
        return [y for x in sorted(t[1], key=repr) for y in alts(x)]
    kids = [k for k, x in enumerate(t) if k and isinstance(x, tuple) and x and isinstance(x[0], str) and t[0] != 'bits']
    out = [t]
    for k in kids:
        out = [x[:k] + (y,) + x[k + 1:] for x in out for y in alts(x[k])]
        if len(out) > 64:
            return [('?',)]
    return out


def leaves(t):
    if t[0] == 'bits':
        return {x[1] if x[0] == 'n' else x for x in t[1] if isinstance(x, tuple)}
    return set().union(set(), *[leaves(x) for x in t[1:] if isinstance(x, tuple)])


def known(t):
    return t[0] not in ('?', 'alt') and (t[0] == 'bits' or all(known(x) for x in t[1:] if isinstance(x, tuple)))


def value(t, env):
    if t[0] == 'bits':
        r = 0
        for k, x in enumerate(t[1]):
            neg = False
            while isinstance(x, tuple) and x[0] == 'n':
                x, neg = x[1], not neg
            b = env[x] if isinstance(x, tuple) else x
            r |= (b ^ int(neg)) << k
        return r
    op, w = t[0], t[1]
    m = (1 << w) - 1
    if op == 'trunc':
        x = value(t[2], env)
        return None if x is None else x & m
    if op == 'ctpop':
        x = value(t[2], env)
        return None if x is None else bin(x).count('1')
    if op == 'sext':
        x = value(t[3], env)
        if x is None:
            return None
        x &= (1 << t[2]) - 1
        return (x - (1 << t[2]) if x >> (t[2] - 1) else x) & m
    if op == 'sel':
        c = value(t[2], env)
        return None if c is None else value(t[3] if c & 1 else t[4], env)
    sg = lambda x: x - (1 << w) if x >> (w - 1) else x
    a, b = value(t[-2], env), value(t[-1], env)
    if a is None or b is None:
        return None
    if op == 'cmp':
        if t[2][0] == 's':
            a, b = sg(a), sg(b)
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[t[2] if t[2] in ('eq', 'ne') else t[2][1:]])
    if op[1:] in ('max', 'min'):
        f = max if op[1:] == 'max' else min
        return f(a, b) if op[0] == 'u' else f(sg(a), sg(b)) & m
    if op == 'ashr':
        a = a - (1 << w) if a >> (w - 1) else a
    if op in ('shl', 'lshr', 'ashr') and b >= w or op in ('udiv', 'urem') and b == 0:
        return None
    r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'or': lambda: a | b, 'and': lambda: a & b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b,
         'ashr': lambda: a >> b, 'udiv': lambda: a // b, 'urem': lambda: a % b}[op]()
    return r & m


def valuations(bits):
    bits = sorted(bits)
    n = len(bits)
    if n <= 10:
        pats = range(1 << n)
    else:
        full = (1 << n) - 1
        pats = [0, full] + [1 << k for k in range(n)] + [full ^ (1 << k) for k in range(n)] + [(0x9E3779B97F4A7C15F39CC0605CEDC835 * (k + 1) >> 7) & full for k in range(40)]
    for x in pats:
        yield {b: (x >> k) & 1 for k, b in enumerate(bits)}


def differ(a, b):
    """a valuation of the frame bits for which two terms have different values, or None"""
    for env in valuations(leaves(a) | leaves(b)):
        x, y = value(a, env), value(b, env)
        if x is not None and y is not None and x != y:
            return env
    return None


def analyse(units, res):
    out = {}
    nr = na = 0
    undecided = []
    stems = set()
    for u, f, fr, spec, st in readers(units):
        nr += 1
        stems.add(st)
        got = {}
        for (par, nm), d in fr.sets.items():
            got.setdefault((par, nm), []).extend(d.values())

        def find(key):
            r = got.get(key)
            if r is None:
                alt = [v for (p, n), v in got.items() if n == key[1] and p == '?']
                r = alt[0] if alt else None
            return r

        def bad(key, ins, msg):
            k = '%s:%s:%s' % (u.src, st, key[1])
            if k not in out:
                out[k] = Finding('header-bits', '%s:%s.%s' % (u.src, key[0], key[1]), '%s:%s' % (ins.file, ins.line) if ins else '%s' % u.src, msg)
        if not any(k[1] != '_data' for k in got):
            continue
        for key, want in spec['ints'].items():
            na += 1
            vs = find(key)
            if not vs:
                bad(key, None, '%s: attribute %s.%s is never set' % (f.short, key[0], key[1]))
                continue
            for ins, d in vs:
                if d[0] == 'int':
                    if not same_int(d, want, key in spec.get('signed', ())):
                        bad(key, ins, '%s: %s.%s is built from [%s]%s, the format has [%s]' % (f.short, key[0], key[1], show(d[1]), ' sign extended' if d[2] else '', show(want)))
                elif d[0] == 'expr' and all(known(x) for x in alts(d[1])):
                    if any(differ(x, ('bits', want)) for x in alts(d[1])):
                        bad(key, ins, '%s: %s.%s is not the plain field value: %s' % (f.short, key[0], key[1], str(d[1])[:200]))
                else:
                    undecided.append('%s %s' % (f.short, key[1]))
        for key, want in spec.get('exprs', {}).items():
            na += 1
            vs = find(key)
            if not vs:
                bad(key, None, '%s: attribute %s.%s is never set' % (f.short, key[0], key[1]))
                continue
            for ins, d in vs:
                t = d[1] if d[0] == 'expr' else ('bits', d[1]) if d[0] == 'int' else None
                if t is None or not all(known(x) for x in alts(t)):
                    undecided.append('%s %s' % (f.short, key[1]))
                elif any(all(differ(x, y) is not None for y in alts(want)) for x in alts(t)) or any(all(differ(x, y) is not None for x in alts(t)) for y in alts(want)):
                    bad(key, ins, '%s: %s.%s is %s, the format has %s' % (f.short, key[0], key[1], str(t)[:200], str(want)[:200]))
        for key, want in spec.get('lists', {}).items():
            vs = find(key)
            na += len(want)
            if not vs:
                bad(key, None, '%s: attribute %s.%s is never set' % (f.short, key[0], key[1]))
                continue
            for ins, d in vs:
                if d[0] != 'list':
                    undecided.append('%s %s' % (f.short, key[1]))
                    continue
                items = dict(d[1])
                if -1 in items:
                    undecided.append('%s %s' % (f.short, key[1]))
                    continue
                for k, w in enumerate(want):
                    x = items.get(k)
                    if x is None or x[0] != 'int' or x[1] != w:
                        bad(key, ins, '%s: element %d of %s.%s is [%s], the format has [%s]' % (
                            f.short, k, key[0], key[1], show(x[1]) if x and x[0] == 'int' else str(x), show(w)))
    if res is not None:
        res.count(reader_instances=nr, header_fields_traced=na)
        res.coverage['undecided_fields'] = undecided
        if len(undecided) * 4 > na:
            raise AnalysisError('most header fields are no longer traceable: %s' % undecided[:5])
        for s in fspec.FORMATS:
            if s not in stems:
                raise AnalysisError('no frame reader found for format %s' % s)
    return list(out.values())
