"""
History rule: the result of a native routine may not depend on an earlier call.
A mutable static/global that any routine writes may only be read where a store of
the same routine is certain to have happened before (dominates the read); a
function-local static may only be initialised from constants.
"""
from . import capi
from .common import Finding

REF = {'Py_INCREF', 'Py_XINCREF', 'Py_DECREF', 'Py_XDECREF', 'Py_IncRef', 'Py_DecRef'}


def dominators(fn):
    ids = [b.id for b in fn.blocks]
    allb = set(ids)
    dom = {i: set(allb) for i in ids}
    dom[ids[0]] = {ids[0]}
    preds = {i: [] for i in ids}
    for b in fn.blocks:
        for s in b.succs:
            preds[s.id].append(b.id)
    ch = True
    while ch:
        ch = False
        for b in fn.blocks[1:]:
            ps = [dom[p] for p in preds[b.id]]
            new = (set.intersection(*ps) if ps else set()) | {b.id}
            if new != dom[b.id]:
                dom[b.id] = new
                ch = True
    return dom


def _base(v):
    n = 0
    while n < 20:
        n += 1
        if v.k == 'global':
            return v.v
        if v.k == 'cexpr' and v.ops:
            v = v.ops[0]
            continue
        if v.k == 'inst' and v.op in ('gep', 'bitcast', 'freeze'):
            v = v.ops[0]
            continue
        return None
    return None


def _varying(u, v, seen=None, d=0):
    """does value v depend on the call (arguments, memory, API results)?"""
    seen = set() if seen is None else seen
    if v.k == 'arg':
        return True
    if v.k != 'inst' or v.v in seen:
        return False
    seen.add(v.v)
    if v.op == 'load':
        return True
    if v.op == 'call':
        n = capi.callee_name(u, v) or ''
        if n.startswith(('Py', '_Py', '_Zn', 'malloc')):
            return True
    if v.op == 'phi':
        return any(_varying(u, x, seen, d + 1) for x, _ in v.inc)
    return any(_varying(u, x, seen, d + 1) for x in v.ops)


def analyse(units, res=None):
    from .native import is_init, is_region
    out, nfn, nload, nglob = [], 0, 0, 0
    for u in units:
        fns = [(n, f) for n, f in u.fns.items() if not ('.omp_outlined' in n and not is_region(n)) and not is_init(u, f)]
        written = set()
        for n, f in fns:
            for i in f.instrs():
                if i.op == 'store':
                    g = _base(i.ops[1])
                    if g:
                        written.add(g)
                elif i.op == 'call':
                    # a global passed by address may be written by the callee
                    nm = capi.callee_name(u, i) or ''
                    for o in i.ops:
                        g = _base(o) if o.ty == 'ptr' else None
                        if g and nm.startswith(('PyArg_', 'llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'posix_memalign')) \
                                and g not in u.strings and (not nm.startswith('llvm.') or o is i.ops[0]) and not nm.startswith('PyArg_'):
                            written.add(g)
        written = {g for g in written if not g.startswith('_ZGV')}
        nglob += len(written)
        for n, f in fns:
            nfn += 1
            dom = dominators(f)
            stores = {}
            uses = {}
            guards = []
            for b in f.blocks:
                for k, i in enumerate(b.ins):
                    for o in i.ops or []:
                        if o.k == 'inst':
                            uses.setdefault(o.v, []).append(i)
                    if i.op == 'store':
                        g = _base(i.ops[1])
                        if g in written:
                            stores.setdefault(g, []).append((b, k, i))
                    if i.op == 'call' and capi.callee_name(u, i) == '__cxa_guard_acquire':
                        guards.append((b, i))
            guarded = set()
            for gb, gi in guards:
                # the initialised variable: stores after the guard in blocks it dominates
                gname = gi.ops[0].v if gi.ops[0].k == 'global' else None
                var = gname.replace('_ZGV', '_Z', 1) if isinstance(gname, str) else None
                if var:
                    guarded.add(var)
                for g, ss in stores.items():
                    for b, k, i in ss:
                        if gb.id in dom[b.id] and (var is None or g == var) and _varying(u, i.ops[0]):
                            out.append(Finding('history', '%s:%s:%s' % (u.src, f.short, u.dem.get(g, g) if g in u.dem else g),
                                               '%s:%s' % (i.file, i.line),
                                               'a static variable is initialised from values of the first call and kept for later calls'))
            for b in f.blocks:
                for k, i in enumerate(b.ins):
                    if i.op != 'load':
                        continue
                    g = _base(i.ops[0])
                    if g not in written or g in guarded:
                        continue
                    nload += 1
                    us = uses.get(i.v, [])
                    if us and all(_refonly(u, x) for x in us):
                        continue
                    if not us:
                        continue
                    ok = any((sb.id in dom[b.id] and sb.id != b.id) or (sb.id == b.id and sk < k) for sb, sk, _ in stores.get(g, []))
                    if not ok:
                        out.append(Finding('history', '%s:%s:%s' % (u.src, f.short, g), '%s:%s' % (i.file, i.line),
                                           'the mutable static %s is read before this call has set it: an earlier call shows through' % g))
    if res is not None:
        res.count(translation_units=len(units), functions_analysed=nfn, mutable_statics=nglob, loads_of_mutable_statics=nload)
    # one finding per construct
    d = {}
    for f in out:
        d.setdefault(f.key, f)
    return list(d.values())


def _refonly(u, x):
    if x.op == 'call':
        return capi.callee_name(u, x) in REF
    return False
