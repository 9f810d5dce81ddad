"""
Native input rule: a compiled routine never writes into an array of the caller.

Objects that may be the caller's own (parsed arguments, attributes and items of them, arrays obtained
by a conversion that may return its argument) are tainted; so is the data pointer of such an object
and every address computed from it, through local variables, helper calls and the variables shared
with a parallel region.  No store, memory copy or transform output may go to a tainted address.
"""
from . import capi
from .common import Finding

FRESH = {'PyArray_Zeros', 'PyArray_Empty', 'PyArray_New', 'PyArray_NewFromDescr', 'PyArray_NewCopy', 'PyArray_Copy', 'PyArray_NewLikeArray', 'PyArray_Arange', 'PyArray_Flatten',
         'PyArray_SimpleNewFromDesc', 'Py_BuildValue', 'PyObject_CallMethod', 'PyObject_CallObject', 'PyObject_Call', 'PyObject_CallFunction'}
SAME = {'PyArray_FromAny': 0, 'PyArray_CheckFromAny': 0, 'PyArray_FromArray': 0, 'PyArray_ContiguousFromAny': 0, 'PyArray_EnsureArray': 0, 'PyArray_Newshape': 0, 'PyArray_Reshape': 0,
        'PyArray_Transpose': 0, 'PyArray_Squeeze': 0, 'PyArray_Ravel': 0, 'PyArray_SwapAxes': 0, 'PyArray_View': 0, 'PyArray_Return': 0, 'Py_NewRef': 0,
        'PyObject_GetAttrString': 0, 'PyObject_GetAttr': 0, 'PyObject_GetItem': 0, 'PyList_GetItem': 0, 'PyTuple_GetItem': 0, 'PyDict_GetItemString': 0,
        'PyList_GET_ITEM': 0, 'PyTuple_GET_ITEM': 0, 'PySequence_GetItem': 0, 'PySequence_Fast': 0, 'PyArray_EnsureAnyArray': 0, 'PyArray_CastToType': None}
FLAGS = {'PyArray_FromAny': 4, 'PyArray_CheckFromAny': 4, 'PyArray_FromArray': 2}
ENSURECOPY = 0x20
DATA = {'PyArray_DATA', 'PyArray_BYTES', 'PyBytes_AS_STRING', 'PyBytes_AsString'}
OUTS = {'memcpy': [0], 'memset': [0], 'memmove': [0]}


class Taint(object):
    def __init__(self, u, fns):
        self.u, self.fns = u, fns
        self.t = {}               # (fn name, value id) -> {'obj','mem'}
        self.slot = {}            # (fn name, alloca id) -> taint of what it holds
        self.argt = {}            # (fn name, arg no) -> taint
        self.argslot = {}         # (fn name, arg no) -> set of (fn, alloca) it points to
        self.n = dict(stores=0, tainted_values=0)

    def root(self, v):
        while v.k == 'inst' and v.op in ('gep', 'bitcast', 'freeze'):
            v = v.ops[0]
        return v

    def slots(self, fn, a):
        r = self.root(a)
        if r.k == 'inst' and r.op == 'alloca':
            return {(fn.name, r.v)}
        if r.k == 'arg':
            return self.argslot.get((fn.name, r.v), set())
        return set()

    def val(self, fn, v):
        if v.k == 'arg':
            return self.argt.get((fn.name, v.v), frozenset())
        if v.k == 'inst':
            return self.t.get((fn.name, v.v), frozenset())
        return frozenset()

    def up(self, d, k, x):
        old = d.get(k, frozenset() if d is not self.argslot else set())
        new = old | x
        if new != old:
            d[k] = new
            self.ch = True

    def run(self, entries):
        u = self.u
        for f in entries:
            self.argt[(f.name, 1)] = frozenset(['obj'])     # args tuple
            self.argt[(f.name, 2)] = frozenset(['obj'])     # keywords
            self.argt[(f.name, 0)] = frozenset()
        self.ch = True
        rounds = 0
        while self.ch and rounds < 40:
            self.ch = False
            rounds += 1
            for f in self.fns:
                for i in f.instrs():
                    self.step(f, i)
        return self.check()

    def step(self, f, i):
        u = self.u
        if i.op == 'call':
            n = capi.callee_name(u, i) or ''
            if n.startswith('PyArg_'):
                for o in i.ops:
                    if o.ty == 'ptr':
                        for s in self.slots(f, o):
                            self.up(self.slot, s, frozenset(['obj']))
                return
            if n in DATA:
                if 'obj' in self.val(f, i.ops[0]):
                    self.up(self.t, (f.name, i.v), frozenset(['mem']))
                return
            if n in SAME and SAME[n] is not None:
                k = FLAGS.get(n)
                if k is not None and len(i.ops) > k and i.ops[k].k == 'cint' and i.ops[k].v & ENSURECOPY:
                    return
                if 'obj' in self.val(f, i.ops[SAME[n]]):
                    self.up(self.t, (f.name, i.v), frozenset(['obj']))
                return
            if n.startswith('__kmpc_fork_call'):
                tgt = [o for o in i.ops if o.k == 'func']
                if tgt:
                    name = tgt[0].v
                    reg = [g for g in self.fns if g.name == name + '_debug__' or g.name == name.replace('omp_outlined', 'omp_outlined_debug__')]
                    k = list(i.ops).index(tgt[0])
                    for g in reg or []:
                        self.pass_args(f, i.ops[k + 1:], g, 2)
                    if not reg:
                        for g in self.fns:
                            if g.name == name:
                                self.pass_args(f, i.ops[k + 1:], g, 2)
                return
            for g in self.fns:
                if i.callee is not None and i.callee.k == 'func' and g.name == i.callee.v:
                    self.pass_args(f, i.ops, g, 0)
                    rt = frozenset()
                    for r in g.instrs():
                        if r.op == 'ret' and r.ops:
                            rt |= self.val(g, r.ops[0])
                    if rt:
                        self.up(self.t, (f.name, i.v), rt)
        elif i.op == 'load':
            x = frozenset()
            if i.ty == 'ptr':
                for s in self.slots(f, i.ops[0]):
                    x |= self.slot.get(s, frozenset())
                # items of a caller's container / fields of its objects
            if x:
                self.up(self.t, (f.name, i.v), x)
        elif i.op == 'store':
            x = self.val(f, i.ops[0])
            if x:
                for s in self.slots(f, i.ops[1]):
                    self.up(self.slot, s, x)
            if i.ops[0].ty == 'ptr':
                # a slot holding the address of another slot
                ps = self.slots(f, i.ops[0])
                if ps and self.root(i.ops[0]) is i.ops[0] and i.ops[0].k == 'inst':
                    pass
        elif i.op in ('gep', 'bitcast', 'freeze'):
            x = self.val(f, i.ops[0])
            if x & {'mem'}:
                self.up(self.t, (f.name, i.v), x & {'mem'})
            elif x and i.op != 'gep':
                self.up(self.t, (f.name, i.v), x)
        elif i.op == 'phi':
            x = frozenset()
            for v, _ in i.inc:
                x |= self.val(f, v)
            if x:
                self.up(self.t, (f.name, i.v), x)
        elif i.op == 'select':
            x = self.val(f, i.ops[1]) | self.val(f, i.ops[2])
            if x and i.ty == 'ptr':
                self.up(self.t, (f.name, i.v), x)

    def pass_args(self, f, ops, g, off):
        for k, o in enumerate(ops):
            if o.ty != 'ptr':
                continue
            x = self.val(f, o)
            if x:
                self.up(self.argt, (g.name, k + off), x)
            s = self.slots(f, o)
            if s:
                self.up(self.argslot, (g.name, k + off), s)

    def check(self):
        out = {}
        u = self.u
        for f in self.fns:
            def rep(i, what):
                short = getattr(f, 'short', f.name)
                c = '%s:%s:%s' % (u.src, short.split('.')[0] if short.startswith('.') is False else short, what)
                out.setdefault(c, Finding('native-input-write', c, '%s:%s' % (i.file, i.line),
                                          '%s writes to memory that may belong to an array of the caller' % what))
            for i in f.instrs():
                if i.op == 'store':
                    self.n['stores'] += 1
                    if 'mem' in self.val(f, self.addr(i.ops[1])):
                        rep(i, 'a store')
                elif i.op == 'call':
                    n = capi.callee_name(u, i) or ''
                    if n.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')) or n in OUTS:
                        self.n['stores'] += 1
                        if 'mem' in self.val(f, self.addr(i.ops[0])):
                            rep(i, n.split('.')[1] if n.startswith('llvm') else n)
                    elif n.startswith(('fftwf_execute_', 'fftw_execute_')) or capi.is_mkplan(n):
                        self.n['stores'] += 1
                        for o in i.ops:
                            if o.ty == 'ptr' and 'mem' in self.val(f, self.addr(o)):
                                rep(i, n)
        self.n['tainted_values'] = len(self.t)
        return list(out.values())

    def addr(self, a):
        return a


def analyse(units, res=None):
    from .native import is_init, is_region
    out = []
    ns = nt = ne = 0
    for u in units:
        fns = [f for n, f in u.fns.items() if not ('.omp_outlined' in n and not is_region(n)) and not is_init(u, f)]
        ent = [f for f in fns if any(i.op == 'call' and (capi.callee_name(u, i) or '').startswith('PyArg_') for i in f.instrs())]
        t = Taint(u, fns)
        out += t.run(ent)
        ns += t.n['stores']
        nt += t.n['tainted_values']
        ne += len(ent)
    if res is not None:
        res.count(native_entry_points=ne, native_stores=ns, native_caller_values=nt)
    return out
