"""
Thin ctypes layer over the LLVM 18 C API.

It parses bitcode, runs normalising passes and converts every defined function
into plain Python objects (Fn / Block / Instr / Val), on which the dataflow
analyses of the C++ extension modules run.  Nothing is executed or JITed.
"""
import ctypes as C
import ctypes.util
import os

_LIBS = ['libLLVM-18.so.1', 'libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM-18.so',
         '/usr/lib/llvm-18/lib/libLLVM.so']


def _load():
    for n in _LIBS:
        try:
            return C.CDLL(n)
        except OSError:
            continue
    raise RuntimeError('libLLVM-18 not found')


L = _load()
P = C.c_void_p
S = C.c_char_p
U = C.c_uint


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


CtxCreate = _f('LLVMContextCreate', P)
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, S, C.POINTER(P), C.POINTER(C.c_void_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_void_p))
DisposeMsg = _f('LLVMDisposeMessage', None, P)
FirstFn = _f('LLVMGetFirstFunction', P, P)
NextFn = _f('LLVMGetNextFunction', P, P)
FirstGlobal = _f('LLVMGetFirstGlobal', P, P)
NextGlobal = _f('LLVMGetNextGlobal', P, P)
GetInit = _f('LLVMGetInitializer', P, P)
IsGlobalConst = _f('LLVMIsGlobalConstant', C.c_int, P)
IsDecl = _f('LLVMIsDeclaration', C.c_int, P)
ValName = _f('LLVMGetValueName2', C.c_void_p, P, C.POINTER(C.c_size_t))
FirstBB = _f('LLVMGetFirstBasicBlock', P, P)
NextBB = _f('LLVMGetNextBasicBlock', P, P)
BBAsVal = _f('LLVMBasicBlockAsValue', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P)
NextI = _f('LLVMGetNextInstruction', P, P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, P)
NOps = _f('LLVMGetNumOperands', C.c_int, P)
Op = _f('LLVMGetOperand', P, P, U)
TypeOf = _f('LLVMTypeOf', P, P)
PrintType = _f('LLVMPrintTypeToString', C.c_void_p, P)
PrintVal = _f('LLVMPrintValueToString', C.c_void_p, P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntWidth = _f('LLVMGetIntTypeWidth', U, P)
ElemType = _f('LLVMGetElementType', P, P)
StructTypeAt = _f('LLVMStructGetTypeAtIndex', P, P, U)
ArrayLen = _f('LLVMGetArrayLength2', C.c_uint64, P)
CalledVal = _f('LLVMGetCalledValue', P, P)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, P)
FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, P)
ValueKind = _f('LLVMGetValueKind', C.c_int, P)
ZExt = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
SExt = _f('LLVMConstIntGetSExtValue', C.c_longlong, P)
RealVal = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
GEPSrc = _f('LLVMGetGEPSourceElementType', P, P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
DL = _f('LLVMGetModuleDataLayout', P, P)
OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, U)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
NSucc = _f('LLVMGetNumSuccessors', U, P)
Succ = _f('LLVMGetSuccessor', P, P, U)
CountInc = _f('LLVMCountIncoming', U, P)
IncV = _f('LLVMGetIncomingValue', P, P, U)
IncB = _f('LLVMGetIncomingBlock', P, P, U)
DbgLine = _f('LLVMGetDebugLocLine', U, P)
DbgFile = _f('LLVMGetDebugLocFilename', C.c_void_p, P, C.POINTER(U))
DbgDir = _f('LLVMGetDebugLocDirectory', C.c_void_p, P, C.POINTER(U))
NParams = _f('LLVMCountParams', U, P)
Param = _f('LLVMGetParam', P, P, U)
IsCond = _f('LLVMIsConditional', C.c_int, P)
NIdx = _f('LLVMGetNumIndices', U, P)
Idx = _f('LLVMGetIndices', C.POINTER(U), P)
IsConstStr = _f('LLVMIsConstantString', C.c_int, P)
AsString = _f('LLVMGetAsString', C.c_void_p, P, C.POINTER(C.c_size_t))
AttrKind = _f('LLVMGetEnumAttributeKindForName', U, S, C.c_size_t)
MkAttr = _f('LLVMCreateEnumAttribute', P, P, U, C.c_uint64)
AddAttr = _f('LLVMAddAttributeAtIndex', None, P, U, P)
RmAttr = _f('LLVMRemoveEnumAttributeAtIndex', None, P, U, U)
GetSub = _f('LLVMGetSubprogram', P, P)
SubLine = _f('LLVMDISubprogramGetLine', U, P)
ScopeFile = _f('LLVMDIScopeGetFile', P, P)
FileName = _f('LLVMDIFileGetFilename', C.c_void_p, P, C.POINTER(U))
RunPasses = _f('LLVMRunPasses', P, P, S, P, P)
MkPBO = _f('LLVMCreatePassBuilderOptions', P)
ErrMsg = _f('LLVMGetErrorMessage', C.c_void_p, P)
SetLinkage = _f('LLVMSetLinkage', None, P, C.c_int)
GetLinkage = _f('LLVMGetLinkage', C.c_int, P)
PrintModule = _f('LLVMPrintModuleToString', C.c_void_p, P)
LinkModules = _f('LLVMLinkModules2', C.c_int, P, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable',
       67: 'callbr', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul',
       14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 61: 'cleanupret',
       62: 'catchret', 63: 'catchpad', 64: 'cleanuppad', 65: 'catchswitch'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'ga', 7: 'ifunc', 8: 'global', 9: 'blockaddr', 10: 'cexpr',
      11: 'carray', 12: 'cstruct', 13: 'cvector', 14: 'undef', 15: 'zero', 16: 'cdarray', 17: 'cdvector',
      18: 'cint', 19: 'cfp', 20: 'null', 21: 'none', 22: 'meta', 23: 'asm', 24: 'inst', 25: 'poison'}


def _msg(p):
    if not p:
        return ''
    s = C.string_at(p).decode('utf-8', 'replace')
    DisposeMsg(p)
    return s


def _name(v):
    n = C.c_size_t()
    p = ValName(v, C.byref(n))
    return C.string_at(p, n.value).decode('utf-8', 'replace') if p else ''


_tcache = {}


def tstr(t):
    s = _tcache.get(t)
    if s is None:
        s = _msg(PrintType(t))
        _tcache[t] = s
    return s


def _numbers(txt):
    """'[4 x float] [float 0xC0.., float -1.0e+00]' -> list, None when it is no flat numeric array"""
    import re
    import struct
    m = re.match(r'^\[\d+ x (float|double|i8|i16|i32|i64)\] \[(.*)\]$', txt)
    if not m:
        return None
    out = []
    for tok in m.group(2).split(','):
        v = tok.strip().split(' ')[-1]
        if v.startswith('0x'):
            out.append(struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
        elif m.group(1)[0] == 'i':
            out.append(int(v))
        else:
            out.append(float(v))
    return out


class Val(object):
    __slots__ = ('k', 'v', 'ty', 'ops', 'x')

    def __init__(self, k, v=None, ty='', ops=None, x=None):
        self.k, self.v, self.ty, self.ops, self.x = k, v, ty, ops, x

    def __repr__(self):
        return '%s:%s' % (self.k, self.v)


class Instr(Val):
    __slots__ = ('op', 'bb', 'idx', 'pred', 'callee', 'line', 'file', 'goff', 'gidx', 'succ', 'inc', 'indices',
                 'aty', 'asize', 'fn')

    def __repr__(self):
        return '%%%s=%s' % (self.v, self.op)

    def where(self):
        return '%s:%s' % (self.file, self.line)


class Block(object):
    __slots__ = ('id', 'ins', 'succs', 'preds', 'fn')


class Fn(object):
    def __init__(self):
        self.name = ''
        self.blocks = []
        self.args = []
        self.file = None
        self.line = 0
        self.decl = True

    def instrs(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Module(object):
    def __init__(self, ctx, path):
        self.ctx = ctx
        self.path = path
        buf = P()
        err = C.c_void_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('cannot read %s: %s' % (path, _msg(err.value)))
        mod = P()
        if ParseIR(ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError('cannot parse %s: %s' % (path, _msg(err.value)))
        self.mod = mod
        self.dl = DL(mod)

    # -- preparation -------------------------------------------------------
    def raw_functions(self):
        f = FirstFn(self.mod)
        while f:
            yield f, _name(f), bool(IsDecl(f))
            f = NextFn(f)

    def fn_source(self, f):
        sp = GetSub(f)
        if not sp:
            return None, 0
        fl = ScopeFile(sp)
        n = U()
        p = FileName(fl, C.byref(n)) if fl else None
        return (C.string_at(p, n.value).decode() if p else None), SubLine(sp)

    def attr(self, f, name, add=True):
        k = AttrKind(name.encode(), len(name))
        if add:
            AddAttr(f, 0xFFFFFFFF, MkAttr(self.ctx, k, 0))
        else:
            RmAttr(f, 0xFFFFFFFF, k)

    def callees(self, f):
        out = set()
        b = FirstBB(f)
        while b:
            i = FirstI(b)
            while i:
                if Opcode(i) in (45, 5):
                    cv = CalledVal(i)
                    if ValueKind(cv) == 5:
                        out.add(_name(cv))
                i = NextI(i)
            b = NextBB(b)
        return out

    def run(self, passes):
        e = RunPasses(self.mod, passes.encode(), None, MkPBO())
        if e:
            raise RuntimeError('passes %s: %s' % (passes, C.string_at(ErrMsg(e)).decode()))

    def text(self):
        return _msg(PrintModule(self.mod))

    # -- conversion --------------------------------------------------------
    def strings(self):
        """Global constant strings: name -> bytes."""
        out = {}
        g = FirstGlobal(self.mod)
        while g:
            ini = GetInit(g)
            if ini and ValueKind(ini) == 16 and IsConstStr(ini):
                n = C.c_size_t()
                p = AsString(ini, C.byref(n))
                out[_name(g)] = C.string_at(p, n.value)
            g = NextGlobal(g)
        return out

    def tables(self):
        """Constant arrays of numbers: global name -> list of numbers."""
        out = {}
        g = FirstGlobal(self.mod)
        while g:
            ini = GetInit(g)
            if ini and IsGlobalConst(g) and not (ValueKind(ini) == 16 and IsConstStr(ini)):
                vals = _numbers(_msg(PrintVal(ini)))
                if vals is not None:
                    out[_name(g)] = vals
            g = NextGlobal(g)
        return out

    def gep_parts(self, g):
        """(constant byte offset, [(index Val pointer, byte scale)]) of a GEP."""
        t = GEPSrc(g)
        off = 0
        parts = []
        for k in range(1, NOps(g)):
            iv = Op(g, k)
            if k == 1:
                size = ABISize(self.dl, t)
                if ValueKind(iv) == 18:
                    off += SExt(iv) * size
                else:
                    parts.append((iv, size))
                continue
            kind = TypeKind(t)
            if kind == 10:       # struct
                n = ZExt(iv)
                off += OffsetOf(self.dl, t, n)
                t = StructTypeAt(t, n)
            elif kind in (11, 13):
                t = ElemType(t)
                size = ABISize(self.dl, t)
                if ValueKind(iv) == 18:
                    off += SExt(iv) * size
                else:
                    parts.append((iv, size))
            else:
                raise RuntimeError('gep kind %d' % kind)
        return off, parts

    def const(self, v):
        vk = VK.get(ValueKind(v), 'other')
        ty = tstr(TypeOf(v))
        if vk == 'cint':
            w = IntWidth(TypeOf(v))
            if w > 64:
                return Val('cint', int(_msg(PrintVal(v)).split()[-1]), ty)
            return Val('cint', SExt(v), ty)
        if vk == 'cfp':
            d = C.c_int()
            return Val('cfp', RealVal(v, C.byref(d)), ty)
        if vk in ('func', 'global', 'ga'):
            return Val('global' if vk != 'func' else 'func', _name(v), ty)
        if vk == 'cexpr':
            op = OPC.get(ConstOpcode(v), 'ce')
            val = Val('cexpr', op, ty, [self.const(Op(v, k)) for k in range(NOps(v))])
            if op == 'gep':
                off, parts = self.gep_parts(v)
                val.x = (off, [(self.const(p), s) for p, s in parts])
            return val
        if vk in ('cdarray', 'cdvector', 'carray', 'cstruct', 'cvector', 'cvec'):
            return Val('cagg', _msg(PrintVal(v)), ty)
        if vk in ('null', 'zero', 'undef', 'poison'):
            return Val('null' if vk in ('null', 'zero') else 'undef', None, ty)
        if vk == 'meta':
            return Val('meta', None, ty)
        return Val(vk, None, ty)

    def functions(self, want=None):
        out = {}
        for f, name, decl in list(self.raw_functions()):
            if decl:
                continue
            if want is not None and not want(name):
                continue
            out[name] = self._fn(f, name)
        return out

    def _fn(self, f, name):
        fn = Fn()
        fn.name = name
        fn.decl = False
        fn.file, fn.line = self.fn_source(f)
        vmap = {}
        for k in range(NParams(f)):
            p = Param(f, k)
            a = Val('arg', k, tstr(TypeOf(p)))
            vmap[p] = a
            fn.args.append(a)
        bbs = {}
        b = FirstBB(f)
        raw = []
        while b:
            blk = Block()
            blk.id = len(bbs)
            blk.ins, blk.succs, blk.preds, blk.fn = [], [], [], fn
            bbs[b] = blk
            bbs[BBAsVal(b)] = blk
            fn.blocks.append(blk)
            raw.append((b, blk))
            b = NextBB(b)
            if len(bbs) > 4000000:
                raise RuntimeError('too big')
        # renumber ids (bbs holds two keys per block)
        for n, blk in enumerate(fn.blocks):
            blk.id = n
        n = 0
        todo = []
        for b, blk in raw:
            i = FirstI(b)
            while i:
                ins = Instr('inst', n, tstr(TypeOf(i)))
                n += 1
                ins.op = OPC.get(Opcode(i), 'op%d' % Opcode(i))
                ins.bb, ins.fn = blk, fn
                ins.idx = len(blk.ins)
                ins.pred = ins.callee = ins.goff = ins.gidx = ins.succ = ins.inc = ins.indices = None
                ins.aty = ins.asize = None
                ins.line = DbgLine(i)
                u = U()
                p = DbgFile(i, C.byref(u))
                ins.file = C.string_at(p, u.value).decode() if p and u.value else (fn.file or '')
                blk.ins.append(ins)
                vmap[i] = ins
                todo.append((i, ins, blk))
                i = NextI(i)

        def conv(v):
            r = vmap.get(v)
            if r is None:
                if v in bbs:
                    return Val('bb', bbs[v].id, 'label')
                r = self.const(v)
                vmap[v] = r
            return r
        for i, ins, blk in todo:
            op = ins.op
            if op == 'phi':
                ins.inc = [(conv(IncV(i, k)), bbs[IncB(i, k)]) for k in range(CountInc(i))]
                ins.ops = [v for v, _ in ins.inc]
                continue
            ins.ops = [conv(Op(i, k)) for k in range(NOps(i))]
            if op == 'icmp':
                ins.pred = PRED[ICmpPred(i)]
            elif op == 'fcmp':
                ins.pred = 'f%d' % FCmpPred(i)
            elif op in ('call', 'invoke'):
                ins.callee = conv(CalledVal(i))
                nargs = NOps(i) - (1 if op == 'call' else 3)
                ins.ops = ins.ops[:nargs]
            elif op == 'gep':
                off, parts = self.gep_parts(i)
                ins.goff = off
                ins.gidx = [(conv(p), s) for p, s in parts]
            elif op == 'alloca':
                t = AllocTy(i)
                ins.aty = tstr(t)
                ins.asize = ABISize(self.dl, t)
            elif op in ('extractvalue', 'insertvalue'):
                m = NIdx(i)
                arr = Idx(i)
                ins.indices = [arr[k] for k in range(m)]
            if op in ('br', 'switch', 'invoke', 'indirectbr', 'ret', 'unreachable', 'resume', 'catchswitch',
                      'cleanupret', 'catchret'):
                ns = NSucc(i) if op not in ('ret', 'unreachable', 'resume') else 0
                ins.succ = [bbs[Succ(i, k)] for k in range(ns)]
                if op == 'switch':
                    # operands: cond, default, (value, dest)*
                    ins.inc = [(conv(Op(i, k)), bbs[Op(i, k + 1)]) for k in range(2, NOps(i), 2)]
                blk.succs = list(ins.succ)
        for blk in fn.blocks:
            for s in blk.succs:
                if blk not in s.preds:
                    s.preds.append(blk)
        return fn
