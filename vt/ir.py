"""LLVM bitcode -> plain Python objects, through the LLVM-C API of the installed libLLVM-18."""
import ctypes as C, os, sys
from front import Broken

for _n in ("libLLVM-18.so.1", "libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so"):
    try:
        L = C.CDLL(_n)
        break
    except OSError:
        L = None
if L is None:
    raise Broken("libLLVM-18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

ContextCreate = _f("LLVMContextCreate", P)
MemBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P)
NextGl = _f("LLVMGetNextGlobal", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opc = _f("LLVMGetInstructionOpcode", C.c_int, P)
COpc = _f("LLVMGetConstOpcode", C.c_int, P)
NumOp = _f("LLVMGetNumOperands", C.c_int, P)
Op = _f("LLVMGetOperand", P, P, C.c_uint)
Name = _f("LLVMGetValueName2", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
VKind = _f("LLVMGetValueKind", C.c_int, P)
TypeOf = _f("LLVMTypeOf", P, P)
TKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", C.c_uint, P)
IPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
IsFP = _f("LLVMIsAConstantFP", P, P)
RealV = _f("LLVMConstRealGetDouble", C.c_double, P, P)
FPRED = {1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une"}
FPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
ZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
SExt = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
Linkage = _f("LLVMGetLinkage", C.c_int, P)
CountP = _f("LLVMCountParams", C.c_uint, P)
GetP = _f("LLVMGetParam", P, P, C.c_uint)
CalledV = _f("LLVMGetCalledValue", P, P)
NArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
CountInc = _f("LLVMCountIncoming", C.c_uint, P)
IncV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
VIsBB = _f("LLVMValueIsBasicBlock", C.c_int, P)
VAsBB = _f("LLVMValueAsBasicBlock", P, P)
BBName = _f("LLVMGetBasicBlockName", C.c_char_p, P)
DLLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
DLFile = _f("LLVMGetDebugLocFilename", C.POINTER(C.c_char), P, C.POINTER(C.c_uint))
DL = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
ABIAlign = _f("LLVMABIAlignmentOfType", C.c_uint, P, P)
OffEl = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
SrcEl = _f("LLVMGetGEPSourceElementType", P, P)
ElTy = _f("LLVMGetElementType", P, P)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
StructEl = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
AllocTy = _f("LLVMGetAllocatedType", P, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_ulonglong, P)
PrintTy = _f("LLVMPrintTypeToString", C.c_void_p, P)
PrintV = _f("LLVMPrintValueToString", C.c_void_p, P)
DispMsg = _f("LLVMDisposeMessage", None, P)
IsNullV = _f("LLVMIsNull", C.c_int, P)
GInit = _f("LLVMGetInitializer", P, P)
GConst = _f("LLVMIsGlobalConstant", C.c_int, P)
GTLS = _f("LLVMIsThreadLocal", C.c_int, P)
GVT = _f("LLVMGlobalGetValueType", P, P)
SuccN = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
IsCond = _f("LLVMIsConditional", C.c_int, P)
Cond = _f("LLVMGetCondition", P, P)
RetTy = _f("LLVMGetReturnType", P, P)
CallFT = _f("LLVMGetCalledFunctionType", P, P)
CDSStr = _f("LLVMGetAsString", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
IsCStr = _f("LLVMIsConstantString", C.c_int, P)
FirstUse = _f("LLVMGetFirstUse", P, P)
NextUse = _f("LLVMGetNextUse", P, P)
User = _f("LLVMGetUser", P, P)
AttrKind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
MkAttr = _f("LLVMCreateEnumAttribute", P, P, C.c_uint, C.c_ulonglong)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, C.c_uint, P)
RmAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, C.c_uint, C.c_uint)
RunPasses = _f("LLVMRunPasses", P, P, C.c_char_p, P, P)
PassOpts = _f("LLVMCreatePassBuilderOptions", P)
ErrMsg = _f("LLVMGetErrorMessage", C.c_void_p, P)
SubP = _f("LLVMGetSubprogram", P, P)
DISPLine = _f("LLVMDISubprogramGetLine", C.c_uint, P)
DIScopeFile = _f("LLVMDIScopeGetFile", P, P)
DIFileName = _f("LLVMDIFileGetFilename", C.POINTER(C.c_char), P, C.POINTER(C.c_uint))
DIFileDir = _f("LLVMDIFileGetDirectory", C.POINTER(C.c_char), P, C.POINTER(C.c_uint))
Volatile = _f("LLVMGetVolatile", C.c_int, P)
IsUndef = _f("LLVMIsUndef", C.c_int, P)
IsPoison = _f("LLVMIsPoison", C.c_int, P)
WriteBC = _f("LLVMWriteBitcodeToFile", C.c_int, P, C.c_char_p)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 66: "fneg", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
NEG = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge",
       "sgt": "sle", "sle": "sgt", "sge": "slt", "slt": "sge"}
SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge",
        "sgt": "slt", "slt": "sgt", "sge": "sle", "sle": "sge"}

VK_ARG, VK_BB, VK_FN, VK_GV, VK_CE = 0, 1, 5, 8, 10


class Const(object):
    """int / null / undef constant"""
    __slots__ = ("v", "w", "kind", "f")
    def __init__(s, v, w, kind="int"):
        s.v, s.w, s.kind, s.f = v, w, kind, None
    def __repr__(s):
        return "null" if s.kind == "null" else ("undef" if s.kind == "undef" else "i%d %d" % (s.w, s.v))
    @property
    def s(s):
        """signed"""
        return s.v - (1 << s.w) if s.w and s.v >= (1 << (s.w - 1)) else s.v


class Arg(object):
    __slots__ = ("fn", "idx", "name", "ty")
    def __init__(s, fn, idx, name, ty):
        s.fn, s.idx, s.name, s.ty = fn, idx, name, ty
    def __repr__(s):
        return "%%%s(arg%d)" % (s.name, s.idx)


class Global(object):
    __slots__ = ("name", "const", "size", "init_str", "is_fn", "fn", "ty", "internal", "decl", "tls", "init_refs", "init_ints", "line")
    def __init__(s):
        s.init_str = None; s.fn = None; s.is_fn = False; s.init_refs = []; s.init_ints = None; s.const = False; s.size = 0
        s.internal = False; s.decl = False; s.tls = False; s.ty = ""
    def __repr__(s):
        return "@" + s.name


class Inst(object):
    __slots__ = ("op", "ops", "name", "ty", "w", "bb", "idx", "line", "file", "pred", "callee", "inc", "succs", "cases",
                 "gep", "size", "fn", "vol", "id", "esz", "fnty", "sf")
    def __repr__(s):
        c = ""
        if s.op == "call":
            c = " @" + (s.callee.name if s.callee is not None and hasattr(s.callee, "name") else "?")
        return "%%%s=%s%s#%d" % (s.name, s.op, c, s.id)
    @property
    def loc(s):
        return "%s:%d" % (s.file, s.line)
    @property
    def cname(s):
        return s.callee.name if (s.op == "call" and isinstance(s.callee, Global)) else None


class Block(object):
    __slots__ = ("name", "insts", "preds", "succs", "idx", "fn")
    def __repr__(s):
        return "bb%d:%s" % (s.idx, s.name)


class Function(object):
    def __repr__(s):
        return "fn " + s.name
    def insts(s):
        for b in s.blocks:
            for i in b.insts:
                yield i


def _nm(v):
    n = C.c_size_t()
    p = Name(v, C.byref(n))
    return C.string_at(p, n.value).decode("utf8", "replace") if n.value else ""


def _msg(p):
    s = C.string_at(p).decode("utf8", "replace")
    DispMsg(p)
    return s


class Module(object):
    def __init__(self, path, policy=None, passes="always-inline,function(sroa,instsimplify)", keep_static=()):
        self.ctx = ContextCreate()
        buf, err = P(), C.c_char_p()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(err)):
            raise Broken("cannot read " + path)
        m = P()
        if ParseBC(self.ctx, buf, C.byref(m)):
            raise Broken("cannot parse " + path)
        self.m = m
        self.dl = DL(m)
        self.inlined = []
        if policy is not None:
            self._inline(policy)
        if passes:
            e = RunPasses(m, passes.encode(), None, PassOpts())
            if e:
                raise Broken("passes: " + _msg(ErrMsg(e)))
        self._tys = {}
        self._extract()

    def _inline(self, policy):
        ai = AttrKind(b"alwaysinline", 12)
        ni = AttrKind(b"noinline", 8)
        on = AttrKind(b"optnone", 7)
        f = FirstFn(self.m)
        while f:
            if not IsDecl(f):
                nm = _nm(f)
                internal = Linkage(f) in (8, 9)
                RmAttr(f, 0xFFFFFFFF, on)
                if policy(nm, internal):
                    RmAttr(f, 0xFFFFFFFF, ni)
                    AddAttr(f, 0xFFFFFFFF, MkAttr(self.ctx, ai, 0))
                    self.inlined.append(nm)
            f = NextFn(f)

    # ---- types
    def ty(self, t):
        r = self._tys.get(t)
        if r is None:
            r = _msg(PrintTy(t))
            self._tys[t] = r
        return r

    def tsize(self, t):
        k = TKind(t)
        if k in (0, 7, 8, 9, 16):  # void, label, function...
            if k == 0 or k == 7:
                return 0
        s = self.ty(t)
        if s in ("void", "label", "metadata") or "(" in s and not s.startswith("{"):
            return 0
        return ABISize(self.dl, t)

    def _extract(self):
        self.globals = {}
        self.functions = {}
        self._gmap = {}
        g = FirstGl(self.m)
        gl = []
        while g:
            o = Global()
            o.name = _nm(g)
            t = GVT(g)
            o.ty = self.ty(t)
            o.decl = bool(IsDecl(g))
            try:
                o.size = ABISize(self.dl, t) if not (o.decl and "opaque" in o.ty) else 0
            except Exception:
                o.size = 0
            o.const = bool(GConst(g))
            o.tls = bool(GTLS(g))
            o.internal = Linkage(g) in (8, 9)
            self._gmap[g] = o
            self.globals[o.name] = o
            gl.append((g, o))
            g = NextGl(g)
        f = FirstFn(self.m)
        fl = []
        while f:
            o = Global()
            o.name = _nm(f)
            o.is_fn = True
            o.decl = bool(IsDecl(f))
            o.internal = Linkage(f) in (8, 9)
            self._gmap[f] = o
            self.globals[o.name] = o
            if not o.decl:
                fn = Function()
                fn.name = o.name
                fn.g = o
                fn.internal = o.internal
                o.fn = fn
                self.functions[o.name] = fn
                fl.append((f, fn))
            f = NextFn(f)
        for g, o in gl:
            if o.decl:
                continue
            init = GInit(g)
            if init:
                if VKind(init) == CDA_KIND and IsCStr(init):
                    n = C.c_size_t()
                    p = CDSStr(init, C.byref(n))
                    o.init_str = C.string_at(p, n.value)
                elif IsNullV(init) and o.name.startswith(".str"):
                    o.init_str = b"\0"
                o.init_refs = self._refs(init)
                o.init_ints = self._cints(init)
        for f, fn in fl:
            self._fn(f, fn)

    def _cints(self, v):
        k = VKind(v)
        t = TypeOf(v)
        if TKind(t) == 8:
            return ZExt(v)
        return None

    def _refs(self, v, depth=0, out=None):
        out = [] if out is None else out
        if v in self._gmap:
            out.append(self._gmap[v])
            return out
        if depth > 6:
            return out
        k = VKind(v)
        if k in (7, 9, 10, 11, 12, 8, 13) or True:
            n = NumOp(v)
            if 0 < n < 6000:
                for i in range(n):
                    self._refs(Op(v, i), depth + 1, out)
        return out

    def _fn(self, f, fn):
        fn.line, fn.file = 0, ""
        sp = SubP(f)
        if sp:
            fn.line = DISPLine(sp)
            fl = DIScopeFile(sp)
            if fl:
                n = C.c_uint()
                fn.file = C.string_at(DIFileName(fl, C.byref(n)), n.value).decode()
        fn.file = os.path.basename(fn.file)
        fn.retty = ""
        vm = {}
        fn.args = []
        for i in range(CountP(f)):
            p = GetP(f, i)
            a = Arg(fn, i, _nm(p), self.ty(TypeOf(p)))
            vm[p] = a
            fn.args.append(a)
        bm = {}
        fn.blocks = []
        b = FirstBB(f)
        raw = []
        while b:
            o = Block()
            o.name = (BBName(b) or b"").decode()
            o.insts, o.preds, o.succs = [], [], []
            o.idx = len(fn.blocks)
            o.fn = fn
            bm[b] = o
            fn.blocks.append(o)
            i = FirstI(b)
            while i:
                x = Inst()
                vm[i] = x
                raw.append((i, x, o))
                i = NextI(i)
            b = NextBB(b)
        nid = 0
        for i, x, o in raw:
            x.op = OPC.get(Opc(i), "op%d" % Opc(i))
            x.name = _nm(i)
            t = TypeOf(i)
            x.ty = self.ty(t)
            x.w = IntW(t) if TKind(t) == 8 else 0
            x.bb = o
            x.idx = len(o.insts)
            x.fn = fn
            x.id = nid
            nid += 1
            x.line = 0
            x.file = fn.file
            ln = DLLine(i)
            if ln:
                x.line = ln
                n = C.c_uint()
                p = DLFile(i, C.byref(n))
                if n.value:
                    x.file = os.path.basename(C.string_at(p, n.value).decode())
            x.pred = x.callee = x.inc = x.cases = x.gep = x.sf = None
            x.size = 0
            x.esz = 0
            x.vol = False
            x.succs = ()
            x.fnty = None
            o.insts.append(x)
            if x.op == "phi":
                x.inc = [(self._val(IncV(i, k), vm), bm[IncB(i, k)]) for k in range(CountInc(i))]
                x.ops = [v for v, _ in x.inc]
                continue
            if x.op == "br":
                n = SuccN(i)
                x.succs = [bm[Succ(i, k)] for k in range(n)]
                x.ops = [self._val(Cond(i), vm)] if IsCond(i) else []
                o.succs = list(x.succs)
                continue
            if x.op == "switch":
                n = NumOp(i)
                x.ops = [self._val(Op(i, 0), vm)]
                d = bm[VAsBB(Op(i, 1))]
                x.cases = [(ZExt(Op(i, k)), bm[VAsBB(Op(i, k + 1))]) for k in range(2, n, 2)]
                x.succs = [d] + [c[1] for c in x.cases]
                o.succs = list(dict.fromkeys(x.succs))
                continue
            if x.op == "call":
                cv = CalledV(i)
                x.callee = self._gmap.get(cv) or self._val(cv, vm)
                na = NArgs(i)
                x.ops = [self._val(Op(i, k), vm) for k in range(na)]
                x.fnty = self.ty(CallFT(i))
                continue
            n = NumOp(i)
            x.ops = [self._val(Op(i, k), vm) for k in range(n)]
            if x.op == "icmp":
                x.pred = PRED[IPred(i)]
            elif x.op == "fcmp":
                x.pred = FPRED.get(FPred(i), "?")
            elif x.op == "alloca":
                x.size = ABISize(self.dl, AllocTy(i))
                x.fnty = self.ty(AllocTy(i))
            elif x.op == "gep":
                x.gep = self._gep(i, vm, SrcEl)
                x.sf = self._sf
            elif x.op == "load":
                x.size = self.tsize(t)
                x.vol = bool(Volatile(i))
            elif x.op == "store":
                x.size = self.tsize(TypeOf(Op(i, 0)))
                x.vol = bool(Volatile(i))
        for o in fn.blocks:
            for s in o.succs:
                if o not in s.preds:
                    s.preds.append(o)
        fn.ninst = nid
        rt = [i for i in fn.insts() if i.op == "ret"]
        fn.rets = rt
        fn.retty = self.ty(RetTy(GVT(f)))

    def _gep(self, i, vm, srcel):
        """-> (const offset, [(value, scale)...])"""
        t = srcel(i)
        n = NumOp(i)
        off = 0
        var = []
        self._sf = None
        idx0 = Op(i, 1)
        def add(v, sz):
            nonlocal off
            if TKind(TypeOf(v)) == 8 and self._isint(v):
                off += SExt(v) * sz
            else:
                var.append((self._val(v, vm), sz))
        add(idx0, ABISize(self.dl, t))
        for k in range(2, n):
            ix = Op(i, k)
            kk = TKind(t)
            if kk == 10:  # struct
                e = SExt(ix)
                off += OffEl(self.dl, t, e)
                nm = StructName(t)
                self._sf = ((nm or b"").decode(), e)
                t = StructEl(t, e)
            else:  # array/vector
                t = ElTy(t)
                add(ix, ABISize(self.dl, t))
        return off, var

    def _isint(self, v):
        return VKind(v) == CI_KIND

    def _val(self, v, vm):
        r = vm.get(v)
        if r is not None:
            return r
        g = self._gmap.get(v)
        if g is not None:
            return g
        t = TypeOf(v)
        tk = TKind(t)
        vk = VKind(v)
        if vk == CI_KIND:
            w = IntW(t)
            r = Const(ZExt(v) if w <= 64 else 0, w)
        elif IsUndef(v) or IsPoison(v):
            r = Const(0, IntW(t) if tk == 8 else 0, "undef")
        elif vk == NULL_KIND:
            r = Const(0, 0, "null")
        elif vk == VK_CE_KIND:
            r = Inst()
            r.op = OPC.get(COpc(v), "ce")
            r.name = "ce"
            r.ty = self.ty(t)
            r.w = IntW(t) if tk == 8 else 0
            r.bb = None; r.idx = -1; r.fn = None; r.id = -1; r.line = 0; r.file = ""
            r.pred = r.callee = r.inc = r.cases = r.gep = r.sf = None
            r.size = 0; r.esz = 0; r.vol = False; r.succs = (); r.fnty = None
            n = NumOp(v)
            r.ops = [self._val(Op(v, k), vm) for k in range(n)]
            if r.op == "gep":
                r.gep = self._gep(v, vm, SrcEl)
                r.sf = self._sf
        else:
            r = Const(0, 0, "other")
            if tk in (2, 3) and IsFP(v):
                r.f = RealV(v, C.byref(C.c_int()))
        vm[v] = r
        return r


def _kinds():
    """value-kind numbers, measured rather than assumed"""
    ctx = ContextCreate()
    i32 = _f("LLVMInt32TypeInContext", P, P)(ctx)
    pt = _f("LLVMPointerTypeInContext", P, P, C.c_uint)(ctx, 0)
    ci = _f("LLVMConstInt", P, P, C.c_ulonglong, C.c_int)(i32, 1, 0)
    nl = _f("LLVMConstNull", P, P)(pt)
    ce = _f("LLVMConstPtrToInt", P, P, P)
    g = _f("LLVMAddGlobal", P, P, P, C.c_char_p)
    m = _f("LLVMModuleCreateWithNameInContext", P, C.c_char_p, P)(b"x", ctx)
    gv = g(m, i32, b"g")
    cs = _f("LLVMConstStringInContext", P, P, C.c_char_p, C.c_uint, C.c_int)(ctx, b"abc", 3, 0)
    return VKind(ci), VKind(nl), VKind(ce(gv, i32)), VKind(cs)

CI_KIND, NULL_KIND, VK_CE_KIND, CDA_KIND = _kinds()
