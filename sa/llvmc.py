"""Thin reader of LLVM bitcode through the LLVM-C API (ctypes).

Turns a bitcode file into plain Python objects (Module / Function / Block /
Inst / Const ...), with byte offsets for constant GEPs already computed and the
debug location (file, line) attached to every instruction.  Nothing is executed
and nothing is transformed here.
"""
import ctypes as C
import os
import re
import subprocess

_CANDIDATES = ["/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
               "libLLVM-18.so", "libLLVM.so.18.1"]
L = None
for _p in _CANDIDATES:
    try:
        L = C.CDLL(_p)
        break
    except OSError:
        continue
if L is None:
    raise RuntimeError("libLLVM 18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CreateBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ContextCreate = _f("LLVMContextCreate", P)
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGV = _f("LLVMGetFirstGlobal", P, P)
NextGV = _f("LLVMGetNextGlobal", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
GetName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
Operand = _f("LLVMGetOperand", P, P, C.c_uint)
ValKind = _f("LLVMGetValueKind", C.c_int, P)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ConstZ = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
ConstS = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
BBAsV = _f("LLVMBasicBlockAsValue", P, P)
VAsBB = _f("LLVMValueAsBasicBlock", P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
Linkage = _f("LLVMGetLinkage", C.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
Initializer = _f("LLVMGetInitializer", P, P)
IsGlobalConst = _f("LLVMIsGlobalConstant", C.c_int, P)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
CountInc = _f("LLVMCountIncoming", C.c_uint, P)
IncVal = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncBB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
CalledV = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", C.c_uint, P)
GEPSrcTy = _f("LLVMGetGEPSourceElementType", P, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
DLLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
DLCol = _f("LLVMGetDebugLocColumn", C.c_uint, P)
DLFile = _f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(C.c_uint))
DLDir = _f("LLVMGetDebugLocDirectory", C.c_void_p, P, C.POINTER(C.c_uint))
ModDL = _f("LLVMGetModuleDataLayout", P, P)
OffElt = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
EltType = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
StructN = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructElt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
IsVolatile = _f("LLVMGetVolatile", C.c_int, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
AggElt = _f("LLVMGetAggregateElement", P, P, C.c_uint)
IsNull = _f("LLVMIsNull", C.c_int, P)
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
NumIdx = _f("LLVMGetNumIndices", C.c_uint, P)
GetIdx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
CalledFT = _f("LLVMGetCalledFunctionType", P, P)
RetType = _f("LLVMGetReturnType", P, P)
PrintV = _f("LLVMPrintValueToString", C.c_void_p, P)
DisposeMsg = _f("LLVMDisposeMessage", None, C.c_void_p)
IsConstStr = _f("LLVMIsConstantString", C.c_int, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 49: "vaarg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 60: "addrspacecast",
       66: "fneg", 67: "callbr", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
# value kinds (llvm-c ValueKind enum, LLVM 18)
VK = {0: "arg", 1: "bb", 5: "func", 6: "alias", 8: "gvar", 9: "blockaddr", 10: "cexpr", 11: "carray", 12: "cstruct",
      13: "cvector", 14: "undef", 15: "czero", 16: "cdarray", 17: "cdvector", 18: "cint", 19: "cfp", 20: "cnull",
      21: "ctoknone", 22: "md", 23: "asm", 24: "inst", 25: "poison", 26: "ctarget"}
# LLVM type kinds
TK = {0: "void", 2: "float", 3: "double", 7: "label", 8: "int", 9: "function", 10: "struct", 11: "array", 12: "ptr",
      13: "vector", 14: "metadata", 17: "scalablevec"}


class Type:
    __slots__ = ("kind", "bits", "elt", "n", "name", "elts", "offs", "size", "h")

    def __init__(s):
        s.kind = s.elt = s.name = None
        s.bits = s.n = s.size = 0
        s.elts = s.offs = None

    def __repr__(s):
        if s.kind == "int":
            return "i%d" % s.bits
        if s.kind == "array":
            return "[%d x %r]" % (s.n, s.elt)
        if s.kind == "vector":
            return "<%d x %r>" % (s.n, s.elt)
        if s.kind == "struct":
            return "%%%s" % (s.name or "anon")
        return s.kind


class Value:
    __slots__ = ()


class CInt(Value):
    __slots__ = ("v", "bits", "ty")
    op = "cint"

    def __init__(s, v, bits, ty):
        s.v, s.bits, s.ty = v, bits, ty

    @property
    def u(s):
        return s.v & ((1 << s.bits) - 1)

    def __repr__(s):
        return "%d" % s.v


class CNull(Value):
    __slots__ = ("ty",)
    op = "null"

    def __init__(s, ty):
        s.ty = ty

    def __repr__(s):
        return "null"


class CUndef(Value):
    __slots__ = ("ty",)
    op = "undef"

    def __init__(s, ty):
        s.ty = ty

    def __repr__(s):
        return "undef"


class COther(Value):
    __slots__ = ("ty", "kind", "text")
    op = "cother"

    def __init__(s, ty, kind, text=""):
        s.ty, s.kind, s.text = ty, kind, text

    def __repr__(s):
        return "<%s>" % s.kind


class GRef(Value):
    """Address inside a global variable: base + constant byte offset."""
    __slots__ = ("g", "off", "ty")
    op = "gref"

    def __init__(s, g, off, ty):
        s.g, s.off, s.ty = g, off, ty

    def __repr__(s):
        return "@%s%s" % (s.g.name, "+%d" % s.off if s.off else "")


class Asm(Value):
    """inline assembly: the template and its constraint string"""
    __slots__ = ("text", "ty", "tmpl", "cons")
    op = "asm"

    def __init__(s, text, ty):
        s.text, s.ty = text, ty
        q = re.findall(r'"((?:[^"\\]|\\.)*)"', text)
        dec = [re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), x) for x in q]
        s.tmpl = dec[0] if dec else ""
        s.cons = dec[1].split(",") if len(dec) > 1 else []


class Arg(Value):
    __slots__ = ("fn", "idx", "name", "ty", "uses")
    op = "arg"

    def __init__(s, fn, idx, name, ty):
        s.fn, s.idx, s.name, s.ty = fn, idx, name, ty
        s.uses = []

    def __repr__(s):
        return "%%%s" % s.name


class Inst(Value):
    __slots__ = ("op", "ops", "ty", "name", "blk", "file", "line", "col", "pred", "inc", "srcty", "gepconst", "gepvar",
                 "callee", "args", "aty", "succs", "cases", "volatile", "uses", "idx", "indices", "lib", "id", "extra")

    def __repr__(s):
        return "%%%s=%s@%s" % (s.name or s.id, s.op, s.line)

    @property
    def loc(s):
        return "%s:%s" % (s.file, s.line)

    @property
    def fn(s):
        return s.blk.fn


class Block:
    __slots__ = ("fn", "name", "insts", "succs", "preds", "idx")

    def __repr__(s):
        return "bb:%s" % (s.name or s.idx)

    @property
    def term(s):
        return s.insts[-1]


class Function(Value):
    op = "func"

    def __init__(s):
        s.blocks = []
        s.args = []
        s.name = ""
        s.decl = False
        s.internal = False
        s.file = None
        s.line = 0
        s.sub = None
        s.ty = None

    def __repr__(s):
        return "@%s" % s.name

    def insts(s):
        for b in s.blocks:
            for i in b.insts:
                yield i


class GVar(Value):
    op = "gvar"

    def __init__(s):
        s.name = ""
        s.const = False
        s.internal = False
        s.vty = None
        s.init = None
        s.size = 0
        s.uses = []

    def __repr__(s):
        return "@%s" % s.name


class Module:
    def __init__(s, path, repo_prefix=None):
        s.path = path
        s.ctx = ContextCreate()
        buf = P()
        err = C.c_char_p()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s" % path)
        m = P()
        if ParseBC(s.ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse %s" % path)
        s.m = m
        s.dl = ModDL(m)
        s.types = {}
        s.vals = {}
        s.funcs = {}
        s.globals = {}
        s.repo_prefix = repo_prefix
        s._load()

    # ---- types
    def type(s, t):
        h = int(t) if not isinstance(t, int) else t
        r = s.types.get(h)
        if r is not None:
            return r
        r = Type()
        r.h = h
        s.types[h] = r
        k = TypeKind(t)
        r.kind = TK.get(k, "k%d" % k)
        if r.kind == "int":
            r.bits = IntWidth(t)
        elif r.kind == "array":
            r.elt = s.type(EltType(t))
            r.n = ArrLen(t)
        elif r.kind == "vector":
            r.elt = s.type(EltType(t))
            r.n = VecLen(t)
        elif r.kind == "struct":
            nm = StructName(t)
            r.name = nm.decode() if nm else None
            if r.name:
                r.name = re.sub(r"\.\d+$", "", r.name)
                r.name = re.sub(r"^(struct|union)\.", "", r.name)
            try:
                r.elts = [s.type(StructElt(t, i)) for i in range(StructN(t))]
                r.offs = [OffElt(s.dl, t, i) for i in range(len(r.elts))]
            except Exception:
                r.elts, r.offs = [], []
        if r.kind in ("int", "array", "vector", "struct", "ptr", "float", "double"):
            r.size = ABISize(s.dl, t)
        return r

    def _name(s, v):
        n = C.c_size_t()
        p = GetName(v, C.byref(n))
        return C.string_at(p, n.value).decode("utf-8", "replace") if n.value else ""

    def _dl(s, v):
        line = DLLine(v)
        n = C.c_uint()
        p = DLFile(v, C.byref(n))
        f = C.string_at(p, n.value).decode() if p and n.value else None
        d = None
        if f and not f.startswith("/"):
            p = DLDir(v, C.byref(n))
            d = C.string_at(p, n.value).decode() if p and n.value else None
            if d:
                f = os.path.join(d, f)
        return s.rel(f), line

    def rel(s, f):
        if f is None:
            return None
        f = os.path.normpath(f)
        if s.repo_prefix and f.startswith(s.repo_prefix):
            f = f[len(s.repo_prefix):].lstrip("/")
        return f

    def text(s, v):
        p = PrintV(v)
        r = C.string_at(p).decode("utf-8", "replace")
        DisposeMsg(p)
        return r

    # ---- constants / operands
    def val(s, v):
        h = int(v)
        r = s.vals.get(h)
        if r is not None:
            return r
        k = VK.get(ValKind(v), "k%d" % ValKind(v))
        ty = None
        if k == "cint":
            ty = s.type(TypeOf(v))
            if ty.bits <= 64:
                r = CInt(ConstS(v), ty.bits, ty)
            else:
                m = re.search(r"(-?\d+)\s*$", s.text(v))
                r = CInt(int(m.group(1)), ty.bits, ty)
        elif k == "cnull":
            r = CNull(s.type(TypeOf(v)))
        elif k in ("undef", "poison"):
            r = CUndef(s.type(TypeOf(v)))
        elif k == "cexpr":
            r = s._cexpr(v)
        elif k == "asm":
            r = Asm(s.text(v), s.type(TypeOf(v)))
        elif k == "func":
            r = s.funcs[s._name(v)]
        elif k == "gvar":
            g = s.globals[s._name(v)]
            r = GRef(g, 0, s.type(TypeOf(v)))
        elif k in ("czero", "cdarray", "carray", "cstruct", "cvector", "cdvector"):
            r = COther(s.type(TypeOf(v)), k)
            r.text = v
        else:
            r = COther(None if k in ("bb", "md") else s.type(TypeOf(v)), k)
        s.vals[h] = r
        return r

    def _cexpr(s, v):
        op = OPC.get(ConstOpcode(v), "?")
        ty = s.type(TypeOf(v))
        if op == "gep":
            base = s.val(Operand(v, 0))
            if isinstance(base, GRef):
                off, var = s._gep(v)
                if not var:
                    return GRef(base.g, base.off + off, ty)
            if isinstance(base, CNull) or (isinstance(base, COther) and base.kind == "nulloff"):
                off, var = s._gep(v)
                if not var:
                    o = COther(ty, "nulloff")
                    o.text = off + (base.text if isinstance(base, COther) else 0)
                    return o
        if op in ("bitcast", "addrspacecast"):
            return s.val(Operand(v, 0))
        if op == "ptrtoint":
            b = s.val(Operand(v, 0))
            if isinstance(b, COther) and b.kind == "nulloff":
                return CInt(b.text, ty.bits, ty)
        if op in ("add", "sub", "mul"):
            a, b = s.val(Operand(v, 0)), s.val(Operand(v, 1))
            if isinstance(a, CInt) and isinstance(b, CInt):
                return CInt({"add": a.v + b.v, "sub": a.v - b.v, "mul": a.v * b.v}[op], ty.bits, ty)
        o = COther(ty, "cexpr:" + op)
        o.text = s.text(v)
        return o

    def _gep(s, v):
        """(const byte offset, [(index value, scale)])"""
        t = s.type(GEPSrcTy(v))
        n = NumOps(v)
        off = 0
        var = []
        i0 = s.val(Operand(v, 1))
        if isinstance(i0, CInt):
            off += i0.v * t.size
        else:
            var.append((i0, t.size))
        for k in range(2, n):
            ix = s.val(Operand(v, k))
            if t.kind == "struct":
                off += t.offs[ix.v]
                t = t.elts[ix.v]
            else:
                t = t.elt
                if isinstance(ix, CInt):
                    off += ix.v * t.size
                else:
                    var.append((ix, t.size))
        return off, var

    def const_data(s, v, ty=None):
        """Global initialiser as nested python lists of ints / names."""
        k = VK.get(ValKind(v), "?")
        t = s.type(TypeOf(v))
        if k == "cint":
            return s.val(v).u
        if k == "czero":
            return s._zero(t)
        if k in ("carray", "cdarray", "cstruct", "cvector", "cdvector"):
            n = t.n if t.kind in ("array", "vector") else len(t.elts)
            return [s.const_data(AggElt(v, i)) for i in range(n)]
        if k == "cnull":
            return 0
        if k == "func":
            return "@" + s._name(v)
        if k == "gvar":
            return "&" + s._name(v)
        if k == "cexpr":
            x = s.val(v)
            return repr(x)
        return None

    def _zero(s, t):
        if t.kind in ("array", "vector"):
            return [s._zero(t.elt) for _ in range(t.n)]
        if t.kind == "struct":
            return [s._zero(e) for e in t.elts]
        return 0

    # ---- loading
    def _load(s):
        g = FirstGV(s.m)
        gl = []
        while g:
            o = GVar()
            o.name = s._name(g)
            o.const = bool(IsGlobalConst(g))
            o.internal = Linkage(g) in (8, 9)
            o.vty = s.type(GlobalValueType(g))
            o.size = o.vty.size
            s.globals[o.name] = o
            gl.append((g, o))
            g = NextGV(g)
        f = FirstFn(s.m)
        fl = []
        while f:
            o = Function()
            o.name = s._name(f)
            o.decl = bool(IsDeclaration(f))
            o.internal = Linkage(f) in (8, 9)
            o.ty = s.type(GlobalValueType(f))
            s.funcs[o.name] = o
            fl.append((f, o))
            f = NextFn(f)
        for g, o in gl:
            if not IsDeclaration(g):
                iv = Initializer(g)
                o.init = s.const_data(iv) if iv else None
        for f, o in fl:
            for i in range(CountParams(f)):
                p = GetParam(f, i)
                a = Arg(o, i, s._name(p) or "a%d" % i, s.type(TypeOf(p)))
                o.args.append(a)
                s.vals[int(p)] = a
            if not o.decl:
                s._body(f, o)
        del fl

    def _body(s, f, o):
        bbs = {}
        raw = []
        b = FirstBB(f)
        while b:
            B = Block()
            B.fn = o
            B.name = s._name(BBAsV(b))
            B.insts = []
            B.idx = len(o.blocks)
            B.preds = []
            o.blocks.append(B)
            bbs[int(b)] = B
            i = FirstI(b)
            while i:
                I = Inst()
                I.op = OPC.get(Opcode(i), "op%d" % Opcode(i))
                I.ty = s.type(TypeOf(i))
                I.blk = B
                I.idx = len(B.insts)
                I.id = len(raw)
                I.name = s._name(i)
                I.uses = []
                I.pred = I.inc = I.srcty = I.gepconst = I.gepvar = I.callee = I.args = I.aty = I.succs = None
                I.cases = I.indices = I.extra = None
                I.volatile = False
                I.lib = int(i)
                I.file, I.line = s._dl(i)
                s.vals[int(i)] = I
                raw.append((i, I))
                B.insts.append(I)
                i = NextI(i)
            b = NextBB(b)
        for i, I in raw:
            op = I.op
            if op == "br" or op == "switch":
                I.succs = [bbs[int(Succ(i, k))] for k in range(NumSucc(i))]
                I.ops = []
                if op == "br":
                    if NumOps(i) == 3:
                        I.ops = [s.val(Operand(i, 0))]
                        # LLVM stores (cond, false, true); GetSuccessor gives true,false order
                else:
                    I.ops = [s.val(Operand(i, 0))]
                    I.cases = []
                    for k in range(1, NumSucc(i)):
                        cv = s.val(Operand(i, 2 * k))
                        I.cases.append((cv, I.succs[k]))
            elif op == "phi":
                I.inc = [(s.val(IncVal(i, k)), bbs[int(IncBB(i, k))]) for k in range(CountInc(i))]
                I.ops = [v for v, _ in I.inc]
            elif op == "call":
                I.callee = s.val(CalledV(i))
                I.args = [s.val(Operand(i, k)) for k in range(NumArgOps(i))]
                I.ops = list(I.args)
                if not isinstance(I.callee, (Function, Asm)):
                    I.ops = I.ops + [I.callee]
            else:
                I.ops = [s.val(Operand(i, k)) for k in range(NumOps(i))]
            if op == "icmp":
                I.pred = PRED[ICmpPred(i)]
            elif op == "gep":
                I.gepconst, I.gepvar = s._gep(i)
                I.srcty = s.type(GEPSrcTy(i))
            elif op == "alloca":
                I.aty = s.type(AllocTy(i))
            elif op in ("load", "store"):
                I.volatile = bool(IsVolatile(i))
            elif op in ("extractvalue", "insertvalue"):
                p = GetIdx(i)
                I.indices = [p[k] for k in range(NumIdx(i))]
            for v in I.ops:
                if isinstance(v, (Inst, Arg)):
                    v.uses.append(I)
        for B in o.blocks:
            t = B.insts[-1]
            B.succs = list(t.succs or [])
            for x in B.succs:
                if B not in x.preds:
                    x.preds.append(B)
        for B in o.blocks:
            for I in B.insts:
                if I.line:
                    o.file, o.line = o.file or I.file, o.line or I.line
                    break
