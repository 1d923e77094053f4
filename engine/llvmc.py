"""Minimal ctypes view of the LLVM-C API (libLLVM-18): load, link, annotate, run passes,
and read a module's functions into plain Python objects."""
import ctypes as C
import re, subprocess
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_size_t, c_ulonglong, c_longlong, POINTER, byref

L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so")
P = c_void_p
def _f(name, res, *args):
    fn = getattr(L, name); fn.restype = res; fn.argtypes = list(args); return fn

ctx_create = _f("LLVMContextCreate", P)
membuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", c_int, c_char_p, POINTER(P), POINTER(P))
parse_bc = _f("LLVMParseBitcodeInContext2", c_int, P, P, POINTER(P))
link = _f("LLVMLinkModules2", c_int, P, P)
first_fn = _f("LLVMGetFirstFunction", P, P); next_fn = _f("LLVMGetNextFunction", P, P)
first_gv = _f("LLVMGetFirstGlobal", P, P); next_gv = _f("LLVMGetNextGlobal", P, P)
first_al = _f("LLVMGetFirstGlobalAlias", P, P); next_al = _f("LLVMGetNextGlobalAlias", P, P)
aliasee = _f("LLVMAliasGetAliasee", P, P)
gv_init = _f("LLVMGetInitializer", P, P)
is_gconst = _f("LLVMIsGlobalConstant", c_int, P)
vname = _f("LLVMGetValueName2", P, P, POINTER(c_size_t))
is_decl = _f("LLVMIsDeclaration", c_int, P)
get_linkage = _f("LLVMGetLinkage", c_int, P); set_linkage = _f("LLVMSetLinkage", None, P, c_int)
attr_kind = _f("LLVMGetEnumAttributeKindForName", c_uint, c_char_p, c_size_t)
mk_attr = _f("LLVMCreateEnumAttribute", P, P, c_uint, c_ulonglong)
add_attr = _f("LLVMAddAttributeAtIndex", None, P, c_uint, P)
rm_attr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, c_uint, c_uint)
run_passes = _f("LLVMRunPasses", P, P, c_char_p, P, P)
err_msg = _f("LLVMGetErrorMessage", P, P)
pb_opts = _f("LLVMCreatePassBuilderOptions", P)
first_bb = _f("LLVMGetFirstBasicBlock", P, P); next_bb = _f("LLVMGetNextBasicBlock", P, P)
first_in = _f("LLVMGetFirstInstruction", P, P); next_in = _f("LLVMGetNextInstruction", P, P)
opcode = _f("LLVMGetInstructionOpcode", c_int, P)
num_ops = _f("LLVMGetNumOperands", c_int, P); get_op = _f("LLVMGetOperand", P, P, c_uint)
vkind = _f("LLVMGetValueKind", c_int, P)
typeof = _f("LLVMTypeOf", P, P)
tkind = _f("LLVMGetTypeKind", c_int, P)
twidth = _f("LLVMGetIntTypeWidth", c_uint, P)
tstr = _f("LLVMPrintTypeToString", P, P)
vstr = _f("LLVMPrintValueToString", P, P)
dispose = _f("LLVMDisposeMessage", None, P)
icmp_pred = _f("LLVMGetICmpPredicate", c_int, P)
called = _f("LLVMGetCalledValue", P, P)
nargs = _f("LLVMGetNumArgOperands", c_uint, P)
phi_n = _f("LLVMCountIncoming", c_uint, P); phi_v = _f("LLVMGetIncomingValue", P, P, c_uint); phi_b = _f("LLVMGetIncomingBlock", P, P, c_uint)
n_succ = _f("LLVMGetNumSuccessors", c_uint, P); get_succ = _f("LLVMGetSuccessor", P, P, c_uint)
term = _f("LLVMGetBasicBlockTerminator", P, P)
nparams = _f("LLVMCountParams", c_uint, P); get_param = _f("LLVMGetParam", P, P, c_uint)
ci_z = _f("LLVMConstIntGetZExtValue", c_ulonglong, P)
gep_src = _f("LLVMGetGEPSourceElementType", P, P)
alloc_ty = _f("LLVMGetAllocatedType", P, P)
dl_of = _f("LLVMGetModuleDataLayout", P, P)
abisize = _f("LLVMABISizeOfType", c_ulonglong, P, P)
storesize = _f("LLVMStoreSizeOfType", c_ulonglong, P, P)
elt_off = _f("LLVMOffsetOfElement", c_ulonglong, P, P, c_uint)
struct_el = _f("LLVMStructGetTypeAtIndex", P, P, c_uint)
n_struct = _f("LLVMCountStructElementTypes", c_uint, P)
elem_ty = _f("LLVMGetElementType", P, P)
arr_len = _f("LLVMGetArrayLength2", c_ulonglong, P)
n_idx = _f("LLVMGetNumIndices", c_uint, P); get_idx = _f("LLVMGetIndices", POINTER(c_uint), P)
rmw_op = _f("LLVMGetAtomicRMWBinOp", c_int, P)
ordering = _f("LLVMGetOrdering", c_int, P)
cx_succ = _f("LLVMGetCmpXchgSuccessOrdering", c_int, P)
is_volatile = _f("LLVMGetVolatile", c_int, P)
dl_line = _f("LLVMGetDebugLocLine", c_uint, P)
dl_file = _f("LLVMGetDebugLocFilename", P, P, POINTER(c_uint))
const_opcode = _f("LLVMGetConstOpcode", c_int, P)
is_cstr = _f("LLVMIsConstantString", c_int, P); as_str = _f("LLVMGetAsString", P, P, POINTER(c_size_t))
cds_el = _f("LLVMGetAggregateElement", P, P, c_uint)
gval_ty = _f("LLVMGlobalGetValueType", P, P)
ret_ty = _f("LLVMGetReturnType", P, P)
is_vararg = _f("LLVMIsFunctionVarArg", c_int, P)
rauw = _f("LLVMReplaceAllUsesWith", None, P, P)
erase_global = _f("LLVMDeleteGlobal", None, P)
is_fn_val = _f("LLVMIsAFunction", P, P)
print_mod = _f("LLVMPrintModuleToFile", c_int, P, c_char_p, POINTER(P))

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",8:"add",9:"fadd",10:"sub",11:"fsub",12:"mul",13:"fmul",
14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",23:"and",24:"or",25:"xor",26:"alloca",
27:"load",28:"store",29:"gep",30:"trunc",31:"zext",32:"sext",33:"fptoui",34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",
39:"ptrtoint",40:"inttoptr",41:"bitcast",42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",49:"vaarg",50:"extractelement",51:"insertelement",
52:"shufflevector",53:"extractvalue",54:"insertvalue",55:"fence",56:"cmpxchg",57:"atomicrmw",58:"resume",59:"landingpad",60:"addrspacecast",66:"fneg",67:"callbr",68:"freeze"}
PRED = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
RMW = {0:"xchg",1:"add",2:"sub",3:"and",4:"nand",5:"or",6:"xor",7:"max",8:"min",9:"umax",10:"umin"}
# LLVMValueKind (18)
VK = {0:"arg",1:"bb",2:"memuse",5:"function",6:"alias",7:"ifunc",8:"gvar",9:"blockaddr",10:"cexpr",11:"carray",12:"cstruct",13:"cvector",
14:"undef",15:"caggzero",16:"cdarray",17:"cdvector",18:"cint",19:"cfp",20:"cnull",21:"ctoken",22:"metadata",23:"inlineasm",24:"instr",25:"poison"}

def _s(p, n=None):
    return C.string_at(p, -1 if n is None else n).decode("utf-8", "replace") if p else ""
def _name(v):
    n = c_size_t(); p = vname(v, byref(n)); return _s(p, n.value)
def _disp(p):
    s = _s(p); dispose(p); return s

_dem = {}
def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if names:
        out = subprocess.run(["llvm-cxxfilt-18"] if False else ["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        for n, o in zip(names, out):
            _dem[n] = o
def demangle(n):
    if n not in _dem:
        demangle_all([n])
    return _dem[n]

# ---------------------------------------------------------------- operands
class Const:
    __slots__ = ("v", "w")
    def __init__(s, v, w): s.v, s.w = v, w
    def __repr__(s): return f"{s.v}:i{s.w}"
    @property
    def s(self): return self.v - (1 << self.w) if self.v >> (self.w - 1) else self.v
class Null:
    def __repr__(s): return "null"
class Undef:
    def __repr__(s): return "undef"
class Glob:
    __slots__ = ("name", "off")
    def __init__(s, name, off=0): s.name, s.off = name, off
    def __repr__(s): return f"@{s.name}" + (f"+{s.off}" if s.off else "")
class Agg:
    __slots__ = ("els",)
    def __init__(s, els): s.els = els
    def __repr__(s): return f"agg{s.els}"
class Opaque:
    __slots__ = ("text",)
    def __init__(s, t): s.text = t
    def __repr__(s): return f"?{s.text}"
class Arg:
    __slots__ = ("i", "name", "ty")
    def __init__(s, i, name, ty): s.i, s.name, s.ty = i, name, ty
    def __repr__(s): return f"%arg{s.i}"

class Instr:
    __slots__ = ("op", "ty", "w", "ops", "pred", "callee", "idx", "bb", "id", "line", "file", "gep", "extra", "blocks", "size")
    def __repr__(s):
        return f"%{s.id}={s.op}{'.'+s.pred if s.pred else ''}{' '+str(s.callee) if s.op=='call' else ''} {[('%'+str(o.id) if isinstance(o, Instr) else o) for o in s.ops]}"
    def loc(s):
        return f"{s.file}:{s.line}" if s.line else "?"

class Block:
    __slots__ = ("id", "ins", "succ", "preds", "fn")
class Function:
    __slots__ = ("name", "dname", "args", "blocks", "ret", "vararg", "mod")
    def __repr__(s): return f"<fn {s.dname}>"
    def instrs(s):
        for b in s.blocks:
            yield from b.ins

class Module:
    def __init__(self, paths):
        self.ctx = ctx_create()
        self.m = None
        for p in paths:
            buf, msg = P(), P()
            if membuf(p.encode(), byref(buf), byref(msg)):
                raise RuntimeError(_s(msg.value))
            m = P()
            if parse_bc(self.ctx, buf, byref(m)):
                raise RuntimeError("bitcode parse: " + p)
            if self.m is None:
                self.m = m
                self._strong = set()
                self._note(m)
            else:
                self._note(m)
                if link(self.m, m):
                    raise RuntimeError("link failed: " + p)
        self.td = dl_of(self.m)
        self._fn = {}
        self.refresh()
    def _note(self, m):
        """header functions that are not inline are strong in every unit; the real link
        allows that (--allow-multiple-definition), so the first one is kept here too"""
        f = first_fn(m)
        while f:
            if not is_decl(f) and get_linkage(f) == 0:
                n = _name(f)
                if n in self._strong: set_linkage(f, 3)
                self._strong.add(n)
            f = next_fn(f)
    def refresh(self):
        self.fns = {}
        f = first_fn(self.m)
        while f:
            self.fns[_name(f)] = f
            f = next_fn(f)
        self.gvs = {}
        g = first_gv(self.m)
        while g:
            self.gvs[_name(g)] = g
            g = next_gv(g)
        demangle_all(list(self.fns))
    def dnames(self):
        return {n: demangle(n) for n in self.fns}
    def defined(self):
        return [n for n, f in self.fns.items() if not is_decl(f)]
    def aliases(self):
        out = {}
        a = first_al(self.m)
        while a:
            out[_name(a)] = _name(aliasee(a))
            a = next_al(a)
        return out
    def resolve_aliases(self):
        """constructor/destructor aliases (C1 = C2) are replaced by what they name"""
        a = first_al(self.m)
        while a:
            nx = next_al(a)
            t = aliasee(a)
            if is_fn_val(t):
                rauw(a, t)
            a = nx
    def attr(self, name, kind, on=True):
        f = self.fns[name]
        k = attr_kind(kind.encode(), len(kind))
        if on: add_attr(f, 0xFFFFFFFF, mk_attr(self.ctx, k, 0))
        else: rm_attr(f, 0xFFFFFFFF, k)
    def passes(self, pipeline):
        e = run_passes(self.m, pipeline.encode(), None, pb_opts())
        if e:
            raise RuntimeError("passes: " + _s(err_msg(e)))
        self._fn = {}
        self.refresh()
    def dump(self, path):
        e = P(); print_mod(self.m, path.encode(), byref(e))
    # -- initialisers
    def global_init(self, name):
        g = self.gvs.get(name)
        if not g or is_decl(g): return None
        i = gv_init(g)
        return self._operand(i, None) if i else None
    def global_bytes(self, name, mutable=False):
        """initial contents of a constant global as a list of bytes (None: not a plain number)"""
        g = self.gvs.get(name)
        if not g or is_decl(g) or not (mutable or is_gconst(g)): return None
        out = [None] * abisize(self.td, gval_ty(g))
        def go(v, o):
            t = typeof(v); k = VK.get(vkind(v)); n = abisize(self.td, t)
            if k in ("caggzero", "cnull"):
                for i in range(n): out[o + i] = 0
            elif k == "cint":
                x = ci_z(v)
                for i in range(n): out[o + i] = (x >> (8 * i)) & 255
            elif k == "cstruct":
                for i in range(n_struct(t)): go(cds_el(v, i), o + elt_off(self.td, t, i))
            elif k in ("carray", "cdarray"):
                e = abisize(self.td, elem_ty(t))
                for i in range(arr_len(t)): go(cds_el(v, i), o + i * e)
        go(gv_init(g), 0)
        return out
    def global_is_const(self, name):
        g = self.gvs.get(name)
        return bool(g) and bool(is_gconst(g))
    def cstring(self, op):
        """C string a constant operand points at, or None"""
        if isinstance(op, Glob):
            g = self.gvs.get(op.name)
            if g and not is_decl(g) and is_gconst(g):
                i = gv_init(g)
                if VK.get(vkind(i)) == "caggzero": return ""
                if is_cstr(i):
                    n = c_size_t(); p = as_str(i, byref(n))
                    return C.string_at(p, n.value)[op.off:].split(b"\0")[0].decode("latin1")
        return None
    # -- reading
    def _operand(self, v, fnmap):
        k = VK.get(vkind(v))
        if k == "instr" or k == "arg":
            return fnmap[v]
        if k == "cint":
            w = twidth(typeof(v))
            if w > 64: return Opaque(_disp(vstr(v)))
            return Const(ci_z(v), w)
        if k == "cnull": return Null()
        if k in ("undef", "poison"): return Undef()
        if k in ("function", "gvar", "alias"): return Glob(_name(v))
        if k == "cexpr":
            o = OPC.get(const_opcode(v))
            if o == "gep":
                base = self._operand(get_op(v, 0), fnmap)
                c, var = self._gep(v, fnmap)
                if isinstance(base, Glob) and not var: return Glob(base.name, base.off + c)
            elif o in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
                return self._operand(get_op(v, 0), fnmap)
            return Opaque(_disp(vstr(v)))
        if k in ("cstruct", "carray"):
            return Agg([self._operand(get_op(v, i), fnmap) for i in range(num_ops(v))])
        if k == "caggzero":
            t = typeof(v)
            n = n_struct(t) if tkind(t) == 10 else (arr_len(t) if tkind(t) == 11 else 0)
            return Agg([self._operand(cds_el(v, i), fnmap) for i in range(min(n, 4096))])
        if k == "cdarray":
            n = arr_len(typeof(v))
            return Agg([self._operand(cds_el(v, i), fnmap) for i in range(min(n, 65536))])
        if k == "cfp": return Opaque("fp" + _disp(vstr(v)))
        return Opaque(f"{k}:{_disp(vstr(v))[:80]}")
    def _gep(self, v, fnmap):
        """constant offset and [(operand, scale)] of a GEP"""
        t = gep_src(v); c = 0; var = []
        for i in range(1, num_ops(v)):
            ov = get_op(v, i)
            o = self._operand(ov, fnmap)
            if i == 1:
                sz = abisize(self.td, t)
                if isinstance(o, Const): c += o.s * sz
                else: var.append((o, sz))
                continue
            k = tkind(t)
            if k == 10:  # struct
                c += elt_off(self.td, t, o.v); t = struct_el(t, o.v)
            else:
                t = elem_ty(t); sz = abisize(self.td, t)
                if isinstance(o, Const): c += o.s * sz
                else: var.append((o, sz))
        return c, var
    def fn(self, name):
        if name in self._fn: return self._fn[name]
        f = self.fns[name]
        F = Function(); F.name, F.dname, F.mod = name, demangle(name), self
        ft = gval_ty(f); F.ret = _disp(tstr(ret_ty(ft))); F.vararg = bool(is_vararg(ft))
        m = {}; F.args = []
        for i in range(nparams(f)):
            a = get_param(f, i)
            A = Arg(i, _name(a), _disp(tstr(typeof(a)))); m[a] = A; F.args.append(A)
        F.blocks = []; bm = {}; pend = []
        bb = first_bb(f); cnt = 0
        while bb:
            B = Block(); B.id = len(F.blocks); B.ins = []; B.succ = []; B.preds = []; B.fn = F
            bm[bb] = B; F.blocks.append(B)
            i = first_in(bb)
            while i:
                I = Instr(); I.id = cnt; cnt += 1; I.bb = B; m[i] = I; B.ins.append(I); pend.append((i, I))
                i = next_in(i)
            bb = next_bb(bb)
        for i, I in pend:
            I.op = OPC.get(opcode(i), "op%d" % opcode(i)); I.pred = None; I.callee = None; I.idx = None; I.gep = None; I.extra = None; I.blocks = None; I.size = None
            t = typeof(i); tk = tkind(t)
            I.w = twidth(t) if tk == 8 else (64 if tk == 12 else 0)
            I.ty = _disp(tstr(t))
            I.line = dl_line(i); n = c_uint(); fp = dl_file(i, byref(n)); I.file = _s(fp, n.value) if fp else ""
            if I.op == "phi":
                I.ops = [self._operand(phi_v(i, k), m) for k in range(phi_n(i))]
                I.blocks = [bm[phi_b(i, k)] for k in range(phi_n(i))]
            elif I.op in ("br", "switch"):
                I.blocks = [bm[get_succ(i, k)] for k in range(n_succ(i))]
                if I.op == "br":
                    I.ops = [self._operand(get_op(i, 0), m)] if num_ops(i) == 3 else []
                else:
                    # successors: default first, then cases
                    I.ops = [self._operand(get_op(i, 0), m)]
                    I.extra = [self._operand(get_op(i, 2 + 2 * k), m) for k in range((num_ops(i) - 2) // 2)]
            elif I.op == "call":
                cv = called(i); k = VK.get(vkind(cv))
                I.callee = _name(cv) if k in ("function", "alias") else None
                I.ops = [self._operand(get_op(i, k2), m) for k2 in range(nargs(i))]
                if I.callee is None:
                    I.extra = self._operand(cv, m) if k != "inlineasm" else Opaque("asm")
            else:
                I.ops = [self._operand(get_op(i, k), m) for k in range(num_ops(i))]
                if I.op == "icmp": I.pred = PRED[icmp_pred(i)]
                elif I.op == "gep": I.gep = self._gep(i, m)
                elif I.op in ("extractvalue", "insertvalue"): I.idx = [get_idx(i)[k] for k in range(n_idx(i))]
                elif I.op == "atomicrmw": I.pred = RMW.get(rmw_op(i), "?"); I.extra = ordering(i); I.size = storesize(self.td, typeof(get_op(i, 1)))
                elif I.op == "cmpxchg": I.extra = cx_succ(i); I.size = storesize(self.td, typeof(get_op(i, 1)))
                elif I.op == "load": I.extra = ordering(i); I.size = storesize(self.td, t)
                elif I.op == "store": I.extra = ordering(i); I.size = storesize(self.td, typeof(get_op(i, 0)))
                elif I.op == "alloca": I.size = abisize(self.td, alloc_ty(i)); I.extra = _disp(tstr(alloc_ty(i)))
        for B in F.blocks:
            t = B.ins[-1]
            B.succ = list(t.blocks) if t.blocks else []
            for s in B.succ: s.preds.append(B)
        self._fn[name] = F
        return F
