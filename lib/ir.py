"""Front end: compiles /repo's C sources to LLVM IR, links them into one module, inlines
helpers, promotes locals to SSA and exposes the result as plain Python objects.

Everything is decided on this resolved program; nothing is executed.
"""
import ctypes as C
import glob
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
CFLAGS = ["-I%s/include" % REPO, "-I%s/src" % REPO, "-std=gnu11", "-w"]


class AnalysisBroken(Exception):
    """The analysis lost its footing (an anchor vanished, the code did not parse...)."""


# ------------------------------------------------------------------ LLVM-C binding
_lib = None


def lib():
    global _lib
    if _lib is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
                  "/usr/lib/llvm-18/lib/libLLVM.so.1", "libLLVM-18.so"):
            try:
                _lib = C.CDLL(p)
                break
            except OSError:
                continue
        if _lib is None:
            raise AnalysisBroken("libLLVM-18 not found")
        _lib = Binder(_lib)
    return _lib


class Binder:
    """Gives every LLVM-C function pointer-sized results unless listed below."""
    INT = {"LLVMGetInstructionOpcode", "LLVMGetNumOperands", "LLVMGetICmpPredicate", "LLVMGetFCmpPredicate", "LLVMGetTypeKind",
           "LLVMGetIntTypeWidth", "LLVMGetNumSuccessors", "LLVMIsConditional", "LLVMCountIncoming",
           "LLVMGetNumIndices", "LLVMGetConstOpcode", "LLVMDILocationGetLine", "LLVMCountParams", "LLVMGetLinkage",
           "LLVMIsDeclaration", "LLVMGetValueKind", "LLVMIsNull", "LLVMIsConstant", "LLVMIsGlobalConstant",
           "LLVMIsThreadLocal", "LLVMIsVolatile", "LLVMCountStructElementTypes", "LLVMGetArrayLength2",
           "LLVMDISubprogramGetLine", "LLVMGetFCmpPredicate", "LLVMIsExternallyInitialized",
           "LLVMIsFunctionVarArg", "LLVMIsUndef", "LLVMIsPoison", "LLVMGetNumArgOperands", "LLVMIsOpaqueStruct",
           "LLVMGetCmpXchgSuccessOrdering", "LLVMGetDebugLocLine"}
    STR = {"LLVMGetStructName", "LLVMGetTarget", "LLVMPrintValueToString", "LLVMPrintTypeToString"}

    def __init__(self, so):
        self.so = so

    def __getattr__(self, name):
        f = getattr(self.so, name)
        if name in self.INT:
            f.restype = C.c_int
        elif name in self.STR:
            f.restype = C.c_char_p
        elif name == "LLVMConstIntGetSExtValue":
            f.restype = C.c_longlong
        elif name in ("LLVMABISizeOfType", "LLVMOffsetOfElement", "LLVMStoreSizeOfType", "LLVMSizeOfTypeInBits"):
            f.restype = C.c_ulonglong
        else:
            f.restype = C.c_void_p
        f.argtypes = None

        def call(*a):
            return f(*[C.c_void_p(x) if isinstance(x, int) and x > 0xffffffff else x for x in a])
        setattr(self, name, call)
        return call


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 11: "fsub",
       12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl",
       21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 49: "va_arg", 50: "extractelement", 53: "extractvalue", 54: "insertvalue",
       60: "addrspacecast", 66: "fneg", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}


class Ins:
    __slots__ = ("id", "op", "ty", "size", "ops", "pred", "gep", "name", "loc", "chain", "block", "fn", "idx",
                 "callee", "incoming", "cases", "srcty", "vol", "fmeta")

    def __repr__(self):
        return "<%s %s #%d %s>" % (self.fn.name, self.op, self.id, self.where())

    def where(self):
        """file:line of the construct as written (innermost inlined position)."""
        return "%s:%d" % (self.loc[0], self.loc[1]) if self.loc else "?"

    def where_chain(self):
        return " <- ".join("%s:%d(%s)" % c for c in self.chain) if self.chain else self.where()


class Block:
    __slots__ = ("idx", "ins", "succ", "preds", "name")


class Fn:
    __slots__ = ("name", "params", "ptypes", "blocks", "internal", "file", "line", "ret", "vararg", "pnames", "nins")


class Global:
    __slots__ = ("name", "const", "internal", "ty", "init", "decl", "tls", "size", "file")


# type representation: ('i',bits) ('p',) ('s',name) ('a',n,ty) ('f',) ('v',) ('o',str)
class Module:
    def __init__(self):
        self.fns = {}
        self.globals = {}
        self.decls = {}
        self.structs = {}  # name -> list of (offset, type)
        self.size = {}


def _tystr(L, M, t, cache, mod):
    r = cache.get(t)
    if r is not None:
        return r
    k = L.LLVMGetTypeKind(t)
    if k == 8:
        r = ("i", L.LLVMGetIntTypeWidth(t))
    elif k == 12:
        r = ("p",)
    elif k == 10:
        nm = L.LLVMGetStructName(t)
        if nm:
            r = ("s", nm.decode())
        else:
            r = ("s", "anon:" + L.LLVMPrintTypeToString(t).decode())
        cache[t] = r
        if not L.LLVMIsOpaqueStruct(t):
            n = L.LLVMCountStructElementTypes(t)
            mod.size[r] = L.LLVMABISizeOfType(M, t)
            mod.structs[r[1]] = [(L.LLVMOffsetOfElement(M, t, i),
                                  _tystr(L, M, L.LLVMStructGetTypeAtIndex(t, i), cache, mod)) for i in range(n)]
        return r
    elif k == 11:
        r = ("a", L.LLVMGetArrayLength2(t), _tystr(L, M, L.LLVMGetElementType(t), cache, mod))
    elif k in (2, 3, 4, 5, 6, 1):
        r = ("f", k)
    elif k == 0:
        r = ("v",)
    else:
        r = ("o", k)
    cache[t] = r
    return r


def compile_tus(srcs, tmp, extra=()):
    def one(s):
        out = os.path.join(tmp, os.path.basename(s)[:-2] + ".bc")
        p = subprocess.run(["clang", *CFLAGS, *extra, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                            "-g", "-c", "-emit-llvm", s, "-o", out], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken("cannot compile %s: %s" % (s, p.stderr[:2000]))
        return out
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


def sources():
    r = []
    for f in sorted(glob.glob(REPO + "/src/*.c")):
        b = os.path.basename(f)
        if b.endswith("_test.c") or b.endswith(".dummy.c") or "checkmk" in b or b.startswith("_meta") \
                or b.endswith(".test.c") or b.endswith(".reflect.c") or b == "_module.c":
            continue
        r.append(f)
    if len(r) < 8:
        raise AnalysisBroken("only %d library sources found under %s/src" % (len(r), REPO))
    return r


def load_module(inline=None, srcs=None, extra=(), passes="sroa"):
    """Reads every translation unit.  Static helpers are inlined inside their unit by LLVM, functions of
    other units by inline_calls() below; inline: predicate(name, internal, info) -> bool,
    info has 'vararg', 'recursive', 'size'."""
    L = lib()
    so = L.so
    mod = Module()
    mod.inlined = set()
    mod.cg = {}
    mod.infos = {}
    srcs = srcs or sources()
    units = []
    with tempfile.TemporaryDirectory(prefix="vir") as tmp:
        for bc in compile_tus(srcs, tmp, extra):
            buf = C.c_void_p()
            msg = C.c_char_p()
            if so.LLVMCreateMemoryBufferWithContentsOfFile(bc.encode(), C.byref(buf), C.byref(msg)):
                raise AnalysisBroken("cannot read bitcode")
            ctx = L.LLVMContextCreate()
            m = C.c_void_p()
            if so.LLVMParseBitcodeInContext2(C.c_void_p(ctx), buf, C.byref(m)):
                raise AnalysisBroken("cannot parse bitcode")
            units.append((ctx, m.value, os.path.basename(bc)[:-3]))
    so.LLVMGetEnumAttributeKindForName.restype = C.c_uint

    def kind(s):
        return so.LLVMGetEnumAttributeKindForName(s.encode(), C.c_size_t(len(s)))
    k_noinline, k_always, k_optnone = kind("noinline"), kind("alwaysinline"), kind("optnone")
    FIDX = C.c_uint(0xffffffff)

    def rawname(v):
        ln = C.c_size_t()
        so.LLVMGetValueName2.restype = C.c_char_p
        return so.LLVMGetValueName2(C.c_void_p(v), C.byref(ln)).decode()

    # names of internal symbols are made unique per unit when they clash
    owner = {}
    clash = set()
    info_of = []
    for ctx, m, u in units:
        for first, nxt in (("LLVMGetFirstFunction", "LLVMGetNextFunction"), ("LLVMGetFirstGlobal", "LLVMGetNextGlobal")):
            f = getattr(L, first)(m)
            while f:
                if not L.LLVMIsDeclaration(f):
                    n = rawname(f)
                    if n in owner and owner[n] != u:
                        clash.add(n)
                    owner[n] = u
                f = getattr(L, nxt)(f)

    def namer(u):
        def vname(v):
            n = rawname(v)
            if n in clash or n.startswith(".str") or n.startswith("__"):
                k = L.LLVMGetValueKind(v)
                if k in (5, 8) and not L.LLVMIsDeclaration(v):
                    return n + "@" + u
            return n
        return vname
    size, vararg, internal, void = {}, {}, {}, {}
    for ctx, m, u in units:
        vname = namer(u)
        f = L.LLVMGetFirstFunction(m)
        while f:
            nm = vname(f)
            if not L.LLVMIsDeclaration(f):
                n = 0
                cg = mod.cg.setdefault(nm, set())
                b = L.LLVMGetFirstBasicBlock(f)
                while b:
                    i = L.LLVMGetFirstInstruction(b)
                    while i:
                        n += 1
                        if L.LLVMGetInstructionOpcode(i) == 45:
                            cv = L.LLVMGetCalledValue(i)
                            if L.LLVMGetValueKind(cv) == 5:
                                cg.add(vname(cv))
                        i = L.LLVMGetNextInstruction(i)
                    b = L.LLVMGetNextBasicBlock(b)
                size[nm] = n
                vararg[nm] = bool(L.LLVMIsFunctionVarArg(L.LLVMGlobalGetValueType(f)))
                internal[nm] = L.LLVMGetLinkage(f) in (8, 9)
                void[nm] = L.LLVMGetTypeKind(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f))) == 0
            f = L.LLVMGetNextFunction(f)

    def reaches(a, t):
        seen, st = set(), [a]
        while st:
            x = st.pop()
            for y in mod.cg.get(x, ()):
                if y == t:
                    return True
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return False
    for nm in size:
        info = {"vararg": vararg[nm], "recursive": reaches(nm, nm), "size": size[nm], "void": void[nm]}
        mod.infos[nm] = info
        if inline and not info["recursive"] and not info["vararg"] and inline(nm, internal[nm], info):
            mod.inlined.add(nm)
    so.LLVMCreateEnumAttribute.restype = C.c_void_p
    so.LLVMRunPasses.restype = C.c_void_p
    for ctx, m, u in units:
        vname = namer(u)
        f = L.LLVMGetFirstFunction(m)
        while f:
            if not L.LLVMIsDeclaration(f):
                so.LLVMRemoveEnumAttributeAtIndex(C.c_void_p(f), FIDX, k_noinline)
                so.LLVMRemoveEnumAttributeAtIndex(C.c_void_p(f), FIDX, k_optnone)
                if vname(f) in mod.inlined:
                    at = so.LLVMCreateEnumAttribute(C.c_void_p(ctx), k_always, C.c_uint64(0))
                    so.LLVMAddAttributeAtIndex(C.c_void_p(f), FIDX, C.c_void_p(at))
            f = L.LLVMGetNextFunction(f)
        opts = L.LLVMCreatePassBuilderOptions()
        ps = "function(sroa),always-inline,function(%s)" % passes
        if so.LLVMRunPasses(C.c_void_p(m), ps.encode(), None, C.c_void_p(opts)):
            raise AnalysisBroken("LLVM passes failed")
        _read(L, so, m, vname, mod)
    inline_calls(mod)
    return mod


def inline_calls(mod):
    """splice callees of other units into their callers (bottom up)"""
    done = set()

    def visit(nm):
        if nm in done:
            return
        done.add(nm)
        fn = mod.fns[nm]
        todo = [i for b in fn.blocks for i in b.ins if i.op == "call" and i.callee in mod.inlined and i.callee in mod.fns
                and i.callee != nm]
        for i in todo:
            visit(i.callee)
        if todo:
            _splice(mod, fn, todo)
    for nm in sorted(mod.fns):
        visit(nm)


def _splice(mod, fn, calls):
    nid = 1 + max(i.id for b in fn.blocks for i in b.ins)
    blocks = list(fn.blocks)
    key = {b.idx: b for b in blocks}
    # temporary: successors/incoming by Block object
    succ = {id(b): [key[s] for s in b.succ] for b in blocks}
    inc = {}
    for b in blocks:
        for i in b.ins:
            if i.op == "phi":
                inc[id(i)] = [(key[p], v) for p, v in i.incoming]
    home = {}
    for b in blocks:
        for i in b.ins:
            home[id(i)] = b

    def mapop(o, off, args):
        if not isinstance(o, tuple) or not o:
            return o
        if o[0] == "i" and len(o) == 2 and isinstance(o[1], int):
            return ("i", o[1] + off)
        if o[0] == "a" and len(o) == 2:
            return args[o[1]] if o[1] < len(args) else ("undef",)
        if o[0] in ("cg", "ce", "agg"):
            return tuple(mapop(x, off, args) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in o)
        return o
    out = []
    for call in calls:
        B = home[id(call)]
        cal = mod.fns[call.callee]
        pos = B.ins.index(call)
        rest = Block()
        rest.name, rest.idx, rest.preds = B.name + "'", -1, []
        rest.ins = B.ins[pos + 1:]
        succ[id(rest)] = succ[id(B)]
        for i in rest.ins:
            home[id(i)] = rest
        # phis that came from B now come from rest
        for s in succ[id(B)]:
            for i in s.ins:
                if i.op == "phi":
                    inc[id(i)] = [(rest if p is B else p, v) for p, v in inc[id(i)]]
        B.ins = B.ins[:pos]
        off = nid
        args = call.ops
        nb = {}
        for cb in cal.blocks:
            n = Block()
            n.name, n.idx, n.preds, n.ins, n.succ = cb.name, -1, [], [], []
            nb[cb.idx] = n
        rets = []
        mx = 0
        for cb in cal.blocks:
            n = nb[cb.idx]
            succ[id(n)] = [nb[s] for s in cb.succ]
            for i in cb.ins:
                c = Ins()
                for sl in Ins.__slots__:
                    if hasattr(i, sl):
                        setattr(c, sl, getattr(i, sl))
                c.fn = fn
                c.id = i.id + off
                mx = max(mx, i.id)
                c.chain = (i.chain or []) + (call.chain or [])
                if c.loc is None:
                    c.loc = call.loc
                if i.op == "phi":
                    inc[id(c)] = [(nb[p], mapop(v, off, args)) for p, v in i.incoming]
                else:
                    c.ops = [mapop(o, off, args) for o in i.ops]
                    if i.gep:
                        c.gep = (i.gep[0], tuple((mapop(o, off, args), sc) for o, sc in i.gep[1]), i.gep[2], i.gep[3])
                if i.op == "ret":
                    rets.append((n, c.ops[0] if c.ops else None))
                    c.op, c.ops, c.ty = "br", [], ("v",)
                    succ[id(n)] = [rest]
                n.ins.append(c)
                home[id(c)] = n
            blocks.append(n)
        nid = off + mx + 1
        # jump into the callee
        j = Ins()
        for sl in Ins.__slots__:
            setattr(j, sl, None)
        j.fn, j.op, j.ops, j.ty, j.size, j.id, j.loc, j.chain, j.vol, j.name = fn, "br", [], ("v",), 0, nid, call.loc, call.chain, False, ""
        nid += 1
        B.ins.append(j)
        home[id(j)] = B
        succ[id(B)] = [nb[0]]
        if call.ty != ("v",):
            ph = Ins()
            for sl in Ins.__slots__:
                setattr(ph, sl, getattr(call, sl) if hasattr(call, sl) else None)
            ph.op, ph.callee, ph.fn = "phi", None, fn
            inc[id(ph)] = [(n, v if v is not None else ("undef",)) for n, v in rets]
            rest.ins.insert(0, ph)
            home[id(ph)] = rest
        blocks.append(rest)
    for k, b in enumerate(blocks):
        b.idx = k
        b.preds = []
    for b in blocks:
        b.succ = [s.idx for s in succ[id(b)]]
        for n, i in enumerate(b.ins):
            i.block, i.idx = b.idx, n
            if i.op == "phi":
                i.incoming = [(p.idx, v) for p, v in inc[id(i)]]
                i.ops = [v for _, v in i.incoming]
    for b in blocks:
        for s in b.succ:
            blocks[s].preds.append(b.idx)
    fn.blocks = blocks
    fn.nins = sum(len(b.ins) for b in blocks)


def _read(L, so, m, vname, mod):
    td = L.LLVMGetModuleDataLayout(m)
    tc = {}
    T = lambda t: _tystr(L, td, t, tc, mod)

    def sizeof(t):
        k = L.LLVMGetTypeKind(t)
        if k == 0 or (k == 10 and L.LLVMIsOpaqueStruct(t)) or k in (9, 7, 14):
            return 0
        return L.LLVMABISizeOfType(td, t)

    def gep_decode(v, getop, nops):
        """-> (const_offset, [(operand, scale)], path[(structname, idx)], srctype)"""
        st = L.LLVMGetGEPSourceElementType(v)
        off = 0
        var = []
        path = []
        t = st
        for k in range(1, nops):
            o = L.LLVMGetOperand(v, k)
            isc = L.LLVMGetValueKind(o) == 18
            if k == 1:
                sz = sizeof(t)
                if isc:
                    c = L.LLVMConstIntGetSExtValue(o)
                    off += c * sz
                    if c:
                        path.append(("[]", c))
                else:
                    var.append((getop(o), sz))
                    path.append(("[]", None))
                continue
            tk = L.LLVMGetTypeKind(t)
            if tk == 10:
                c = L.LLVMConstIntGetSExtValue(o)
                off += L.LLVMOffsetOfElement(td, t, C.c_uint(c))
                path.append((T(t)[1], c))
                t = L.LLVMStructGetTypeAtIndex(t, C.c_uint(c))
            elif tk in (11, 13):
                t = L.LLVMGetElementType(t)
                sz = sizeof(t)
                if isc:
                    c = L.LLVMConstIntGetSExtValue(o)
                    off += c * sz
                    path.append(("[]", c))
                else:
                    var.append((getop(o), sz))
                    path.append(("[]", None))
            else:
                raise AnalysisBroken("odd GEP")
        return (off, tuple(var), tuple(path), T(st))

    ids = {}
    args = {}

    def operand(o, depth=0):
        k = L.LLVMGetValueKind(o)
        # kinds: Argument0 BasicBlock1 Function5 GlobalAlias6 GlobalVariable8 ConstantExpr10 ... Undef16? ConstantInt18
        if k == 0:
            return ("a", args[o])
        if o in ids:
            return ("i", ids[o])
        if k == 18:
            return ("c", L.LLVMConstIntGetSExtValue(o))
        if k == 5:
            return ("fn", vname(o))
        if k == 8:
            return ("g", vname(o))
        if L.LLVMIsUndef(o) or L.LLVMIsPoison(o):
            return ("undef",)
        if L.LLVMIsNull(o):
            t = T(L.LLVMTypeOf(o))
            if t[0] in ("p", "i"):
                return ("c", 0)
            return ("zero", t)
        if k == 10:
            oc = OPC.get(L.LLVMGetConstOpcode(o), "?")
            n = L.LLVMGetNumOperands(o)
            if oc == "gep":
                g = gep_decode(o, operand, n)
                return ("cg", operand(L.LLVMGetOperand(o, 0)), g[0], g[2])
            if oc in ("bitcast", "ptrtoint", "inttoptr"):
                return operand(L.LLVMGetOperand(o, 0))
            return ("ce", oc) + tuple(operand(L.LLVMGetOperand(o, i)) for i in range(n))
        if k in (19,):
            return ("fp", L.LLVMPrintValueToString(o).decode())
        if depth < 6 and T(L.LLVMTypeOf(o))[0] in ("s", "a"):
            n = L.LLVMGetNumOperands(o)
            so.LLVMIsConstantString.restype = C.c_int
            kindcds = L.LLVMGetTypeKind(L.LLVMTypeOf(o)) == 11
            if n == 0 and kindcds:
                ln = C.c_size_t()
                if so.LLVMIsConstantString(C.c_void_p(o)):
                    so.LLVMGetAsString.restype = C.c_void_p
                    p = so.LLVMGetAsString(C.c_void_p(o), C.byref(ln))
                    return ("str", C.string_at(p, ln.value))
                cnt = L.LLVMGetArrayLength2(L.LLVMTypeOf(o))
                return ("agg",) + tuple(operand(L.LLVMGetAggregateElement(o, C.c_uint(i)), depth + 1) for i in range(cnt))
            return ("agg",) + tuple(operand(L.LLVMGetOperand(o, i), depth + 1) for i in range(n))
        return ("k", k)

    so.LLVMInstructionGetDebugLoc.restype = C.c_void_p
    lc = {}

    def locof(i):
        d = so.LLVMInstructionGetDebugLoc(C.c_void_p(i))
        if not d:
            return None
        if d in lc:
            return lc[d]
        chain = []
        x = d
        while x:
            line = L.LLVMDILocationGetLine(x)
            sc = L.LLVMDILocationGetScope(x)
            fi = L.LLVMDIScopeGetFile(sc)
            nm = "?"
            if fi:
                ln = C.c_uint()
                so.LLVMDIFileGetFilename.restype = C.c_void_p
                p = so.LLVMDIFileGetFilename(C.c_void_p(fi), C.byref(ln))
                nm = C.string_at(p, ln.value).decode()
                if nm.startswith(REPO):
                    nm = nm[len(REPO) + 1:]
            # enclosing subprogram name: not exposed by LLVM-C; file:line suffices
            chain.append((nm, line))
            x = L.LLVMDILocationGetInlinedAt(x)
        lc[d] = chain
        return chain

    # globals
    mine = []
    g = L.LLVMGetFirstGlobal(m)
    gl = []
    while g:
        gl.append(g)
        g = L.LLVMGetNextGlobal(g)
    for g in gl:
        G = Global()
        G.name = vname(g)
        G.const = bool(L.LLVMIsGlobalConstant(g))
        G.internal = L.LLVMGetLinkage(g) in (8, 9)
        G.tls = bool(L.LLVMIsThreadLocal(g))
        G.decl = bool(L.LLVMIsDeclaration(g))
        vt = L.LLVMGlobalGetValueType(g)
        G.ty = T(vt)
        G.size = sizeof(vt)
        G.init = None
        if G.name not in mod.globals or not G.decl:
            mod.globals[G.name] = G
        mine.append((G, g))
    f = L.LLVMGetFirstFunction(m)
    fl = []
    while f:
        fl.append(f)
        f = L.LLVMGetNextFunction(f)
    for f in fl:
        nm = vname(f)
        ft = L.LLVMGlobalGetValueType(f)
        if L.LLVMIsDeclaration(f):
            mod.decls[nm] = True
            continue
        F = Fn()
        F.name = nm
        F.internal = L.LLVMGetLinkage(f) in (8, 9)
        F.vararg = bool(L.LLVMIsFunctionVarArg(ft))
        F.ret = T(L.LLVMGetReturnType(ft))
        sp = L.LLVMGetSubprogram(f)
        F.file, F.line = "?", 0
        if sp:
            F.line = L.LLVMDISubprogramGetLine(sp)
            fi = L.LLVMDIScopeGetFile(sp)
            if fi:
                ln = C.c_uint()
                so.LLVMDIFileGetFilename.restype = C.c_void_p
                p = so.LLVMDIFileGetFilename(C.c_void_p(fi), C.byref(ln))
                x = C.string_at(p, ln.value).decode()
                F.file = x[len(REPO) + 1:] if x.startswith(REPO) else x
        ids.clear()
        args.clear()
        F.params, F.ptypes, F.pnames = [], [], []
        for k in range(L.LLVMCountParams(f)):
            p = L.LLVMGetParam(f, k)
            args[p] = k
            F.params.append(k)
            F.ptypes.append(T(L.LLVMTypeOf(p)))
            F.pnames.append(vname(p))
        blocks = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            bidx[b] = len(blocks)
            B = Block()
            B.idx = len(blocks)
            B.name = "b%d" % B.idx
            B.ins, B.succ, B.preds = [], [], []
            blocks.append((B, b))
            b = L.LLVMGetNextBasicBlock(b)
        raw = []
        n = 0
        for B, b in blocks:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ids[i] = n
                raw.append((B, i))
                n += 1
                i = L.LLVMGetNextInstruction(i)
        F.nins = n
        for B, i in raw:
            I = Ins()
            I.fn, I.block = F, B.idx
            I.id = ids[i]
            oc = L.LLVMGetInstructionOpcode(i)
            I.op = OPC.get(oc, "op%d" % oc)
            rt = L.LLVMTypeOf(i)
            I.ty = T(rt)
            I.size = sizeof(rt)
            I.name = vname(i)
            I.pred = I.gep = I.callee = I.incoming = I.cases = I.srcty = None
            I.vol = False
            I.chain = None
            c = locof(i)
            I.loc = c[0] if c else None
            I.chain = [(a, l, "") for a, l in c] if c else None
            nops = L.LLVMGetNumOperands(i)
            if I.op == "call":
                cv = L.LLVMGetCalledValue(i)
                na = L.LLVMGetNumArgOperands(i)
                k = L.LLVMGetValueKind(cv)
                if k == 5:
                    I.callee = vname(cv)
                    if I.callee.startswith("llvm.dbg"):
                        continue
                    if I.callee.startswith("llvm.lifetime"):
                        continue
                    I.ops = [operand(L.LLVMGetOperand(i, j)) for j in range(na)]
                else:
                    I.callee = None
                    I.ops = [operand(L.LLVMGetOperand(i, j)) for j in range(na)] + [operand(cv)]
                I.srcty = [T(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(na)]
            elif I.op == "phi":
                I.ops = []
                I.incoming = []
                for j in range(L.LLVMCountIncoming(i)):
                    I.incoming.append((bidx[L.LLVMGetIncomingBlock(i, C.c_uint(j))],
                                       operand(L.LLVMGetIncomingValue(i, C.c_uint(j)))))
                I.ops = [x[1] for x in I.incoming]
            elif I.op == "br":
                ns = L.LLVMGetNumSuccessors(i)
                B.succ = [bidx[L.LLVMGetSuccessor(i, C.c_uint(j))] for j in range(ns)]
                I.ops = [operand(L.LLVMGetOperand(i, 0))] if ns == 2 else []
            elif I.op == "switch":
                ns = L.LLVMGetNumSuccessors(i)
                B.succ = [bidx[L.LLVMGetSuccessor(i, C.c_uint(j))] for j in range(ns)]
                I.ops = [operand(L.LLVMGetOperand(i, 0))]
                I.cases = [None] + [L.LLVMConstIntGetSExtValue(L.LLVMGetOperand(i, 2 * j)) for j in range(1, ns)]
            elif I.op == "gep":
                I.gep = gep_decode(i, operand, nops)
                I.ops = [operand(L.LLVMGetOperand(i, 0))]
            else:
                I.ops = [operand(L.LLVMGetOperand(i, j)) for j in range(nops)]
                if I.op == "icmp":
                    I.pred = PRED[L.LLVMGetICmpPredicate(i)]
                    I.srcty = T(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif I.op == "fcmp":
                    I.pred = "f%d" % L.LLVMGetFCmpPredicate(i)
                elif I.op == "alloca":
                    at = L.LLVMGetAllocatedType(i)
                    I.srcty = T(at)
                    I.size = sizeof(at)
                elif I.op == "store":
                    vt = L.LLVMTypeOf(L.LLVMGetOperand(i, 0))
                    I.srcty = T(vt)
                    I.size = sizeof(vt)
                elif I.op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
                    I.srcty = T(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif I.op == "load":
                    I.vol = bool(L.LLVMIsVolatile(i)) if False else False
            I.idx = len(B.ins)
            B.ins.append(I)
        F.blocks = [B for B, _ in blocks]
        for B in F.blocks:
            for s in B.succ:
                F.blocks[s].preds.append(B.idx)
        mod.fns[nm] = F
    for G, g in mine:
        ids.clear()
        args.clear()
        init = L.LLVMGetInitializer(g) if not G.decl else None
        G.init = operand(init) if init else None
    return mod


# ------------------------------------------------------------------ record layouts / constants
def layouts():
    """{record: {field: (offset, typestr)}} with nested anonymous members flattened, from clang."""
    out = {}
    for s in sources():
        p = subprocess.run(["clang", *CFLAGS, "-fsyntax-only", "-Xclang", "-fdump-record-layouts-complete", s],
                           capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken("record layouts of %s" % s)
        for chunk in p.stdout.split("*** Dumping AST Record Layout")[1:]:
            lines = chunk.strip("\n").split("\n")
            m = re.match(r"\s*0 \| (?:struct |union )?(\S.*)$", lines[0])
            if not m:
                continue
            rec = m.group(1).strip()
            fields = {}
            stack = []
            for ln in lines[1:]:
                m = re.match(r"\s*(\d+)(?::(\d+)-(\d+))? \| ( +)(.*)$", ln)
                if not m:
                    sm = re.search(r"\[sizeof=(\d+)", ln)
                    if sm:
                        fields["__sizeof__"] = (int(sm.group(1)), "")
                    continue
                off, ind, rest = int(m.group(1)), len(m.group(4)), m.group(5)
                stack = [x for x in stack if x[0] < ind]
                mm = re.match(r"(.*?)([A-Za-z_]\w*)$", rest)
                anon = "(anonymous" in rest or "(unnamed" in rest
                if anon and rest.rstrip().endswith(")"):
                    stack.append((ind, None))
                    continue
                if not mm:
                    continue
                path = [x[1] for x in stack if x[1]] + [mm.group(2)]
                fields[".".join(path)] = (off, mm.group(1).strip())
                stack.append((ind, mm.group(2)))
            if rec not in out or len(fields) > len(out[rec]):
                out[rec] = fields
    return out


def constants(names, header="metac/reflect.h", prelude=""):
    """{NAME: value} as the compiler sees them."""
    with tempfile.TemporaryDirectory(prefix="vcst") as tmp:
        src = os.path.join(tmp, "k.c")
        names = list(names)
        with open(src, "w") as f:
            f.write(prelude + '#include "%s"\n#include "metac/backend/entry.h"\n' % header)
            for i, n in enumerate(names):
                f.write("const long long k%d = (long long)(%s);\n" % (i, n))
        p = subprocess.run(["clang", *CFLAGS, "-S", "-emit-llvm", "-o", "-", src], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken("constants: " + p.stderr[:500])
        d = dict(re.findall(r"@k(\d+) = .*constant i64 (-?\d+)", p.stdout))
        return {n: int(d[str(i)]) for i, n in enumerate(names)}


def public_functions():
    """Names declared in the public headers (include/metac/**)."""
    names = set()
    for root, _, files in os.walk(REPO + "/include/metac"):
        for fn in files:
            txt = open(os.path.join(root, fn)).read()
            txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
            txt = re.sub(r"//.*", "", txt)
            for m in re.finditer(r"\b([A-Za-z_]\w*)\s*\(", txt):
                names.add(m.group(1))
    return names


def signatures():
    """{function: (return type, [parameter types])} as spelled, from clang's syntax tree"""
    out = {}
    pat = re.compile(r"FunctionDecl 0x[0-9a-f]+ .*?(?:line|col):\d+(?::\d+)? (?:implicit )?(?:used |referenced )?(\w+) '([^']*)'")
    for s in sources():
        p = subprocess.run(["clang", *CFLAGS, "-fsyntax-only", "-Xclang", "-ast-dump", s], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken("syntax tree of %s" % s)
        for ln in p.stdout.split("\n"):
            if "FunctionDecl" not in ln:
                continue
            m = pat.search(ln)
            if not m:
                continue
            n, t = m.groups()
            k = t.find("(")
            if t[k:k + 2] == "(*":
                continue
            args, depth, cur = [], 0, ""
            for ch in t[k + 1:]:
                if ch == "(":
                    depth += 1
                elif ch == ")":
                    if depth == 0:
                        break
                    depth -= 1
                if ch == "," and depth == 0:
                    args.append(cur.strip())
                    cur = ""
                else:
                    cur += ch
            if cur.strip() and cur.strip() != "void":
                args.append(cur.strip())
            out.setdefault(n, (t[:k].strip(), args))
    return out
