"""C11: described memory is accessed with the described width, after the type was checked."""
import ir
import vn
from result import Result

SIZERS = ("metac_entry_byte_size", "metac_entry_base_type_byte_size", "metac_value_byte_size")
CHECKERS = {"metac_entry_check_base_type": 3, "metac_value_check_base_type": 3}
MEM = ("llvm.memcpy", "llvm.memmove", "llvm.memset", "memcpy", "memmove", "memset", "memcmp")


def addresses(mod, V, off):
    """values that are the data address of a metac_value"""
    out = {}
    for b in V.fn.blocks:
        for i in b.ins:
            if i.op == "load" and i.ty == ("p",) and i.ops[0][0] == "i":
                g = V.ins.get(i.ops[0][1])
                if g is not None and g.op == "gep":
                    p = [x for x in g.gep[2] if x[0] != "[]"]
                    if p and p[-1][0] == "struct.metac_value" and mod.structs["struct.metac_value"][p[-1][1]][0] == off:
                        out[V.val(("i", i.id))] = "field"
            elif i.op == "call" and i.callee == "metac_value_addr":
                out[V.val(("i", i.id))] = "call"
    more = True
    while more:                                        # one of several addresses
        more = False
        for b in V.fn.blocks:
            for i in b.ins:
                if i.op in ("phi", "select") and i.ty == ("p",) and V.val(("i", i.id)) not in out:
                    ks = [out.get(V.val(x)) for x in (i.ops if i.op == "phi" else i.ops[1:])]
                    if "field" in ks:
                        out[V.val(("i", i.id))] = "field"
                        more = True
    return out


def split(v):
    return (v[1], v[2]) if v[0] == "off" else (v, 0)


def accesses(V, ids):
    """(block, instruction, address, offset, size, write)"""
    for b in V.fn.blocks:
        if b.idx not in V.reach:
            continue
        for i in b.ins:
            if i.op in ("load", "store"):
                x, o = split(V.val(i.ops[1 if i.op == "store" else 0]))
                if x in ids:
                    yield b, i, x, o, ("c", i.size), i.op == "store"
            elif i.op == "call" and (i.callee or "").startswith(MEM) and len(i.ops) >= 3:
                for k in (0, 1):
                    x, o = split(V.val(i.ops[k]))
                    if x in ids:
                        yield b, i, x, o, V.val(i.ops[2]), k == 0 and not i.callee.startswith("memcmp")


def sized(V, v):
    """a local variable that receives a described size"""
    if v[0] != "i":
        return False
    i = V.ins.get(v[1])
    if i is None or i.op != "load" or i.ops[0][0] != "i":
        return False
    a = i.ops[0][1]
    return any(u.op == "call" and (u.callee or "").startswith(SIZERS) for u in V.users(a))


def check(pid, tier):
    r = Result("every load, store and block copy through the data address of a value is enumerated from LLVM IR together with the "
               "branch conditions every path to it has passed",
               "an access of n bytes through a value's address is reached only after the described size was compared with n, the "
               "described base type was checked with size n, the described type was found to be a pointer (n = pointer size) or a "
               "buffer of n bytes was appended for it; base-type writes are reached only for non-const data")
    mod = ir.load_module(inline=lambda n, internal, info: internal)
    L = ir.layouts()
    off = L["metac_value"]["addr"][0]
    E = L.get("metac_entry") or L.get("struct metac_entry")
    kpos = E["kind"][0]
    bs = {E[f][0] for f in E if f.endswith(".byte_size")}
    K = ir.constants(["METAC_KND_pointer_type", "sizeof(void*)"])
    kp, ps = K["METAC_KND_pointer_type"], K["sizeof(void*)"]
    for n in sorted(mod.fns):
        V = vn.View(mod, mod.fns[n])
        ids = addresses(mod, V, off)
        if not ids:
            continue

        def pointer(f):
            p, x, y = f
            if p == "eq" and y == ("c", kp) and isinstance(x, tuple):
                return x[0] == "ld" or (x[0] == "call" and "kind" in x[1]) or x[0] == "i"
            return p == "ne" and y == ("c", 0) and isinstance(x, tuple) and x[0] == "call" and x[1].endswith("_is_pointer")

        def nonconst(f):
            p, x, y = f
            return p == "eq" and y == ("c", 0) and isinstance(x, tuple) and x[0] == "op" and x[1] == "and" and x[3] == ("c", 1) and \
                x[2][0] in ("i", "ld")

        extent = {}
        for b, i, addr, at, size, write in accesses(V, ids):
            w = i.where()
            fs = V.facts(b.idx)
            # buffer appended for it
            app = []
            for p, x, y in fs:
                if p == "eq" and y == ("c", 0) and isinstance(x, tuple) and x[0] == "i":
                    c = V.ins.get(x[1])
                    if c is not None and c.op == "call" and c.callee == "metac_parameter_storage_append_by_buffer":
                        app.append(c)
            if ids[addr] == "call" and app:
                c = max(app, key=lambda c: V.pos.get(c.block, 0))
                s = V.val(c.ops[2])
                r.ob("access to an appended buffer", w)
                if s[0] == size[0] == "c":
                    e = extent.setdefault(c.id, [s[1], 0, w])
                    e[1] = max(e[1], at + size[1])
                elif s != size and s[0] != "c" and size[0] != "c":
                    r.bad("width", "buffer|%s" % n.split("@")[0], w, "%s copies a different number of bytes than were reserved" % n)
                continue
            if size[0] != "c":
                def typed(f, size=size):
                    p, x, y = f
                    return p == "eq" and y == ("c", 0) and isinstance(x, tuple) and x[0] == "call" and x[1] in CHECKERS and \
                        len(x) > 2 + CHECKERS[x[1]] and x[2 + CHECKERS[x[1]]] == size
                if size[0] != "a":
                    continue                                  # sizes kept in the library's own structures
                r.ob("typed block copy", w)
                if V.escape(typed, {b.idx: 1}) is not None:
                    r.bad("untyped", "untyped|%s|%s" % (n.split("@")[0], "write" if write else "read"), w,
                          "%s %s described memory on a path on which the type was not checked with that size" % (n, "writes" if write else "reads"))
                if write:
                    r.ob("write to possibly const data", w)
                    if V.escape(nonconst, {b.idx: 1}) is not None:
                        r.bad("const", "const|" + n.split("@")[0], w, "%s writes described memory without having excluded const" % n)
                continue
            k = size[1]
            if ids[addr] == "call" or at:
                continue

            def measured(f, k=k):
                p, x, y = f
                if p != "eq":
                    return False
                for a, c in ((x, y), (y, x)):
                    if c == ("c", k) and (sized(V, a) or (isinstance(a, tuple) and a[0] == "ld" and a[1][0] == "off" and a[1][2] in bs)):
                        return True
                return False
            r.ob("access of fixed width", "%s %d bytes" % (w, k))
            if V.escape(measured, {b.idx: 1}) is None:
                continue
            if k == ps and V.escape(pointer, {b.idx: 1}) is None:
                continue
            r.bad("width", "width|%s|%d|%s" % (n.split("@")[0], k, "write" if write else "read"), w,
                  "%s %s %d bytes of described memory on a path on which the described size was not found to be %d" % (
                      n, "writes" if write else "reads", k, k))
        for have, end, w in extent.values():
            if end != have:
                r.bad("width", "buffer|%s|%d|%d" % (n.split("@")[0], have, end), w,
                      "%s fills %d bytes of a parameter for which %d bytes were reserved" % (n, end, have))
    r.need("access of fixed width", 6)
    return r
