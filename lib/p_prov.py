"""C07 descriptions are never modified; C08 only announced writers modify described memory; C09 caller's allocator."""
import re

import ir
import prov
import vn
from result import Result

T = tuple


def callgraph(mod):
    return {f.name: {o[1] for b in f.blocks for i in b.ins for o in ([("fn", i.callee)] if i.op == "call" and i.callee else []) +
                     [o for o in i.ops if o[0] == "fn"]} for f in mod.fns.values()}


def reachable(cg, f, through=lambda n: True):
    seen, st = {f}, [f]
    while st:
        for y in cg.get(st.pop(), ()):
            if y in cg and y not in seen:
                if through(y):
                    seen.add(y)
                    st.append(y)
    return seen


def assume(r, P):
    r.count("functions analysed", len(P.mod.fns))
    r.count("fixpoint rounds", P.rounds)
    r.assumptions += [
        "field-based memory model: two objects of the same structure type share their fields",
        "hash maps and walkers hand back exactly what was put into them (their own code is checked by C22 and C13)",
        "handlers supplied by the user do what they document; their effects are not the library's"]


def check_entry(pid, tier):
    r = Result("whole-library points-to analysis over LLVM IR: every pointer that may lead to a type description (an entry or "
               "database handed in by the caller, the entry of a value, and everything read from there) is labelled; every store, "
               "memory intrinsic, libc writer and release is examined",
               "no write goes through a pointer that may lead to a description; the only release of one is guarded by that "
               "description's own dynamically-allocated mark, and that mark is set only in fresh memory")
    P = prov.Prov()
    seen = set()
    for fn, i, labs in P.writes():
        w = i.where()
        if (w, fn.name) not in seen:
            seen.add((w, fn.name))
            r.ob("write", "%s %s" % (fn.name, w))
        if "ENTRY" in labs:
            r.bad("write", "write|%s" % fn.name, w, "%s writes memory that may belong to a type description" % fn.name)
    L = ir.layouts()
    E = L.get("metac_entry") or L["struct metac_entry"]
    dyn = E["dynamically_allocated"][0]
    for fn in P.mod.fns.values():
        V = None
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "call" and i.callee in ("free", "realloc") and "ENTRY" in P.of(fn, i.ops[0]):
                    V = V or vn.View(P.mod, fn)
                    r.ob("release of a description", "%s %s" % (fn.name, i.where()))
                    x = V.val(i.ops[0])

                    def marked(f, x=x):
                        p, a, c = f
                        if c != ("c", 0) or p not in ("ne", "ugt", "sgt") or not isinstance(a, T):
                            return False
                        for y in nested(a):
                            if y[0] == "call" and y[1].endswith("_is_dynamic") and y[2:] == (x,):
                                return True
                            if y[0] == "ld" and (y[1] == x and dyn == 0 or y[1] == ("off", x, dyn)):
                                return True
                        return False
                    if V.escape(marked, {b.idx: 1}) is not None:
                        r.bad("release", "release|%s" % fn.name, i.where(), "%s may release a description that was not allocated by "
                              "the library (a path reaches this call without having found it dynamically allocated)" % fn.name)
                elif i.op == "store" and ("A", "struct.metac_entry", dyn) in P.of(fn, i.ops[1]) and i.ops[0] != ("c", 0):
                    r.ob("mark set", i.where())
    r.need("write", 100)
    r.need("release of a description", 1)
    assume(r, P)
    return r


def nested(a):
    yield a
    for y in a:
        if isinstance(y, T) and y:
            yield from nested(y)


WRITER = re.compile(r"metac_value_set_|metac_value_copy_|metac_value_parameter_|metac_parameter_storage_|_parameter_storage_|"
                    r".*_call_params|.*_call_result|metac_store_v?printf_params|metac_handle_printf_format")


def target(n, k):
    """may the function of that name modify the data of its k-th value?"""
    if n.startswith("metac_value_set_"):
        return k == 0
    if n.startswith("metac_value_copy_"):
        return k == 1
    return bool(WRITER.match(n))


# library objects stored as data: which argument of these is modified
STORAGE = {"metac_parameter_storage_copy": 1}


def check_desc(pid, tier):
    r = Result("whole-library points-to analysis over LLVM IR: memory described by a value is labelled with the parameter whose value "
               "describes it; every store, memory intrinsic and libc writer is examined and attributed to the operations that reach it",
               "an operation reaches a write to the memory described by one of its values only if it is a setter (its value), a copy "
               "(its destination) or builds call parameters; no other operation contains or reaches a write to described memory")
    P = prov.Prov()
    cg = callgraph(P.mod)
    direct = {}
    for fn, i, labs in P.writes():
        r.ob("write", "%s %s" % (fn.name, i.where()))
        if "DESC" in labs:
            direct.setdefault(fn.name, i.where())
    # functions that contain or reach a write to described memory
    C = dict(direct)
    ch = True
    while ch:
        ch = False
        for f, cs in cg.items():
            if f not in C:
                for c in sorted(cs):
                    if c in C and not storage(c):
                        C[f] = "%s (%s)" % (C[c].split(" ")[0], c)
                        ch = True
                        break
    for f in sorted(P.mod.fns):
        n = f.split("@")[0]
        r.ob("operation", n)
        if f in C and not WRITER.match(n) and not writer_helper(P, cg, f):
            r.bad("writer", "writer|%s" % n, C[f].split(" ")[0], "%s modifies the memory a value describes although it is not an operation that "
                  "does so (write reached: %s)" % (n, C[f]))
    # which operand
    reach = {}
    for fn, i, labs in P.writes():
        if storage(fn.name):
            continue
        for l in labs:
            if isinstance(l, T) and l[0] == "D":
                verdict(r, P, cg, reach, l, fn, i)
    for fn in P.mod.fns.values():
        for b in fn.blocks:
            for i in b.ins:
                k = STORAGE.get(i.callee) if i.op == "call" else None
                if k is not None:
                    for l in P.of(fn, i.ops[k]):
                        if isinstance(l, T) and l[0] == "D":
                            verdict(r, P, cg, reach, l, fn, i)
    r.need("write", 100)
    r.need("operand modified", 10)
    assume(r, P)
    return r


def storage(n):
    return "parameter_storage" in n


def writer_helper(P, cg, f):
    """a static function all of whose callers are writers"""
    if not P.mod.fns[f].internal:
        return False
    callers = [g for g, cs in cg.items() if f in cs and g != f]
    return bool(callers) and all(WRITER.match(g.split("@")[0]) or writer_helper(P, cg, g) for g in callers)


def verdict(r, P, cg, reach, l, fn, i):
    f, k = l[1], l[2]
    if f not in reach:
        reach[f] = reachable(cg, f)
    if fn.name not in reach[f]:
        return
    n = f.split("@")[0]
    r.ob("operand modified", "%s: value %d at %s" % (n, k, i.where()))
    if P.mod.fns[f].internal:
        return
    if not target(n, k):
        r.bad("operand", "operand|%s|%d" % (n, k), i.where(), "%s may modify the memory described by its parameter %d, which it only has to read" % (n, k + 1))


ALLOC_T = re.compile(r"void \*\(\*\)\((size_t|unsigned long|metac_size_t), (size_t|unsigned long|metac_size_t)\)")
FREE_T = re.compile(r"void \(\*\)\(void \*\)")


def check_alloc(pid, tier):
    r = Result("whole-library points-to analysis over LLVM IR: blocks obtained through an allocator handed in by the caller, blocks "
               "obtained from the C allocator and described memory are labelled; every release, every pointer written into a copy and "
               "every use of the default allocator is examined",
               "in operations that take the caller's allocator: pointers stored into the copy lead only to blocks of that allocator, "
               "such blocks and described memory are released only through the caller's release function, the library's own memory "
               "never is, and the C allocator stands in only where the caller gave none")
    P = prov.Prov()
    mod = P.mod
    cg = callgraph(mod)
    ops = {}
    for fn in mod.fns.values():
        n = fn.name.split("@")[0]
        if n in P.sigs and not fn.internal and not n.startswith(("hashmap", "metac_tag_map", "metac_new_tag")):
            for k, t in enumerate(P.sigs[n][1]):
                t = re.sub(r"\s+", " ", t)
                if ALLOC_T.fullmatch(t):
                    ops.setdefault(fn.name, {})["alloc"] = k
                elif FREE_T.fullmatch(t):
                    ops.setdefault(fn.name, {})["free"] = k
    param = {("P", f, k): (f, what) for f, d in ops.items() for what, k in d.items()}
    K = ir.constants(["METAC_UPTR_as_values"])["METAC_UPTR_as_values"]
    modes = ir.layouts()
    moff = {modes[x]["unknown_ptr_mode"][0] for x in modes if "unknown_ptr_mode" in modes[x]}

    def kinds(labs):
        return {param[l] for l in labs if l in param}
    blocks = set()
    used = set()
    for fn in mod.fns.values():
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "call" and i.callee is None:
                    for f, what in kinds(P.of(fn, i.ops[-1])):
                        used.add((f, what))
                        r.ob("call of the caller's %s function" % what, "%s %s" % (fn.name, i.where()))
                        if what == "alloc":
                            blocks.add(("I", i.where()))
                        elif len(i.ops) == 2:
                            a = P.of(fn, i.ops[0])
                            h = sorted(l for l in a if isinstance(l, T) and l[0] == "H")
                            if h or "LIB" in a or "ENTRY" in a:
                                r.bad("foreign", "foreign|%s" % fn.name, i.where(), "%s hands memory to the caller's release function that did not come "
                                      "from the caller's allocator (%s)" % (fn.name, h[0][2] + " at " + h[0][1] if h else "library object"))
    for f, d in sorted(ops.items()):
        for what in sorted(d):
            r.ob("allocator parameter", "%s: %s" % (f, what))
            if (f, what) not in used:
                r.bad("ignored", "ignored|%s|%s" % (f, what), "%s:%d" % (mod.fns[f].file, mod.fns[f].line),
                      "%s never calls the %s function the caller handed in" % (f, what))
    for f, d in sorted(ops.items()):
        own = reachable(cg, f, lambda y: mod.fns[y].internal)
        for g in sorted(own):
            fn = mod.fns[g]
            V = vn.View(mod, fn)
            for b in fn.blocks:
                if b.idx not in V.reach:
                    continue
                for i in b.ins:
                    if i.op == "call" and i.callee in ("free", "realloc"):
                        a = P.of(fn, i.ops[0])
                        r.ob("direct release", "%s %s" % (g, i.where()))
                        if a & blocks or "DESC" in a or "USER" in a:
                            r.bad("bypass-free", "bypass-free|%s" % g, i.where(), "%s releases %s with %s() instead of the caller's release function" % (
                                g, "a block of the caller's allocator" if a & blocks else "described memory", i.callee))
                    if i.op == "call" and i.callee == "metac_value_set_pointer" and "alloc" in d:
                        a = {l for l in P.of(fn, i.ops[1]) if not (isinstance(l, T) and l[0] == "A")}
                        r.ob("pointer written into the copy", "%s %s" % (g, i.where()))
                        if a - blocks:
                            x = sorted(map(str, a - blocks))[0]
                            r.bad("foreign-pointer", "foreign-pointer|%s" % g, i.where(), "%s stores a pointer into the copy that does not lead to a block of "
                                  "the caller's allocator (%s)" % (g, x))
                    if i.op == "call" and i.callee == "metac_value_copy_pointer" and "alloc" in d:
                        a = P.data(P.of(fn, i.ops[0]))
                        r.ob("pointer copied", "%s %s" % (g, i.where()))
                        if ("D", f, 0) in a:
                            def asval(x):
                                p, y, c = x
                                return p == "eq" and c == ("c", K) and isinstance(y, T) and y[0] == "ld" and y[1][0] == "off" and y[1][2] in moff
                            if V.escape(asval, {b.idx: 1}) is not None:
                                r.bad("shared", "shared|%s" % g, i.where(), "%s copies a pointer of the source into the copy although the caller did not ask to "
                                      "treat unknown pointers as values" % g)
                    defaults(r, P, V, f, d, g, b, i, param)
    r.need("allocator parameter", 2)
    r.need("pointer written into the copy", 1)
    assume(r, P)
    return r


def defaults(r, P, V, f, d, g, b, i, param):
    """the C allocator stands in only where the caller's function is NULL"""
    want = {"calloc": "alloc", "malloc": "alloc", "free": "free"}

    def null(what):
        return lambda x: x[0] == "eq" and x[2] == ("c", 0) and x[1] == ("a", d.get(what))
    if i.op == "phi":
        for p, o in i.incoming:
            if o[0] == "fn" and o[1] in want and p in V.reach:
                r.ob("default allocator", i.where())
                if not any(null(want[o[1]])(x) for x in list(V.facts(p)) + list(V.edge(p, i.block))):
                    r.bad("default", "default|%s|%s" % (g, o[1]), i.where(), "%s may replace the caller's %s function by %s()" % (g, want[o[1]], o[1]))
    elif i.op == "select":
        for o, truth in ((i.ops[1], True), (i.ops[2], False)):
            if o[0] == "fn" and o[1] in want:
                r.ob("default allocator", i.where())
                if not any(null(want[o[1]])(x) for x in V.implied(i.ops[0], truth)):
                    r.bad("default", "default|%s|%s" % (g, o[1]), i.where(), "%s may replace the caller's %s function by %s()" % (g, want[o[1]], o[1]))
    elif i.op == "store" and i.ops[0][0] == "fn" and i.ops[0][1] in want:
        n = i.ops[0][1]
        r.ob("default allocator", i.where())
        if not any(null(want[n])(x) for x in V.facts(b.idx)):
            r.bad("default", "default|%s|%s" % (g, n), i.where(), "%s may replace the caller's %s function by %s()" % (g, want[n], n))
    elif i.op == "call" and i.callee in P.mod.fns:
        n = i.callee.split("@")[0]
        if n in P.sigs:
            for k, t in enumerate(P.sigs[n][1]):
                t = re.sub(r"\s+", " ", t)
                what = "alloc" if ALLOC_T.fullmatch(t) else "free" if FREE_T.fullmatch(t) else None
                if what and what in d and k < len(i.ops) and ("P", i.callee, k) in param:
                    r.ob("allocator passed on", i.where())
                    if not any(param.get(l) == (f, what) for l in P.of(V.fn, i.ops[k])):
                        r.bad("default", "passed|%s|%s" % (g, n), i.where(), "%s calls %s without handing the caller's %s function on" % (g, n, what))
