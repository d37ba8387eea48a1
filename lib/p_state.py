"""C10: the library keeps no mutable state of its own between calls."""
import ir
from result import Result

HIDDEN = {"strtok", "rand", "srand", "random", "srandom", "setlocale", "putenv", "setenv", "unsetenv", "clearenv",
          "asctime", "ctime", "gmtime", "localtime", "tmpnam", "tempnam", "signal", "sigaction", "atexit", "on_exit",
          "strerror", "getopt", "chdir", "umask", "drand48", "lrand48", "mrand48", "hcreate", "hsearch", "ecvt", "fcvt",
          "setbuf", "setvbuf", "mbtowc", "wctomb", "mblen", "longjmp"}
READERS = {"strcmp", "strncmp", "strcasecmp", "strlen", "strnlen", "memcmp", "strchr", "strrchr", "strstr", "printf",
           "fprintf", "snprintf", "sprintf", "vsnprintf", "__assert_fail", "bsearch", "strdup", "strndup", "dsprintf",
           "puts", "fputs", "atoi", "strtol", "memchr", "strspn", "strcspn"}


OUT0 = {"snprintf", "sprintf", "vsnprintf"}


def check(pid, tier):
    r = Result("every translation unit of the C library is lowered to LLVM IR; every variable with static storage that is "
               "not read-only is followed through its uses, and every call target is compared with the C library "
               "functions that keep hidden process-wide state",
               "no store, memory intrinsic, atomic or escaping use reaches a writable variable with static storage; no call "
               "to a libc function with hidden state")
    mod = ir.load_module(inline=lambda n, i, info: False)
    writable = {}
    for n, g in mod.globals.items():
        if g.decl:
            continue
        if g.const:
            r.ob("read-only static object", n)
        else:
            writable[n] = g
            r.ob("writable static object", n)
    for fn in mod.fns.values():
        r.ob("function", fn.name)
        alias = {}

        def gl(o, fn=fn, alias=alias):
            if o[0] == "g" and o[1] in writable:
                return o[1]
            if o[0] == "i":
                return alias.get(o[1])
            if o[0] in ("ce", "cg"):
                for x in o[1:]:
                    if isinstance(x, tuple):
                        y = gl(x)
                        if y:
                            return y
            return None
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                for i in b.ins:
                    if i.op in ("gep", "bitcast", "phi", "select", "addrspacecast", "freeze") and i.id not in alias:
                        for o in i.ops:
                            if gl(o):
                                alias[i.id] = gl(o)
                                ch = True
                                break
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "store":
                    g = gl(i.ops[1])
                    if g:
                        r.bad("static-write", "static-write|%s" % g, i.where(), "%s writes the static object '%s', which outlives the call "
                              "and is shared by all callers" % (fn.name, g))
                    g = gl(i.ops[0])
                    if g and i.ops[0] != i.ops[1]:
                        r.bad("static-escape", "static-write|%s" % g, i.where(), "%s publishes the address of the writable static object '%s'" % (fn.name, g))
                elif i.op.startswith("op"):
                    for o in i.ops:
                        g = gl(o)
                        if g:
                            r.bad("static-write", "static-write|%s" % g, i.where(), "%s modifies the static object '%s' atomically" % (fn.name, g))
                elif i.op == "ret":
                    for o in i.ops:
                        g = gl(o)
                        if g:
                            r.bad("static-escape", "static-write|%s" % g, i.where(), "%s returns the address of the writable static object '%s'" % (fn.name, g))
                elif i.op == "call":
                    c = i.callee or ""
                    base = c.split("@")[0]
                    if base in HIDDEN and base not in mod.fns:
                        r.bad("hidden-state", "hidden-state|%s|%s" % (fn.name, base), i.where(),
                              "%s calls %s(), which reads or changes process-wide state" % (fn.name, base))
                    for k, o in enumerate(i.ops):
                        g = gl(o)
                        if not g:
                            continue
                        if (base in READERS and not (k == 0 and base in OUT0)) or (base.startswith(("llvm.memcpy", "llvm.memmove")) and k == 1):
                            continue
                        if base in mod.fns and not _writes(mod, base, k, set()):
                            continue
                        r.bad("static-write", "static-write|%s" % g, i.where(), "%s lets %s write the static object '%s'" % (
                            fn.name, base or "an indirect call", g))
    r.need("function", 150)
    r.need("read-only static object", 20)
    return r


def _writes(mod, name, k, seen):
    """may function `name` write through (or keep) its k-th parameter?"""
    if (name, k) in seen:
        return False
    seen.add((name, k))
    fn = mod.fns[name]
    al = set()

    def isp(o):
        return (o[0] == "a" and o[1] == k) or (o[0] == "i" and o[1] in al)
    ch = True
    while ch:
        ch = False
        for b in fn.blocks:
            for i in b.ins:
                if i.op in ("gep", "bitcast", "phi", "select") and i.id not in al and any(isp(o) for o in i.ops):
                    al.add(i.id)
                    ch = True
    for b in fn.blocks:
        for i in b.ins:
            if i.op == "store" and (isp(i.ops[1]) or isp(i.ops[0])):
                return True
            if i.op == "ret" and any(isp(o) for o in i.ops):
                return True
            if i.op == "call":
                base = (i.callee or "").split("@")[0]
                for j, o in enumerate(i.ops):
                    if isp(o) and (base not in READERS or (j == 0 and base in OUT0)) and not (base in mod.fns and not _writes(mod, base, j, seen)):
                        return True
    return False
