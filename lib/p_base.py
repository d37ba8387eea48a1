"""C12: each base type is recognised, read, written, compared, copied and printed as that same type."""
import re

import ir
import vn
from result import Result

# pseudonym -> (C type, DWARF name, encodings, signedness: s/u/b/f/c)
TYPES = {
    "char": ("char", "char", ("signed_char", "unsigned_char"), "s"),
    "uchar": ("unsigned char", "unsigned char", ("unsigned_char",), "u"),
    "short": ("short", "short int", ("signed",), "s"),
    "ushort": ("unsigned short", "unsigned short int", ("unsigned",), "u"),
    "int": ("int", "int", ("signed",), "s"),
    "uint": ("unsigned int", "unsigned int", ("unsigned",), "u"),
    "long": ("long", "long int", ("signed",), "s"),
    "ulong": ("unsigned long", "unsigned long int", ("unsigned",), "u"),
    "llong": ("long long", "long long int", ("signed",), "s"),
    "ullong": ("unsigned long long", "unsigned long long int", ("unsigned",), "u"),
    "bool": ("_Bool", "_Bool", ("boolean",), "b"),
    "float": ("float", "float", ("float",), "f"),
    "double": ("double", "double", ("float",), "f"),
    "ldouble": ("long double", "long double", ("float",), "f"),
    "float_complex": ("float _Complex", "complex float", ("complex_float",), "c"),
    "double_complex": ("double _Complex", "complex double", ("complex_float",), "c"),
    "ldouble_complex": ("long double _Complex", "long complex double", ("complex_float",), "c"),
}
INTS = [t for t, x in TYPES.items() if x[3] in "sub"]
IDENT = {"metac_entry_check_base_type": (1, 2, 3), "metac_value_check_base_type": (1, 2, 3),
         "metac_value_base_type": (1, 2, 4), "metac_value_set_base_type": (1, 2, 4)}
READ = {"metac_value_" + t: t for t in TYPES}
WRITE = {"metac_value_set_" + t: t for t in TYPES}
TEST = {p + "_is_" + t: t for t in TYPES for p in ("metac_value", "metac_entry")}
# operation -> types it has to handle
CONSUMERS = {"metac_value_num": INTS, "metac_value_equal_base_type": list(TYPES), "metac_value_copy_base_type": list(TYPES),
             "metac_value_base_type_string": list(TYPES)}


def text(mod, op):
    if op[0] == "g":
        g = mod.globals.get(op[1])
        if g is not None and g.init and g.init[0] == "str":
            return g.init[1].rstrip(b"\0").decode("latin1")
    return None


def conv(fmt):
    """[(length modifier, conversion)] of a printf format"""
    return re.findall(r"%[-+ #0]*\d*(?:\.\d+)?(hh|h|ll|l|L|j|z|t|q)?([a-zA-Z%])", fmt)


def slot(V, op):
    """the local variable behind an address or a loaded value"""
    for _ in range(8):
        if op[0] != "i":
            return None
        i = V.ins.get(op[1])
        if i is None:
            return None
        if i.op == "alloca":
            return i.id
        if i.op in ("gep", "bitcast", "load", "sext", "zext", "fpext", "trunc", "fptrunc", "freeze"):
            op = i.ops[0]
            continue
        return None
    return None


def check(pid, tier):
    r = Result("the constants with which each base type is identified (name, encoding, size) are read off the calls in LLVM IR and "
               "compared across recognition, reading and writing and with the C type's own properties; in every function the local "
               "variables filled by a typed read are followed to comparisons, writes, conversions and formats",
               "for each of the 17 base types every operation uses the same name, encoding and size, a variable of that size and "
               "signedness, and the matching write/format; equality, copy and printing handle all of them, numbers all integer ones")
    mod = ir.load_module(inline=lambda n, internal, info: internal)
    enc = ir.constants(["METAC_ENC_" + e for e in {e for x in TYPES.values() for e in x[2]}])
    size = ir.constants(["sizeof(%s)" % x[0] for x in TYPES.values()])
    size = {t: size["sizeof(%s)" % x[0]] for t, x in TYPES.items()}
    views = {}

    def view(n):
        if n not in views:
            views[n] = vn.View(mod, mod.fns[n])
        return views[n]

    # ---- identification
    for t, (ct, name, encs, sg) in TYPES.items():
        want = {(name, enc["METAC_ENC_" + e], size[t]) for e in encs}
        for fn in ("metac_entry_is_" + t, "metac_value_" + t, "metac_value_set_" + t, "metac_value_is_" + t):
            if fn not in mod.fns:
                continue
            V = view(fn)
            got, unk, where = set(), False, None
            for b in V.fn.blocks:
                for i in b.ins:
                    if i.op != "call":
                        continue
                    c = (i.callee or "").split("@")[0]
                    if c in IDENT:
                        k = IDENT[c]
                        nm, e, s = text(mod, i.ops[k[0]]), V.val(i.ops[k[1]]), V.val(i.ops[k[2]])
                        where = where or i.where()
                        if nm is None or e[0] != "c" or s[0] != "c":
                            unk = True
                        else:
                            got.add((nm, e[1], s[1]))
                    elif c in TEST and TEST[c] != t:
                        r.bad("identity", "identity|%s|%s" % (fn, c), i.where(), "%s asks %s, which recognises a different type" % (fn, c))
            r.ob("identification", fn)
            if got and not unk and got != want:
                d = sorted(got ^ want)[0]
                r.bad("identity", "identity|%s" % fn, where, "%s identifies its type by %s; %s is %s" % (fn, sorted(got), ct, sorted(want)))
            # polarity of the test
            if fn.startswith("metac_entry_is_"):
                for b in V.fn.blocks:
                    for i in b.ins:
                        if i.op == "ret" and i.ops:
                            no = V.implied(i.ops[0], False)
                            yes = V.implied(i.ops[0], True)
                            if any(p == "eq" and call(x) and y == ("c", 0) for p, x, y in no) or \
                               any(p == "ne" and call(x) and y == ("c", 0) for p, x, y in yes):
                                r.bad("polarity", "polarity|" + fn, i.where() if i.loc else where, "%s answers yes when the check failed" % fn)
    # ---- the check itself: success needs the name, the encoding and the size to agree
    L = ir.layouts()
    EN = L.get("metac_entry") or L.get("struct metac_entry")
    fn = "metac_entry_check_base_type"
    if fn in mod.fns:
        V = view(fn)
        ret = {b.idx: b.ins[-1] for b in V.fn.blocks if b.ins[-1].op == "ret" and b.ins[-1].ops}

        def ok(b, sel):
            return b in ret and V.const_under(ret[b].ops[0], sel) == 0

        def field(o):
            def acc(f):
                p, x, y = f
                return p == "eq" and any(isinstance(z, tuple) and z[0] == "ld" and z[1][0] == "off" and z[1][2] == o for z in (x, y))
            return acc
        if V.escape(lambda f: False, ok) is not None:
            for what, acc in (("name", lambda f: f[0] == "eq" and f[2] == ("c", 0) and f[1][0] == "call" and f[1][1] == "strcmp"),
                              ("encoding", field(EN["base_type_info.encoding"][0])), ("size", field(EN["base_type_info.byte_size"][0]))):
                r.ob("condition of success", what)
                p = V.escape(acc, ok)
                if p is not None:
                    r.bad("lax", "lax|" + what, "%s:%d" % (V.fn.file, V.fn.line), "%s accepts a base type without having compared its %s" % (fn, what))
    # ---- users of the typed accessors
    for n in sorted(mod.fns):
        V = view(n)
        fills = {}
        tests, reads, writes = set(), set(), set()
        calls = []
        for b in V.fn.blocks:
            if b.idx not in V.reach:
                continue
            for i in b.ins:
                if i.op != "call":
                    continue
                c = (i.callee or "").split("@")[0]
                if c in READ and len(i.ops) == 2:
                    t = READ[c]
                    reads.add(t)
                    a = slot(V, i.ops[1])
                    calls.append((b.idx, i, t))
                    if a is not None:
                        fills.setdefault(a, []).append((t, V.val(i.ops[0]), i))
                        sz = V.ins[a].size
                        r.ob("typed read", "%s %s" % (i.where(), c))
                        if sz and sz != size[t]:
                            r.bad("width", "width|%s|%s" % (n.split("@")[0], c), i.where(),
                                  "%s reads a %s (%d bytes) into a variable of %d bytes" % (n, TYPES[t][0], size[t], sz))
                elif c in WRITE:
                    writes.add(WRITE[c])
                elif c in TEST:
                    tests.add(TEST[c])
        if not fills and n not in CONSUMERS:
            continue
        # guarded by the test of the same type
        for bi, i, t in calls:
            pos = {TEST[x[1]] for p, x, y in V.facts(bi) if p == "ne" and y == ("c", 0) and x[0] == "call" and x[1] in TEST and
                   len(x) > 2 and x[2] == V.val(i.ops[0])}
            if pos and t not in pos:
                r.bad("guard", "guard|%s|%s" % (n.split("@")[0], t), i.where(), "%s reads a %s where the value is known to be a %s" % (
                    n, TYPES[t][0], "/".join(TYPES[x][0] for x in sorted(pos))))
        one = {a: fs[0] for a, fs in fills.items() if len({f[0] for f in fs}) == 1}
        for b in V.fn.blocks:
            for i in b.ins:
                if i.op in ("sext", "zext") and i.ops[0][0] == "i":
                    l = V.ins.get(i.ops[0][1])
                    if l is not None and l.op == "load" and slot(V, l.ops[0]) in one:
                        t = one[slot(V, l.ops[0])][0]
                        sg = TYPES[t][3]
                        if (sg == "u" and i.op == "sext") or (sg == "s" and i.op == "zext"):
                            r.bad("sign", "sign|%s|%s" % (n.split("@")[0], t), i.where(), "%s widens a %s as %s" % (
                                n, TYPES[t][0], "signed" if i.op == "sext" else "unsigned"))
                elif i.op in ("fcmp", "icmp"):
                    a, c = slot(V, i.ops[0]), slot(V, i.ops[1])
                    if a in one and c in one and a != c:
                        r.ob("comparison", i.where())
                        if one[a][0] != one[c][0]:
                            r.bad("compare", "compare|%s|%s" % (n.split("@")[0], one[a][0]), i.where(), "%s compares a %s with a %s" % (
                                n, TYPES[one[a][0]][0], TYPES[one[c][0]][0]))
                        elif one[a][1] == one[c][1]:
                            r.bad("compare", "compare-self|%s|%s" % (n.split("@")[0], one[a][0]), i.where(),
                                  "%s compares a value with itself" % n)
                elif i.op == "call":
                    c = (i.callee or "").split("@")[0]
                    if c in WRITE and len(i.ops) >= 2:
                        a = slot(V, i.ops[1])
                        if a in one:
                            r.ob("typed write", "%s %s" % (i.where(), c))
                            if one[a][0] != WRITE[c]:
                                r.bad("write", "write|%s|%s" % (n.split("@")[0], WRITE[c]), i.where(), "%s writes as %s what it read as %s" % (
                                    n, TYPES[WRITE[c]][0], TYPES[one[a][0]][0]))
                    elif c.startswith(("dsprintf", "snprintf", "sprintf")):
                        fmt(mod, V, n, i, one, size, r)
        if n in CONSUMERS and (reads or tests):
            for t in CONSUMERS[n]:
                r.ob("handled type", "%s %s" % (n, t))
                if t not in reads:
                    r.bad("unhandled", "unhandled|%s|%s" % (n, t), "%s:%d" % (V.fn.file, V.fn.line), "%s does not handle %s" % (n, TYPES[t][0]))
                if n == "metac_value_copy_base_type" and t not in writes:
                    r.bad("unhandled", "unwritten|%s|%s" % (n, t), "%s:%d" % (V.fn.file, V.fn.line), "%s does not write %s" % (n, TYPES[t][0]))
    r.need("identification", 40)
    return r


def call(x):
    return isinstance(x, tuple) and x and x[0] == "call" and x[1] in IDENT


WID = {"hh": 1, "h": 2, "": 4, "l": 8, "ll": 8, "L": 8, "q": 8, "j": 8, "z": 8, "t": 8}


def fmt(mod, V, n, i, one, size, r):
    k = next((k for k, o in enumerate(i.ops) if text(mod, o) is not None and "%" in text(mod, o)), None)
    if k is None:
        return
    cs = [c for c in conv(text(mod, i.ops[k])) if c[1] != "%"]
    for (ln, cv), o in zip(cs, i.ops[k + 1:]):
        a = slot(V, o)
        if a not in one:
            continue
        t = one[a][0]
        sg = TYPES[t][3]
        r.ob("format", "%s %s as %%%s%s" % (i.where(), t, ln, cv))
        bad = None
        if sg == "u" and cv not in "uxXoc":
            bad = "signed"
        elif sg == "s" and cv not in "dic":
            bad = "unsigned"
        elif sg == "f" and cv not in "aAeEfFgG":
            bad = "an integer"
        elif sg in "su" and cv != "c" and WID.get(ln, 4) < size[t]:
            bad = "%d bytes wide" % WID.get(ln, 4)
        elif t == "ldouble" and ln != "L":
            bad = "a double"
        elif sg == "f" and t != "ldouble" and ln == "L":
            bad = "a long double"
        if bad:
            r.bad("format", "format|%s|%s" % (n.split("@")[0], t), i.where(), "%s prints a %s as %s (%%%s%s)" % (n, TYPES[t][0], bad, ln, cv))
