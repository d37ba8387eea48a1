"""C19: variable arguments are fetched with the type they were passed with and stored in order."""
import os
import tempfile

import ir
import vn
from p_base import TYPES, text
from result import Result

PRE = r"""
#if __has_include("_module.h")
#include "_module.h"
#endif
#include <stdarg.h>
#include <stdbool.h>
#include <complex.h>
#include "metac/reflect.h"
void * __vp_va_arg(void *, int, unsigned long);
struct metac_entry * __vp_decl(int, ...);
#define __vp_id(X) _Generic((X), char*:1, signed char*:1, unsigned char*:2, short*:3, unsigned short*:4, int*:5, unsigned int*:6, long*:7, \
    unsigned long*:8, long long*:9, unsigned long long*:10, _Bool*:11, float*:12, double*:13, long double*:14, \
    float _Complex*:15, double _Complex*:16, long double _Complex*:17, \
    void**:20, char**:21, const char**:21, short**:23, int**:25, long**:27, long long**:29, signed char **:21, default:99)
#undef va_arg
#define va_arg(ap, T) (*(T*)__vp_va_arg((void*)&(ap), __vp_id((T*)0), sizeof(T)))
#undef METAC_ENTRY_FROM_DECLLOC
#define METAC_ENTRY_FROM_DECLLOC(_name_, _var_) __vp_decl(__vp_id(&(_var_)), METAC_DECLLOC_PTR(_name_))
"""
NAME = {1: "char", 2: "unsigned char", 3: "short", 4: "unsigned short", 5: "int", 6: "unsigned int", 7: "long", 8: "unsigned long",
        9: "long long", 10: "unsigned long long", 11: "_Bool", 12: "float", 13: "double", 14: "long double", 15: "float complex",
        16: "double complex", 17: "long double complex", 20: "void *", 21: "char *", 23: "short *", 25: "int *", 27: "long *",
        29: "long long *", 99: "(another type)"}
INT4, INT8, PTR = {5, 6}, {7, 8, 9, 10}, {20, 21, 23, 25, 27, 29}
LEN = {"hh": "psal_hh", "h": "psal_h", "": "psal_no", "l": "psal_l", "ll": "psal_ll", "L": "psal_L"}
# conversion -> length -> (type that is passed, type that is recorded)
S = {"hh": (INT4, {1}), "h": (INT4, {3}), "": (INT4, {5}), "l": (INT8, {7}), "ll": (INT8, {9})}
U = {"hh": (INT4, {2}), "h": (INT4, {4}), "": (INT4, {6}), "l": (INT8, {8}), "ll": (INT8, {10})}
D = {"": ({13}, {13}), "L": ({14}, {14})}
CONV = {"d": S, "i": S, "c": {"": (INT4, {1})}, "o": U, "u": U, "x": U, "X": U, "f": D, "g": D, "e": D,
        "s": {"": (PTR, {21})}, "p": {"": (PTR, {20})},
        "n": {"hh": (PTR, {21}), "h": (PTR, {23}), "": (PTR, {25}), "l": (PTR, {27}), "ll": (PTR, {29})}}
# base type -> what it is passed as
PROMO = {"char": INT4, "uchar": INT4, "short": INT4, "ushort": INT4, "int": INT4, "uint": INT4, "bool": INT4, "long": INT8, "ulong": INT8,
         "llong": INT8, "ullong": INT8, "float": {13}, "double": {13}, "ldouble": {14}, "float_complex": {15}, "double_complex": {16},
         "ldouble_complex": {17}}


def names(s):
    return "/".join(NAME.get(x, str(x)) for x in sorted(s))


def check(pid, tier):
    r = Result("the sources are compiled with va_arg and the description-of-a-variable macro replaced by markers that keep the type; in "
               "LLVM IR every iteration of the format loop is followed for each conversion and length modifier, and every fetch of a "
               "described parameter is compared with the type tests that lead to it",
               "each fetch uses the default-promoted C type of the conversion or described parameter, the recorded type is that of the "
               "conversion, and per conversion one argument is fetched, one parameter appended and the index advanced by one")
    with tempfile.TemporaryDirectory(prefix="vpva") as tmp:
        h = os.path.join(tmp, "vp.h")
        open(h, "w").write(PRE)
        mod = ir.load_module(inline=lambda n, internal, info: internal, extra=("-include", h))
    k = ir.constants(["sizeof(%s)" % x[0] for x in TYPES.values()])
    size = {t: k["sizeof(%s)" % x[0]] for t, x in TYPES.items()}
    for n in sorted(mod.fns):
        if n in mod.inlined:
            continue
        fn = mod.fns[n]
        calls = [i for b in fn.blocks for i in b.ins if i.op == "call" and i.callee == "__vp_va_arg"]
        if not calls:
            continue
        V = vn.View(mod, fn)
        calls = [i for i in calls if i.block in V.reach]
        if any(i.op == "call" and i.callee == "metac_parse_format_specifier" for b in fn.blocks for i in b.ins):
            formats(mod, V, n, r)
        params(mod, V, n, calls, size, r)
    lengths(mod, r)
    r.need("conversion", 20)
    r.need("described parameter", 10)
    return r


def root(V, op):
    """(alloca, offset) of an address"""
    off = 0
    for _ in range(10):
        if op[0] == "cg":
            off, op = off + op[2], op[1]
            continue
        if op[0] != "i" or op[1] not in V.ins:
            return None
        i = V.ins[op[1]]
        if i.op == "alloca":
            return i.id, off
        if i.op == "gep" and not i.gep[1]:
            off += i.gep[0]
            op = i.ops[0]
        elif i.op in ("bitcast", "freeze"):
            op = i.ops[0]
        else:
            return None
    return None


def formats(mod, V, n, r):
    fn = V.fn
    pcs = [i for b in fn.blocks for i in b.ins if i.op == "call" and i.callee == "metac_parse_format_specifier" and b.idx in V.reach]
    lay = ir.layouts()
    sp = lay.get("metac_printf_specifier") or lay.get("struct metac_printf_specifier") or lay.get("metac_printf_specifier_t")
    if sp is None or "t" not in sp or "arg_len" not in sp:
        return
    ln = ir.constants(LEN.values(), header="metac/backend/printf_format.h")
    for pc in pcs:
        spec = root(V, pc.ops[2])
        if spec is None:
            continue
        loads = {"t": set(), "arg_len": set()}
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "load":
                    a = root(V, i.ops[0])
                    if a is not None and a[0] == spec[0]:
                        for f in loads:
                            if a[1] == spec[1] + sp[f][0]:
                                loads[f].add(i.id)
        if not loads["t"]:
            continue
        # the loop around the parser
        heads = [b for b in V.reach if V.dominates(b, pc.block) and any(V.dominates(b, p) for p in fn.blocks[b].preds if p in V.reach) and
                 loop_has(V, b, pc.block)]
        if not heads:
            continue
        head = max(heads, key=lambda b: V.pos[b])
        for cv, row in CONV.items():
            for m, cn in LEN.items():
                want = row.get(m)
                seed = {x: ("c", ord(cv)) for x in loads["t"]}
                seed.update({x: ("c", ln[cn]) for x in loads["arg_len"]})
                giveup(V, n, head, pc, seed, loads["t"], "%%%s%s" % (m, cv), r)
                if want is None:
                    continue
                outcome(mod, V, n, head, pc, seed, "%%%s%s" % (m, cv), want, r)
        # iterations that meet no conversion
        for path, sel, end in V.paths(head, {}, {head}):
            if end != head:
                continue
            f, ap, d, _, _ = collect(mod, V, path, sel, head, pc)
            if d is None:
                continue
            parsed = any(i is pc for b in path[:-1] for i in fn.blocks[b].ins)
            if len(f) != len(ap) or d != len(ap):
                r.bad("order", "order|%s" % n, pc.where(), "%s: in one step of the format %d arguments are fetched, %d parameters appended, "
                      "and the index advances by %d" % (n, len(f), len(ap), d))


def loop_has(V, head, b):
    """b is inside the natural loop of head"""
    seen, st = set(), [p for p in V.fn.blocks[head].preds if p in V.reach and V.dominates(head, p)]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x != head:
            st += [p for p in V.fn.blocks[x].preds if p in V.reach]
    return b in seen


def collect(mod, V, path, sel, head, pc):
    fetch, app, idx, dec, sizes = [], [], [], [], []
    for b in path[:-1]:
        for i in V.fn.blocks[b].ins:
            if i.op != "call":
                continue
            if i.callee == "__vp_va_arg":
                fetch.append(i)
            elif i.callee == "__vp_decl":
                dec.append(i)
            elif i.callee == "metac_parameter_storage_append_by_buffer":
                app.append(i)
            elif i.callee == "metac_parameter_storage_new_param_value":
                idx.append(i)
    d = None
    ph = None
    for b in V.fn.blocks:
        for i in b.ins:
            if i.op == "call" and i.callee == "metac_parameter_storage_new_param_value" and i.block in V.reach:
                q = V.phi_of(V.val(i.ops[1]))
                if q is not None and q.block == head:
                    ph = q
    if ph is not None and path[-1] == head:
        for pb, o in ph.incoming:
            if pb == path[-2]:
                v = V.val(V.under(o, sel))
                if v == ("i", ph.id):
                    d = 0
                elif v[0] == "op" and v[1] == "add" and v[2] == ("i", ph.id) and v[3][0] == "c":
                    d = v[3][1]
    return fetch, app, d, dec, sizes


def giveup(V, n, head, pc, seed, ts, what, r):
    """success reported in the middle of the format: the arguments from here on are not recorded"""
    for path, sel, end in V.paths(head, seed, {head}):
        if end is not None:
            continue
        ins = [i for b in path[:-1] for i in V.fn.blocks[b].ins]
        if pc not in ins or not any(i.id in ts for i in ins) or any(
                i.op == "call" and i.callee == "metac_parameter_storage_append_by_buffer" for i in ins):
            continue
        t = ins[-1]
        if t.op != "ret" or not t.ops:
            continue
        v = V.val(V.under(t.ops[0], sel))
        if v == ("c", 0):
            r.bad("dropped", "dropped|%s|%s" % (n, what), t.where(), "%s stops at the conversion %s, records nothing for it, and reports success" % (n, what))
            return


def outcome(mod, V, n, head, pc, seed, what, want, r):
    got = set()
    where = None
    rec = set()
    okpath = 0
    ambiguous = False
    for path, sel, end in V.paths(head, seed, {head}):
        if not any(i is pc for b in path[:-1] for i in V.fn.blocks[b].ins):
            continue
        if end == head:
            f, ap, d, dec, _ = collect(mod, V, path, sel, head, pc)
            if not f and not ap and not dec:
                continue                  # the parser refused
            okpath += 1
            for i in f:
                t = V.val(i.ops[1])
                if t[0] == "c":
                    got.add(t[1])
                    where = i
                else:
                    ambiguous = True
            for i in dec:
                t = V.val(i.ops[0])
                if t[0] == "c":
                    rec.add(t[1])
    if ambiguous or len(got) > 1:
        return
    r.ob("conversion", "%s in %s" % (what, n))
    if okpath == 0:
        r.bad("refused", "refused|%s|%s" % (n, what), pc.where(), "%s refuses the conversion %s" % (n, what))
    elif not got:
        r.bad("unfetched", "unfetched|%s|%s" % (n, what), pc.where(), "%s records a parameter for %s without fetching its argument" % (n, what))
    elif not got <= want[0]:
        r.bad("fetch", "fetch|%s|%s" % (n, what), where.where(), "%s fetches the argument of %s as %s; it is passed as %s" % (
            n, what, names(got), names(want[0])))
    elif len(rec) == 1 and not rec <= want[1]:
        r.bad("record", "record|%s|%s" % (n, what), where.where(), "%s records the argument of %s as %s instead of %s" % (
            n, what, names(rec), names(want[1])))


def params(mod, V, n, calls, size, r):
    byname = {x[1]: t for t, x in TYPES.items()}
    seen = set()
    anybase = False
    for i in calls:
        t = V.val(i.ops[1])
        if t[0] != "c":
            continue
        fs = V.facts(i.block)
        nm = set()
        kind = None
        sz = set()
        for p, x, y in fs:
            if not isinstance(x, tuple):
                continue
            for a, b in ((x, y), (y, x)):
                if not isinstance(a, tuple) or not a:
                    continue
                if p == "eq" and a[0] == "call" and a[1] == "strcmp" and b == ("c", 0):
                    for q in a[2:]:
                        s = text(mod, q) if isinstance(q, tuple) else None
                        if s in byname:
                            nm.add(s)
                elif p == "ne" and a[0] == "call" and b == ("c", 0) and a[1] in (
                        "metac_entry_is_pointer", "metac_entry_is_enumeration", "metac_entry_is_va_list_parameter"):
                    kind = a[1]
                elif p == "eq" and isinstance(b, tuple) and b[0] == "c" and b[1] in (1, 2, 4, 8) and a[0] in ("i", "ld"):
                    sz.add(b[1])
        if len(nm) == 1:
            bt = byname[nm.pop()]
            seen.add(bt)
            want = PROMO[bt]
            label = TYPES[bt][0]
        elif kind == "metac_entry_is_pointer":
            want, label = PTR, "pointer"
        elif kind == "metac_entry_is_enumeration" and len(sz) == 1:
            w = sz.pop()
            want, label = (INT8 if w == 8 else INT4), "enumeration of %d bytes" % w
        else:
            continue
        r.ob("described parameter", "%s %s" % (i.where(), label))
        if t[1] not in want:
            r.bad("fetch", "fetch|%s|%s" % (n, label), i.where(), "%s fetches a parameter described as %s as %s; it is passed as %s" % (
                n, label, names({t[1]}), names(want)))
    if seen:
        for bt in TYPES:
            r.ob("base type", bt)
            if bt not in seen:
                r.bad("unhandled", "unhandled|%s|%s" % (n, bt), "%s:%d" % (V.fn.file, V.fn.line), "%s cannot fetch a parameter of type %s" % (
                    n, TYPES[bt][0]))


def lengths(mod, r):
    """the parser records the length modifier it has seen"""
    n = "metac_parse_format_specifier"
    if n not in mod.fns:
        return
    lay = ir.layouts()
    sp = lay.get("metac_printf_specifier") or lay.get("struct metac_printf_specifier") or lay.get("metac_printf_specifier_t")
    ln = ir.constants(LEN.values(), header="metac/backend/printf_format.h")
    by = {v: m for m, v in ((m, ln[c]) for m, c in LEN.items())}
    V = vn.View(mod, mod.fns[n])
    for b in V.fn.blocks:
        if b.idx not in V.reach:
            continue
        for i in b.ins:
            if i.op != "store" or V.val(i.ops[1]) != ("off", ("a", 2), sp["arg_len"][0]) or i.ops[0][0] != "c":
                continue
            m = by.get(i.ops[0][1])
            if not m:
                continue
            ch = {y[1] for p, x, y in V.facts(b.idx) if p == "eq" and isinstance(y, tuple) and y[0] == "c" and
                  y[1] in (ord("h"), ord("l"), ord("L")) and char(x)}
            r.ob("length modifier", "%s %s" % (i.where(), m))
            if len(ch) == 1 and ch != {ord(m[0])}:
                r.bad("length", "length|" + m, i.where(), "%s records the modifier %s where the format has '%s'" % (n, m, chr(ch.pop())))


def char(x):
    return isinstance(x, tuple) and x[0] == "ld" and x[2] == 1
