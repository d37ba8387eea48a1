"""C27 tag maps: which tag an entry is answered with.  C28 stock handlers: what they answer a request with."""
import itertools

import ir
import pathval
from p_store import A, Base, entry_values, facts, stores
from pathval import C, add, cmp_, ld, lin, neg, off
from result import Result

CMPS = ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strstr", "strcoll")
LENIENT = ("strncmp", "strcasecmp", "strncasecmp", "strstr", "memcmp")


class Tags(Base):
    def paths(self, fn, assign=None, start=0):
        f = self.mod.fns.get(fn)
        if f is None:
            return []
        try:
            return pathval.Paths(self.mod, f, assign or {}, rewrite=self.rewrite, trunc=True).run(start=start)
        except pathval.TooMany:
            return []


def fold(v):
    if v[0] == "tr" and v[1] >= 32:            # counts and numbers have 32 bits
        return v[2]
    return C(0) if v[0] == "and" and len(v) == 3 and v[2] == 0 else v


def lit(f, e):
    """truth the fact f states about e != 0; None if it states nothing"""
    if f == cmp_("ne", e, C(0)) or f == cmp_("ugt", e, C(0)):
        return True
    if f == cmp_("eq", e, C(0)):
        return False
    return None


def steps(G, fn, p):
    """(value on entry, values on the back edges) of a loop variable; None if it is not one"""
    f = G.mod.fns[fn]
    phi = None
    for b in f.blocks:
        for i in b.ins:
            if i.op == "phi" and i.id == p[1]:
                phi = i
    return entry_values(G, f, phi) if phi is not None else set()


def span(G, r, fn, o, p, counts, what, rule):
    """the loop over p covers 0 .. count-1: judged on the bounds and steps that are visible"""
    if p[0] != "phi":
        return
    for e in steps(G, fn, p):
        if e != C(0) and not unknown(e):
            up = any(x.end == "back" and x.nxt and x.nxt[1].get(p[1]) == add(p, C(1)) for x in G.cache[fn])
            if up:
                G.bad(rule, fn, "start " + what, o, "%s does not start with the first %s" % (fn, what))
    for x in G.cache[fn]:
        if x.end == "back" and x.nxt and p[1] in x.nxt[1]:
            c, d = lin(add(x.nxt[1][p[1]], p, -1))
            if not d and c not in (1, -1, 0):
                G.bad(rule, fn, "step " + what, x, "%s skips %d of the %ss" % (fn, abs(c) - 1, what))
    for f in o.facts:
        b = pathval.boolean(f)
        if not b:
            continue
        c, d = lin(add(b[1], b[2], -1))
        for k in counts:
            if d == {p: 1, k: -1} and (b[0] in ("slt", "ult") and c > 0 or b[0] in ("sle", "ule") and c > 1):
                G.bad(rule, fn, "end " + what, o, "%s leaves out the last %s" % (fn, what))
        if p not in b[1:]:
            continue
        q = b[2] if b[1] == p else b[1]
        if q in counts or q[0] == "c":
            continue
        if pathval.clean(q) and not any(pathval.mentions(q, lambda z: z == k) for k in counts):
            G.bad(rule, fn, "count " + what, o, "%s looks at a number of %ss that is not theirs" % (fn, what))


# ------------------------------------------------------------------ C27
def check_map(pid, tier):
    r = Result("the lookup is followed along every path of one pass over the categories, for each kind of entry, and compared with a "
               "decision table over the conditions met (mask, stacked map, own map, final bit); the setters likewise (LLVM IR)",
               "categories are asked in order; a category counts only for the kinds in its mask; a stacked map's answer, then the "
               "entry's own tag, then - if the category has the final bit - its final entry's tag win; otherwise the default")
    G = Tags(r, lambda n, internal, info: internal, rewrite=fold)
    G.cache = {}
    CST = ir.constants(["METAC_TEC_variable", "METAC_TEC_func_parameter", "METAC_TEC_member", "METAC_TEC_final", "METAC_KND_variable",
                        "METAC_KND_func_parameter", "METAC_KND_member", "METAC_TEO_entry", "METAC_TEO_final_entry"])
    T, E_ = G.L("metac_tag_map"), G.L("metac_tag_map_entry")
    TAG = G.L("metac_entry_tag")
    bit = {n: 1 << CST.get(c, d) for n, c, d in (("variable", "METAC_TEC_variable", 0), ("func_parameter", "METAC_TEC_func_parameter", 1),
                                                ("member", "METAC_TEC_member", 2), ("final", "METAC_TEC_final", 3))}
    kind = {n: CST.get("METAC_KND_" + n) for n in ("variable", "func_parameter", "member")}
    lookup(G, r, T, E_, bit, kind)
    setter(G, r, T, E_, TAG, CST)
    creators(G, r, T, E_, TAG, bit)
    r.need("lookup", 4)
    return r


def lookup(G, r, T, E_, bit, kind):
    fn = "metac_tag_map_tag"
    f = G.mod.fns.get(fn)
    if f is None or not T or not E_:
        return
    esz = E_["__sizeof__"][0]
    cats, cnt, dflt = ld(off(A[0], T["p_categories"][0])), ld(off(A[0], T["categories_count"][0])), ld(off(A[0], T["p_default_tag"][0]))
    kcall = ("call", "metac_entry_kind", A[1])
    for name, kd in list(kind.items()) + [("other", max(kind.values()) + 1000)]:
        outs = G.paths(fn, {kcall: kd})
        if not outs:
            continue
        G.cache[fn] = outs
        r.ob("lookup", "%s of a %s: %d paths" % (fn, name, len(outs)))
        # the category a path looks at
        for o in outs:
            ps = set()
            for e in list(o.facts) + [x for _, a, _, _ in o.calls for x in a] + ([o.ret] if o.ret else []):
                pathval.mentions(e, lambda z: bool(z[0] == "lin" and any(t == cats for t, _ in z[2]) and
                                                   [ps.add(t) for t, k in z[2] if k == esz and t[0] == "phi"]))
            p = next(iter(ps)) if len(ps) == 1 else None
            if cmp_("eq", A[0], C(0)) in facts(o):
                continue
            base = add(cats, C(0)) if p is None else add(cats, ("lin", 0, ((p, esz),)))
            M, X, H = (ld(off(base, E_[k][0])) for k in ("mask", "p_ext_map", "p_map"))
            fin = ("F", A[1])
            cached = {t for t in phis(o) if t != p and caches(G, fn, outs, t, fin)}
            at = {}
            conflict = odd = False

            def note(k, t):
                if k in at and at[k] != t:
                    return True
                at[k] = t
                return False

            def key(e):
                return fin if e in cached else e

            def get(e):
                """('own'|'final'|'ext') for a call that yields a tag"""
                if e[0] == "call" and e[1] == "hashmapGet" and e[2] == H:
                    k = key(e[3])
                    return {A[1]: "own", fin: "fin"}.get(k) or (None if unknown(k) else "odd")
                if e[0] == "call" and e[1] == fn and e[2] == X:
                    return "ext" if e[3] == A[1] else None if unknown(e[3]) else "odd"
                return None
            for fct in o.facts:
                b = pathval.boolean(fct)
                if not b:
                    continue
                for e, other in ((b[1], b[2]), (b[2], b[1])):
                    t = lit(fct, e)
                    if e[0] == "and" and e[1] == M and len(e) == 3:
                        if other == C(e[2]) and e[2] and e[2] & (e[2] - 1) == 0 and b[0] in ("eq", "ne"):
                            t = b[0] == "eq"
                        if t is not None:
                            conflict |= note(("bit", e[2]), t)
                    elif t is None:
                        continue
                    elif e == X:
                        conflict |= note("ext", t)
                    elif e == H:
                        conflict |= note("map", t)
                    elif e == fin:
                        conflict |= note("hasfin", t)
                    elif get(e) == "odd":
                        odd = True
                    elif get(e):
                        conflict |= note("got " + get(e), t)
            # what the path does
            if o.end == "ret":
                v = o.ret
                if v == dflt:
                    done = any(f in facts(o) for f in bounds(p, cnt)) if p is not None else True
                    act = "end" if p is None or done else "default"
                elif v == C(0):
                    act = "none"
                else:
                    act = get(v) or "?"
            elif o.end == "back" and p is not None and p[1] in (o.nxt[1] if o.nxt else {}):
                act = "next"
            elif o.end == "abort":
                act = "abort"
            else:
                act = "?"
            if conflict:
                continue
            if act == "odd" or odd:
                G.bad("answer", fn, "key", o, "%s looks the tag up under another entry than the one asked for" % fn)
                continue
            if act == "?":
                continue
            if p is not None:
                span(G, r, fn, o, p, [cnt], "category", "order")
            if act == "end":
                continue
            if p is None:
                if act == "none" or act == "default":
                    if act == "none":
                        G.bad("default", fn, "none", o, "%s answers no tag where the default tag is due" % fn)
                continue
            want = table(at, bit.get(name, 0), bit["final"])
            r.ob("decision", "%s %s %s" % (name, act, sorted(map(str, at))))
            if want and want != {act}:
                G.bad("answer", fn, "%s %s" % (name, act), o, "%s of a %s %s where it should %s (%s)" % (fn, name, SAY[act],
                      " or ".join(SAY[w] for w in sorted(want)), "; ".join(show(k, v) for k, v in sorted(at.items(), key=str))))


SAY = {"own": "answers the entry's own tag", "fin": "answers its final entry's tag", "ext": "answers the stacked map's tag",
       "next": "go on to the next category", "default": "answers the default tag", "none": "answers no tag", "abort": "aborts"}


def show(k, v):
    n = {"ext": "stacked map", "map": "own map", "hasfin": "final entry", "got own": "own tag found", "got fin": "final entry's tag found",
         "got ext": "stacked map answered"}.get(k) or "mask bit %s" % (k[1],)
    return ("" if v else "no ") + n


def bounds(p, cnt):
    return [cmp_("sle", cnt, p), cmp_("ule", cnt, p), cmp_("eq", p, cnt), cmp_("eq", cnt, p), cmp_("sge", p, cnt), cmp_("uge", p, cnt)]


def table(at, kb, fb):
    """the actions due in the situations the path's conditions leave open (none: the path cannot be taken)"""
    names = ["kb", "fb", "ext", "map", "hasfin", "got own", "got fin", "got ext"]
    known = {}
    for k, v in at.items():
        if isinstance(k, tuple):
            if k[1] == kb and kb:
                known["kb"] = v
            elif k[1] == fb:
                known["fb"] = v
            elif v is False and kb and k[1] & kb:
                known["kb"] = False
                if k[1] & fb:
                    known["fb"] = False
        else:
            known[k] = v
    if not kb:
        known["kb"] = False
    res = []
    for vals in itertools.product((False, True), repeat=len(names)):
        s = dict(zip(names, vals))
        if any(s[k] != v for k, v in known.items()):
            continue
        # a category has either a stacked map or one of its own; nothing is found without asking
        if s["ext"] == s["map"] or (s["got ext"] and not s["ext"]) or ((s["got own"] or s["got fin"]) and not s["map"]):
            continue
        if s["got fin"] and not s["hasfin"]:
            continue
        if not s["kb"]:
            res.append("next")
        elif s["ext"] and s["got ext"]:
            res.append("ext")
        elif s["map"] and s["got own"]:
            res.append("own")
        elif s["map"] and s["fb"] and s["got fin"]:
            res.append("fin")
        else:
            res.append("next")
    return set(res)


def phis(o):
    out = set()
    for e in list(o.facts) + [x for _, a, _, _ in o.calls for x in a] + ([o.ret] if o.ret else []):
        pathval.mentions(e, lambda z: z[0] == "phi" and bool(out.add(z)))
    return out


def caches(G, fn, outs, t, fin):
    """a loop variable that is NULL or the final entry, once computed"""
    vals = set(steps(G, fn, t))
    for o in outs:
        if o.end == "back" and o.nxt and t[1] in o.nxt[1]:
            vals.add(o.nxt[1][t[1]])
    return bool(vals) and vals <= {C(0), fin, t}


def setter(G, r, T, E_, TAG, CST):
    fn = "metac_tag_map_set_tag"
    f = G.mod.fns.get(fn)
    if f is None:
        return
    esz = E_["__sizeof__"][0]
    base = add(ld(off(A[0], T["p_categories"][0])), ("lin", 0, ((A[1], esz),)))
    H = ld(off(base, E_["p_map"][0]))
    ops = {CST.get("METAC_TEO_entry", 1): ("the entry", A[3]), CST.get("METAC_TEO_final_entry", 2): ("the final entry", ("F", A[3]))}
    for op, (what, key) in ops.items():
        for override in (0, 1):
            outs = G.paths(fn, {A[4]: op, A[2]: override})
            for o in outs:
                if o.end == "abort" and not override and not any(n in ("hashmapContainsKey", "hashmapGet") for n, a, i, sn in o.calls):
                    G.bad("override", fn, "abort", o, "%s aborts where it should refuse to replace a tag" % fn)
                if o.end != "ret" or o.ret is None or o.ret[0] != "c":
                    continue
                puts = [(n, a, i) for n, a, i, s in o.calls if n == "hashmapPut"]
                r.ob("setter", "op %d override %d -> %s" % (op, override, o.ret[1]))
                ok = [p for p in puts if any(x[0] == "cmp" and x[1] == "eq" and x[3] == C(0) and x[2][:2] == ("call", "hashmapPut") and
                                             x[2][2:4] == p[1][:2] for x in o.facts)]
                has = []
                for x in o.facts:
                    x = cmp_("ne", x, C(0)) if x[0] == "call" else cmp_("eq", x[1], C(0)) if x[0] == "not" else x
                    if x[0] == "cmp" and x[3] == C(0) and x[2][0] == "call" and x[2][1] in ("hashmapContainsKey", "hashmapGet") and \
                            x[2][2] == H and x[2][3] == key:
                        has.append(x)
                if o.ret == C(0):
                    if not puts:
                        G.bad("set", fn, "nothing %d" % op, o, "%s reports success without storing a tag for %s" % (fn, what))
                        continue
                    for n, a, i in puts:
                        if a[0] != H and pathval.clean(a[0]):
                            G.bad("set", fn, "category", o, "%s stores the tag in another category than the one asked for" % fn)
                        elif a[1] != key and pathval.clean(a[1]):
                            G.bad("set", fn, "key %d" % op, o, "%s does not store the tag for %s" % (fn, what))
                        else:
                            content(G, r, fn, o, a[2], A[5], TAG)
                    if not override and not any(x[1] == "eq" for x in has) and not any(
                            x[0] == "cmp" and x[1] == "eq" and x[3] == C(0) and pathval.mentions(x[2], lambda z: z[0] == "out") for x in o.facts):
                        G.bad("override", fn, "silent", o, "%s replaces a tag although overriding is off" % fn)
                else:
                    if ok:
                        G.bad("set", fn, "failure after storing", o, "%s reports failure after it stored the tag" % fn)
                    if override and any(x[1] == "ne" for x in has) and not puts:
                        G.bad("override", fn, "refused", o, "%s refuses to replace a tag although overriding is on" % fn)


def content(G, r, fn, o, new, src, TAG):
    """the stored tag is a copy of the given one with a string of its own"""
    if new[0] != "call" or new[1] not in ("calloc", "malloc") or not TAG:
        return
    st = stores(o)
    whole = any(n == "memcpy" and a[0] == new and a[1] == src and a[2] == C(TAG["__sizeof__"][0]) for n, a, i, s in o.calls)
    part = [a for n, a, i, s in o.calls if n == "memcpy" and a[0] == new]
    for k in ("p_context", "handler", "context_free_handler"):
        v = st.get(off(new, TAG[k][0]))
        want = ld(off(src, TAG[k][0]))
        r.ob("copy", "%s %s" % (fn, k))
        if v is not None and v != want and pathval.clean(v):
            G.bad("copy", fn, k, o, "%s: the stored tag has another %s than the given one" % (fn, k))
        elif v is None and not whole and all(a[1] == src and a[2][0] == "c" and a[2][1] <= TAG[k][0] for a in part):
            G.bad("copy", fn, k, o, "%s: the stored tag does not get the given tag's %s" % (fn, k))
    s = ld(off(src, TAG["p_tagstring"][0]))
    if cmp_("ne", s, C(0)) in facts(o):
        v = st.get(off(new, TAG["p_tagstring"][0]))
        if v is None and whole or v == s:
            G.bad("copy", fn, "p_tagstring", o, "%s: the stored tag shares the given tag's string" % fn)
        elif v is None or (v[0] == "call" and v[1] == "strdup" and v[2] != s):
            G.bad("copy", fn, "p_tagstring", o, "%s: the stored tag does not get the given tag's string" % fn)


def creators(G, r, T, E_, TAG, bit):
    fn = "metac_new_tag_map"
    for o in G.paths(fn):
        for n, a, i, snap in o.calls:
            if n != "metac_new_tag_map_ex" or 1 not in snap:
                continue
            d, z = snap[1]
            r.ob("creator", fn)
            want = bit["variable"] | bit["func_parameter"] | bit["member"]
            if a[0] != C(1):
                continue
            m = d.get(0)
            if m is not None and m[0] == "c" and m[1] & 0xff != want:
                G.bad("creator", fn, "mask", o, "%s does not make a map for variables, parameters and members" % fn)
            if a[2] != A[0] and pathval.clean(a[2]):
                G.bad("creator", fn, "default", o, "%s does not pass the default tag on" % fn)
    fn = "metac_new_tag_map_ex"
    if fn not in G.mod.fns:
        return
    esz = E_["__sizeof__"][0]
    outs = G.paths(fn)
    G.cache[fn] = outs
    for o in outs:
        st = stores(o)
        if o.end == "back" and o.nxt:
            for a, v in st.items():
                c, d = lin(a)
                bs = [t for t, k in d.items() if t[0] == "call" and k == 1]
                ps = [t for t, k in d.items() if t[0] == "phi" and k == esz]
                if len(d) != 2 or not bs or not ps:
                    continue
                p = ps[0]
                src = add(A[1], ("lin", 0, ((p, 16),)))
                r.ob("creator", "%s category %d" % (fn, c))
                if c == E_["mask"][0] and v != ld(src) and not pathval.mentions(v, lambda x: x[0] in ("i", "undef")):
                    G.bad("creator", fn, "mask", o, "%s gives a category another mask than asked for" % fn)
                if c == E_["p_ext_map"][0] and v != ld(off(src, 8)) and not pathval.mentions(v, lambda x: x[0] in ("i", "undef")):
                    G.bad("creator", fn, "stacked", o, "%s gives a category another stacked map than asked for" % fn)
                if c == E_["mask"][0]:
                    b = bs[0]
                    x = lambda k: add(off(b, E_[k][0]), ("lin", 0, ((p, esz),)))
                    e = st.get(x("p_ext_map"))
                    if e is None:
                        G.bad("creator", fn, "stacked", o, "%s does not store a category's stacked map" % fn)
                    hm = st.get(x("p_map"))
                    asked = ld(off(src, 8))
                    if cmp_("eq", asked, C(0)) in facts(o) and hm is None:
                        G.bad("creator", fn, "own map", o, "%s makes a category with neither a stacked map nor one of its own" % fn)
                    span(G, r, fn, o, p, [A[0]], "category", "creator")
        if o.end == "ret" and o.ret and o.ret[0] == "call" and cmp_("ne", o.ret, C(0)) in facts(o):
            d = st.get(off(o.ret, T["p_default_tag"][0]))
            r.ob("creator", fn)
            if cmp_("ne", A[2], C(0)) in facts(o):
                if d is None or d == C(0):
                    G.bad("creator", fn, "default", o, "%s drops the default tag" % fn)
                else:
                    content(G, r, fn, o, d, A[2], TAG)
            n = st.get(off(o.ret, T["categories_count"][0]))
            if n is None or (n != A[0] and pathval.clean(n)):
                G.bad("creator", fn, "count", o, "%s does not record the number of categories" % fn)


# ------------------------------------------------------------------ C28
EV = {"METAC_RQVST_union_member": 1, "METAC_RQVST_flex_array_count": 2, "METAC_RQVST_pointer_array_count": 3, "METAC_RQVST_va_list": 4}
HANDLES = {"metac_handle_count_by": ("METAC_RQVST_pointer_array_count", "METAC_RQVST_flex_array_count"),
           "metac_handle_zero_ended_string": ("METAC_RQVST_pointer_array_count", "METAC_RQVST_flex_array_count"),
           "metac_handle_container_of": ("METAC_RQVST_pointer_array_count",),
           "metac_handle_union_member_select": ("METAC_RQVST_union_member",),
           "metac_handle_ptr_cast": ("METAC_RQVST_pointer_array_count",)}
RV = off(A[1], 8)
H = [("call", "metac_value_walker_hierarchy_value", A[0], C(k)) for k in range(3)]
ITEM = {"metac_new_value_by_member_id": "metac_value_member_count", "metac_value_parameter_new_item": "metac_value_parameter_count"}


def check_handlers(pid, tier):
    r = Result("the value each stock handler answers a request with is computed along every path of the handler, for every type of request "
               "(value numbering, one pass per loop, LLVM IR), and compared with what the handler's context asks for",
               "a handler answers only its own requests, from the sibling its context names, by the case whose value matches, "
               "with the member, type and count the context prescribes")
    G = Tags(r, lambda n, internal, info: internal, rewrite=fold)
    G.cache = {}
    ev = dict(EV, **ir.constants(EV))
    for fn, own in HANDLES.items():
        if fn not in G.mod.fns:
            continue
        for t, n in ev.items():
            outs = G.paths(fn, {ld(A[1]): n})
            G.cache[fn] = outs
            r.ob("request", "%s %s: %d paths" % (fn, t, len(outs)))
            for o in outs:
                v = stores(o).get(RV)
                if t not in own:
                    if v is not None and v != C(0) and o.end == "ret" and t != "METAC_RQVST_va_list":
                        G.bad("request", fn, t, o, "%s answers %s, which is not its request" % (fn, t))
                    continue
                globals()["judge_" + fn[len("metac_handle_"):]](G, r, fn, o, v, t)
                if fn != "metac_handle_zero_ended_string" and o.end == "ret" and o.ret == C(0) and cmp_("eq", A[2], C(0)) in facts(o):
                    G.bad("context", fn, "none", o, "%s reports success although it has no context to answer from" % fn)
    contexts(G, r)
    r.need("request", 8)
    r.need("answer", 5)
    return r


def num_of(e):
    """the value whose number e is"""
    return e[1][3][0] if e[0] == "ld" and e[1][0] == "out" and e[1][1] == "metac_value_num" and e[1][2] == 1 else None


def ptr_of(e):
    return e[1][3][0] if e[0] == "ld" and e[1][0] == "out" and e[1][1] == "metac_value_pointer" and e[1][2] == 1 else None


def truncated(e):
    return pathval.mentions(e, lambda z: z[0] == "tr")


def unknown(e, but=()):
    return pathval.mentions(e, lambda z: z[0] in ("phi", "i", "undef", "alloca", "new", "loop") and z not in but)


def identified(o, s, name):
    """does the path know that sibling value s is the one called `name`?  True, False (another or no name), None (cannot tell)"""
    idx = s[3]
    if idx[0] == "call" and idx[1] == "metac_entry_member_name_to_id":
        return idx[2] == ("call", "metac_value_entry", s[2]) and idx[3] == name
    seen = lenient = False
    for f in o.facts:
        hit = []
        pathval.mentions(f, lambda z: z[0] == "call" and z[1] in CMPS and bool(hit.append(z)))
        for z in hit:
            if not pathval.mentions(z, lambda y: y == idx):
                continue
            seen = True
            b = pathval.boolean(f)
            if z[1] == "strcmp" and f == cmp_("eq", z, C(0)) and name in z[2:4]:
                return True
            if z[1] in LENIENT and f == cmp_("eq", z, C(0)):
                lenient = True
    if lenient:
        return False
    if seen:
        return False
    if any(n in CMPS or n == "metac_entry_member_name_to_id" for n, a, i, sn in o.calls if not any(
            x[0] == "g" for x in a)):
        return None
    return False


def sibling(G, r, fn, o, s, name, what):
    """s must be the sibling called `name` of the value the request is about"""
    if s[0] != "call" or s[1] not in ITEM:
        if not unknown(s):
            G.bad("sibling", fn, what, o, "%s reads the %s from something that is not a sibling" % (fn, what))
        return
    r.ob("sibling", "%s %s" % (fn, what))
    if s[2] != H[1]:
        if not unknown(s[2]):
            G.bad("sibling", fn, what + " parent", o, "%s looks for the %s outside the value that contains the tagged one" % (fn, what))
        return
    if identified(o, s, name) is False:
        G.bad("sibling", fn, what + " name", o, "%s takes the %s from a sibling it has not found to have the context's name" % (fn, what))
        return
    span(G, r, fn, o, s[3], [("call", ITEM[s[1]], H[1])], "sibling", "sibling")


def skipped(G, r, fn, o, name, what):
    """going on to the next sibling although this one has the name"""
    if o.end != "back" or not o.nxt:
        return
    for f in o.facts:
        b = pathval.boolean(f)
        if b and b[1][0] == "call" and b[1][1] == "strcmp" and b[2] == C(0) and name in b[1][2:4] and b[0] == "eq":
            idx = []
            pathval.mentions(b[1], lambda z: z[0] == "call" and z[1] in ITEM and z[2] == H[1] and bool(idx.append(z[3])))
            for p in idx:
                if p[0] == "phi" and p[1] in o.nxt[1]:
                    G.bad("sibling", fn, what + " skipped", o, "%s passes over the sibling that has the context's name" % fn)


def counted(o, fn):
    return any(f[0] == "cmp" and f[2][:2] == ("call", "metac_value_num") and f[1] == "eq" and f[3] == C(0) for f in o.facts)


def level_out(o):
    """the tagged value has no parent here"""
    lv = ("call", "metac_value_walker_hierarchy_level", A[0])
    return any(f[0] == "cmp" and f[2] == lv and f[1] in ("slt", "eq") for f in o.facts)


def count_value(G, r, fn, o, v, val, what):
    """v must be the element count value of `val`; answers the count"""
    if v[0] == "call" and v[1] == "metac_new_element_count_value":
        if v[2] != val and not unknown(v[2]):
            G.bad("answer", fn, "value", o, "%s does not answer with %s" % (fn, what))
            return None
        return v[3]
    if not unknown(v):
        G.bad("answer", fn, "value", o, "%s does not answer with an element count" % fn)
    return None


def judge_count_by(G, r, fn, o, v, t):
    name = ld(A[2])
    skipped(G, r, fn, o, name, "count")
    if o.end != "ret" or o.ret is None:
        return
    if v is None or v == C(0):
        if o.ret == C(0) and counted(o, fn):
            G.bad("answer", fn, "none", o, "%s reports success without answering the count it read" % fn)
        return
    r.ob("answer", "%s %s" % (fn, t))
    n = count_value(G, r, fn, o, v, H[0], "the tagged value")
    if n is None:
        return
    s = num_of(n)
    if s is None:
        if truncated(n):
            G.bad("answer", fn, "width", o, "%s cuts the count short" % fn)
        elif n[0] == "c" or pathval.mentions(n, lambda z: z[0] == "out" and z[1] == "metac_value_num"):
            G.bad("answer", fn, "count", o, "%s answers a count that is not the sibling's value" % fn)
        return
    sibling(G, r, fn, o, s, name, "count")


def judge_zero_ended_string(G, r, fn, o, v, t):
    if o.end != "ret" or v is None or v == C(0):
        return
    r.ob("answer", "%s %s" % (fn, t))
    n = count_value(G, r, fn, o, v, H[0], "the tagged value")
    if n is None:
        return
    c, d = lin(n)
    sl = [x for x in d if x[0] == "call" and x[1] == "strlen"]
    if truncated(n):
        G.bad("answer", fn, "width", o, "%s cuts the count short" % fn)
    elif len(d) == 1 and sl and d[sl[0]] == 1:
        if c != 1:
            G.bad("answer", fn, "count", o, "%s answers %+d characters besides the string's: its end is one" % (fn, c))
        p = sl[0][2]
        if p != ("call", "metac_value_addr", H[0]) and ptr_of(p) != H[0] and not unknown(p):
            G.bad("answer", fn, "string", o, "%s measures another string than the tagged one" % fn)
        if not any(pathval.mentions(f, lambda z: z[0] == "call" and ("name" in z[1] or "char" in z[1])) for f in o.facts):
            G.bad("answer", fn, "char", o, "%s measures a string without knowing that it consists of char" % fn)
    elif not d:
        G.bad("answer", fn, "count", o, "%s answers %d whatever the string" % (fn, c))


def judge_container_of(G, r, fn, o, v, t):
    if o.end != "ret":
        return
    ctx = G.L("metac_container_of_context")
    mo, ce = ld(off(A[2], ctx["member_offset"][0])), ld(off(A[2], ctx["p_coontainer_entry"][0]))
    if v is None or v == C(0):
        return
    r.ob("answer", "%s %s" % (fn, t))
    if v[0] != "call" or v[1] != "metac_new_element_count_value":
        if not unknown(v):
            G.bad("answer", fn, "value", o, "%s does not answer with an element count" % fn)
        return
    if v[3] != C(1) and not unknown(v[3]):
        G.bad("answer", fn, "count", o, "%s does not answer one container" % fn)
    for n, a, i, snap in o.calls:
        if n != "metac_new_value":
            continue
        if a[0] != ce and not unknown(a[0]):
            G.bad("answer", fn, "entry", o, "%s answers with another type than the context's container" % fn)
        d, z = snap.get(1, ({}, None))
        e = d.get(0)
        if e is None:
            if z is not None and z[0] == "out":
                G.bad("answer", fn, "offset", o, "%s answers with the member's address as the container's" % fn)
            continue
        c, terms = lin(e)
        ps = [x for x in terms if ptr_of(x) == H[0]]
        if unknown(e) and not ps:
            continue
        if truncated(e) or len(ps) != 1 or c != 0 or terms != {ps[0]: 1, mo: -1}:
            G.bad("answer", fn, "offset", o, "%s does not take the member's offset from the member's address" % fn)


def case_fact(o, cases, sz, q, sel):
    """the path knows that case q has the selector's value"""
    fv = ld(add(cases, ("lin", 0, ((q, sz),))))
    return cmp_("eq", fv, sel) in facts(o) or cmp_("eq", sel, fv) in facts(o)


def index_in(e, base, sz):
    """(offset, q) if e is the address base + sz*q + offset"""
    c, d = lin(e)
    if d.get(base) != 1 or len(d) != 2:
        return None
    q = next(t for t in d if t != base)
    return (c, q) if d[q] == sz else None


def judge_union_member_select(G, r, fn, o, v, t):
    ctx, cs = G.L("metac_union_member_select_by_context"), G.L("metac_union_member_select_by_case")
    mode, name = ld(A[2]), ld(off(A[2], ctx["sibling_selector_fieldname"][0]))
    n, cases = ld(off(A[2], ctx["cases_count"][0])), ld(off(A[2], ctx["p_cases"][0]))
    pid = ld(off(A[2], ctx["permanent_id"][0]))
    sz = cs["__sizeof__"][0]
    skipped(G, r, fn, o, name, "selector")
    m = next((f[3][1] for f in o.facts if f[0] == "cmp" and f[1] == "eq" and f[2] == mode and f[3][0] == "c"), None)
    if m is None and cmp_("ne", mode, C(0)) in facts(o) and len([f for f in o.facts if pathval.mentions(f, lambda z: z == mode)]) == 1:
        m = 1                                  # the other mode
    if o.end != "ret":
        return
    unanswered(G, r, fn, o, cases, sz, ("metac_new_value_by_member_id",))
    if v is None or v == C(0):
        if o.ret == C(0) and counted(o, fn):
            G.bad("answer", fn, "none", o, "%s reports success without answering the member the selector's value means" % fn)
        return
    r.ob("answer", "%s mode %s" % (fn, m))
    if v[0] != "call" or v[1] != "metac_new_value_by_member_id":
        if not unknown(v):
            G.bad("answer", fn, "value", o, "%s does not answer with a member of the union" % fn)
        return
    if v[2] != H[0]:
        if not unknown(v[2]):
            G.bad("answer", fn, "union", o, "%s answers with a member of another value than the tagged union" % fn)
        return
    x = v[3]
    if truncated(x):
        G.bad("answer", fn, "width", o, "%s cuts the member's number short" % fn)
        return
    if m == 1:
        if x != pid and not unknown(x):
            G.bad("answer", fn, "constant", o, "%s does not answer with the member selected once and for all" % fn)
        return
    if m is None:
        return
    if x == pid:
        G.bad("answer", fn, "selector", o, "%s does not ask the selector" % fn)
        return
    s = num_of(x)
    if s is not None:
        sibling(G, r, fn, o, s, name, "selector")
        if not any(f in facts(o) for f in (cmp_("slt", n, C(1)), cmp_("eq", n, C(0)), cmp_("eq", cases, C(0)))):
            G.bad("case", fn, "unmapped", o, "%s uses the selector's value as the member's number although there are cases" % fn)
        return
    q, by = None, None
    if x[0] == "ld":
        hit = index_in(x[1], cases, sz)
        if hit:
            q, by = hit[1], "id"
            if hit[0] != cs["union_fld_id"][0]:
                G.bad("case", fn, "field", o, "%s answers with another field of the case than the member's number" % fn)
    elif x[0] == "call" and x[1] == "metac_entry_member_name_to_id":
        hit = index_in(x[3][1], cases, sz) if x[3][0] == "ld" else None
        if hit:
            q, by = hit[1], "name"
            if hit[0] != cs["union_fld_name"][0]:
                G.bad("case", fn, "field", o, "%s looks for another name than the case's" % fn)
        if x[2] != ("call", "metac_value_entry", H[0]) and not unknown(x[2]):
            G.bad("case", fn, "entry", o, "%s looks for the case's member in another type than the union's" % fn)
    if q is None:
        if not unknown(x):
            G.bad("case", fn, "number", o, "%s answers with a member that neither the selector nor a case names" % fn)
        return
    r.ob("case", "%s by %s" % (fn, by))
    nm = ld(off(add(cases, ("lin", 0, ((q, sz),))), cs["union_fld_name"][0]))
    if by == "id" and cmp_("ne", nm, C(0)) in facts(o):
        G.bad("case", fn, "name ignored", o, "%s answers with a case's number although the case has a name" % fn)
    chosen(G, r, fn, o, cases, sz, q, n, name, "case")


def unanswered(G, r, fn, o, cases, sz, ask):
    """a path on which a case fitted, but which does not answer by it"""
    at = None
    for i, f in enumerate(o.facts):
        b = pathval.boolean(f)
        if b and b[0] == "eq":
            for x, y in ((b[1], b[2]), (b[2], b[1])):
                if x[0] == "ld" and (x[1] == cases or (index_in(x[1], cases, sz) or (1,))[0] == 0) and num_of(y) is not None:
                    at = i
    if at is None or any(c[0] in ask and (c[0] != "metac_new_value_by_member_id" or c[1][0] == H[0]) for c in o.calls):
        return
    r.ob("case", "%s refuses" % fn)
    for f in o.facts[at + 1:]:
        if f[0] == "cmp" and f[1] == "eq" and f[3] == C(0) and (f[2] == cases or index_in(f[2], cases, sz)):
            return                             # the address of a case is not NULL
        if pathval.mentions(f, lambda z: z[0] == "call" or z[0] == "ld" and (index_in(z[1], cases, sz) or (0,))[0] != 0 and
                            z[1][0] == "lin" and f[0] == "cmp" and f[1] == "eq" and fn == "metac_handle_ptr_cast"):
            return
    G.bad("case", fn, "unanswered", o, "%s does not answer although a case has the selector's value" % fn)


def chosen(G, r, fn, o, cases, sz, q, n, name, what):
    """case q was chosen by the selector's value"""
    fv = ld(add(cases, ("lin", 0, ((q, sz),))))
    sel = None
    for f in o.facts:
        b = pathval.boolean(f)
        if b and b[0] == "eq" and fv in b[1:]:
            sel = b[2] if b[1] == fv else b[1]
    if sel is None:
        if q[0] == "phi":
            counter = any(x.end == "back" and x.nxt and x.nxt[1].get(q[1]) in (add(q, C(1)), add(q, C(-1))) for x in G.cache[fn])
            if counter or any(pathval.mentions(f, lambda z: z == fv) for f in o.facts):
                G.bad("case", fn, "match", o, "%s takes a case whose value it has not found equal to the selector's" % fn)
        return
    s = num_of(sel)
    if s is None:
        if not unknown(sel):
            G.bad("case", fn, "selector", o, "%s compares the case with something other than the selector's value" % fn)
        return
    sibling(G, r, fn, o, s, name, "selector")
    span(G, r, fn, o, q, [n], "case", "case")


def judge_ptr_cast(G, r, fn, o, v, t):
    ctx, cs = G.L("metac_ptr_cast_context"), G.L("metac_ptr_cast_case")
    cn, sn = ld(off(A[2], ctx["sibling_count_fieldname"][0])), ld(off(A[2], ctx["sibling_selector_fieldname"][0]))
    n, cases = ld(off(A[2], ctx["cases_count"][0])), ld(off(A[2], ctx["p_cases"][0]))
    sz = cs["__sizeof__"][0]
    if o.end == "ret":
        unanswered(G, r, fn, o, cases, sz, ("metac_new_value", "metac_new_element_count_value"))
    if o.end != "ret" or v is None or v == C(0):
        return
    r.ob("answer", "%s" % fn)
    if v[0] != "call" or v[1] != "metac_new_element_count_value":
        if not unknown(v):
            G.bad("answer", fn, "value", o, "%s does not answer with an element count" % fn)
        return
    w, cnt = v[2], v[3]
    if w[0] == "call" and w[1] == "metac_new_value":
        if w[3] != ("call", "metac_value_addr", H[0]) and not unknown(w[3]) and w[3] != ("local",):
            G.bad("answer", fn, "address", o, "%s does not cast the tagged pointer" % fn)
        e = w[2]
        hit = index_in(e[1], cases, sz) if e[0] == "ld" else None
        if hit:
            if hit[0] != cs["p_ptr_entry"][0]:
                G.bad("case", fn, "field", o, "%s casts to another field of the case than its type" % fn)
            r.ob("case", fn)
            chosen(G, r, fn, o, cases, sz, hit[1], n, sn, "case")
        elif not unknown(e):
            G.bad("case", fn, "type", o, "%s casts to a type no case names" % fn)
    elif w == H[0]:
        G.bad("answer", fn, "cast", o, "%s does not cast the pointer" % fn)
    named = cmp_("ne", cn, C(0)) in facts(o)
    empty = any(f[0] == "cmp" and f[1] == "eq" and f[3] == C(0) and f[2][0] == "call" and f[2][1] in ("strcmp", "strlen") and cn in f[2][2:]
                for f in o.facts) or cmp_("eq", ld(cn), C(0)) in facts(o)
    if truncated(cnt):
        G.bad("answer", fn, "width", o, "%s cuts the count short" % fn)
        return
    s = num_of(cnt)
    if s is not None:
        sibling(G, r, fn, o, s, cn, "count")
    elif cnt[0] == "c":
        if named and not empty:
            G.bad("answer", fn, "count", o, "%s does not ask the count sibling" % fn)
        elif cnt != C(1):
            G.bad("answer", fn, "count", o, "%s casts to %d elements; without a count sibling it is one" % (fn, cnt[1]))
    elif not unknown(cnt) or pathval.mentions(cnt, lambda z: z[0] == "out" and z[1] == "metac_value_num"):
        G.bad("answer", fn, "count", o, "%s answers a count that is not the sibling's value" % fn)


CONTEXT = {
    "metac_new_count_by_context": ("metac_count_by_context", {"counter_sibling_entry_name": ("dup", 0)}),
    "metac_new_container_of_context": ("metac_container_of_context", {"member_offset": ("arg", 0), "p_coontainer_entry": ("arg", 1)}),
    "metac_new_union_member_permanent_selection": ("metac_union_member_select_by_context", {"mode": ("const", 1), "permanent_id": ("arg", 0)}),
    "metac_new_union_member_select_by_context": ("metac_union_member_select_by_context", {
        "mode": ("const", 0), "sibling_selector_fieldname": ("dup", 0), "cases_count": ("cases", 2), "p_cases": ("copy", 1)}),
    "metac_new_ptr_cast_context": ("metac_ptr_cast_context", {
        "sibling_count_fieldname": ("dup", 0), "sibling_selector_fieldname": ("dup", 1), "cases_count": ("cases", 3), "p_cases": ("copy", 2)}),
}


def contexts(G, r):
    csz = {"metac_new_union_member_select_by_context": G.L("metac_union_member_select_by_case"),
           "metac_new_ptr_cast_context": G.L("metac_ptr_cast_case")}
    for fn, (rec, fields) in CONTEXT.items():
        L = G.L(rec)
        if fn not in G.mod.fns or not L:
            continue
        for o in G.paths(fn):
            if o.end != "ret" or o.ret is None or o.ret[0] != "call" or o.ret[1] not in ("calloc", "malloc"):
                continue
            st = stores(o)
            zero = o.ret[1] == "calloc" or any(n == "memset" and a[0] == o.ret for n, a, i, s in o.calls)
            for k, (how, arg) in fields.items():
                v = st.get(off(o.ret, L[k][0]))
                if v is None and zero:
                    v = C(0)
                if v is None or unknown(v) and how != "copy":
                    continue
                r.ob("context", "%s %s" % (fn, k))
                if how == "arg" and v != A[arg]:
                    G.bad("context", fn, k, o, "%s: the context's %s is not the one given" % (fn, k))
                elif how == "const" and v != C(arg):
                    G.bad("context", fn, k, o, "%s: the context has the wrong %s" % (fn, k))
                elif how == "dup":
                    if cmp_("eq", A[arg], C(0)) in facts(o):
                        continue
                    if v == A[arg]:
                        G.bad("context", fn, k, o, "%s: the context's %s is the caller's string, not a copy" % (fn, k))
                    elif v == C(0) or v[0] == "call" and v[1] == "strdup" and v[2] != A[arg]:
                        G.bad("context", fn, k, o, "%s: the context's %s is not the one given" % (fn, k))
                elif how == "cases":
                    sz = csz[fn].get("__sizeof__", (0,))[0]
                    given = cmp_("ne", A[arg], C(0)) in facts(o) or cmp_("ugt", A[arg], C(0)) in facts(o)
                    if not given:
                        continue
                    if v == C(0):
                        G.bad("context", fn, k, o, "%s: the context does not record the number of cases" % fn)
                    elif v == A[arg]:
                        G.bad("context", fn, k, o, "%s: the context counts bytes, not cases" % fn)
                    elif v[0] == "op" and v[1] in ("udiv", "sdiv") and v[2] == A[arg] and v[3][0] == "c" and v[3] != C(sz):
                        G.bad("context", fn, k, o, "%s: the context's number of cases is counted in units of %d bytes, not %d" % (fn, v[3][1], sz))
                elif how == "copy":
                    given = cmp_("ne", A[arg + 1], C(0)) in facts(o) or cmp_("ugt", A[arg + 1], C(0)) in facts(o)
                    if not given:
                        continue
                    if v == A[arg]:
                        G.bad("context", fn, k, o, "%s: the context's cases are the caller's, not a copy" % fn)
                    elif v[0] == "call":
                        cp = [a for n, a, i, s in o.calls if n == "memcpy" and a[0] == v]
                        if cp and cp[0][1] != A[arg] and not unknown(cp[0][1]):
                            G.bad("context", fn, k, o, "%s: the context's cases are not the ones given" % fn)
                        elif cp and cp[0][2] != A[arg + 1] and cp[0][2][0] == "c":
                            G.bad("context", fn, k, o, "%s: not all cases are copied into the context" % fn)
