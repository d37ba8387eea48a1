"""C06: every element of a counted collection is addressed by an index inside [0, count)."""
import ir
import model
import vn
from result import Result

# (struct, array field, count field)
ARRAYS = [
    ("metac_entry", "parents", "parents_count"),
    ("enumeration_type_info", "enumerators", "enumerators_count"),
    ("structure_type_info", "members", "members_count"),
    ("structure_type_info", "hierarchy_items", "hierarchy_items_count"),
    ("subprogram_info", "parameters", "parameters_count"),
    ("subprogram_info", "hierarchy_items", "hierarchy_items_count"),
    ("subroutine_type_info", "parameters", "parameters_count"),
    ("lex_block_info", "hierarchy_items", "hierarchy_items_count"),
    ("namespace_info", "hierarchy_items", "hierarchy_items_count"),
    ("compile_unit_info", "decl_files", "decl_files_count"),
    ("compile_unit_info", "hierarchy_items", "hierarchy_items_count"),
    ("metac_tag_map", "p_categories", "categories_count"),
    ("name_to_entries", "items", "items_count"),
    ("name_to_entries_info", "entries", "entries_count"),
    ("metac_union_member_select_by_context", "p_cases", "cases_count"),
    ("metac_ptr_cast_context", "p_cases", "cases_count"),
]


def array_table():
    """struct type -> {array offset: (count offset, count size, names)}"""
    L = ir.layouts()
    out = {}
    for s, a, c in ARRAYS:
        S = L.get(s) or L.get("struct " + s)
        if S is None or a not in S or c not in S:
            continue
        sz = 8 if S[c][1] in ("size_t", "metac_size_t", "unsigned long") else 4
        out.setdefault("struct." + s, {})[S[a][0]] = (S[c][0], sz, a, c)
    return out


def compared_only(V, i, depth=0):
    us = V.users(i.id)
    return bool(us) and all(u.op == "icmp" or (u.op in ("ptrtoint", "bitcast", "sub", "phi") and depth < 3 and compared_only(V, u, depth + 1))
                            for u in us)


class Scan:
    def __init__(self, mod, T):
        self.mod, self.T = mod, T

    def collection(self, V, base, loads):
        """the array/count fields a loaded base pointer belongs to"""
        for d in loads.get(base, ()):
            a = d.ops[0]
            g = V.ins.get(a[1]) if a[0] == "i" else None
            if g is None or g.op != "gep":
                continue
            p = [x for x in g.gep[2] if x[0] != "[]"]
            if p and p[-1][0] in self.T:
                aoff = self.mod.structs[p[-1][0]][p[-1][1]][0]
                ent = self.T[p[-1][0]].get(aoff)
                if ent:
                    return p[-1][0], aoff, ent
        return None

    def run(self):
        """yields (function, instruction, struct, array name, count name, reason or None)"""
        for n in sorted(self.mod.fns):
            f = self.mod.fns[n]
            V = vn.View(self.mod, f)
            loads = {}
            for b in f.blocks:
                for i in b.ins:
                    if i.op == "load" and i.ty == ("p",):
                        loads.setdefault(V.val(("i", i.id)), []).append(i)
            # values stored as the count of a structure under construction
            stored = {}
            for b in f.blocks:
                for i in b.ins:
                    if i.op == "store":
                        stored.setdefault(V.val(i.ops[1]), []).append(V.val(i.ops[0]))
            for b in f.blocks:
                if b.idx not in V.reach:
                    continue
                for i in b.ins:
                    if i.op != "gep" or not i.gep[1]:
                        continue
                    base = V.val(i.ops[0])
                    if base[0] != "ld":
                        continue
                    c = self.collection(V, base, loads)
                    if c is None or compared_only(V, i):
                        continue
                    S, aoff, ent = c
                    addr = base[1]
                    pa, po = (addr[1], addr[2]) if addr[0] == "off" else (addr, 0)
                    co = po - aoff + ent[0]
                    ca = ("off", pa, co) if co else pa
                    cands = [("ld", ca, ent[1])] + stored.get(ca, [])
                    idx = V.val(i.gep[1][0][0])
                    fs = V.facts(b.idx)
                    why = None
                    if not (V.nonneg(idx, fs) or any(p == "ult" and x == idx for p, x, y in fs)):
                        why = "the index may be negative"
                    elif not any(V.below(idx, w, fs) for w in cands):
                        why = "the index may reach or exceed %s" % ent[3]
                    yield n, i, S, ent[2], ent[3], why


def elements(mod, r, seen):
    """metac_new_value_by_element_id: the element's address is computed only for 0 <= id < count"""
    n = "metac_new_value_by_element_id"
    if n not in mod.fns:
        return
    V = vn.View(mod, mod.fns[n])
    L = ir.layouts()
    E = L.get("metac_entry") or L.get("struct metac_entry")
    cnt = E.get("array_type_info.count")
    for b in V.fn.blocks:
        if b.idx not in V.reach:
            continue
        for i in b.ins:
            if i.op == "call" and i.callee == "metac_new_value" and len(i.ops) > 1:
                a = V.val(i.ops[1])
                if not V._mentions(a, ("a", 1)):
                    continue
                fs = V.facts(b.idx)
                lo = V.nonneg(("a", 1), fs)
                hi = any(counted(V, y if x == ("a", 1) else x, cnt) for p, x, y in fs
                         if (x == ("a", 1) and p in ("slt", "ult")) or (y == ("a", 1) and p in ("sgt", "ugt")))
                seen.append((i.where(), lo, hi))


def counted(V, w, cnt, depth=0):
    if depth > 4 or not isinstance(w, tuple):
        return False
    if w[0] == "call" and "element_count" in w[1]:
        return True
    if w[0] == "ld" and cnt and w[1][0] == "off" and w[1][2] == cnt[0]:
        return True
    if w[0] == "i":
        i = V.ins.get(w[1])
        if i is not None and i.op == "call" and "element_count" in (i.callee or ""):
            return True
        if i is not None and i.op == "phi":
            vs = [V.val(x) for x in i.ops]
            vs = [x for x in vs if not (x[0] == "c" and x[1] <= 0)]
            return bool(vs) and all(counted(V, x, cnt, depth + 1) for x in vs)
    return False


def check(pid, tier):
    r = Result("every address computation with a variable index into a counted collection of the library's structures is "
               "enumerated from LLVM IR; the branch conditions that dominate it (value numbering, induction variables) must imply "
               "0 <= index < count of that same collection",
               "each indexed access to a description's parents, enumerators, members, parameters, hierarchy items, files or lookup "
               "entries, to tag-map categories and to handler cases is dominated by a check of both ends of the range")
    T = array_table()
    plain = Scan(ir.load_module(inline=lambda n, internal, info: False), T)
    wide = Scan(ir.load_module(inline=model.inline_policy(60)), T)
    own = {}                       # location -> owner functions
    got = {}
    for n, i, S, a, c, why in plain.run():
        k = (i.loc, S, a)
        own.setdefault(k, set()).add(n)
        got.setdefault(k, {})[("own", n)] = got.get(k, {}).get(("own", n)) or why
    for n, i, S, a, c, why in wide.run():
        k = (i.loc, S, a)
        got.setdefault(k, {})[("in", n)] = got.get(k, {}).get(("in", n)) or why
    for k in sorted(got, key=str):
        loc, S, a = k
        w = "%s:%d" % (loc[0], loc[1]) if loc else "?"
        st = got[k]
        o = sorted(own.get(k, ()))
        r.ob("indexed access", "%s %s.%s" % (w, S[7:], a))
        bad = [x for x in st if x[0] == "own" and st[x]]
        if o and not bad:
            continue
        ext = [n for n in o if n in wide.mod.fns]
        if ext:
            bad = [n for n in ext if st.get(("in", n), st.get(("own", n)))]
        else:
            bad = [n for (t, n) in st if t == "in" and st[(t, n)]]
        if bad:
            n = sorted(bad)[0]
            why = st.get(("in", n)) or st.get(("own", n))
            r.bad("index", "index|%s|%s|%s" % (n.split("@")[0], S[7:], a), w,
                  "%s addresses %s.%s with an index that is not known to lie in its range: %s" % (n, S[7:], a, why))
    el = []
    elements(wide.mod, r, el)
    for w, lo, hi in el:
        r.ob("element of a described array", w)
        if not (lo and hi):
            r.bad("element", "element|metac_new_value_by_element_id", w, "the address of an array element is computed although the id "
                  "may be %s" % ("negative" if not lo else "beyond the element count"))
    r.need("indexed access", 30)
    r.assumptions += ["descriptions are constant while an operation runs (two reads of the same count give the same value)"]
    return r
