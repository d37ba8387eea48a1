"""C32 the memory map: which blocks it records, which of them lie inside another, and which a deep free releases."""
import pathval
from p_store import A, entry_values, facts, stores
from p_tags import Tags, fold, unknown
from pathval import C, add, cmp_, ld, lin, mul, neg, off
from result import Result

MAKE, FREE = "metac_new_value_memory_map_ex", "metac_value_free_ex"
DEQ = "metac_recursive_iterator_dequeue_and_delete_dep"


def bound(f, d):
    """("le", k): the fact says d <= k; ("ge", k): d >= k; None: nothing about d"""
    if f[0] != "cmp" or f[1] in ("eq", "ne"):
        return None
    op, x, y = f[1], f[2], f[3]
    if op[1:] in ("gt", "ge"):
        x, y, op = y, x, op[0] + {"gt": "lt", "ge": "le"}[op[1:]]
    if op[1:] not in ("lt", "le"):
        return None
    e = add(x, y, -1)
    c = add(e, d, -1)
    if c[0] == "c":                                    # x - y = d + c (<|<=) 0
        return "le", -c[1] - (1 if op[1:] == "lt" else 0)
    c = add(e, d)
    if c[0] == "c":                                    # x - y = -d + c (<|<=) 0
        return "ge", c[1] + (1 if op[1:] == "lt" else 0)
    return None


def check(pid, tier):
    r = Result("the memory map, path by path: the sweep over the sorted addresses (what each pass keeps as the current block and records as offset), the order it relies on, "
               "the recording of a pointer's target, what a new entry holds, and the callback of the deep free",
               "a block that begins inside the current one is recorded with its distance from that block's start and does not become the current one; one that begins at "
               "or behind its end does; the bigger of two blocks at an address is kept; only blocks that lie in no other are released, at their address")
    G = Tags(r, lambda n, internal, info: internal and info["size"] < 400 and n != "_identify_allocatable_entries", rewrite=fold)
    M = G.L("metac_memory_entry")
    if "offset_from_allocate_base" not in M or "byte_size" not in M:
        r.ob("open", "no memory entries")
        return r
    k = {n: M[n][0] for n in ("p_val", "byte_size", "children_count", "pp_children", "offset_from_allocate_base")}
    sweep(G, r, k)
    collected(G, r)
    order(G, r)
    recorded(G, r, k)
    entries(G, r, k)
    freed(G, r, k)
    keys(G, r)
    return r


def sweep(G, r, k):
    for fn in sorted(G.mod.fns):
        f = G.mod.fns[fn]
        if not any(i.op == "call" and i.callee == "qsort" for b in f.blocks for i in b.ins) and fn != "_identify_allocatable_entries":
            continue
        for h in G.headers(fn):
            outs = [o for o in G.paths(fn, start=h) if o.end == "back" and o.nxt[0] == h]
            recs = [(o, a, v) for o in outs for a, v, _ in o.stores if lin(a)[0] == k["offset_from_allocate_base"] and len(lin(a)[1]) == 1 and v != C(0)]
            gets = {("call", "hashmapGet") + tuple(c[1]) for o in outs for c in o.calls if c[0] == "hashmapGet"}
            if len(gets) != 1:
                continue
            e = next(iter(gets))
            pc = e[3]
            size = ld(off(e, k["byte_size"]))
            # the current block: its address and its entry
            vals = {}
            for o in outs:
                for ph, v in o.nxt[1].items():
                    vals.setdefault(("phi", ph), set()).add(v)
            main = [p for p, v in vals.items() if v <= {p, pc} and pc in v]
            ent = [p for p, v in vals.items() if v <= {p, e} and e in v]
            if len(ent) != 1 or len(main) > 1:
                if recs:
                    r.ob("open", "%s: no single current block" % fn)
                elif outs and any(a for o in outs for a, _, _ in o.stores) is False:
                    G.bad("sweep", fn, "never", outs[0], "%s never records that a block lies inside another" % fn)
                continue
            me = ent[0]
            # an address that is not kept apart may be taken from the entry's value
            m = main[0] if main else None
            if m is None:
                r.ob("open", "%s: the current block's address is not kept" % fn)
                continue
            d = add(add(m, ld(off(me, k["byte_size"]))), pc, -1)              # end of the current block - address
            if not recs:
                G.bad("sweep", fn, "never", outs[0], "%s never records that a block lies inside another" % fn)
                continue
            for p, what in ((m, "address"), (me, "entry")):
                ini = entry_values(G, f, next(i for i in f.blocks[h].ins if i.op == "phi" and i.id == p[1]))
                if ini != {C(0)} and all(pathval.clean(x) for x in ini):
                    r.ob("open", "%s: starts with a block" % fn)
            for o in outs:
                fs = facts(o)
                r.ob("sweep step", "%s %s" % (fn, o.where.where() if o.where.loc else ""))
                rec = [(a, v) for a, v, _ in o.stores if lin(a)[0] == k["offset_from_allocate_base"] and lin(a)[1] == {e: 1}]
                v = rec[-1][1] if rec else None
                nm, ne = o.nxt[1][m[1]], o.nxt[1][me[1]]
                if nm not in (m, pc) or ne not in (me, e):
                    continue
                if (nm == pc) != (ne == e):
                    G.bad("sweep", fn, "pair", o, "%s takes the address and the entry of the current block from different blocks" % fn)
                    continue
                if any(x in fs for x in (cmp_("eq", size, C(0)), cmp_("ule", size, C(0)), cmp_("sle", size, C(0)), cmp_("ult", size, C(1)), cmp_("slt", size, C(1)))):
                    if nm == pc:
                        G.bad("sweep", fn, "empty", o, "%s takes a block without size as the current one: what lies inside the one before is no longer found" % fn)
                    continue
                if nm == pc and not any(pathval.mentions(x, lambda z: z == size) for x in o.facts if x[0] == "cmp" and (x[1], x[3]) != ("uge", C(0))):
                    G.bad("sweep", fn, "empty", o, "%s takes a block as the current one without having asked for its size: what lies inside the one before is no longer found" % fn)
                    continue
                bs = [b for b in (bound(x, d) for x in o.facts) if b]
                none = cmp_("eq", m, C(0)) in fs or cmp_("eq", me, C(0)) in fs
                if none:
                    if nm != pc:
                        G.bad("sweep", fn, "first", o, "%s does not begin with the first block" % fn)
                    if v not in (None, C(0)):
                        G.bad("sweep", fn, "first", o, "%s records the first block as lying inside another" % fn)
                    continue
                if not bs:
                    if v not in (None, C(0)) and pathval.clean(v):
                        G.bad("sweep", fn, "unasked", o, "%s records a block as lying inside another without having compared its address with that one's end" % fn)
                    elif nm == pc:
                        G.bad("sweep", fn, "unasked", o, "%s leaves the current block without having compared its end with the next address" % fn)
                    continue
                hi = min([x for op, x in bs if op == "le"], default=None)
                lo = max([x for op, x in bs if op == "ge"], default=None)
                if hi is not None and hi <= 0:                                # at or behind its end
                    if nm != pc:
                        G.bad("sweep", fn, "behind", o, "%s does not take a block behind the current one as the current one" % fn)
                    if v not in (None, C(0)):
                        G.bad("sweep", fn, "behind", o, "%s records a block behind another as lying inside it" % fn)
                elif lo is not None and lo >= 1:
                    if nm == pc:
                        G.bad("sweep", fn, "inside", o, "%s takes a block inside the current one as the current one" % fn)
                    if v is None or v == C(0):
                        G.bad("sweep", fn, "inside", o, "%s does not record that a block lies inside the current one" % fn)
                    elif v != add(pc, m, -1) and all(t in (pc, m, ld(off(me, k["byte_size"])), size) for t in lin(v)[1]):
                        G.bad("sweep", fn, "offset", o, "%s does not record a block's distance from the start of the one it lies in" % fn)
                elif nm == pc and (v is None or v == C(0)):
                    G.bad("sweep", fn, "edge", o, "%s takes a block that may begin inside the current one as the current one" % fn)
                elif nm != pc:
                    G.bad("sweep", fn, "edge", o, "%s takes a block that begins right behind the current one for a part of it" % fn)
            # one pass per address, first to last
            idx = [t for t in lin(pc[1])[1] if t[0] == "phi"] if pc[0] == "ld" else []
            for t in idx:
                if lin(pc[1])[1][t] != 8:
                    continue
                ini = entry_values(G, f, next(i for i in f.blocks[h].ins if i.op == "phi" and i.id == t[1]))
                if ini != {C(0)} and all(x[0] == "c" for x in ini):
                    G.bad("sweep", fn, "start", outs[0], "%s does not start with the first address" % fn)
                for o in outs:
                    s = add(o.nxt[1][t[1]], t, -1)
                    if s[0] == "c" and s != C(1):
                        G.bad("sweep", fn, "skip", o, "%s passes over addresses" % fn)
                for o in G.paths(fn):
                    q = [c for c in o.calls if c[0] == "qsort"]
                    if q and o.end == "ret":
                        for x in o.facts:
                            b = bound(x, add(q[0][1][1], t, -1))              # count - index
                            if b and b[0] == "le" and b[1] < 0:
                                G.bad("order", fn, "count", o, "%s does not sort all addresses it sweeps over" % fn)
                            if b and b[0] == "le" and b[1] > 0:
                                G.bad("sweep", fn, "end", o, "%s leaves out the last address" % fn)


def collected(G, r):
    """the walk that collects the addresses: one slot per address"""
    cbs = set()
    fn = "_identify_allocatable_entries"
    for o in G.paths(fn) if fn in G.mod.fns else ():
        for c in o.calls:
            if c[0] == "hashmapForEach" and c[1][1][0] == "fn":
                cbs.add(c[1][1][1])
    for fn in sorted(cbs):
        for o in G.paths(fn):
            if o.end != "ret" or o.ret == C(0):
                continue
            r.ob("collected", fn)
            slot = [(a, v, lin(a)[1]) for a, v, _ in o.stores if 8 in lin(a)[1].values()]
            if len(slot) != 1:
                if not o.stores and o.ret[0] == "c":
                    G.bad("collect", fn, "lost", o, "%s leaves an address out" % fn)
                continue
            a, v, t = slot[0]
            if v != A[0] and pathval.clean(v):
                G.bad("collect", fn, "value", o, "%s collects something other than the address" % fn)
            i = [z for z, q in t.items() if q == 8 and z[0] == "ld"]
            if len(i) == 1 and lin(a)[0] == 0:
                nx = [w for b, w, _ in o.stores if b == i[0][1]]
                if (not nx or nx[-1] != add(i[0], C(1))) and all(pathval.clean(w) for w in nx):
                    G.bad("collect", fn, "slot", o, "%s does not give each address a place of its own" % fn)


def order(G, r):
    """the addresses are sorted, all of them, ascending"""
    cmps = set()
    for fn in sorted(G.mod.fns):
        f = G.mod.fns[fn]
        if f.file and not f.file.endswith("value_deep.c"):
            continue
        for b in f.blocks:
            for i in b.ins:
                if i.op == "call" and i.callee == "qsort":
                    for o in G.paths(fn):
                        for c in o.calls:
                            if c[0] == "qsort":
                                if c[1][3][0] == "fn":
                                    cmps.add(c[1][3][1])
                                if c[1][2][0] == "c" and c[1][2] != C(8):
                                    G.bad("order", fn, "width", o, "%s sorts addresses as elements of %d bytes" % (fn, c[1][2][1]))
    if "_identify_allocatable_entries" in G.mod.fns and not cmps:
        fn = "_identify_allocatable_entries"
        ok = ("hashmap", "calloc", "malloc", "free", "printf", "__assert_fail")
        outs = [o for o in G.paths(fn) if o.end == "ret" and any(c[0] == "hashmapForEach" for c in o.calls)]
        if outs and all(c[0].startswith(ok) for o in outs for c in o.calls) and len(G.headers(fn)) == 1:
            G.bad("order", fn, "unsorted", outs[0], "%s sweeps over addresses it has not sorted" % fn)
    x, y = ld(A[0]), ld(A[1])

    def at(e, s):
        """e with x compared to y as s (-1, 0, 1); None: not made of such comparisons"""
        if e[0] == "c":
            return e[1]
        if e[0] == "cmp":
            if (e[2], e[3]) not in ((x, y), (y, x)) or e[1][0] == "s" and e[1] not in ("eq", "ne"):
                return None
            w = s if e[2] == x else -s
            return int({"eq": w == 0, "ne": w != 0, "ult": w < 0, "ule": w <= 0, "ugt": w > 0, "uge": w >= 0}[e[1]])
        if e[0] == "lin":
            n = e[1]
            for t, q in e[2]:
                v = at(t, s)
                if v is None:
                    return None
                n += v * q
            return n
        return None

    for fn in sorted(cmps):
        for o in G.paths(fn):
            if o.end != "ret":
                continue
            r.ob("order", fn)
            v, fs = o.ret, facts(o)
            if v[0] == "c" and not any(pathval.mentions(g, lambda z: z[0] in ("i", "undef")) for g in fs):
                s = (v[1] > 0) - (v[1] < 0)
                lt = cmp_("ult", x, y) in fs
                gt = cmp_("ult", y, x) in fs or cmp_("ule", y, x) in fs and cmp_("ne", x, y) in fs or cmp_("ule", y, x) in fs and cmp_("ne", y, x) in fs
                lt = lt or cmp_("ule", x, y) in fs and (cmp_("ne", x, y) in fs or cmp_("ne", y, x) in fs)
                eq = cmp_("eq", x, y) in fs or cmp_("ule", y, x) in fs and cmp_("ule", x, y) in fs
                if lt and s >= 0 or gt and s <= 0 or eq and s != 0:
                    G.bad("order", fn, "sign", o, "%s does not put the lower address first" % fn)
            elif all(at(v, s) is not None for s in (-1, 0, 1)):
                for s in (-1, 0, 1):
                    w = at(v, s)
                    if (w > 0) - (w < 0) != s and all(at(g, s) in (1, None) for g in o.facts if g[0] == "cmp"):
                        G.bad("order", fn, "sign", o, "%s does not put the lower address first" % fn)
            elif v[0] in ("tr", "lin") and not pathval.mentions(v, lambda z: z[0] == "cmp") and pathval.mentions(v, lambda z: z == x) and pathval.mentions(v, lambda z: z == y):
                G.bad("order", fn, "cut", o, "%s answers with a difference of addresses cut to an int" % fn)


def recorded(G, r, k):
    fn = MAKE
    if fn not in G.mod.fns:
        return
    for h in G.headers(fn)[:1]:
        for o in G.paths(fn, start=h):
            dq = [("call", DEQ) + tuple(c[1]) for c in o.calls if c[0] == DEQ]
            fs = facts(o)
            puts = [c[1] for c in o.calls if c[0] == "hashmapPut"]
            for c in puts:
                r.ob("recorded", "%s %s" % (fn, o.where.where() if o.where.loc else ""))
                t = c[2]
                if t not in dq and (not unknown(t) or t[0] == "call" and t[1] in ("metac_new_memory_entry", "metac_recursive_iterator_get_context")):
                    G.bad("record", fn, "entry", o, "%s records something other than the pointer's target" % fn)
                elif c[1] != ("call", "metac_value_addr", ld(off(t, k["p_val"]))) and not unknown(c[1], ("i",)) and c[1][0] == "call":
                    G.bad("record", fn, "address", o, "%s records the pointer's target under another address than its own" % fn)
                old = ("call", "hashmapGet", c[0], c[1])
                has = ("call", "hashmapContainsKey", c[0], c[1])
                d = add(ld(off(t, k["byte_size"])), ld(off(old, k["byte_size"])), -1)
                b = [x for x in (bound(g, d) for g in o.facts) if x]
                if cmp_("ne", has, C(0)) in fs or cmp_("ne", old, C(0)) in fs:
                    if not any(op == "ge" and n >= 0 for op, n in b):
                        G.bad("record", fn, "smaller", o, "%s replaces what is recorded at an address without having found the new block bigger" % fn)
            if puts or not any(c[0] == "metac_recursive_iterator_done" for c in o.calls) or len(dq) != 1:
                continue
            # a target that is kept but not recorded
            t = dq[0]
            kept = [a for a, v, _ in o.stores if v == t and a[0] == "ld" and a[1][0] == "lin" and lin(a[1])[0] == k["pp_children"]]
            if not kept:
                continue
            r.ob("kept", "%s %s" % (fn, o.where.where() if o.where.loc else ""))
            addr = ("call", "metac_value_addr", ld(off(t, k["p_val"])))
            maps = {c[1][0] for c in o.calls if c[0].startswith("hashmap")}
            hit = False
            for mp in maps:
                old, has = ("call", "hashmapGet", mp, addr), ("call", "hashmapContainsKey", mp, addr)
                d = add(ld(off(t, k["byte_size"])), ld(off(old, k["byte_size"])), -1)
                b = [x for x in (bound(g, d) for g in o.facts) if x]
                hit = True
                if not any(op == "le" and n <= 0 for op, n in b):
                    G.bad("record", fn, "dropped", o, "%s does not record a pointer's target though what is recorded at its address has not been found as big" % fn)
            if not hit and not any(g[0] == "cmp" and g[1] == "eq" and g[3] == C(0) and g[2][0] == "ld" or
                                   g[0] == "cmp" and g[1] == "ne" and g[3] == C(0) and g[2][0] == "phi" for g in o.facts):
                G.bad("record", fn, "missed", o, "%s does not record a pointer's target" % fn)


def entries(G, r, k):
    fn = "metac_new_memory_entry"
    for o in G.paths(fn):
        if o.end != "ret" or o.ret is None or o.ret[0] != "call":
            continue
        st = stores(o)
        r.ob("entry", fn)
        for n, a in (("p_val", A[0]), ("byte_size", A[1])):
            v = st.get(off(o.ret, k[n]))
            if v != a and (v is None or pathval.clean(v)):
                G.bad("entry", fn, n, o, "%s does not keep the %s given" % (fn, n))
        n = st.get(off(o.ret, k["children_count"]))
        ch = st.get(off(o.ret, k["pp_children"]))
        if n is not None and n != C(0):
            if n != A[2]:
                G.bad("entry", fn, "count", o, "%s does not keep the number of children" % fn)
            if ch is None or ch[0] != "call" or ch[1] == "calloc" and set(ch[2:4]) != {A[2], C(8)}:
                G.bad("entry", fn, "children", o, "%s does not make room for all children" % fn)
        elif cmp_("sgt", A[2], C(0)) in facts(o):
            G.bad("entry", fn, "count", o, "%s does not keep the number of children" % fn)


def freed(G, r, k):
    if FREE not in G.mod.fns:
        return
    cbs = set()
    done = False
    for o in G.paths(FREE):
        mp = [("call", MAKE) + tuple(c[1]) for c in o.calls if c[0] == MAKE]
        if o.end != "ret" or not mp:
            continue
        each = [c[1] for c in o.calls if c[0] == "hashmapForEach"]
        for c in each:
            if c[1][0] == "fn":
                cbs.add(c[1][1])
        if o.ret != C(0) and o.ret[0] == "c":
            done = True
            r.ob("free", FREE)
            if not each and all(c[0] in (MAKE, "metac_value_memory_map_delete", "metac_memory_map_delete") for c in o.calls):
                G.bad("free", FREE, "nothing", o, "%s reports success without going over the blocks" % FREE)
    for fn in sorted(cbs):
        for o in G.paths(fn):
            if o.end != "ret":
                continue
            fs = facts(o)
            base = ld(off(A[1], k["offset_from_allocate_base"]))
            rel = [c for c in o.calls if c[0] in ("*", "free")]
            r.ob("release", fn)
            part = cmp_("ne", base, C(0)) in fs or cmp_("ugt", base, C(0)) in fs
            whole = cmp_("eq", base, C(0)) in fs
            if rel and part:
                G.bad("free", fn, "part", o, "%s releases a block that lies inside another" % fn)
            elif rel and not whole:
                G.bad("free", fn, "unasked", o, "%s releases a block without having asked whether it lies inside another" % fn)
            if len(rel) > 1:
                G.bad("free", fn, "twice", o, "%s releases a block twice" % fn)
            for c in rel:
                if c[1][0] != A[0] and pathval.clean(c[1][0]) and c[1][0] != ("call", "metac_value_addr", ld(off(A[1], k["p_val"]))):
                    G.bad("free", fn, "address", o, "%s releases something other than the block" % fn)
            if not rel and whole and not any(g[0] == "cmp" and g[1] == "eq" and g[3] == C(0) and g[2] not in (base,) for g in o.facts):
                G.bad("free", fn, "kept", o, "%s does not release a block that lies in no other" % fn)
            if o.ret == C(0):
                G.bad("free", fn, "stop", o, "%s ends the walk over the blocks" % fn)


def keys(G, r):
    """addresses are told apart by their identity"""
    fns = set()
    for b in G.mod.fns[MAKE].blocks if MAKE in G.mod.fns else ():
        for i in b.ins:
            if i.op == "call" and i.callee == "hashmapCreate":
                fns.add((tuple(i.ops[1]), tuple(i.ops[2])))
    for hs, eq in fns:
        if eq[0] == "fn" and eq[1] in G.mod.fns:
            for o in G.paths(eq[1]):
                if o.end != "ret":
                    continue
                r.ob("key", eq[1])
                same = cmp_("eq", A[0], A[1])
                v = o.ret
                if v[0] == "c" and ((v[1] != 0) != (same in facts(o)) or neg(same) in facts(o) and v[1] != 0):
                    G.bad("key", eq[1], "equal", o, "%s does not tell addresses apart by their identity" % eq[1])
                elif v[0] != "c" and v not in (same, cmp_("eq", A[1], A[0])) and pathval.clean(v):
                    G.bad("key", eq[1], "equal", o, "%s does not tell addresses apart by their identity" % eq[1])
        if hs[0] == "fn" and hs[1] in G.mod.fns:
            for o in G.paths(hs[1]):
                for c in o.calls:
                    if c[0] == "hashmapHash":
                        r.ob("key", hs[1])
                        if c[1][0] == A[0]:
                            G.bad("key", hs[1], "hash", o, "%s computes the hash from the memory at the address, which may change or be too short" % hs[1])
                        elif c[1][1][0] == "c" and c[1][1][1] > 8:
                            G.bad("key", hs[1], "width", o, "%s reads beyond the address" % hs[1])
