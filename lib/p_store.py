"""C15 lookup database, C22 hash map, C23 parameter lists and traversal queues: what each operation does to its structure,
path by path."""
import ir
import pathval
from pathval import C, add, cmp_, ld, lin, mul, neg, off
from result import Result

A = [("a", k) for k in range(8)]


class Base:
    def __init__(self, r, inline, rewrite=None):
        self.r = r
        self.mod = ir.load_module(inline=inline)
        self.rewrite = rewrite
        L = ir.layouts()
        self.L = lambda n: L.get(n) or L.get("struct " + n) or {}

    def paths(self, fn, assign=None, start=0):
        f = self.mod.fns.get(fn)
        if f is None:
            return []
        try:
            return pathval.Paths(self.mod, f, assign or {}, rewrite=self.rewrite).run(start=start)
        except pathval.TooMany:
            return []

    def headers(self, fn):
        f = self.mod.fns.get(fn)
        return sorted(pathval.Paths(self.mod, f).headers) if f else []

    def where(self, fn, o=None):
        f = self.mod.fns[fn]
        return o.where.where() if o is not None and o.where.loc else "%s:%d" % (f.file, f.line)

    def bad(self, rule, fn, key, o, text):
        self.r.bad(rule, "%s|%s|%s" % (rule, fn, key), self.where(fn, o), text)


def stores(o):
    d = {}
    for a, v, i in o.stores:
        d[a] = v
    return d


def facts(o):
    return set(o.facts)


# ------------------------------------------------------------------ C15
def check_db(pid, tier):
    r = Result("each binary search of the entry database is followed from its key, its comparison function and its table "
               "(value numbering along the paths of the lookup, LLVM IR)",
               "key, comparison and sorted table of one search refer to the same field of the same record; the comparison orders "
               "its first argument against its second; an entry is answered only if it is the only one")
    G = Base(r, lambda n, internal, info: internal)
    fn = "metac_entry_from_entry_db"
    REC = {n: G.L(n) for n in ("metac_per_file_item", "metac_per_loc_item", "metac_per_name_item")}
    KEY = {"metac_per_file_item": "file", "metac_per_loc_item": "loc_name", "metac_per_name_item": "name"}
    DB, DL = G.L("metac_entry_db"), G.L("metac_decl_loc")
    # comparison functions: which field, which order
    comp = {}
    for n, f in G.mod.fns.items():
        os_ = [o for o in G.paths(n) if o.end == "ret" and o.ret is not None] if len(f.blocks) < 12 and len(f.params) == 2 else []
        if len(os_) == 1:
            v = os_[0].ret
            if v[0] == "call" and v[1] in ("strcmp", "strncmp", "strcasecmp", "strcoll", "strncasecmp"):
                comp[n] = v
            elif pathval.clean(v) and pathval.mentions(v, lambda x: x[0] == "call" and x[1].startswith("str")) and not \
                    pathval.mentions(v, lambda x: x[0] == "op"):
                comp[n] = ("call", "something other than the order of the names", None, None)
    found = 0
    prev = None
    for o in G.paths(fn):
        base = A[0]
        for n, args, i, snap in o.calls:
            if n != "bsearch":
                continue
            found += 1
            recs = [k for k, x in REC.items() if x and C(x["__sizeof__"][0]) == args[3]]
            # the table says which record it is
            table = None
            for rec, b, arr, cnt in (("metac_per_file_item", A[0], "per_file_items", "per_file_item_count"),
                                     ("metac_per_loc_item", prev_of(args[1]), "per_loc_items", "per_loc_item_count"),
                                     ("metac_per_name_item", prev_of(args[1]), "per_name_items", "per_name_item_count")):
                own = {"metac_per_file_item": DB, "metac_per_loc_item": REC["metac_per_file_item"], "metac_per_name_item": REC["metac_per_loc_item"]}[rec]
                if b is None or arr not in own or (b == A[0]) != (rec == "metac_per_file_item"):
                    continue
                if args[1] == ld(off(b, own[arr][0])):
                    parent = {"metac_per_loc_item": "per_file", "metac_per_name_item": "per_loc"}.get(rec)
                    if parent and kind_of(b) != parent:
                        continue
                    table = (rec, b, own, arr, cnt)
            if table is None:
                continue
            rec, b, own, arr, cnt = table
            r.ob("search", "%s %s" % (i.where(), arr))
            R = REC[rec]
            if args[2] != ld(off(b, own[cnt][0])) and pathval.clean(args[2]):
                G.bad("count", fn, arr, o, "the search in %s is not limited by %s" % (arr, cnt))
            if args[3] != C(R["__sizeof__"][0]):
                G.bad("size", fn, arr, o, "the search in %s uses elements of %s bytes, not %d" % (arr, args[3][1:], R["__sizeof__"][0]))
            ko = R[KEY[rec]][0]
            cf = args[4]
            nm = cf[1] if cf[0] in ("g", "f", "fn") else None
            if nm in comp:
                c = comp[nm]
                want = (ld(off(A[0], ko)), ld(off(A[1], ko)))
                if c[1] != "strcmp":
                    G.bad("comparison", fn, arr, o, "the search in %s compares with %s; the table is sorted by whole names" % (arr, c[1]))
                elif c[2:4] == want[::-1]:
                    G.bad("comparison", fn, arr, o, "the search in %s compares in the opposite order of its sorting" % arr)
                elif c[2:4] != want:
                    G.bad("comparison", fn, arr, o, "the search in %s compares a field other than %s" % (arr, KEY[rec]))
            if 0 in snap:
                d, z = snap[0]
                want = {"metac_per_file_item": ld(off(A[1], DL["file"][0])), "metac_per_loc_item": ld(off(A[1], DL["name"][0])),
                        "metac_per_name_item": A[2]}[rec]
                got = d.get(ko)
                if got is None or (got != want and pathval.clean(got)):
                    G.bad("key", fn, arr, o, "the search in %s does not look for the %s asked for" % (arr, {"metac_per_file_item": "file",
                          "metac_per_loc_item": "location name", "metac_per_name_item": "name"}[rec]))
        if o.end == "ret" and o.ret is not None and o.ret != C(0):
            # answered with the first entry of the record found
            R = REC["metac_per_name_item"]
            hit = []
            pathval.mentions(o.ret, lambda x: x[0] == "call" and x[1] == "bsearch" and kind_of(x) == "per_name" and hit.append(x))
            any_ = pathval.mentions(o.ret, lambda x: x[0] == "call" and x[1] == "bsearch")
            if not any_:
                continue
            r.ob("answer", G.where(fn, o))
            if not hit or o.ret != ld(ld(off(hit[0], R["pp_entries"][0]))):
                G.bad("answer", fn, "field", o, "%s does not answer with the entry recorded under the name" % fn)
                continue
            cnt = ld(off(hit[0], R["entry_count"][0]))
            if cmp_("eq", cnt, C(1)) not in facts(o) and not (cmp_("sgt", cnt, C(0)) in facts(o) and cmp_("slt", cnt, C(2)) in facts(o)):
                G.bad("ambiguous", fn, "count", o, "%s answers although more than one (or no) entry has that name" % fn)
    # a single entry must be answered
    rets = [o for o in G.paths(fn) if o.end == "ret"]
    one = []
    for o in rets:
        hits = [f for f in o.facts if f[0] == "cmp" and f[1] == "eq" and f[3] == C(1)]
        if hits and o.ret == C(0) and not [f for f in o.facts if f[0] == "cmp" and f[1] == "eq" and f[3] == C(0)]:
            one.append(o)
    for o in one:
        G.bad("lost", fn, "single", o, "%s answers nothing although exactly one entry has that name" % fn)
    r.count("comparison functions", len(comp))
    return r


def prev_of(t):
    """the record a table address was read from"""
    if t[0] != "ld":
        return None
    c, d = lin(t[1])
    if len(d) == 1:
        return next(iter(d))
    return None


def kind_of(e):
    """which table a search result belongs to (by depth of the chain)"""
    n = 0
    while e is not None and e[0] == "call" and e[1] == "bsearch":
        n += 1
        e = prev_of(e[3])
    return {1: "per_file", 2: "per_loc", 3: "per_name"}.get(n) if e == A[0] else None


# ------------------------------------------------------------------ C22
def check_map(pid, tier):
    r = Result("the effects of each hash map operation on its buckets, entries and size are computed along every path (one pass per loop "
               "with unknown loop variables) over LLVM IR",
               "every operation finds a key's bucket in the same way, a hit needs equal keys, insertion links a complete entry and "
               "counts it, removal unlinks it and uncounts it, growth relinks every entry by its stored hash")
    G = Base(r, lambda n, internal, info: internal)
    M = {"buckets": 0, "bucketCount": 8, "size": 32}
    En = {"key": 0, "hash": 8, "value": 16, "next": 24}
    LM, LE = G.L("Hashmap"), G.L("Entry")
    for k in M:
        if k in LM:
            M[k] = LM[k][0]
    for k in En:
        if k in LE:
            En[k] = LE[k][0]
    size, bc = off(A[0], M["size"]), ld(off(A[0], M["bucketCount"]))
    esz = LE.get("__sizeof__", (32,))[0]
    ops = [f for f in ("hashmapPut", "hashmapGet", "hashmapContainsKey", "hashmapMemoize", "hashmapRemove") if f in G.mod.fns]
    # ---- bucket of a key
    buckets = {}
    for fn in ops:
        f = G.mod.fns[fn]
        P = pathval.Paths(G.mod, f)
        vals = set()
        for h in sorted(P.headers):
            for i in f.blocks[h].ins:
                if i.op != "phi":
                    break
                if i.ty != ("p",):
                    continue
                outs = entry_values(G, f, i)
                for v in outs:
                    vals.add(v[1] if v[0] == "ld" else v)
        vals = {norm_mod(v) for v in vals if is_bucket(v, A[0], M) and not pathval.mentions(v, lambda x: x[0] == "phi")}
        if len(vals) == 1:
            buckets[fn] = next(iter(vals))
            r.ob("bucket", "%s" % fn)
    if buckets:
        exprs = {}
        for fn, v in buckets.items():
            exprs.setdefault(v, []).append(fn)
        if len(exprs) > 1:
            most = max(exprs.values(), key=len)
            for v, fns in exprs.items():
                if fns is not most:
                    G.bad("bucket", fns[0], "index", None, "%s looks in another bucket than %s" % (", ".join(fns), ", ".join(most)))
        h = hash_of(next(iter(exprs)), M)
    hashes = {fn: hash_of(v, M) for fn, v in buckets.items()}
    G.types = {fn: {i.id: i.ty for b in G.mod.fns[fn].blocks for i in b.ins if i.op == "phi"} for fn in ops}
    for fn in ops:
        outs = G.paths(fn)
        for o in outs:
            judge_map(G, r, fn, o, M, En, size, esz, hashes.get(fn))
    grow(G, r, M, En, size)
    walk(G, r, M, En)
    sweep(G, r, M, En)
    if "hashmapSize" in G.mod.fns:
        for o in G.paths("hashmapSize"):
            if o.end == "ret":
                r.ob("query", "hashmapSize")
                if o.ret != ld(size) and pathval.clean(o.ret):
                    G.bad("size", "hashmapSize", "ret", o, "hashmapSize does not answer the number of entries")
    for o in G.paths("hashmapCreate"):
        if o.end == "ret" and o.ret != C(0) and o.ret[0] == "call":
            st = stores(o)
            s = st.get(off(o.ret, M["size"]))
            if s is None and o.ret[1] == "calloc":
                s = C(0)
            r.ob("query", "hashmapCreate")
            if s != C(0):
                G.bad("size", "hashmapCreate", "init", o, "a new map does not start with size 0")
            b, n = st.get(off(o.ret, M["buckets"])), st.get(off(o.ret, M["bucketCount"]))
            if b is not None and n is not None and b[0] == "call" and b[1] == "calloc" and n not in b[2:4]:
                G.bad("relink", "hashmapCreate", "alloc", o, "hashmapCreate sets a number of buckets other than the number allocated")
    return r


def entry_values(G, f, phi):
    """values of a header variable when the loop is entered"""
    P = pathval.Paths(G.mod, f)
    back = {b for b, s in P.back if s == phi.block}
    out = set()
    # evaluate the straight prefix: paths up to the header
    for o, st in prefix(P, phi.block):
        for pb, x in phi.incoming:
            if pb not in back and pb == o[-1]:
                out.add(P.ev(x, st))
    return out


def prefix(P, target):
    """(path, state) of the acyclic paths from the entry to (not including) `target`"""
    res = []
    st = {"v": {}, "m": {}, "z": {}, "s": [], "c": [], "f": {}, "fl": []}
    todo = [(0, None, st, ())]
    n = 0
    while todo:
        b, pred, st, path = todo.pop()
        n += 1
        if n > 400:
            return res
        B = P.fn.blocks[b]
        for i in B.ins:
            if i.op == "phi":
                if b in P.headers:
                    st["v"][i.id] = ("phi", i.id)
                else:
                    for pb, x in i.incoming:
                        if pb == pred:
                            st["v"][i.id] = P.ev(x, st)
                continue
            if i.op == "select":
                st["v"][i.id] = ("i", i.id)
                continue
            v = P.step(i, st)
            if v is not None:
                st["v"][i.id] = v
        for s in dict.fromkeys(B.succ):
            if s == target:
                res.append((path + (b,), P.fork(st)))
            elif s not in path and (b, s) not in P.back:
                todo.append((s, b, P.fork(st), path + (b,)))
    return res


def norm_mod(e):
    """x % n and x & (n - 1) are the same for the power of two a bucket count is"""
    if not isinstance(e, tuple):
        return e
    e = tuple(norm_mod(x) for x in e)
    if e and e[0] == "op" and e[1] in ("urem",):
        a, b = e[2], add(e[3], C(-1))
        if repr(b) < repr(a):
            a, b = b, a
        return ("op", "and", a, b)
    return e


def is_bucket(v, m, M):
    c, d = lin(v)
    return any(t == ld(off(m, M["buckets"])) for t in d)


def hash_of(v, M):
    """the hash inside a bucket address: buckets + 8 * (hash & (count - 1))"""
    c, d = lin(v)
    for t, k in d.items():
        if k == 8 and t[0] in ("op", "and") and len(t) == 4 and t[1] == "and":
            cm = add(ld(off(A[0], M["bucketCount"])), C(-1))
            if t[3] == cm:
                return t[2]
            if t[2] == cm:
                return t[3]
    return None


def judge_map(G, r, fn, o, M, En, size, esz, h):
    st = stores(o)
    fs = facts(o)
    if o.end not in ("ret", "back"):
        return
    new = [c for c in o.calls if c[0] == "malloc" or c[0] == "calloc"]
    grown = any(a == off(A[0], M["buckets"]) for a in st)
    dsize = None
    if size in st:
        dsize = add(st[size], ld(size), -1)
    fe = [c for c in o.calls if c[0] == "free"]
    # the entry under consideration: *p
    hit = None
    for f in fs:
        if f[0] == "cmp" and f[1] == "eq" and A[1] in (f[2], f[3]):
            k = f[3] if f[2] == A[1] else f[2]
            if k[0] == "ld":
                hit = add(k[1], C(-En["key"]))
        if f[0] == "cmp" and f[1] == "ne" and f[3] == C(0) or f[0] not in ("cmp", "not", "c"):
            e = f[2] if f[0] == "cmp" else f
            if e[0] == "call" and e[1] == "*" and len(e) == 5 and A[1] in (e[3], e[4]):
                k = e[4] if e[3] == A[1] else e[3]
                if k[0] == "ld" and e[2] != ("x",):
                    hit = add(k[1], C(-En["key"]))
    if hit is not None and o.end == "back":
        G.bad("lost", fn, "hit-continue", o, "%s goes on searching although the keys are equal" % fn)
        return
    if o.end == "back":
        if any(c[0] in ("malloc", "calloc") for c in o.calls):
            return                     # the relinking loop, judged in grow()
        r.ob("search step", "%s %s" % (fn, o.where.where()))
        if size in st:
            G.bad("size", fn, "back", o, "%s changes the size while searching" % fn)
        if not st and all(v == ("phi", ph) for ph, v in o.nxt[1].items()) and all(c[0] == "*" for c in o.calls):
            G.bad("lost", fn, "stuck", o, "%s comes back to the entry it has just looked at: it never ends" % fn)
        for ph, v in o.nxt[1].items():
            me = ("phi", ph)
            nx = None
            if pathval.mentions(v, lambda x: x == me):
                nx = v
            if nx is None or G.types[fn].get(ph) != ("p",):
                continue
            if nx not in (ld(off(me, En["next"])), off(ld(me), En["next"])):
                G.bad("lost", fn, "step", o, "%s does not go on with the next entry of the bucket" % fn)
        return
    if hit is not None:
        r.ob("hit", "%s %s" % (fn, o.where.where()))
        val = ld(off(hit, En["value"]))
        if fn == "hashmapRemove":
            if dsize != C(-1):
                G.bad("size", fn, "remove", o, "hashmapRemove does not reduce the size by one with the entry it removes")
            un = [a for a, v in st.items() if v == ld(off(hit, En["next"])) and a != off(hit, En["next"])]
            if not un:
                G.bad("unlink", fn, "remove", o, "hashmapRemove does not connect the entries before and after the removed one")
            elif hit[0] == "ld" and un[0] != hit[1]:
                G.bad("unlink", fn, "remove-where", o, "hashmapRemove changes a link other than the one to the removed entry")
            if not any(c[1][0] == hit for c in fe):
                G.bad("unlink", fn, "free", o, "hashmapRemove does not release the removed entry")
            if o.ret != val and pathval_known(o.ret):
                G.bad("answer", fn, "remove", o, "hashmapRemove does not answer the removed value")
            return
        if dsize is not None and dsize != C(0) and not grown:
            G.bad("size", fn, "hit", o, "%s changes the size although the key was present" % fn)
        if fn == "hashmapGet" and o.ret != val and pathval_known(o.ret):
            G.bad("answer", fn, "hit", o, "hashmapGet does not answer the value of the entry it found")
        if fn == "hashmapContainsKey" and o.ret not in (C(1), C(-1)) and pathval_known(o.ret):
            G.bad("answer", fn, "hit", o, "hashmapContainsKey denies a key it found")
        if fn == "hashmapPut":
            if st.get(off(hit, En["value"])) != A[2]:
                G.bad("answer", fn, "hit", o, "hashmapPut does not replace the value of an existing key")
            if cmp_("ne", A[3], C(0)) in fs and st.get(A[3]) != val:
                G.bad("answer", fn, "old", o, "hashmapPut does not deliver the previous value")
            if o.ret != C(0):
                G.bad("answer", fn, "ret", o, "hashmapPut reports failure after replacing a value")
        if fn == "hashmapMemoize":
            if off(hit, En["value"]) in st:
                G.bad("answer", fn, "hit", o, "hashmapMemoize replaces the value of an existing key")
            if cmp_("ne", A[4], C(0)) in fs and st.get(A[4]) != val:
                G.bad("answer", fn, "val", o, "hashmapMemoize does not deliver the present value")
        return
    # miss
    if fn in ("hashmapGet", "hashmapContainsKey", "hashmapRemove"):
        r.ob("miss", "%s %s" % (fn, o.where.where()))
        if o.ret != C(0) and pathval_known(o.ret):
            G.bad("answer", fn, "miss", o, "%s answers something for a key it did not compare equal" % fn)
        if size in st or fe:
            G.bad("size", fn, "miss", o, "%s changes the map although the key was not found" % fn)
        if o.ret == C(0) and not any(f[0] == "cmp" and f[3] in (C(0), C(1)) and f[1] in ("eq", "ult", "ule", "slt") for f in o.facts):
            G.bad("lost", fn, "giveup", o, "%s gives up before the end of the bucket" % fn)
        return
    ent = ("call", "malloc", C(esz))
    ent2 = [("call", "calloc", C(1), C(esz)), ("call", "calloc", C(esz), C(1))]
    obj = next((e for e in [ent] + ent2 if any(a == off(e, En["key"]) for a in st)), None)
    if obj is None:
        if o.ret is not None and o.ret[0] == "c" and o.ret[1] < 0:
            r.ob("miss", "%s fails" % fn)
            if size in st:
                G.bad("size", fn, "fail", o, "%s changes the size although it failed" % fn)
        return
    r.ob("insert", "%s %s" % (fn, o.where.where()))
    if o.ret != C(0) and o.ret[0] == "c":
        G.bad("answer", fn, "insert", o, "%s reports failure after inserting" % fn)
    if dsize != C(1):
        G.bad("size", fn, "insert", o, "%s does not increase the size by one with the entry it inserts" % fn)
    if st.get(off(obj, En["key"])) != A[1]:
        G.bad("insert", fn, "key", o, "%s does not store the key in the new entry" % fn)
    if h is not None and st.get(off(obj, En["hash"])) != h:
        G.bad("insert", fn, "hash", o, "%s stores another hash in the entry than the one that chose its bucket" % fn)
    nx = st.get(off(obj, En["next"]), C(0) if obj[1] == "calloc" else None)
    slot = [a for a, v in st.items() if v == obj]
    if not slot:
        G.bad("insert", fn, "link", o, "%s does not link the new entry" % fn)
    else:
        tail = all(cmp_("eq", ld(a), C(0)) in fs for a in slot)
        if nx is None or (nx == C(0) and not tail and pathval_known(slot[0])) and nx != ld(slot[0]):
            G.bad("insert", fn, "next", o, "%s loses the entries behind the new one" % fn)
    val = st.get(off(obj, En["value"]))
    if fn == "hashmapPut":
        if val != A[2]:
            G.bad("insert", fn, "value", o, "hashmapPut does not store the value")
        if cmp_("ne", A[3], C(0)) in fs and st.get(A[3]) not in (C(0),):
            G.bad("answer", fn, "res", o, "hashmapPut delivers a previous value for a new key")
    if fn == "hashmapMemoize":
        cb = [c for c in o.calls if c[0] == "*"]
        iv = ("call", "*", A[2], A[1], A[3])
        if val != iv:
            G.bad("insert", fn, "value", o, "hashmapMemoize does not store the value made for the key")
        if cmp_("ne", A[4], C(0)) in fs and st.get(A[4]) != iv:
            G.bad("answer", fn, "res", o, "hashmapMemoize does not deliver the value it made")


def pathval_known(e):
    return e is not None and e[0] not in ("phi", "i", "undef") and not pathval.mentions(e, lambda x: x[0] in ("i", "undef"))


def grow(G, r, M, En, size):
    """relinking into a new bucket array, wherever it is done"""
    for fn in sorted(G.mod.fns):
        if not fn.startswith("hashmap"):
            continue
        f = G.mod.fns[fn]
        P = pathval.Paths(G.mod, f)
        for h in sorted(P.headers):
            try:
                outs = pathval.Paths(G.mod, f).run(start=h)
            except pathval.TooMany:
                continue
            for o in outs:
                if o.end != "back" or o.nxt is None or o.nxt[0] != h:
                    continue
                st = stores(o)
                for a, v in st.items():
                    c, d = lin(a)
                    # entry->next = X[index]; X[index] = entry
                    if v[0] == "ld" and any(k == 8 and t[0] == "op" and t[1] == "and" for t, k in d.items()) and lin(v[1])[1].get(
                            ld(off(A[0], M["buckets"]))) == 1:
                        G.bad("relink", fn, "first", o, "growing moves only the first entry of a bucket")
                    if v[0] != "phi" or not any(k == 8 and t[0] == "op" and t[1] == "and" for t, k in d.items()):
                        continue
                    e = v
                    r.ob("relink", "%s %s" % (fn, o.where.where()))
                    idx = next(t for t, k in d.items() if k == 8 and t[0] == "op" and t[1] == "and")
                    hs = ld(off(e, En["hash"]))
                    if hs not in idx[2:4]:
                        G.bad("relink", fn, "hash", o, "growing places an entry by something other than its stored hash")
                    elif pathval.mentions(idx, lambda x: x == ld(off(A[0], M["bucketCount"]))) and \
                            not pathval.mentions(idx, lambda x: x[0] == "lin" and any(t == ld(off(A[0], M["bucketCount"])) and k == 2 for t, k in x[2])):
                        G.bad("relink", fn, "count", o, "growing places an entry by the old number of buckets")
                    if st.get(off(e, En["next"])) != ld(a):
                        G.bad("relink", fn, "chain", o, "growing loses the entries already moved to a bucket")
                    nx = o.nxt[1].get(e[1])
                    if nx is not None and nx != ld(off(e, En["next"])):
                        G.bad("relink", fn, "next", o, "growing does not continue with the next entry of the old bucket")
        # both fields change together
        for o in G.paths(fn):
            st = stores(o)
            b, c = off(A[0], M["buckets"]), off(A[0], M["bucketCount"])
            if o.end == "ret" and (b in st) != (c in st):
                G.bad("relink", fn, "fields", o, "%s changes the buckets without their number (or the reverse)" % fn)
            if b in st and c in st and st[b][0] == "call" and st[b][1] == "calloc":
                r.ob("growth", fn)
                args = st[b][2:4]
                if st[c] not in args:
                    G.bad("relink", fn, "alloc", o, "%s sets a number of buckets other than the number allocated" % fn)


def sweep(G, r, M, En):
    """loops over all buckets and the entries of each"""
    bc, bs = ld(off(A[0], M["bucketCount"])), ld(off(A[0], M["buckets"]))
    for fn in sorted(G.mod.fns):
        if not fn.startswith("hashmap"):
            continue
        f = G.mod.fns[fn]
        P = pathval.Paths(G.mod, f)
        for h in sorted(P.headers):
            for ph in f.blocks[h].ins:
                if ph.op != "phi":
                    break
                if ph.ty != ("p",):
                    continue
                vals = entry_values(G, f, ph)
                if len(vals) != 1:
                    continue
                v = next(iter(vals))
                if v[0] != "ld":
                    continue
                c, d = lin(v[1])
                idx = [t for t, k in d.items() if k == 8]
                if d.get(bs) != 1 or len(d) != 2 or len(idx) != 1 or idx[0][0] != "phi":
                    continue
                r.ob("sweep", "%s %s" % (fn, ph.where()))
                me = ("phi", ph.id)
                cb = lambda o: any(x[0] == "*" for x in o.calls)
                for o in pathval.Paths(G.mod, f).run(start=h):
                    if o.end == "back" and o.nxt[0] == h:
                        nx = o.nxt[1].get(ph.id)
                        want = ld(off(me, En["next"]))
                        if nx != want and not (nx == C(0) and cmp_("eq", want, C(0)) in facts(o)) and pathval_known(nx):
                            G.bad("visit", fn, "next", o, "%s does not continue with the next entry of a bucket" % fn)
                    elif not any(f_[0] == "cmp" and f_[1] == "eq" and f_[3] == C(0) for f_ in o.facts) and not cb(o) and pathval.mentions(
                            tuple(o.facts), lambda x: x == me):
                        G.bad("visit", fn, "chain", o, "%s leaves a bucket before its last entry" % fn)
                bucket_index(G, r, f, fn, P, idx[0][1], c, bc)


def bucket_index(G, r, f, fn, P, pid, c, bc):
    """the index runs over all buckets"""
    ph = P.ins[pid]
    me = ("phi", pid)
    init = entry_values(G, f, ph)
    steps, conds = set(), set()
    for o in pathval.Paths(G.mod, f).run(start=ph.block):
        if o.end == "back" and o.nxt[0] == ph.block:
            steps.add(o.nxt[1].get(pid))
        for x in o.facts:
            if pathval.mentions(x, lambda y: y == me):
                conds.add(x)
                break
    if len(init) != 1 or len(steps) != 1:
        return
    init, step = next(iter(init)), add(next(iter(steps)), me, -1)
    if step == C(1) and c == 0 and init[0] == "c":
        ok = {cmp_("ult", me, bc), cmp_("ne", me, bc)}
        if init != C(0):
            G.bad("visit", fn, "first", None, "%s skips the first buckets" % fn)
        if conds and not any(x in ok or neg(x) in ok for x in conds) and all(
                x[0] == "cmp" and not pathval.mentions(x, lambda y: y[0] in ("i", "call", "undef")) for x in conds):
            G.bad("visit", fn, "last", None, "%s does not go up to the last bucket" % fn)


def walk(G, r, M, En):
    fn = "hashmapForEach"
    if fn not in G.mod.fns:
        return
    f = G.mod.fns[fn]
    hs = G.headers(fn)
    for h in hs:
        for o in pathval.Paths(G.mod, f).run(start=h):
            cb = [c for c in o.calls if c[0] == "*"]
            if not cb:
                continue
            n, args, i, s = cb[-1]
            e = None
            if args[0][0] == "ld":
                e = add(args[0][1], C(-En["key"]))
            if e is None or len(args) < 3:
                continue
            r.ob("visit", "%s %s" % (fn, o.where.where()))
            if args[1] != ld(off(e, En["value"])) or args[2] != A[2]:
                G.bad("visit", fn, "args", o, "hashmapForEach does not pass key, value and context of one entry")
            res = ("call", "*", A[1]) + args[:3]
            stopped = any(mention_false(x, res) for x in o.facts)
            if o.end == "back" and o.nxt[0] == h and e[0] == "phi":
                nx = o.nxt[1].get(e[1])
                if stopped:
                    G.bad("visit", fn, "stop", o, "hashmapForEach continues after the callback asked to stop")
                elif nx is not None and nx != ld(off(e, En["next"])) and pathval_known(nx):
                    G.bad("visit", fn, "next", o, "hashmapForEach does not continue with the next entry")
            if o.end == "ret" and len(cb) == 1 and not stopped and not any(f[0] == "cmp" and f[2][0] == "phi" for f in o.facts):
                G.bad("visit", fn, "early", o, "hashmapForEach stops although the callback did not ask for it")


def mention_false(f, res):
    """the fact says that the callback answered false"""
    return f == ("not", res) or f == cmp_("eq", res, C(0))
