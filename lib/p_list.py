"""C23 parameter storage, C25 traversal scheduling: what each operation does to its list, path by path."""
import pathval
from p_store import A, Base, entry_values, facts, pathval_known, stores
from pathval import C, add, cmp_, ld, lin, neg, off
from result import Result

STATES = range(-5, 6)
END = {-2, -3}


def subst(e, t, v):
    """expression with term t replaced by the constant v, comparisons decided again"""
    if e == t:
        return C(v)
    if not isinstance(e, tuple) or not e or not isinstance(e[0], str):
        return e
    if e[0] == "cmp":
        return cmp_(e[1], subst(e[2], t, v), subst(e[3], t, v))
    if e[0] == "not":
        return neg(subst(e[1], t, v))
    if e[0] == "lin":
        r = C(e[1])
        for x, k in e[2]:
            r = add(r, subst(x, t, v), k)
        return r
    if e[0] == "op":
        a, b = subst(e[2], t, v), subst(e[3], t, v)
        if a[0] == "c" and b[0] == "c" and e[1] in ("and", "or", "xor"):
            return C({"and": a[1] & b[1], "or": a[1] | b[1], "xor": a[1] ^ b[1]}[e[1]])
        # comparisons combined by & and |
        for x, y in ((a, b), (b, a)):
            if x[0] == "c" and e[1] == "and" and x[1] == 0:
                return C(0)
        return ("op", e[1], a, b)
    return e


def feasible(o, term):
    """values of a small integer the path's conditions leave possible"""
    out = set()
    for v in STATES:
        if all(subst(f, term, v) != C(0) for f in o.facts):
            out.add(v)
    return out


def zero(o, e):
    """the path knows e == 0"""
    return cmp_("eq", e, C(0)) in facts(o)


def nonzero(o, e):
    return cmp_("ne", e, C(0)) in facts(o) or cmp_("ugt", e, C(0)) in facts(o)


def le_prev(prev):
    def rw(v):
        """E->le_prev is the address E was read from"""
        if v[0] == "ld":
            c, d = lin(v[1])
            if c == prev and len(d) == 1:
                t, k = next(iter(d.items()))
                if k == 1 and t[0] == "ld":
                    return t[1]
        return v
    return rw


class Lists(Base):
    def __init__(self, r, inline, node, head):
        Base.__init__(self, r, inline)
        self.N = {k: v[0] for k, v in self.L(node).items()}
        self.next, self.prev = self.N["links.le_next"], self.N["links.le_prev"]
        self.rewrite = le_prev(self.prev)
        self.size = self.N["__sizeof__"]

    def judge(self, fn, f):
        n = 0
        for o in self.paths(fn):
            if o.end == "abort":
                continue
            n += 1
            f(o, stores(o))
        if n:
            self.r.ob("operation", "%s (%d paths)" % (fn, n))
        else:
            self.r.count("not followed", 1)

    def append(self, fn, o, st, head, last, what):
        """a new element goes to the end of the list; returns it"""
        news = {v for a, v in st.items() if v[0] == "call" and v[1] in ("calloc", "malloc") and any(
            x == off(v, self.next) or x == off(v, self.prev) for x in st)}
        news = {v for v in news if off(v, self.prev) in st or off(v, self.next) in st}
        if len(news) != 1:
            return None
        new = next(iter(news))
        links = [a for a, v in st.items() if v == new and a not in (last,) and lin(a)[1].get(new) is None]
        tail = off(ld(last), self.next)
        empty = zero(o, ld(head)) or zero(o, ld(last))
        if not links:
            self.bad("append", fn, "link", o, "%s does not link the new %s" % (fn, what))
            return new
        for a in links:
            if a == head:
                if not empty:
                    self.bad("append", fn, "order", o, "%s puts a new %s before the others" % (fn, what))
            elif a != tail and pathval_known(a):
                self.bad("append", fn, "order", o, "%s links a new %s somewhere other than behind the last one" % (fn, what))
            back = st.get(off(new, self.prev))
            if back is not None and back != a and pathval_known(back):
                self.bad("append", fn, "prev", o, "%s gives the new %s a wrong back link" % (fn, what))
        nx = st.get(off(new, self.next), C(0) if new[1] == "calloc" else None)
        ok = [C(0), ld(head), ld(tail)]
        if nx is None or nx not in ok and pathval_known(nx) or nx == ld(head) and not empty:
            self.bad("append", fn, "next", o, "%s gives the new %s a successor" % (fn, what))
        if st.get(last) != new:
            self.bad("append", fn, "last", o, "%s does not remember the new %s as the last one" % (fn, what))
        return new

    def field(self, fn, o, st, obj, name, want, text):
        got = st.get(off(obj, self.N[name]), C(0) if obj[1] == "calloc" else None)
        if got is None or got not in want and pathval_known(got):
            self.bad("content", fn, name, o, "%s %s" % (fn, text))


# ------------------------------------------------------------------ C23
def check_list(pid, tier):
    r = Result("every path of the parameter storage operations is followed with symbolic list fields (LLVM IR, one pass per loop)",
               "appending puts a complete element behind the last one and counts it, a failing append leaves the storage alone, "
               "copying visits every element in order, an element is found by its position")
    S = "metac_parameter_storage"
    inl = lambda n, internal, info: internal or n.startswith("_parameter_storage")
    G = Lists(r, inl, "metac_parameter", S)
    H = {k: v[0] for k, v in G.L(S).items()}
    head, last, cnt = off(A[0], H["list.lh_first"]), off(A[0], H["p_last_added_param"]), off(A[0], H["list_size"])
    touched = lambda st: [a for a in st if a in (head, last, cnt) or a == off(ld(last), G.next)]

    def appended(fn, size, addr):
        def f(o, st):
            ret = o.ret
            if ret is None or ret[0] != "c":
                return
            if ret[1] != 0:
                if touched(st):
                    G.bad("append", fn, "fail", o, "%s changes the storage although it reports failure" % fn)
                return
            new = G.append(fn, o, st, head, last, "parameter")
            if new is None:
                if o.end == "ret" and not touched(st):
                    G.bad("append", fn, "none", o, "%s reports success without appending anything" % fn)
                return
            if st.get(cnt) != add(ld(cnt), C(1)):
                G.bad("append", fn, "count", o, "%s does not count the new parameter once" % fn)
            G.field(fn, o, st, new, "size", [size], "records another size than the one asked for")
            e = st.get(off(new, G.N["p_entry"]))
            dyn = ("call", "metac_entry_is_dynamic", A[1])
            cp = ("call", "metac_new_entry", A[1])
            if e is None or e not in (A[1], cp) and pathval_known(e):
                G.bad("content", fn, "p_entry", o, "%s records another description than the one given" % fn)
            elif e == A[1] and nonzero(o, dyn) and not zero(o, cp):
                G.bad("content", fn, "p_entry-dyn", o, "%s shares a dynamic description instead of copying it" % fn)
            elif e == cp and zero(o, dyn):
                G.bad("content", fn, "p_entry-stat", o, "%s copies a static description, nobody frees it" % fn)
            ad = st.get(off(new, G.N["addr"]))
            if ad is None or not addr(ad) and pathval_known(ad):
                G.bad("content", fn, "addr", o, "%s does not keep the memory made for the parameter" % fn)
        G.judge(fn, f)

    mem = lambda e: e[0] == "call" and e[1] in ("calloc", "malloc") and A[2] in e[2:]
    appended(S + "_append_by_buffer", A[2], mem)
    appended(S + "_append_by_parameter_storage", C(0), lambda e: e[0] == "call" and (
        e[1] == "metac_new_parameter_storage" or e[1] == "calloc"))

    fn = S + "_append_by_buffer"
    for o in G.paths(fn):
        for n, args, i, s in o.calls:
            if n == "malloc" and args[0] == A[2]:
                if not any(c[0] == "memset" for c in o.calls):
                    G.bad("content", fn, "zero", o, "%s hands out memory that is not zeroed" % fn)

    def size(o, st):
        if o.end == "ret" and nonzero(o, A[0]) and o.ret != ld(cnt) and pathval_known(o.ret):
            G.bad("count", S + "_size", "ret", o, "%s_size does not answer the number of parameters" % S)
    G.judge(S + "_size", size)

    fn = "metac_new_parameter_storage"

    def new(o, st):
        if o.end == "ret" and o.ret is not None and o.ret[0] == "call":
            for f, v in ((H["list.lh_first"], "a first element"), (H["p_last_added_param"], "a last element"), (H["list_size"], "a number of elements")):
                x = st.get(off(o.ret, f), C(0) if o.ret[1] == "calloc" else None)
                if x != C(0):
                    G.bad("count", fn, v, o, "a new parameter storage starts with %s" % v)
    G.judge(fn, new)

    fn = S + "_cleanup"

    def clean(o, st):
        if o.end == "ret" and not zero(o, A[0]):
            if st.get(last) != C(0):
                G.bad("count", fn, "last", o, "%s leaves the reference to the last parameter, which is gone" % fn)
            if st.get(cnt) != C(0):
                G.bad("count", fn, "count", o, "%s leaves the number of parameters" % fn)
    G.judge(fn, clean)
    copy(G, r, S, H)
    nth(G, r, S, H)
    return r


def copy(G, r, S, H):
    fn = S + "_copy"
    f = G.mod.fns.get(fn)
    if f is None:
        return
    src, dst = off(A[0], H["list.lh_first"]), A[1]
    P = pathval.Paths(G.mod, f, rewrite=G.rewrite)
    for h in sorted(P.headers):
        for ph in f.blocks[h].ins:
            if ph.op != "phi":
                break
            vals = entry_values(G, f, ph)
            if vals != {ld(src)}:
                continue
            p = ("phi", ph.id)
            r.ob("loop", "%s %s" % (fn, ph.where()))
            N = lambda k: ld(off(p, G.N[k]))
            lastad = ld(off(ld(off(dst, H["p_last_added_param"])), G.N["addr"]))
            lastsz = ld(off(ld(off(dst, H["p_last_added_param"])), G.N["size"]))
            for o in G.paths(fn, start=h):
                if o.end == "abort":
                    continue
                calls = {c[0]: c[1] for c in o.calls}
                adds = [c for c in o.calls if c[0].startswith(S + "_append_by")]
                if o.end == "back":
                    r.ob("copied parameter", "%s %s" % (fn, o.where.where()))
                    nx = o.nxt[1].get(ph.id)
                    if nx != N("links.le_next") and pathval_known(nx):
                        G.bad("copy", fn, "next", o, "%s does not go on with the next parameter" % fn)
                    if len(adds) != 1:
                        G.bad("copy", fn, "once", o, "%s appends %d parameters for one" % (fn, len(adds)))
                        continue
                    n, args, i, s = adds[0]
                    if args[0] != dst or args[1] != N("p_entry"):
                        G.bad("copy", fn, "entry", o, "%s does not append a parameter of the same description to the destination" % fn)
                    bybuf = n == S + "_append_by_buffer"
                    if bybuf and zero(o, N("size")) or not bybuf and nonzero(o, N("size")):
                        G.bad("copy", fn, "kind", o, "%s mixes up plain and nested parameters" % fn)
                    if bybuf:
                        if args[2] != N("size"):
                            G.bad("copy", fn, "size", o, "%s does not keep a parameter's size" % fn)
                        m = [c for c in o.calls if c[0] == "memcpy"]
                        if not m:
                            G.bad("copy", fn, "bytes", o, "%s does not copy a parameter's content" % fn)
                        elif m[0][1][1] != N("addr") or m[0][1][2] not in (N("size"), lastsz) or m[0][1][0] != lastad and pathval.clean(m[0][1][0]):
                            G.bad("copy", fn, "bytes", o, "%s does not copy the whole content of a parameter to its copy" % fn)
                    else:
                        c = [c for c in o.calls if c[0] == fn]
                        if not c:
                            G.bad("copy", fn, "inner", o, "%s does not copy the parameters of a nested storage" % fn)
                        elif c[0][1][0] != N("addr") or c[0][1][1] != lastad and pathval.clean(c[0][1][1]):
                            G.bad("copy", fn, "inner", o, "%s does not copy a nested storage to its copy" % fn)
                    for c in adds + [c for c in o.calls if c[0] == fn]:
                        res = ("call", c[0]) + tuple(c[1])
                        if not zero(o, res):
                            G.bad("copy", fn, "fail", o, "%s goes on although %s may have failed" % (fn, c[0]))
                elif o.end == "ret" and o.ret == C(0):
                    if not zero(o, p):
                        G.bad("copy", fn, "all", o, "%s reports success before the last parameter" % fn)
                elif o.end == "ret" and o.ret[0] == "c" and zero(o, p) and not o.calls:
                    G.bad("copy", fn, "success", o, "%s reports failure although all parameters are copied" % fn)


def nth(G, r, S, H):
    fn = S + "_new_param_value"
    f = G.mod.fns.get(fn)
    if f is None:
        return
    src = off(A[0], H["list.lh_first"])
    P = pathval.Paths(G.mod, f, rewrite=G.rewrite)
    for h in sorted(P.headers):
        phis = [i for i in f.blocks[h].ins if i.op == "phi"]
        lst = [i for i in phis if entry_values(G, f, i) == {ld(src)}]
        idx = [i for i in phis if i not in lst]
        if len(lst) != 1 or len(idx) != 1:
            continue
        p, k = ("phi", lst[0].id), ("phi", idx[0].id)
        ini = entry_values(G, f, idx[0])
        r.ob("loop", "%s %s" % (fn, lst[0].where()))
        for o in G.paths(fn, start=h):
            if o.end == "back" and o.nxt[0] == h:
                nx, nk = o.nxt[1].get(p[1]), o.nxt[1].get(k[1])
                if nx != ld(off(p, G.next)) and pathval_known(nx):
                    G.bad("nth", fn, "next", o, "%s does not go on with the next parameter" % fn)
                ok = (ini == {C(0)} and nk == add(k, C(1))) or (ini == {A[1]} and nk == add(k, C(-1)))
                if not ok and (nk == k or pathval_known(nk)) and len(ini) == 1 and pathval_known(next(iter(ini))):
                    G.bad("nth", fn, "index", o, "%s does not count the parameters from 0 in steps of 1" % fn)
            elif o.end == "ret" and o.ret != C(0) and o.ret is not None and o.ret[0] == "call":
                hit = {cmp_("eq", k, A[1]), cmp_("eq", A[1], k)} if ini == {C(0)} else {cmp_("eq", k, C(0)), cmp_("slt", k, C(1))}
                if o.ret[1] != "metac_new_value":
                    continue
                if not hit & facts(o) and ini in ({C(0)}, {A[1]}):
                    G.bad("nth", fn, "which", o, "%s answers with a parameter of another position" % fn)
                if o.ret[2:4] != (ld(off(p, G.N["p_entry"])), ld(off(p, G.N["addr"]))):
                    G.bad("nth", fn, "value", o, "%s does not answer with the description and the memory of one parameter" % fn)
            elif o.end == "ret" and o.ret == C(0):
                if not zero(o, p) and not any(A[1] in x for x in o.facts if x[0] == "cmp"):
                    G.bad("nth", fn, "giveup", o, "%s gives up before the last parameter" % fn)


# ------------------------------------------------------------------ C25
def check_iter(pid, tier):
    r = Result("every path of the traversal scheduler's operations is followed with symbolic tasks (LLVM IR, one pass per loop); the states "
               "a path leaves possible for a task are computed from its conditions",
               "a task is returned only if it is not finished and all its subtasks are, the first unfinished subtask comes first, control "
               "returns to the parent, subtasks and their results are queued and taken in order")
    I = "metac_recursive_iterator"
    inl = lambda n, internal, info: internal or n.startswith(I + "_")
    G = Lists(r, inl, "recursive_iterator_entry", I)
    N = G.N
    CUR = off(A[0], G.L(I)["p_current"][0])
    cur = ld(CUR)
    F = lambda e, k: ld(off(e, N[k]))
    head, last = off(cur, N["deps"]), off(cur, N["last_dep"])

    # ---- new
    fn = "metac_new_recursive_iterator"

    def new(o, st):
        if o.end != "ret" or o.ret is None or o.ret[0] != "call":
            return
        it = o.ret
        for k, v, text in (("p_in", A[0], "does not hold its task"), ("p_parent", C(0), "has a parent"), ("state", C(0), "does not start in the start state"),
                           ("deps", C(0), "starts with subtasks"), ("last_dep", C(0), "starts with subtasks")):
            x = st.get(off(it, N[k]), C(0) if it[1] == "calloc" else None)
            if x != v:
                G.bad("start", fn, k, o, "a new iterator %s" % text)
        if st.get(off(it, G.L(I)["p_current"][0])) != it:
            G.bad("start", fn, "p_current", o, "a new iterator does not stand at its first task")
    G.judge(fn, new)

    # ---- next
    fn = I + "_next"
    curs = {cur}
    P = None
    f = G.mod.fns.get(fn)
    if f is not None:
        P = pathval.Paths(G.mod, f)
        for h in P.headers:
            for i in f.blocks[h].ins:
                if i.op == "phi" and entry_values(G, f, i) == {cur}:
                    curs.add(("phi", i.id))

    def nxt(o, st):
        c = st.get(CUR)
        x = None                                    # the task looked at
        for k in curs:
            if any(pathval.mentions(g, lambda y: y == F(k, "state")) for g in o.facts):
                x = k
        if x is None or zero(o, A[0]):
            return
        s = feasible(o, F(x, "state"))
        up = F(x, "p_parent")
        if o.end == "ret":
            if o.ret == C(0):
                if not s <= END or not zero(o, up):
                    G.bad("schedule", fn, "end", o, "the traversal ends before its first task is finished")
                return
            if o.ret[0] != "ld" or o.ret != F(x, "p_in"):
                if pathval.clean(o.ret) or o.ret[0] == "ld":
                    G.bad("schedule", fn, "which", o, "%s does not return the task it stands at" % fn)
                return
            if s & END:
                G.bad("schedule", fn, "finished", o, "%s returns a task that is finished already" % fn)
            if not zero(o, F(x, "deps")) and not any(g[0] == "cmp" and g[1] == "eq" and g[3] == C(0) and g[2][0] == "phi" for g in o.facts):
                G.bad("schedule", fn, "early", o, "%s returns a task whose subtasks were not all looked at" % fn)
            now = st.get(CUR, cur)
            if now != x and pathval_known(now) and not (x[0] == "phi" and now == x):
                G.bad("schedule", fn, "stand", o, "%s returns a task other than the one it stands at" % fn)
            return
        # a step
        new = c if c is not None else None
        for k in curs:
            if k[0] == "phi" and k[1] in o.nxt[1]:
                new = o.nxt[1][k[1]]
        inner = [(k, v) for k, v in o.nxt[1].items() if ("phi", k) not in curs and v is not None and P.ins[k].ty == ("p",)]
        if new is not None and new != x:
            if new == up:
                if not s <= END:
                    G.bad("schedule", fn, "up", o, "%s goes back to the parent although the task is not finished" % fn)
                return
            if s & END:
                G.bad("schedule", fn, "down", o, "%s goes to a subtask of a finished task" % fn)
            if new[0] in ("phi", "ld") and (new[0] == "phi" or new == F(x, "deps")):
                if feasible(o, F(new, "state")) & END:
                    G.bad("schedule", fn, "down-finished", o, "%s goes to a subtask that is finished" % fn)
            return
        for k, v in inner:
            d = ("phi", k)
            if pathval.mentions(v, lambda y: y == d) or v == C(0):
                if v != F(d, "links.le_next") and not (v == C(0) and zero(o, F(d, "links.le_next"))):
                    G.bad("schedule", fn, "skip", o, "%s skips subtasks" % fn)
                sd = feasible(o, F(d, "state"))
                if not sd <= END:
                    G.bad("schedule", fn, "unfinished", o, "%s passes over a subtask that is not finished" % fn)
                return
    G.judge(fn, nxt)
    if f is not None:
        P = pathval.Paths(G.mod, f)
        for h in P.headers:
            for i in f.blocks[h].ins:
                if i.op == "phi" and i.ty == ("p",) and ("phi", i.id) not in curs:
                    for v in entry_values(G, f, i):
                        if v[0] == "ld" and v not in {F(k, "deps") for k in curs} and any(pathval.mentions(v, lambda y: y == k) for k in curs):
                            G.bad("schedule", fn, "first", None, "%s does not look at the subtasks from the first one" % fn)

    # ---- queue
    fn = I + "_create_and_append_dep"

    def appd(o, st):
        if o.end != "ret" or o.ret is None or o.ret[0] != "c":
            return
        if o.ret[1] != 0:
            if head in st or last in st:
                G.bad("append", fn, "fail", o, "%s changes the queue although it reports failure" % fn)
            return
        new = G.append(fn, o, st, head, last, "subtask")
        if new is None:
            if head not in st and last not in st:
                G.bad("append", fn, "none", o, "%s reports success without queueing anything" % fn)
            return
        G.field(fn, o, st, new, "p_parent", [cur], "gives the subtask another parent than the current task")
        G.field(fn, o, st, new, "p_in", [A[1]], "does not give the subtask its input")
        G.field(fn, o, st, new, "state", [C(0)], "does not start the subtask in the start state")
        G.field(fn, o, st, new, "deps", [C(0)], "starts the subtask with subtasks")
        G.field(fn, o, st, new, "last_dep", [C(0)], "starts the subtask with subtasks")
    G.judge(fn, appd)

    fn = I + "_dequeue_and_delete_dep"
    first = ld(head)

    def results(fn, o, st, e, ret):
        if ret is not None and ret != F(e, "p_out") and not (ret == C(0) and zero(o, F(e, "p_out"))) and pathval_known(ret):
            G.bad("result", fn, "out", o, "%s does not answer with the result of that task" % fn)
        if nonzero(o, A[1]) and st.get(A[1]) != F(e, "p_in"):
            G.bad("result", fn, "in", o, "%s does not deliver the input of that task" % fn)

    def failflag(fn, o, st, e, arg):
        if nonzero(o, arg):
            v = st.get(arg)
            if v is None:
                G.bad("result", fn, "fail", o, "%s does not say whether that task failed" % fn)
                return
            for s in feasible(o, F(e, "state")) & END:
                w = subst(v, F(e, "state"), s)
                if w[0] == "cmp" and (w in facts(o) or neg(w) in facts(o)):
                    w = C(int(w in facts(o)))
                if w[0] == "c" and bool(w[1]) != (s == -3):
                    G.bad("result", fn, "fail", o, "%s reports %s for a task that %s" % (fn, "failure" if w[1] else "success", "failed" if s == -3 else "is done"))
                    break

    def deq(o, st):
        if o.end != "ret" or zero(o, A[0]):
            return
        if zero(o, first):
            if o.ret != C(0) or st:
                G.bad("result", fn, "empty", o, "%s answers something although there is no subtask" % fn)
            return
        nx = F(first, "links.le_next")
        if st.get(head) != nx and not (st.get(head) == C(0) and zero(o, nx)):
            G.bad("dequeue", fn, "head", o, "%s does not take the first subtask out of the queue" % fn)
        only = cmp_("eq", ld(last), first)         # the last one is the first one
        if neg(only) in facts(o) and zero(o, nx) or only in facts(o) and nonzero(o, nx):
            return
        if zero(o, nx) or only in facts(o):
            if st.get(last) != C(0):
                G.bad("dequeue", fn, "last", o, "%s leaves a reference to the last subtask although the queue is empty" % fn)
        elif nonzero(o, nx):
            if last in st and st[last] != ld(last):
                G.bad("dequeue", fn, "last-lost", o, "%s forgets the last subtask although the queue is not empty" % fn)
            b = st.get(off(nx, G.prev))
            if b is not None and b != head or b is None:
                G.bad("dequeue", fn, "prev", o, "%s leaves a wrong back link in the next subtask" % fn)
        if not any(c[0] == "free" and c[1][0] == first for c in o.calls):
            G.bad("dequeue", fn, "free", o, "%s does not release the subtask it takes" % fn)
        results(fn, o, st, first, o.ret)
        failflag(fn, o, st, first, A[2])
    G.judge(fn, deq)

    fn = I + "_get_out"

    def gout(o, st):
        if o.end == "ret" and not zero(o, A[0]):
            results(fn, o, st, cur, o.ret)
            failflag(fn, o, st, cur, A[2])
    G.judge(fn, gout)

    # ---- states
    def simple(fn, want, text):
        def g(o, st):
            if o.end == "ret" and not zero(o, A[0]):
                want(o, st, lambda ok, key, t: ok or G.bad("state", fn, key, o, "%s %s" % (fn, t)))
        G.judge(fn, g)

    def w_set(o, st, chk):
        s = feasible(o, A[1])
        if o.ret == C(0):
            chk(off(cur, N["state"]) not in st, "null", "changes the state although it reports an error")
            chk(-1 in s and len(s) == 1, "refuse", "refuses a state other than the error marker")
        else:
            chk(st.get(off(cur, N["state"])) == A[1], "set", "does not put the current task into the state asked for")
            chk(-1 not in s, "error", "accepts the error marker as a state")
    simple(I + "_set_state", w_set, "")

    def w_done(o, st, chk):
        if o.ret != C(0):
            chk(st.get(off(cur, N["p_out"])) == A[1], "out", "does not record the result of the current task")
            chk(st.get(off(cur, N["state"])) == C(-2), "done", "does not mark the current task as done")
    simple(I + "_done", w_done, "")
    simple(I + "_fail", lambda o, st, chk: o.ret == C(0) or chk(st.get(off(cur, N["state"])) == C(-3), "failed", "does not mark the current task as failed"), "")
    known = lambda e: e is None or not pathval_known(e)
    simple(I + "_get_state", lambda o, st, chk: chk(known(o.ret) or o.ret == F(cur, "state"), "get", "does not answer the state of the current task"), "")
    simple(I + "_get_context", lambda o, st, chk: chk(known(o.ret) or o.ret == F(cur, "p_context"), "get", "does not answer the context of the current task"), "")
    simple(I + "_set_context", lambda o, st, chk: chk(st.get(off(cur, N["p_context"])) == A[1], "set", "does not store the context with the current task"), "")
    simple(I + "_dep_queue_is_empty", lambda o, st, chk: chk(known(o.ret) or o.ret == cmp_("eq", first, C(0)) or o.ret == C(1) and zero(o, first)
           or o.ret == C(0) and nonzero(o, first), "empty", "does not answer whether the current task has subtasks"), "")

    chain(G, r, I + "_level", cur, "p_parent", C(0), F)
    chain(G, r, I + "_get_in", cur, "p_parent", A[1], F)
    chain(G, r, I + "_dep_queue_size", first, "links.le_next", C(0), F)
    chain(G, r, I + "_get_dep_out", first, "links.le_next", A[1], F)
    return r


def chain(G, r, fn, start, link, k, F):
    """a walk along a chain with a counter"""
    f = G.mod.fns.get(fn)
    if f is None:
        return
    P = pathval.Paths(G.mod, f, rewrite=G.rewrite)
    for h in sorted(P.headers):
        phis = [i for i in f.blocks[h].ins if i.op == "phi"]
        lst = [i for i in phis if i.ty == ("p",)]
        idx = [i for i in phis if i.ty[0] == "i"]
        if len(lst) != 1 or len(idx) > 1:
            continue
        p = ("phi", lst[0].id)
        ini = entry_values(G, f, lst[0])
        r.ob("walk", "%s %s" % (fn, lst[0].where()))
        if ini != {start} and len(ini) == 1 and pathval_known(next(iter(ini))) and next(iter(ini)) != F(start, link):
            G.bad("walk", fn, "start", None, "%s does not start at the right task" % fn)
        c = ("phi", idx[0].id) if idx else None
        cin = entry_values(G, f, idx[0]) if idx else set()
        shifted = ini == {F(start, link)}
        for o in G.paths(fn, start=h):
            if o.end == "back" and o.nxt[0] == h:
                nx = o.nxt[1].get(p[1])
                if nx != F(p, link) and pathval_known(nx):
                    G.bad("walk", fn, "next", o, "%s does not go on with the next task" % fn)
                if c is not None:
                    d = add(o.nxt[1][c[1]], c, -1)
                    want = {C(1)} if cin == {C(0)} else {C(-1)} if cin == {A[1]} else None
                    if want is None and len(cin) == 1 and next(iter(cin))[0] == "c" and not shifted and link == "p_parent":
                        G.bad("walk", fn, "from", o, "%s does not count from 0" % fn)
                    if want and d not in want:
                        G.bad("walk", fn, "count", o, "%s does not count every task once" % fn)
            elif o.end == "ret" and c is not None and not shifted and ini == {start}:
                if fn.endswith("_level") and o.ret != C(-1):
                    ok = cin == {C(0)} and (o.ret == c and zero(o, F(p, link)) or o.ret == add(c, C(-1)) and zero(o, p))
                    if not ok and cin == {C(0)} and pathval.mentions(o.ret, lambda y: y == c):
                        G.bad("walk", fn, "ret", o, "%s does not answer the number of parents" % fn)
                if fn.endswith("_size"):
                    if cin == {C(0)} and pathval.mentions(o.ret, lambda y: y == c) and not (o.ret == c and zero(o, p)):
                        G.bad("walk", fn, "ret", o, "%s does not answer the number of subtasks" % fn)
                if fn.endswith("_get_in") and o.ret is not None and o.ret[0] == "ld":
                    if o.ret != F(p, "p_in"):
                        G.bad("walk", fn, "ret", o, "%s does not answer the input of the task it found" % fn)
                    elif cin == {C(0)} and not {cmp_("eq", c, A[1]), cmp_("eq", A[1], c)} & facts(o):
                        G.bad("walk", fn, "which", o, "%s answers for another level than the one asked for" % fn)
                if fn.endswith("_get_dep_out") and o.ret is not None and o.ret[0] == "ld":
                    if o.ret != F(p, "p_out"):
                        G.bad("walk", fn, "ret", o, "%s does not answer the result of the subtask it found" % fn)
                    else:
                        left = feasible(o, c)
                        if cin == {A[1]} and left & {1, 2, 3}:
                            G.bad("walk", fn, "which", o, "%s answers for another subtask than the one asked for" % fn)
