"""C29: loops over the parts of something visit every part."""
import ir
import pathval
from pathval import C, add, cmp_, lin, mentions
from p_index import ARRAYS
from result import Result

# access function -> (argument that is the whole, argument that is the index, functions that count the parts)
CALLS = {
    "metac_new_value_by_member_id": (0, 1, ("metac_value_member_count",)),
    "metac_new_value_by_element_id": (0, 1, ("metac_value_element_count",)),
    "metac_value_parameter_new_item": (0, 1, ("metac_value_parameter_count",)),
    "metac_entry_by_member_id": (0, 1, ("metac_entry_members_count",)),
    "metac_entry_by_paremeter_id": (0, 1, ("metac_entry_parameters_count",)),
    "metac_entry_enumeration_info": (0, 1, ("metac_entry_enumeration_info_size",)),
    "metac_parameter_storage_item": (0, 1, ("metac_parameter_storage_size",)),
    "metac_parameter_storage_new_param_value": (0, 1, ("metac_parameter_storage_size",)),
}
COUNTS = {"members_count": "metac_entry_members_count", "parameters_count": "metac_entry_parameters_count",
          "enumerators_count": "metac_entry_enumeration_info_size"}
COUNTFNS = {c for v in CALLS.values() for c in v[2]} | set(COUNTS.values())
APPEND = "metac_recursive_iterator_create_and_append_dep"
DEQUEUE = "metac_recursive_iterator_dequeue_and_delete_dep"
NEXT, DONE, FAIL = ("metac_recursive_iterator_" + x for x in ("next", "done", "fail"))
DROP = ("free", "metac_value_delete", "metac_memory_entry_delete", "_memory_entry_delete", "metac_value_memory_map_delete")
ROOTS = {"metac_entry": "", "metac_memory_entry": "", "metac_tag_map": "", "name_to_entries": "", "name_to_entries_info": "",
         "metac_union_member_select_by_context": "", "metac_ptr_cast_context": ""}


class Pass(pathval.Paths):
    """passes through one loop; values computed before the loop keep their meaning"""

    def __init__(self, *a, **k):
        pathval.Paths.__init__(self, *a, **k)
        self.memo = {}
        self.done = {}
        self.blk = {i.id: k for k, b in enumerate(self.fn.blocks) for i in b.ins}

    def passes(self, h):
        """symbolic passes through the loop at h; empty if there are too many"""
        if h not in self.done:
            try:
                self.done[h] = self.run(start=h, within=self.bodies[h])
            except pathval.TooMany:
                self.done[h] = []
        return self.done[h]

    def ev(self, op, st):
        if op[0] == "i" and st["v"].get(op[1]) is None and op[1] in self.ins:
            if op[1] not in self.memo:
                i = self.ins[op[1]]
                if i.op == "phi":
                    self.memo[op[1]] = ("phi", i.id)
                elif i.op == "select":
                    self.memo[op[1]] = ("sel", i.id)
                else:
                    self.memo[op[1]] = ("i", i.id)
                    v = self.step(i, {"v": {}, "m": {}, "z": {}, "s": [], "c": [], "f": {}, "fl": []})
                    if v is not None:
                        self.memo[op[1]] = v
            return self.memo[op[1]]
        return pathval.Paths.ev(self, op, st)


def sub(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            if isinstance(x, tuple):
                yield from sub(x)


def tables():
    L = ir.layouts()
    out = []
    E = L.get("metac_entry") or L.get("struct metac_entry")
    for s, a, c in ARRAYS + [("metac_memory_entry", "pp_children", "children_count")]:
        S = L.get(s) or L.get("struct " + s) or {}
        if a in S and c in S:
            out.append((S[a][0], S[c][0], s, a, c))
        for k, (o, t) in E.items():
            if k.split(".")[-1] == a and "." in k and k.rsplit(".", 1)[0] + "." + c in E:
                out.append((o, E[k.rsplit(".", 1)[0] + "." + c][0], "metac_entry", k, c))
    return out


class Cover:
    def __init__(self, mod, r):
        self.mod, self.r, self.T = mod, r, tables()
        L = ir.layouts()
        self.kind = (L.get("metac_entry") or L["struct metac_entry"]).get("kind", (-1,))[0]
        self.unspec = (L.get("metac_entry") or L["struct metac_entry"]).get("func_parameter_info.unspecified_parameters", (-1,))[0]

    # ---------------------------------------------------------------- accesses of one pass
    def accesses(self, o, phi):
        """{(family, whole, index - phi)} of the parts a pass looks at"""
        out = set()
        P = ("phi", phi)
        exprs = list(o.facts) + [x for c in o.calls for x in c[1]] + [x for a, v, i in o.stores for x in (a, v)]
        for c in o.calls:
            if c[0] in CALLS and len(c[1]) > CALLS[c[0]][1]:
                w, k, f = CALLS[c[0]]
                n, d = lin(c[1][k])
                if d == {P: 1}:
                    out.add((c[0], c[1][w], n))
            for d, z in (c[3] or {}).values() if isinstance(c[3], dict) else ():
                exprs += list(d.values())
        for e in exprs:
            for x in sub(e):
                if x[0] != "lin":
                    continue
                n, d = lin(x)
                sc = d.get(P)
                if not sc or sc < 4:
                    continue
                for t, k in d.items():
                    if k == 1 and t[0] == "ld":
                        c, b = lin(t[1])
                        if len(b) == 1 and list(b.values()) == [1]:
                            W = next(iter(b))
                            for ao, co, s, a, cn in self.T:
                                if ao == c:
                                    # the index is phi + (constant part of the address) / scale
                                    out.add((("mem", co, cn), W, n // sc))
        return out

    def is_count(self, e, acc):
        """e = count of the whole of one of the accesses, plus a constant: the constant"""
        n, d = lin(e)
        if len(d) != 1 or list(d.values()) != [1]:
            return None
        t = next(iter(d))
        for fam, W, j in acc:
            if isinstance(fam, str):
                if t[0] == "call" and t[1] in CALLS[fam][2] and len(t) > 2 and t[2] == W:
                    return n
            elif t[0] == "ld" and t[1] == add(W, C(fam[1])):
                return n
            elif t[0] == "call" and t[1] == COUNTS.get(fam[2]):
                return n
        return None

    def foreign(self, P, e, acc):
        """e counts the parts of something that is none of the wholes"""
        n, d = lin(e)
        if len(d) != 1:
            return False
        t = next(iter(d))
        fams = [(fam, W) for fam, W, j in acc if isinstance(fam, str)]
        if t[0] != "call" or t[1] not in COUNTFNS or len(t) < 3 or len(fams) != len(acc):
            return False
        mine = {repr(x) for x in self.bounds(P, t[2])}
        return all(mine != {repr(x) for x in self.bounds(P, W)} for fam, W in fams)

    def bounds(self, P, e, depth=0):
        """the values a loop bound may have: merges and selections taken apart"""
        n, d = lin(e)
        if depth < 4 and len(d) == 1 and list(d.values()) == [1]:
            t = next(iter(d))
            if t[0] in ("phi", "sel"):
                i = P.ins[t[1]]
                ops = [x for _, x in i.incoming] if i.op == "phi" else i.ops[1:]
                st = {"v": {}, "m": {}, "z": {}, "s": [], "c": [], "f": {}, "fl": []}
                out = []
                for x in ops:
                    v = P.ev(x, st)
                    if v != t:
                        out += self.bounds(P, add(v, C(n)), depth + 1)
                return out
        return [e]

    def run(self):
        for fn in sorted(self.mod.fns):
            f = self.mod.fns[fn]
            P = Pass(self.mod, f, cap=80000)
            if not P.headers:
                continue
            for h in sorted(P.headers):
                self.loop(fn, f, P, h)
                self.gather(fn, f, P, h)

    def loop(self, fn, f, P, h):
        body = P.bodies[h]
        if not any(i.op == "call" and (i.callee or "") in CALLS or i.op == "gep" and i.gep[1] for b in body for i in f.blocks[b].ins):
            return
        phis = [i for i in f.blocks[h].ins if i.op == "phi" and i.ty[0] == "i"]
        if not phis:
            return
        outs = P.passes(h)
        if not outs:
            return self.light(fn, f, P, h, phis)
        back = [o for o in outs if o.end == "back" and o.nxt[0] == h]
        if not back:
            return
        for phi in phis:
            X = ("phi", phi.id)
            steps = set()
            for o in back:
                n, d = lin(o.nxt[1].get(phi.id, ("undef",)))
                steps.add(n if d == {X: 1} else None)
            if None in steps or not any(steps):
                continue
            acc = set().union(*(self.accesses(o, phi.id) for o in outs))
            # a search key or another loop's variable is not the index
            if not acc:
                continue
            st0 = {"v": {}, "m": {}, "z": {}, "s": [], "c": [], "f": {}, "fl": []}
            init = [P.ev(x, st0) for pb, x in phi.incoming if pb not in body]
            self.judge(fn, f, P, h, phi, X, outs, back, steps, acc, init)

    def light(self, fn, f, P, h, phis):
        """too many passes: start, step and the condition at the top of the loop"""
        body = P.bodies[h]
        st0 = {"v": {}, "m": {}, "z": {}, "s": [], "c": [], "f": {}, "fl": []}
        outs = [o for o in P.run(start=h, within={h}) if o.end == "exit" and o.nxt[0] not in body]
        for phi in phis:
            X = ("phi", phi.id)
            acc = set()
            for b in body:
                for i in f.blocks[b].ins:
                    if i.op == "call" and i.callee in CALLS:
                        w, k, _ = CALLS[i.callee]
                        n, d = lin(P.ev(i.ops[k], st0))
                        if d == {X: 1}:
                            acc.add((i.callee, P.ev(i.ops[w], st0), n))
            if not acc:
                continue
            steps = set()
            for pb, x in phi.incoming:
                if pb in body:
                    n, d = lin(P.ev(x, st0))
                    steps.add(n if d == {X: 1} else None)
            if None in steps:
                continue
            init = [P.ev(x, st0) for pb, x in phi.incoming if pb not in body]
            self.judge(fn, f, P, h, phi, X, outs, [], steps, acc, init)

    def bad(self, rule, fn, o, text):
        w = o.where.where() if o is not None and getattr(o.where, "loc", None) else "%s:%d" % (self.mod.fns[fn].file, self.mod.fns[fn].line)
        self.r.bad(rule, "%s|%s|%s" % (rule, fn, text[:60]), w, "%s: %s" % (fn, text))

    def name(self, acc):
        return "/".join(sorted({a[0] if isinstance(a[0], str) else a[0][2].replace("_count", "") for a in acc}))

    def judge(self, fn, f, P, h, phi, X, outs, back, steps, acc, init):
        nm = self.name(acc)
        own = {j for fam, W, j in acc}
        if len(own) != 1:
            return
        j = own.pop()
        up = steps == {1}
        down = steps == {-1}
        if not (up or down):
            if all(s >= 0 for s in steps) or all(s <= 0 for s in steps):
                big = [s for s in steps if abs(s) > 1]
                if big:
                    self.bad("step", fn, (back or outs or [None])[0], "the loop over %s steps by %d: parts in between are never visited" % (nm, max(big, key=abs)))
            return
        # exits decided by the index
        decided = False
        for o in outs:
            if o.end not in ("exit", "ret"):
                continue
            a = 1 if self.accesses(o, phi.id) else 0
            # only the last condition makes the pass leave
            if not o.facts:
                continue
            e = o.facts[-1]
            if e[0] != "cmp":
                continue
            n1, d1 = lin(e[2])
            n2, d2 = lin(e[3])
            if X in d1 and X not in d2 and d1 == {X: 1}:
                p, c, N = e[1], n1, e[3]
            elif X in d2 and X not in d1 and d2 == {X: 1}:
                p, c, N = pathval.SWAP[e[1]], n2, e[2]
            else:
                continue
            # X + c  p  N
            if up:
                k = {"sge": 0, "uge": 0, "eq": 0, "sgt": 1, "ugt": 1}.get(p)
                if k is None:
                    continue
                for B in self.bounds(P, N):
                    m = self.is_count(B, acc)
                    if m is None and self.foreign(P, B, acc):
                        self.bad("bound", fn, o, "the loop over %s is bounded by the count of something else" % nm)
                        decided = True
                        continue
                    if m is None:
                        if B[0] == "c" and B[1] > 0:
                            self.bad("bound", fn, o, "the loop over %s stops at %d whatever the number of parts" % (nm, B[1]))
                            decided = True
                        continue
                    decided = True
                    # leaves when X + c >= count + m + k; visited so far: X + j + a
                    if c - m - k > j + a:
                        self.bad("bound", fn, o, "the loop over %s stops %d before the last part" % (nm, c - m - k - j - a))
            else:
                k = {"sle": 0, "ule": 0, "eq": 0, "slt": -1, "ult": -1}.get(p)
                if k is None or N[0] != "c":
                    continue
                decided = True
                # leaves when X + c <= N + k; the next index would be X + j - a
                if N[1] + k - c + j - a > -1:
                    self.bad("bound", fn, o, "the loop over %s stops %d before the first part" % (nm, N[1] + k - c + j - a + 1))
        if not decided:
            return
        self.r.ob("loop", "%s over %s" % (fn, nm))
        if phi.ty[1] < 32:
            self.bad("width", fn, (back or outs or [None])[0], "the loop over %s counts in %d bits" % (nm, phi.ty[1]))
        for v in init:
            for B in self.bounds(P, v):
                n, d = lin(B)
                if up and not d and n + j > 0:
                    self.bad("start", fn, (back or outs or [None])[0], "the loop over %s starts with part %d" % (nm, n + j))
                if down:
                    m = self.is_count(B, acc)
                    if m is not None and m + j < -1:
                        self.bad("start", fn, (back or outs or [None])[0], "the loop over %s leaves out the last %d" % (nm, -1 - m - j))
        self.passes(fn, P, h, phi, X, outs, back, acc, nm)

    def passes(self, fn, P, h, phi, X, outs, back, acc, nm):
        app = any(c[0] == APPEND for o in back for c in o.calls)
        for o in back:
            got = self.accesses(o, phi.id)
            if not got:
                # a failure noticed earlier ends the work
                if self.flagged(P, h, o, phi):
                    continue
                self.bad("skip", fn, o, "a pass of the loop over %s does not look at its part" % nm)
                continue
            self.r.ob("pass", "%s over %s" % (fn, nm))
            if app and not any(c[0] == APPEND for c in o.calls):
                if self.excused(P, h, o, phi):
                    continue
                self.bad("skip", fn, o, "a pass of the loop over %s neither schedules the part nor finds it missing" % nm)

    def gather(self, fn, f, P, h):
        """loops that put the results of the parts together: nothing gathered so far and no result gets lost"""
        body = P.bodies[h]
        names = {(i.callee or "") for b in body for i in f.blocks[b].ins if i.op == "call"}
        if DEQUEUE not in names and not any(n.startswith("dsprintf") for n in names):
            return
        outs = P.passes(h)
        back = [o for o in outs if o.end == "back" and o.nxt[0] == h]
        if not back:
            return

        def took(o):
            return [c for c in o.calls if c[0] == DEQUEUE and not self.outer(P, h, c[2])]
        if any(c[2].callee == DEQUEUE and not self.outer(P, h, c[2]) for o in back for c in o.calls):
            self.results(fn, f, P, h, back)
        for phi in [i for i in f.blocks[h].ins if i.op == "phi" and i.ty == ("p",)]:
            X = ("phi", phi.id)
            if not any(self.text(o.nxt[1].get(phi.id)) for o in back):
                continue
            self.r.ob("text", "%s: text put together in a loop" % fn)
            for o in back:
                v = o.nxt[1].get(phi.id)
                if self.text(v):
                    args = v[3:]
                    if X not in args and cmp_("eq", X, C(0)) not in o.facts:
                        self.bad("text", fn, o, "a pass replaces the text gathered so far instead of extending it")
                    elif not any(t not in (X,) and t[0] not in ("c", "g") for t in args):
                        self.bad("text", fn, o, "a pass adds nothing to the text")
                elif v != X and not self.failed(o):
                    self.bad("text", fn, o, "a pass forgets the text gathered so far")
                qs = took(o)
                if not qs:
                    continue
                res = ("call", DEQUEUE) + tuple(P.show(a, None) for a in qs[0][1])
                if cmp_("eq", res, C(0)) in o.facts:
                    continue
                if self.text(v):
                    if not any(mentions(t, lambda u: u == res) for t in v[3:]):
                        self.bad("text", fn, o, "the text of a part is left out")
                elif v == X:
                    if not any(e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and e[2] != res and mentions(e[2], lambda u: u == res) for e in o.facts):
                        self.bad("text", fn, o, "the text of a part is dropped though it is not empty")

            if any(took(o) for o in outs):
                self.leaves(fn, f, P, h)

    def leaves(self, fn, f, P, h):
        """a pass that ends the loop early, as if it had come to its end, has put the text of its part in"""
        try:
            outs = P.run(start=h)
        except pathval.TooMany:
            return
        for o in outs:
            qs = [c for c in o.calls if c[0] == DEQUEUE and not self.outer(P, h, c[2]) and P.blk[c[2].id] in P.bodies[h]]
            if o.end == "back" and o.nxt[0] == h or not qs:
                continue
            res = ("call", DEQUEUE) + tuple(P.show(a, None) for a in qs[0][1])
            if cmp_("eq", res, C(0)) in o.facts:
                continue
            for c in o.calls:
                if c[0] == DONE and self.text(c[1][1]) and not mentions(c[1][1], lambda u: u == res):
                    self.bad("text", fn, o, "a pass ends the loop and leaves out the text of its part")

    def text(self, v):
        return v is not None and v[0] == "call" and v[1].startswith("dsprintf")

    def outer(self, P, h, ins):
        """the call belongs to a loop inside this one"""
        b = P.blk.get(ins.id)
        return any(k != h and k in P.bodies[h] and b in P.bodies[k] for k in P.headers)

    def failed(self, o):
        return any(e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and e[2] in o.ptrs for e in o.facts)

    def completes(self, f, P, h):
        """after the loop the work may be reported as done"""
        heads = {k for k in P.headers if h in P.bodies[k]}
        todo = [s for b in P.bodies[h] for s in f.blocks[b].succ if s not in P.bodies[h]]
        seen = set()
        while todo:
            b = todo.pop()
            if b in seen or b in heads:
                continue
            seen.add(b)
            if any(i.op == "call" and i.callee == DONE for i in f.blocks[b].ins):
                return True
            todo += f.blocks[b].succ
        return False

    def results(self, fn, f, P, h, back):
        whole = NEXT in {(i.callee or "") for b in P.bodies[h] for i in f.blocks[b].ins}
        if not whole and not self.completes(f, P, h):
            return                              # clearing up after a failure
        for o in back:
            if whole and (not any(c[0] == DONE for c in o.calls) or any(c[0] == FAIL for c in o.calls)):
                continue
            qs = [c for c in o.calls if c[0] == DEQUEUE and not self.outer(P, h, c[2])]
            if not qs:
                continue
            res = ("call", DEQUEUE) + tuple(P.show(a, None) for a in qs[0][1])
            self.r.ob("result", "%s: result of a part" % fn)
            if cmp_("eq", res, C(0)) in o.facts:
                continue
            used = any(mentions(e, lambda t: t[0] == "out" and t[1] == DEQUEUE) for e in o.facts)
            used |= any(mentions(v, lambda t: t == res) for a, v, i in o.stores)
            used |= any(mentions(v, lambda t: t == res) for v in o.nxt[1].values())
            used |= any(mentions(x, lambda t: t == res) for c in o.calls if c[0] not in DROP for x in c[1])
            used |= any(mentions(e, lambda t: t[0] == "ld" and mentions(t, lambda u: u == res)) for e in o.facts)
            for a, v, i in o.stores:
                if v != res:
                    continue
                for t, k in lin(a)[1].items():
                    if t[0] == "phi" and t[1] in o.nxt[1] and abs(k) >= 4:
                        if lin(o.nxt[1][t[1]]) != (1, {t: 1}):
                            self.bad("result", fn, o, "the slot for the result of a part is not advanced by one")
                        for pb, x in P.ins[t[1]].incoming:
                            if pb not in P.bodies[h] and P.ev(x, {"v": {}}) not in (C(0), ("undef",)) and P.ev(x, {"v": {}})[0] == "c":
                                self.bad("result", fn, o, "the first slot for the results of the parts stays empty")
            if not used:
                self.bad("result", fn, o, "a pass takes the result of a part and makes no use of it")

    def excused(self, P, h, o, phi):
        for e in o.facts:
            if e[0] == "cmp" and e[1] == "ne" and e[3][0] == "c" and e[2][0] == "ld" and lin(e[2][1])[0] == self.kind and \
                    any(k >= 64 for t, k in lin(e[2][1])[1].items() if t == ("phi", phi.id)):
                return True                                          # an entry of another kind
            if e[0] == "cmp" and e[1] == "ne" and e[3] == C(0):      # "..." has no type
                if e[2][0] == "ld" and mentions(e[2], lambda t: t[0] == "phi" and t[1] == phi.id) and lin(e[2][1])[0] == self.unspec or e[2][0] == "call" and "unspecified" in e[2][1]:
                    return True
            if e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and (e[2] in o.ptrs or e[2][0] == "call" and e[2][1] in CALLS):
                return True
        return self.flagged(P, h, o, phi)

    def flagged(self, P, h, o, phi):
        """the pass depends on a flag the loop carries (a failure noticed earlier)"""
        own = {i.id for i in P.fn.blocks[h].ins if i.op == "phi" and i.ty[0] == "i"} - {phi.id}
        return any(e[0] == "cmp" and e[3][0] == "c" and e[2][0] == "phi" and e[2][1] in own for e in o.facts)


def check(pid, tier):
    r = Result("loops that walk the members, elements, parameters, enumerators, children or cases of something: every loop's index "
               "is followed through one symbolic pass (start, step, end condition, what each pass does with its part)",
               "the index takes every value from 0 to the count of the whole the parts belong to, and no pass leaves its part out")
    mod = ir.load_module(inline=lambda n, internal, info: internal and info["size"] < 400)
    c = Cover(mod, r)
    c.run()
    r.need("loop", 8)
    return r
