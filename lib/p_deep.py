"""C30 deep comparison, C31 deep copy: what one step of the walk over a memory map does with the entry it has got."""
import ir
import pathval
from p_cover import Pass
from pathval import C, add, cmp_, ld, lin, mentions, off
from result import Result

I = "metac_recursive_iterator_"
NEXT, DONE, FAIL, STATE, SET, APPEND, DEQ = (I + x for x in ("next", "done", "fail", "get_state", "set_state", "create_and_append_dep", "dequeue_and_delete_dep"))
NEWIT = "metac_new_recursive_iterator"
MAP = "metac_new_value_memory_map_ex"
LEAF = ("pointer", "enumeration", "base_type")


def call(n, *a):
    return ("call", n) + a


def nz(e):
    return {cmp_("ne", e, C(0)), cmp_("ugt", e, C(0)), cmp_("sgt", e, C(0))}


def allow(e):
    """facts that state e != 0, e == 0"""
    return nz(e), {cmp_("eq", e, C(0)), cmp_("slt", e, C(1)), cmp_("ult", e, C(1))}


class Walk:
    def __init__(self, mod, r, fn):
        self.mod, self.r, self.fn = mod, r, fn
        self.f = mod.fns.get(fn)
        L = ir.layouts()
        self.M = {k: v[0] for k, v in (L.get("metac_memory_entry") or L["struct metac_memory_entry"]).items()}
        self.MM = {k: v[0] for k, v in (L.get("metac_memory_map") or L["struct metac_memory_map"]).items()}
        self.MODE = next({k: v[0] for k, v in x.items()} for x in L.values() if "memory_block_mode" in x and "union_mode" in x)
        self.K = ir.constants(["METAC_R_ITER_start", "METAC_UPTR_as_values", "METAC_UPTR_ignore", "METAC_UNION_as_mem", "METAC_UNION_ignore",
                               "METAC_KND_union_type", "METAC_KND_pointer_type", "METAC_KND_enumeration_type", "METAC_KND_base_type",
                               "METAC_MMODE_tree", "METAC_MMODE_dag"],
                              prelude='#include "metac/backend/iterator.h"\n')
        self.h = None
        if self.f is None:
            return
        self.P = Pass(mod, self.f, cap=200000)
        for h in sorted(self.P.headers):
            names = {(i.callee or "") for b in self.P.bodies[h] for i in self.f.blocks[b].ins if i.op == "call"}
            if NEXT in names and (DONE in names) and (self.h is None or len(self.P.bodies[h]) > len(self.P.bodies[self.h])):
                self.h = h
        if self.h is None:
            return
        self.outs = self.P.passes(self.h)
        self.entry()

    def entry(self):
        """the memory map entry a pass works on"""
        cand = [("phi", i.id) for i in self.f.blocks[self.h].ins if i.op == "phi" and i.ty == ("p",)]
        for o in self.outs:
            for c in o.calls:
                if c[0] == NEXT:
                    cand.append(call(NEXT, *(self.P.show(a, None) for a in c[1])))
        self.p = None
        for x in cand:
            q = ld(off(x, self.M["private_data"]))
            if any(mentions(e, lambda t: t == q) for o in self.outs for e in o.facts) or \
                    any(mentions(a, lambda t: t == q) for o in self.outs for c in o.calls for a in c[1]):
                self.p, self.q = x, q
                return

    def at(self, e, k):
        return ld(off(e, self.M[k]))

    def val(self, e):
        return self.at(e, "p_val")

    def started(self, o):
        K = self.K["METAC_R_ITER_start"]
        return any(e[0] == "cmp" and e[1] == "eq" and e[3] == C(K) and e[2][0] == "call" and e[2][1] == STATE for e in o.facts)

    def has(self, o, n):
        return any(c[0] == n for c in o.calls)

    def back(self):
        return [o for o in self.outs if o.end == "back" and o.nxt[0] == self.h]

    def bad(self, rule, o, text):
        w = self.where(o)
        self.r.bad(rule, "%s|%s|%s" % (rule, self.fn, text[:70]), w, "%s: %s" % (self.fn, text))

    def where(self, o):
        for c in reversed(o.calls):
            if c[0] in (DONE, SET, FAIL, APPEND) and c[2].loc:
                return "%s:%s" % tuple(c[2].loc[:2])
        return "%s:%s" % tuple(o.where.loc[:2]) if getattr(o.where, "loc", None) else "src/value_deep.c"

    def kind(self, v):
        return call("metac_value_final_kind", v, C(0))

    def is_a(self, o, v, k):
        """True/False/None: what the path knows about the kind of the value v"""
        kinds = {"pointer": "METAC_KND_pointer_type", "enumeration": "METAC_KND_enumeration_type", "base_type": "METAC_KND_base_type",
                 "union": "METAC_KND_union_type"}
        yes, no = allow(call("metac_value_is_" + k, v))
        n = self.K[kinds[k]]
        for e in o.facts:
            if e in yes:
                return True
            if e in no:
                return False
            if e[0] == "cmp" and e[3][0] == "c" and e[2][0] == "call" and e[2][1] in ("metac_value_final_kind", "metac_value_kind") and e[2][2] == v:
                if e[1] == "eq":
                    return e[3][1] == n
                if e[1] == "ne" and e[3][1] == n:
                    return False
        for w in LEAF:                        # another kind is known
            if w != k and any(e in nz(call("metac_value_is_" + w, v)) for e in o.facts):
                return False
        return None

    def mode(self, o, field, const):
        """True/False/None: the mode's field equals the constant"""
        n = self.K[const]
        for e in o.facts:
            if e[0] == "cmp" and e[3][0] == "c" and e[2][0] == "ld" and self.is_mode(e[2][1], field):
                if e[1] == "eq":
                    return e[3][1] == n
                if e[1] == "ne" and e[3][1] == n:
                    return False
        return None

    def is_mode(self, a, field):
        c, d = lin(a)
        return c == self.MODE[field] and len(d) == 1 and next(iter(d))[0] in ("phi", "sel", "a", "i", "g") and a != off(self.p, self.MODE[field])

    def locals(self, o):
        l = o.locals
        while l:
            yield l[1]
            l = l[0]


# ------------------------------------------------------------------------------------------------ C30
class Equal(Walk):
    SHAPE = ("byte_size", "children_count", "loop_level", "offset_from_allocate_base")

    def result(self):
        """the local variable or loop variable the answer is taken from"""
        seen, out = set(), set()
        todo = [b.ins[-1].ops[0] for b in self.f.blocks if b.ins[-1].op == "ret" and b.ins[-1].ops]
        while todo:
            x = todo.pop()
            if x[0] != "i" or x[1] in seen:
                continue
            seen.add(x[1])
            i = self.P.ins[x[1]]
            if i.op == "phi":
                if i in self.f.blocks[self.h].ins:
                    out.add(("phi", i.id))
                    continue
                todo += [y for _, y in i.incoming]
            elif i.op == "select":
                todo += i.ops[1:]
            elif i.op == "load":
                a = self.P.local(i.ops[0])
                if a:
                    out.add(a)
            elif i.op in ("zext", "sext", "trunc", "freeze"):
                todo.append(i.ops[0])
            elif i.op == "icmp" and i.pred == "ne":
                todo += i.ops
        return out

    def run(self):
        R = self.result()
        self.r.need("answer", 1)
        if self.p is None or not R:
            return
        self.r.ob("answer", "variable that holds the answer")
        self.R = R
        for o in self.back():
            self.value(o)
            if not self.started(o) or self.has(o, FAIL):
                continue
            self.step(o)
        self.pairs()
        self.frame()

    def writes(self, o):
        out = [v for a, v, i in self.locals(o) if a in self.R]
        out += [v for k, v in o.nxt[1].items() if ("phi", k) in self.R and v != ("phi", k)]
        return out

    def value(self, o):
        """once a difference has been seen the answer stays"""
        for v in self.writes(o):
            if v == C(0) or v[0] == "phi" and v in self.R or v[0] == "undef":
                continue
            if any(e[0] == "cmp" and e[1] in ("ne", "eq") and (e[2] in self.R or e[2][0] == "undef" and e[2][1] in self.R) for e in o.facts):
                continue
            if v[0] in ("op", "and") and any(mentions(v, lambda t: t == x or t[0] == "undef" and t[1:] == (x,)) for x in self.R):
                continue
            self.bad("sticky", o, "a step overwrites the answer, a difference found before is forgotten")

    def same(self, o):
        """shape facts that are missing on the path"""
        miss = [k for k in self.SHAPE if cmp_("eq", self.at(self.p, k), self.at(self.q, k)) not in o.facts and
                not any(cmp_("eq", self.at(self.p, k), C(n)) in o.facts and cmp_("eq", self.at(self.q, k), C(n)) in o.facts for n in (0, 1))]
        if cmp_("eq", self.kind(self.val(self.p)), self.kind(self.val(self.q))) not in o.facts:
            miss.append("kind")
        return miss

    def evidence(self, o):
        for k in self.SHAPE:
            if cmp_("ne", self.at(self.p, k), self.at(self.q, k)) in o.facts:
                return True
        for e in o.facts:
            if e[0] != "cmp":
                continue
            ts = [t for t in e[2:] if t[0] == "call"]
            for t in ts:
                if t[1].startswith("metac_value_equal_") and e[1] == "eq" and e[3] == C(0):
                    return True
                if t[1] in ("memcmp", "bcmp") and e[1] != "eq":
                    return True
            if len(ts) == 2 and ts[0][1] == ts[1][1] and e[1] == "ne":
                return True
            if e[1] in ("ne", "slt", "ult", "sgt", "ugt") and mentions(e[2], lambda t: t == self.p) and mentions(e[3], lambda t: t == self.q):
                return True
            if e[1] in ("ne", "slt", "ult", "sgt", "ugt") and mentions(e[3], lambda t: t == self.p) and mentions(e[2], lambda t: t == self.q):
                return True
        return False

    def step(self, o):
        v1, v2 = self.val(self.p), self.val(self.q)
        diff = any(v == C(0) for v in self.writes(o))
        self.r.ob("step", "one entry of each map")
        if diff:
            if not self.evidence(o) and not self.was(o):
                self.bad("unfounded", o, "a difference is reported although nothing was found to differ")
            return
        for k in self.same(o):
            self.bad("shape", o, "entries are taken as equal although their %s was not compared" % k.replace("_", " "))
        kinds = {k: (self.is_a(o, v1, k), self.is_a(o, v2, k)) for k in LEAF}
        hit = [k for k in LEAF if kinds[k] == (True, True) or True in kinds[k] and False not in kinds[k]]
        none = cmp_("eq", self.at(self.p, "children_count"), C(0)) in o.facts or cmp_("eq", self.at(self.q, "children_count"), C(0)) in o.facts
        some = any(cmp_("ne", self.at(x, "children_count"), C(0)) in o.facts for x in (self.p, self.q))
        if hit:
            k = hit[0]
            if k == "pointer" and some:
                if self.has(o, DONE):
                    self.bad("leaf", o, "what a pointer points to is left out of the comparison")
                return
            if k == "pointer" and self.mode(o, "unknown_ptr_mode", "METAC_UPTR_as_values") is False:
                return
            if not self.compared(o, k, v1, v2):
                self.bad("leaf", o, "a %s is taken as equal without being compared" % k.replace("_", " "))
            return
        for k in LEAF:
            if False not in kinds[k]:
                self.bad("leaf", o, "entries are taken as equal though nothing excludes a %s that was not compared" % k.replace("_", " "))
                return
        u = (self.is_a(o, v1, "union"), self.is_a(o, v2, "union"))
        if False in u or some or self.mode(o, "union_mode", "METAC_UNION_as_mem") is False or \
                any(cmp_("eq", self.at(x, "byte_size"), C(0)) in o.facts or cmp_("ule", self.at(x, "byte_size"), C(0)) in o.facts for x in (self.p, self.q)):
            pass
        elif not self.memory(o, v1, v2):
            self.bad("union", o, "a union that is to be compared as memory is taken as equal without comparing its bytes")
        if self.has(o, DONE) and not none:
            self.bad("leaf", o, "the parts of an entry are left out of the comparison")

    def compared(self, o, k, v1, v2):
        for e in (call("metac_value_equal_" + k, v1, v2), call("metac_value_equal_" + k, v2, v1)):
            if any(f in o.facts for f in nz(e)) or cmp_("eq", e, C(1)) in o.facts:
                return True
            if any(v in nz(e) or v[0] in ("op", "and") and v[1] == "and" and any(x == e or x in nz(e) for x in v[2:]) for v in self.writes(o)):
                return True                    # the outcome becomes part of the answer
            if self.was(o):
                return True
        return False

    def was(self, o):
        """a difference is known already"""
        return any(e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and (e[2] in self.R or e[2][0] == "undef" and e[2][1] in self.R) for e in o.facts)

    def memory(self, o, v1, v2):
        a = {call("metac_value_addr", v1), call("metac_value_addr", v2)}
        n = (self.at(self.p, "byte_size"), self.at(self.q, "byte_size"))
        for e in o.facts:
            if e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and e[2][0] == "call" and e[2][1] in ("memcmp", "bcmp"):
                if set(e[2][2:4]) == a and e[2][4] in n:
                    return True
        return False

    def pairs(self):
        """children are compared one by one, each with its counterpart"""
        n = 0
        for h in sorted(self.P.headers):
            if h == self.h or h not in self.P.bodies[self.h]:
                continue
            for o in self.P.passes(h):
                for c in o.calls:
                    if c[0] != APPEND:
                        continue
                    x = c[1][1]
                    i = self.index(x, self.p)
                    n += 1
                    self.r.ob("pair", "child and counterpart")
                    st = [v for a, v, _ in o.stores if a == off(x, self.M["private_data"])]
                    if i is None:
                        continue
                    good = ld(add(self.at(self.q, "pp_children"), i))
                    first = st[0] if st else None
                    if first != good:
                        self.bad("pair", o, "a part is not compared with the part at the same place of the other value")
        self.r.need("pair", 1)

    def index(self, x, p):
        """x = children[i] of p -> address part of i"""
        if x[0] != "ld":
            return None
        d = add(x[1], self.at(p, "pp_children"), -1)
        return d if not mentions(d, lambda t: t == self.at(p, "pp_children")) else None

    def frame(self):
        """the maps belong to the two values, the walk starts with their tops, the answer is the variable or a failure"""
        outs = pathval.Paths(self.mod, self.f, cap=20000).run(skip=True)
        tops = 0
        for o in outs:
            ms = [c for c in o.calls if c[0] == MAP]
            if o.end != "ret":
                continue
            if len(ms) >= 2:
                a = {c[1][0] for c in ms}
                if a != {("a", 0), ("a", 1)}:
                    self.bad("maps", o, "the compared memory maps are not those of the two values")
                if len({c[1][1] for c in ms}) != 1 or len({c[1][2] for c in ms}) != 1:
                    self.bad("maps", o, "the two values are mapped with different modes or tags")
                elif ms[0][1][2] != ("a", 3):
                    self.bad("maps", o, "the values are not mapped with the caller's tags")
            its = [c for c in o.calls if c[0] == NEWIT]
            if its:
                tops += 1
                t1 = its[0][1][0]
                m = {ld(off(call(MAP, *c[1]), self.MM["p_top_entry"])): c for c in ms}
                st = [v for a, v, _ in o.stores if a == off(t1, self.M["private_data"])]
                other = [t for t in m if t != t1]
                if t1 not in m or not other or not st or st[0] != other[0]:
                    self.bad("maps", o, "the walk does not start with the tops of the two maps")
            v = o.ret
            if v is not None and v[0] == "c" and v[1] >= 0 and cmp_("eq", ("a", 0), ("a", 1)) not in o.facts:
                self.bad("answer", o, "an answer is given that does not come from the comparison")
            if v is not None and v[0] in ("cmp", "not") and (v[0] == "not" or v[1] == "eq"):
                self.bad("answer", o, "the answer is turned around")
        self.r.count("frames", tops)


def check_equal(pid, tier):
    r = Result("metac_value_equal_ex: every pass of its walk over the two memory maps (facts known on the path, what is compared, what is recorded), "
               "the pairing of parts, and how the walk is set up and answered",
               "a pass leaves the answer `equal' only if size, number of parts, cycle, offset and kind agree and the leaf or bytes were compared; it "
               "records a difference only on a comparison that failed; the record is never taken back")
    mod = ir.load_module(inline=lambda n, internal, info: internal and info["size"] < 400)
    w = Equal(mod, r, "metac_value_equal_ex")
    r.need("step", 4)
    if w.f is not None and w.h is not None and w.outs:
        w.run()
    leaves(mod, r, False)
    return r


# ------------------------------------------------------------------------------------------------ C31
class Copy(Walk):
    def run(self):
        if self.p is None:
            return
        self.r.ob("walk", "copying walk")
        for o in self.back():
            if self.started(o) and not self.has(o, FAIL):
                self.step(o)
        self.parts()
        self.frame()

    def calls(self, o, n):
        return [c for c in o.calls if c[0] == n]

    def ok(self, o, c):
        """the call is known to have succeeded"""
        e = call(c[0], *(self.P.show(a, None) for a in c[1]))
        if c[0].startswith("metac_value_copy"):
            return any(f in o.facts for f in nz(e))
        return cmp_("eq", e, C(0)) in o.facts

    def step(self, o):
        v, q = self.val(self.p), self.q
        self.r.ob("step", "one entry")
        kinds = {k: self.is_a(o, v, k) for k in LEAF}
        hit = [k for k in LEAF if kinds[k]]
        if hit and hit[0] != "pointer":
            k = hit[0]
            if not any(c[1][:2] == (v, q) for c in self.calls(o, "metac_value_copy_" + k)):
                self.bad("leaf", o, "a %s is passed over without being copied from the source to the destination" % k.replace("_", " "))
            return
        if hit:
            return self.pointer(o, v, q)
        open_ = [k for k in LEAF if kinds[k] is None]
        if open_:
            self.bad("leaf", o, "an entry is passed over though nothing excludes a %s that was not copied" % open_[0].replace("_", " "))
            return
        none, some = self.count(o)
        u = self.is_a(o, v, "union")
        size = self.at(self.p, "byte_size")
        if u and none and any(f in o.facts for f in nz(size)):
            for m, mode in (("as_mem", "METAC_UNION_as_mem"), ("ignore", "METAC_UNION_ignore")):
                if self.mode(o, "union_mode", mode):
                    self.union(o, m, v, q, size)
        self.bytes(o, v, q, size)
        par = call("metac_value_has_parameter_load", v)
        if any(f in o.facts for f in nz(par)):
            want = (call("metac_value_addr", v), call("metac_value_addr", q))
            if not any(c[1][:2] == want for c in self.calls(o, "metac_parameter_storage_copy")):
                self.bad("parameters", o, "the parameters of a call are not copied from the source to the destination")

    def count(self, o):
        c = self.at(self.p, "children_count")
        none = cmp_("eq", c, C(0)) in o.facts or cmp_("slt", c, C(1)) in o.facts or cmp_("ne", c, C(1)) in o.facts and cmp_("slt", c, C(2)) in o.facts
        some = cmp_("eq", c, C(1)) in o.facts or cmp_("ne", c, C(0)) in o.facts or cmp_("sgt", c, C(0)) in o.facts
        return none, some

    def union(self, o, m, v, q, size):
        a, b = call("metac_value_addr", q), call("metac_value_addr", v)
        for c in o.calls:
            if m == "as_mem" and c[0] == "memcpy" and c[1][:3] == (a, b, size):
                return
            if m == "ignore" and c[0] == "memset" and c[1][:3] == (a, C(0), size):
                return
        self.bad("union", o, "a union is not %s in the destination" % ("reproduced as memory" if m == "as_mem" else "cleared"))

    def bytes(self, o, v, q, size):
        a, b = call("metac_value_addr", q), call("metac_value_addr", v)
        for c in o.calls:
            if c[0] in ("memcpy", "memset"):
                if c[1][0] != a or c[1][2] != size or c[0] == "memcpy" and c[1][1] != b or c[0] == "memset" and c[1][1] != C(0):
                    self.bad("union", o, "memory is copied or cleared that is not the entry's own")

    # ---- pointers
    def pointer(self, o, v, q):
        none, some = self.count(o)
        sets = [c for c in self.calls(o, "metac_value_set_pointer") if c[1][0] == q]
        cps = self.calls(o, "metac_value_copy_pointer")
        if some:
            if len(sets) != 1:
                return self.bad("pointer", o, "a pointer is passed over without being set in the destination")
            return self.target(o, v, sets[0][1][1])
        if not none:
            return
        lvl = self.at(self.p, "loop_level")
        loop = cmp_("sgt", lvl, C(0)) in o.facts or cmp_("ne", lvl, C(0)) in o.facts
        if loop:
            par = call("metac_memory_entry_parent", self.p, lvl)
            ok = any(c[1][:2] == (self.at(par, "private_data"), q) for c in cps)
            k = self.M["private_data"]
            ok = ok or any(c[1][0][0] == "ld" and lin(c[1][0][1])[0] == k and c[1][1] == q and c[1][0] != self.at(self.p, "private_data") and
                           self.walked(c[1][0], lvl) for c in cps)
            if not ok:
                self.bad("loop", o, "a pointer that closes a cycle is not set to what the copy of that place points to")
            return
        val = ld(("out", "metac_value_pointer", 1, (v, ("local",))))
        if self.mode(o, "unknown_ptr_mode", "METAC_UPTR_as_values"):
            if not any(c[1][:2] == (v, q) for c in cps) and not any(c[1][1] == val for c in sets):
                self.bad("pointer", o, "a pointer that is to be copied as a value is passed over")
        elif any(c[1][1] != C(0) and not (c[1][1] == val and cmp_("eq", val, C(0)) in o.facts) for c in sets) or cps and cmp_("eq", val, C(0)) not in o.facts:
            self.bad("pointer", o, "a pointer whose target is not copied is set in the destination though the mode does not ask for it")
        elif not sets and not cps and cmp_("ne", val, C(0)) not in o.facts:
            self.bad("pointer", o, "a pointer without target leaves the destination's old pointer in place")

    def walked(self, e, lvl):
        """e is found by the entry's loop level, or by a loop of its own"""
        if e == lvl:
            return True
        if not isinstance(e, tuple) or e == self.p:
            return False
        return e[:1] in (("phi",), ("loop",)) or any(self.walked(x, lvl) for x in e)

    def target(self, o, v, w):
        """w: what the pointer is set to = copy of the child's block + (source pointer - child's address)"""
        child = ld(self.at(self.p, "pp_children"))
        addr = call("metac_value_addr", self.val(child))
        src = ld(("out", "metac_value_pointer", 1, (v, ("local",))))
        size, base = self.at(child, "byte_size"), self.at(child, "offset_from_allocate_base")
        if cmp_("eq", addr, src) in o.facts:
            shifts = [C(0), add(src, addr, -1)]
        else:
            shifts = [add(src, addr, -1)]
        for s in shifts:
            b = add(w, s, -1)                                    # address of the child's copy
            if self.mode(o, "memory_block_mode", "METAC_MMODE_tree"):
                if b[0] == "call" and b[1] == "*" and len(b) >= 5:
                    n, k = b[3], b[4]
                    if n == C(1) and k == size or k[0] == "op" and k[1] in ("udiv", "sdiv") and k[2] == size and k[3] == n or \
                            k == C(1) and n == size or k == size and n == C(1):
                        return
                    return self.bad("block", o, "the block for the copy of what a pointer points to has not that thing's size")
                continue
            if b[0] == "call" and b[1] == "hashmapGet" and b[3] == addr and \
                    (allow(base)[1] | {cmp_("sle", base, C(0)), cmp_("ule", base, C(0))}) & set(o.facts):
                return
            g = add(b, base, -1)
            if g[0] == "call" and g[1] == "hashmapGet" and g[3] == add(addr, base, -1):
                return
        self.bad("pointer", o, "a pointer is not set to the copy of what it points to")

    # ---- children
    def parts(self):
        for h in sorted(self.P.headers):
            if h == self.h or h not in self.P.bodies[self.h]:
                continue
            for o in self.P.passes(h):
                for c in self.calls(o, APPEND):
                    x = c[1][1]
                    if x[0] != "ld":
                        continue
                    d = add(x[1], self.at(self.p, "pp_children"), -1)
                    if mentions(d, lambda t: t == self.at(self.p, "pp_children")):
                        continue
                    st = [v for a, v, _ in o.stores if a == off(x, self.M["private_data"]) and v != C(0)]
                    app = call(APPEND, *(self.P.show(a, None) for a in c[1]))
                    if any(f in o.facts for f in nz(app)):
                        continue
                    self.r.ob("part", "destination of a part")
                    if not st:
                        if o.end == "back" and o.nxt[0] == h:
                            self.bad("part", o, "a part is scheduled without a destination")
                        continue
                    self.part(o, x, d, st[-1])

    def part(self, o, x, d, v):
        cv = self.val(x)
        if v[0] == "call" and v[1] == "metac_parameter_storage_new_param_value":
            i, e = lin(d)
            idx = next(iter(e), None)
            if v[2] != call("metac_value_addr", self.q) or idx is None or v[3] != idx or i:
                self.bad("part", o, "a parameter is copied to another place of the destination")
            return
        if v[0] != "call" or v[1] != "metac_new_value":
            return
        if v[2] != call("metac_value_entry", cv):
            return self.bad("part", o, "a part gets a destination of another type")
        a = v[3]
        if a == add(add(call("metac_value_addr", self.q), call("metac_value_addr", cv)), call("metac_value_addr", self.val(self.p)), -1):
            # the pointed-to block is elsewhere
            return
        if a[0] in ("phi", "sel", "i") and any(f in o.facts for f in nz(a)):
            return                                               # what the pointer was set to, see `target'
        self.bad("part", o, "a part is copied to a place that is not its own in the destination")

    # ---- set-up
    def frame(self):
        outs = pathval.Paths(self.mod, self.f, cap=60000).run(skip=True)
        cbs = set()
        for o in outs:
            if o.end != "ret":
                continue
            self.r.ob("frame", "path around the walk")
            for c in o.calls:
                if c[0] == MAP and (c[1][0] != ("a", 0) or c[1][2] != ("a", 5)):
                    self.bad("map", o, "the copied memory map is not that of the source with the caller's tags")
                if c[0] == "hashmapForEach" and c[1][1][0] in ("g", "fn"):
                    cbs.add(c[1][1][1])
            if o.ret == ("a", 1):
                t = [e for e in o.facts if e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and e[2][0] == "call" and e[2][1] in ("strcmp", "memcmp")]
                want = {call("metac_entry_cdecl", ("F", call("metac_value_entry", ("a", k)))) for k in (0, 1)}
                if not any(e[2][1] == "strcmp" and {x for x in e[2][2:4]} == want for e in t):
                    self.bad("type", o, "the copy is made though source and destination have not been found to have the same type")
                if any(c[0] == NEWIT for c in o.calls) and not any(v == ("a", 1) and lin(a)[0] == self.M["private_data"] for a, v, _ in o.stores):
                    self.bad("map", o, "the walk does not start with the destination")
            elif o.ret is not None and o.ret != C(0):
                self.bad("result", o, "something else than the destination is returned")
        for n in sorted(cbs):
            self.callback(n.split("@")[0], n)

    def callback(self, n, full):
        f = self.mod.fns.get(n) or self.mod.fns.get(full)
        if f is None:
            return
        names = {(i.callee or "*") for b in f.blocks for i in b.ins if i.op == "call"}
        if "hashmapPut" not in names:
            return
        for o in pathval.Paths(self.mod, f).run():
            base = self.at(("a", 1), "offset_from_allocate_base")
            puts = [c for c in o.calls if c[0] == "hashmapPut"]
            own = cmp_("eq", base, C(0)) in o.facts
            self.r.ob("block", "block of the source")
            if o.end != "ret" or o.ret in (C(0), None):
                continue
            if not puts:
                if own or cmp_("ne", base, C(0)) not in o.facts:
                    self.r.bad("block", "block|missing", "%s:%d" % (f.file, f.line), "%s: a block of the source gets no counterpart" % n)
                continue
            c = puts[0]
            new = c[1][2]
            if c[1][1] != ("a", 0) or not (new[0] == "call" and new[1] == "*" and self.sized(new, self.at(("a", 1), "byte_size"))):
                self.r.bad("block", "block|put", c[2].where(), "%s: a block of the source is not recorded with a counterpart of its size" % n)
            if not own:
                self.r.bad("block", "block|weak", c[2].where(), "%s: memory inside another block gets a block of its own" % n)

    def sized(self, b, size):
        return len(b) >= 5 and (b[3], b[4]) in ((C(1), size), (size, C(1)))


def flip(e):
    """a negated comparison as a comparison"""
    one = e[0] == "op" and e[1] == "xor" and C(1) in e[2:]
    x = e[1] if e[0] == "not" else e[2] if one and e[3] == C(1) else e[3] if one else e[2] if e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) else None
    if x is None:
        return e
    x = flip(x)
    if x[0] == "cmp" and x[1] in ("eq", "ne"):
        return ("cmp", "ne" if x[1] == "eq" else "eq") + x[2:]
    if x[0] == "op" and x[1] == "or":
        return ("op", "and") + tuple(flip(("op", "xor", y, C(1))) for y in x[2:])
    return e


def leaves(mod, r, copy):
    """comparison and copy of one pointer, enumeration or base type value"""
    class F(pathval.Paths):
        def step(self, i, st):
            if i.op == "fcmp":
                p = {"f1": "eq", "f9": "eq", "f14": "ne", "f6": "ne"}.get(i.pred)
                return ("cmp", p, self.ev(i.ops[0], st), self.ev(i.ops[1], st)) if p else ("i", i.id)
            return pathval.Paths.step(self, i, st)

    def outs_of(e, arg):
        """(getter, offset) if e is what a getter delivered for the argument"""
        if e[0] != "ld":
            return None
        k, d = lin(e[1])
        if len(d) == 1:
            t = next(iter(d))
            if t[0] == "out" and t[3] and t[3][0] == ("a", arg):
                return t[1], k
        return None
    for k in LEAF:
        n = "metac_value_%s_%s" % ("copy" if copy else "equal", k)
        f = mod.fns.get(n)
        if f is None:
            continue
        where = "%s:%d" % (f.file, f.line)
        for o in F(mod, f, trunc=True, cap=60000).run():
            if o.end != "ret" or o.ret is None:
                continue
            if not copy:
                if o.ret[0] == "c" and o.ret[1] < 0:
                    continue
                conj, todo = [], [o.ret]
                while todo:
                    e = flip(todo.pop())
                    if e[0] == "op" and e[1] == "and":
                        todo += e[2:]
                    elif e == C(1):
                        conj += [x for x in o.facts if x[0] == "cmp" and x[1] == "eq" and outs_of(x[2], 0) or x[0] == "cmp" and x[1] == "eq" and outs_of(x[2], 1)]
                    elif e == C(0):
                        conj += [("cmp", "eq") + x[2:] for x in o.facts if x[0] == "cmp" and x[1] == "ne" and (outs_of(x[2], 0) or outs_of(x[2], 1))]
                    else:
                        conj.append(e)
                r.ob("leaf", "%s: answer" % n)
                good = conj and all(e[0] == "cmp" and e[1] == "eq" and (outs_of(e[2], 0) and outs_of(e[2], 0) == outs_of(e[3], 1) or
                                                                         outs_of(e[2], 1) and outs_of(e[2], 1) == outs_of(e[3], 0)) for e in conj)
                if good and any("complex" in (outs_of(e[2], 0) or outs_of(e[2], 1))[0] for e in conj) and o.ret != C(0):
                    good = len({(outs_of(e[2], 0) or outs_of(e[2], 1))[1] for e in conj}) > 1
                if not good:
                    r.bad("leaf", "leaf|%s|%s" % (n, conj[:1] and str(conj[0][1:2])), where, "%s: the answer is not whether the two values are the same" % n)
            else:
                if o.ret == C(0):
                    continue
                sets = [c for c in o.calls if c[0].startswith("metac_value_set_")]
                r.ob("leaf", "%s: copy" % n)
                if o.ret != ("a", 1) or len(sets) != 1 or sets[0][1][0] != ("a", 1):
                    r.bad("leaf", "leaf|%s|set" % n, where, "%s: the destination is not set exactly once" % n)
                    continue
                s, v = sets[0][0][len("metac_value_set_"):], sets[0][1][1]
                got = outs_of(v, 0)
                if got is not None and got[0] != "metac_value_" + s or got is None and "complex" not in s and v[0] not in ("i",) and s != "ldouble":
                    r.bad("leaf", "leaf|%s|%s" % (n, s), where, "%s: what is set is not what was read as %s from the source" % (n, s))


def check_copy(pid, tier):
    r = Result("metac_value_copy_ex: every pass of its walk over the source's memory map (what is read, written, allocated and linked for each kind of entry), "
               "the destinations of parts, the blocks allocated beforehand, and how the walk is set up; the copying of single values",
               "each leaf is copied from its entry to its entry's destination; a pointer is set to the copy of its target (same offset), of the cycle's start, to "
               "NULL or to the value as the mode says; each part's destination lies at the part's own offset and has its type; blocks have the size of their source")
    mod = ir.load_module(inline=lambda n, internal, info: internal and info["size"] < 400)
    w = Copy(mod, r, "metac_value_copy_ex")
    r.need("step", 6)
    r.need("part", 1)
    if w.f is not None and w.h is not None and w.outs:
        w.run()
    leaves(mod, r, True)
    return r
