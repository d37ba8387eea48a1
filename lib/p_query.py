"""C24: queries about descriptions and values answer with what the description records."""
import ir
import pathval
from pathval import C, add, cmp_, ld, mul, neg, off
from result import Result

KEEP = {"metac_entry_final_entry", "metac_entry_byte_size", "metac_new_value", "metac_entry_cdecl", "metac_new_entry",
        "metac_new_element_count_entry", "metac_value_enumeration", "metac_value_set_enumeration", "metac_value_pointer",
        "metac_value_set_pointer", "metac_value_delete", "metac_entry_delete", "metac_entry_check_base_type"}
QUALS = ["const", "volatile", "restrict", "mutable", "shared", "packed"]
A = [("a", k) for k in range(8)]


class Spec:
    def __init__(self):
        L = ir.layouts()
        self.en = L.get("metac_entry") or L["struct metac_entry"]
        self.enumr = L.get("metac_type_enumerator_info") or L["struct metac_type_enumerator_info"]
        self.raw = L.get("metac_member_raw_location_info") or L["struct metac_member_raw_location_info"]
        self.esz = self.en["__sizeof__"][0]
        kinds = ["typedef", "base_type", "pointer_type", "enumeration_type", "subroutine_type", "array_type"] + [
            q + "_type" for q in QUALS] + ["reference_type", "rvalue_reference_type", "unspecified_type", "member", "struct_type", "union_type",
            "class_type", "variable", "func_parameter", "subprogram", "lex_block", "namespace", "compile_unit"]
        k = ir.constants(["METAC_KND_" + x for x in kinds])
        self.kinds = {x: k["METAC_KND_" + x] for x in kinds}

    def at(self, e, f):
        """address of a field of description e"""
        return off(e, self.en[f][0])

    def f(self, e, f):
        return ld(self.at(e, f))

    def kind(self, e):
        return self.f(e, "kind")


AGG = ("struct_type", "union_type", "class_type")
CALLABLE = ("subprogram", "subroutine_type")
V = {"E": ld(A[0]), "addr": ld(off(A[0], 8))}


STATUS = {"metac_entry_byte_size", "metac_value_enumeration", "metac_value_pointer", "metac_value_set_enumeration",
          "metac_value_set_pointer", "metac_entry_member_raw_location_info", "metac_entry_member_bitfield_offsets"}


def is_null(f):
    """x == NULL"""
    return f[0] == "cmp" and f[1] == "eq" and f[3] == C(0)


def strip(o, S, extra=(), branch=()):
    """the path was refused for a legitimate reason: a NULL somewhere, an index out of range, a failed inner query"""
    for f in o.facts:
        if is_null(f) and f[2][0] != "phi" and f[2] in o.ptrs and f[2] not in branch:
            return True
        if f in extra:
            return True
        if f[0] == "cmp" and f[1] == "ne" and f[3] == C(0) and f[2][0] == "call" and f[2][1] in STATUS:
            return True
    return False


def idx_refusals(i, count):
    """conditions under which index i is not in [0, count)"""
    return {cmp_("slt", i, C(0)), cmp_("sge", i, count), cmp_("uge", i, count), cmp_("sgt", i, add(count, C(-1))),
            cmp_("slt", count, C(0)), cmp_("sle", count, C(0)), cmp_("sle", count, i)}


def check(pid, tier):
    r = Result("the value returned or delivered by each query is computed as an expression over the fields of the description along "
               "every acyclic path of its control flow (LLVM IR, helpers inlined, loop variables unknown), separately for each of "
               "the 25 kinds of description, and compared with the field the query is about",
               "a supported kind is answered with exactly the recorded field (entry, index, offset arithmetic) unless an argument is "
               "NULL or an index out of range; any other kind gets the failure result; links and sizes are resolved kind by kind")
    S = Spec()
    mod = ir.load_module(inline=lambda n, internal, info: internal or (n not in KEEP and info["size"] < 120 and
                                                                        n.startswith(("metac_entry_", "metac_value_"))))
    G = Checker(mod, S, r)
    G.entry()
    G.value()
    G.resolve()
    r.need("query x kind", 300)
    r.count("functions", len(G.seen))
    r.assumptions += ["descriptions do not change during a call", "additions on addresses do not wrap"]
    return r


class Checker:
    def __init__(self, mod, S, r):
        self.mod, self.S, self.r = mod, S, r
        self.seen = set()
        self.dead = set()

    # ------------------------------------------------ helpers
    def outs(self, fn, assign, **kw):
        """paths of a function with some expressions fixed; None if it cannot be judged"""
        f = self.mod.fns.get(fn)
        if f is None or fn in self.dead:
            return None
        try:
            a = dict(assign)
            p = pathval.Paths(self.mod, f, a, **kw)
            return p.run()
        except pathval.TooMany:
            self.dead.add(fn)
            self.r.count("not judged (too many paths)", len(self.dead))
            return None

    def where(self, fn, o=None):
        f = self.mod.fns[fn]
        if o is not None and o.where.loc:
            return o.where.where()
        return "%s:%d" % (f.file, f.line)

    def bad(self, rule, fn, key, o, text):
        self.r.bad(rule, "%s|%s|%s" % (rule, fn, key), self.where(fn, o), text)

    def judge(self, fn, label, assign, want, refuse=(), branch=(), **kw):
        """want(o) -> True (right), False (wrong), None (not judged)"""
        os_ = self.outs(fn, assign, **kw)
        if os_ is None:
            return
        self.seen.add(fn)
        self.r.ob("query x kind", "%s [%s]" % (fn, label))
        good = unk = 0
        for o in os_:
            if o.end != "ret":
                continue
            if strip(o, self.S, refuse, branch):
                continue
            w = want(o)
            if w is True:
                good += 1
            elif w is None:
                unk += 1
            else:
                self.bad("answer", fn, label, o, "%s answers %s for %s; it should answer %s" % (fn, show(o.ret, self.S), label, w))
                return
        if not good and not unk and any(o.end == "ret" for o in os_):
            self.bad("refused", fn, label, None, "%s never gives its answer for %s" % (fn, label))

    def never(self, fn, label, assign, isfail, **kw):
        """every path ends with the failure result"""
        os_ = self.outs(fn, assign, **kw)
        if os_ is None:
            return
        self.seen.add(fn)
        self.r.ob("query x kind", "%s [%s]" % (fn, label))
        for o in os_:
            if o.end == "ret" and not isfail(o):
                if o.ret is not None and not pathval.clean(o.ret):
                    continue
                self.bad("wrong-kind", fn, label, o, "%s answers %s for %s instead of refusing" % (fn, show(o.ret, self.S), label))
                return

    def field(self, fn, E, final, kinds, want, fail=0, refuse=(), extra=None, branch=(), **kw):
        """a query that answers `want` for the kinds given and fails for all others"""
        S = self.S
        X = ("F", E) if final else E
        for k, num in S.kinds.items():
            asg = {S.kind(X): num}
            if extra and k in kinds:
                asg.update(extra)
            if final:
                # a resolved description is never a link (kinds that final_entry passes through)
                if k in ("typedef", "variable", "member", "const_type", "volatile_type", "restrict_type", "mutable_type", "shared_type",
                         "packed_type"):
                    continue
            if k in kinds:
                w = want[k] if isinstance(want, dict) else want
                ref = refuse[k] if isinstance(refuse, dict) else refuse
                self.judge(fn, k, asg, w if callable(w) else self.ret(w), ref, branch, **kw)
            else:
                self.never(fn, k, asg, (lambda o: o.ret is not None and o.ret[0] == "c" and o.ret[1] <= 0) if not callable(fail) else fail, **kw)

    def ret(self, *want):
        def w(o):
            if o.ret in want:
                return True
            if not pathval.clean(o.ret):
                return None
            return show(want[0], self.S)
        return w

    def stored(self, pairs, ret=C(0)):
        """out parameters: {address: value}; ret is the success result"""
        def w(o):
            if o.ret != ret:
                return None if o.ret is not None and not pathval.clean(o.ret) else "success"
            st = {}
            for a, v, i in o.stores:
                st[a] = v
            for a, v in pairs.items():
                if a not in st:
                    return "%s in the caller's variable" % show(v, self.S)
                if st[a] != v:
                    if not pathval.clean(st[a]):
                        return None
                    return "%s in the caller's variable (not %s)" % (show(v, self.S), show(st[a], self.S))
            return True
        return w

    # ------------------------------------------------ descriptions
    def entry(self):
        S, f = self.S, self.S.f
        E, F = A[0], ("F", A[0])
        every = tuple(S.kinds)
        for fn, w in (("metac_entry_kind", S.kind(E)), ("metac_entry_name", f(E, "name")), ("metac_entry_parent_count", f(E, "parents_count")),
                      ("metac_entry_is_dynamic", f(E, "dynamically_allocated"))):
            self.judge(fn, "any kind", {}, self.ret(w))
        pc = f(E, "parents_count")
        self.judge("metac_entry_parent_entry", "any kind", {}, self.ret(ld(add(f(E, "parents"), mul(A[1], C(8))))), idx_refusals(A[1], pc))
        self.common(E)
        # not resolved: about the entry itself
        self.field("metac_entry_member_entry", E, False, ("member",), f(E, "member_info.type"))
        self.field("metac_entry_is_member", E, False, ("member",), C(1))
        self.field("metac_entry_is_parameter", E, False, ("func_parameter",), C(1))
        un = f(E, "func_parameter_info.unspecified_parameters")
        self.field("metac_entry_is_unspecified_parameter", E, False, ("func_parameter",), un)
        self.field("metac_entry_parameter_entry", E, False, ("func_parameter",), f(E, "func_parameter_info.type"), extra={un: 0})
        self.judge("metac_entry_parameter_entry", "the unspecified parameter", {S.kind(E): S.kinds["func_parameter"], un: 1}, self.ret(C(0)))
        raw = {off(A[1], S.raw[x][0]): f(E, "member_info." + x) for x in
               ("byte_offset", "p_byte_size", "p_data_bit_offset", "p_bit_offset", "p_bit_size") if x in S.raw}
        self.field("metac_entry_member_raw_location_info", E, False, ("member",), self.stored(raw))
        self.field("metac_entry_member_bitfield_offsets", E, False, ("member",), self.bitfield, refuse={cmp_("eq", ld(f(E, "member_info.p_byte_size")), C(0))},
                   branch={f(E, "member_info." + x) for x in ("p_bit_offset", "p_data_bit_offset", "p_bit_size")})
        # what this entry refers to, by name
        for fn, kinds, base, cnt in (("metac_entry_member_name_to_id", AGG, "structure_type_info.members", "structure_type_info.members_count"),
                                     ("metac_entry_paremeter_name_to_id", CALLABLE, None, None)):
            for k in kinds:
                b, c = (base, cnt) if base else ("%s_info.parameters" % k, "%s_info.parameters_count" % k)
                self.field(fn, E, True, (k,), self.found(f(F, b), f(F, c)), fail=lambda o: True)
            self.field(fn, E, True, kinds, lambda o: True)
        self.field("metac_entry_enumeration_to_name", E, True, ("enumeration_type",), self.enum_name(E))
        self.sizes(E)

    def common(self, E):
        """queries that exist for descriptions and values alike"""
        S, f = self.S, self.S.f
        F = ("F", E)
        val = E != A[0]
        p = "metac_value_" if val else "metac_entry_"
        base = f(F, "base_type_info.byte_size")
        self.field(p + "is_base_type", E, True, ("base_type",), C(1))
        self.field(p + "is_pointer", E, True, ("pointer_type",), C(1))
        self.field(p + "has_members", E, True, AGG, C(1))
        self.field(p + "has_elements", E, True, ("array_type",), C(1))
        self.field(p + "is_enumeration", E, True, ("enumeration_type",), C(1))
        self.field(p + "has_parameters", E, True, CALLABLE, C(1))
        pt = f(F, "pointer_type_info.type")
        kp = {pt: 0}
        self.field(p + "is_void_pointer", E, True, ("pointer_type",), C(1), extra={pt: 0})
        self.field(p + "is_void_pointer", E, True, ("pointer_type",), C(0), extra={pt: 4096})
        self.field(p + "is_declaration_pointer", E, True, ("pointer_type",), self.truth(f(pt, "declaration")))
        self.judge(p + "is_declaration_pointer", "a void pointer", {S.kind(F): S.kinds["pointer_type"], pt: 0}, self.ret(C(0)))
        self.field(p + "pointer_entry", E, True, ("pointer_type",), pt)
        self.field(p + "base_type_name", E, True, ("base_type",), f(F, "name"))
        self.field(p + "base_type_byte_size", E, True, ("base_type",), self.stored({A[1]: base}))
        self.field(p + "base_type_encoding", E, True, ("base_type",), self.stored({A[1]: f(F, "base_type_info.encoding")}))
        mc, mm = f(F, "structure_type_info.members_count"), f(F, "structure_type_info.members")
        self.field(p + "member_count", E, True, AGG, mc)
        self.field(p + "by_member_id", E, True, AGG, add(mm, mul(A[1], C(S.esz))), refuse=idx_refusals(A[1], mc))
        self.field(p + "element_count", E, True, ("array_type",), f(F, "array_type_info.count"))
        self.field(p + "element_entry", E, True, ("array_type",), f(F, "array_type_info.type"))
        ec, ee = f(F, "enumeration_type_info.enumerators_count"), f(F, "enumeration_type_info.enumerators")
        self.field(p + "enumeration_info_size", E, True, ("enumeration_type",), ec)
        self.field(p + "enumeration_info", E, True, ("enumeration_type",), add(ee, mul(A[1], C(S.enumr["__sizeof__"][0]))), refuse=idx_refusals(A[1], ec))
        self.field(p + "parameters_count", E, True, CALLABLE, {k: f(F, k + "_info.parameters_count") for k in CALLABLE})
        self.field(p + "by_paremeter_id", E, True, CALLABLE,
                   {k: add(f(F, k + "_info.parameters"), mul(A[1], C(S.esz))) for k in CALLABLE},
                   refuse={k: idx_refusals(A[1], f(F, k + "_info.parameters_count")) for k in CALLABLE})
        self.field(p + "result_type", E, True, CALLABLE, {k: f(F, k + "_info.type") for k in CALLABLE})
        for v in (0, 4096):
            for k in CALLABLE:
                self.field(p + "has_result", E, True, (k,), C(int(bool(v))), extra={f(F, k + "_info.type"): v}, fail=lambda o: True)
        self.field(p + "has_result", E, True, CALLABLE, lambda o: True)
        un = f(E, "func_parameter_info.unspecified_parameters")
        var = {S.kind(E): S.kinds["variable"]}
        for k in S.kinds:
            if k not in ("typedef", "variable", "member") and not any(k == q + "_type" for q in QUALS):
                self.judge(p + "has_parameter_load", k, {**var, S.kind(F): S.kinds[k]}, self.ret(C(int(k in CALLABLE))))
        self.judge(p + "has_parameter_load", "the unspecified parameter",
                   {S.kind(E): S.kinds["func_parameter"], S.kind(F): S.kinds["func_parameter"], un: 1}, self.ret(C(1)))

    def truth(self, e):
        def w(o):
            if o.ret in (e, cmp_("ne", e, C(0))):
                return True
            if o.ret == C(1) and cmp_("ne", e, C(0)) in o.facts or o.ret == C(0) and cmp_("eq", e, C(0)) in o.facts:
                return True
            return None if not pathval.clean(o.ret) else show(e, self.S)
        return w

    def found(self, base, count):
        """the index returned is the one whose name compared equal, the search starts at 0 and moves by one"""
        S = self.S

        def w(o):
            if o.ret[0] == "c":
                return True if o.ret[1] < 0 else "the index it found"
            c = cmp_("eq", ("call", "strcmp", ld(off(add(base, mul(o.ret, C(S.esz))), S.en["name"][0])), A[1]), C(0))
            d = cmp_("eq", ("call", "strcmp", A[1], ld(off(add(base, mul(o.ret, C(S.esz))), S.en["name"][0]))), C(0))
            if c in o.facts or d in o.facts:
                return True
            if o.ret[0] == "phi":
                for f in o.facts:
                    if f[0] == "cmp" and f[1] == "eq" and f[2][0] == "call" and f[2][1] in ("strncmp", "strncasecmp", "strcasecmp", "memcmp") and f[3] == C(0):
                        if f[2][1] == "strcasecmp" or f[2][4][0] in ("call", "c") and not any(
                                g != f and g[0] == "cmp" and pathval.mentions(g, lambda e: e[0] == "call" and e[1] == "strlen") for g in o.facts):
                            return "an index whose whole name is equal"
            c_, d_ = pathval.lin(o.ret)
            if len(d_) != 1 or next(iter(d_))[0] != "phi":
                return None
            eqs = [f for f in o.facts if f[0] == "cmp" and f[2][0] == "call" and f[2][1] == "strcmp"]
            if len(eqs) == 1 and eqs[0][1] == "eq":
                return "the index whose name was compared"
            if len(eqs) == 1 and eqs[0][1] == "ne":
                return "an index whose name is equal"
            return None
        return w

    def enum_name(self, E):
        S = self.S
        F = ("F", E)
        sz = S.enumr["__sizeof__"][0]
        ee = S.f(F, "enumeration_type_info.enumerators")

        def w(o):
            if o.ret == C(0):
                return True
            # name of the enumerator whose value was compared equal
            for f in o.facts:
                if f[0] != "cmp":
                    continue
                for x, y in ((f[2], f[3]), (f[3], f[2])):
                    if x == A[1] and y[0] == "ld":
                        nm = ld(add(y[1], C(S.enumr["name"][0] - S.enumr["const_value"][0])))
                        if f[1] == "eq" and o.ret == nm:
                            return True
                        if o.ret == nm or f[1] == "eq":
                            return "the name of the enumerator with that value"
            return None
        return w

    def bitfield(self, o):
        S = self.S
        E = A[0]
        m = lambda x: S.f(E, "member_info." + x)
        facts = set(o.facts)
        if o.ret != C(0):
            return None
        st = {a: v for a, v, i in o.stores}
        bs = ld(m("p_bit_size"))
        if cmp_("eq", m("p_bit_size"), C(0)) in facts:
            bs = C(0)
        if cmp_("ne", m("p_bit_offset"), C(0)) in facts:
            t = add(add(mul(add(m("byte_offset"), ld(m("p_byte_size"))), C(8)), ld(m("p_bit_offset")), -1), bs, -1)
        elif cmp_("ne", m("p_data_bit_offset"), C(0)) in facts:
            t = ld(m("p_data_bit_offset"))
        elif cmp_("eq", m("p_bit_offset"), C(0)) in facts and cmp_("eq", m("p_data_bit_offset"), C(0)) in facts:
            want = {A[1]: m("byte_offset"), A[2]: C(0), A[3]: bs}
            t = None
        else:
            return None
        if t is not None:
            want = {A[1]: ("shr", t, 3), A[2]: ("and", t, 7), A[3]: bs}
        for k, v in want.items():
            if st.get(k) != v:
                if k in st and not pathval.clean(st[k]):
                    return None
                return "%s (not %s)" % (show(v, S), show(st.get(k), S))
        return True

    # ------------------------------------------------ values
    def value(self):
        S, f = self.S, self.S.f
        E, addr = V["E"], V["addr"]
        F = ("F", E)
        self.common(E)
        self.judge("metac_value_kind", "any kind", {}, self.ret(S.kind(E)))
        self.judge("metac_value_name", "any kind", {}, self.ret(f(E, "name")))
        self.judge("metac_value_entry", "any kind", {}, self.ret(E))
        self.judge("metac_value_addr", "any kind", {}, self.ret(addr))
        self.judge("metac_value_final_kind", "any kind", {}, self.final_kind(E))
        self.field("metac_value_enumeration_to_name", E, True, ("enumeration_type",), self.enum_name(E))
        self.field("metac_value_pointer", E, True, ("pointer_type",), self.stored({A[1]: ld(addr)}), refuse={cmp_("eq", addr, C(0))})
        self.field("metac_value_set_pointer", E, True, ("pointer_type",), self.stored({addr: A[1]}))
        self.field("metac_value_enumeration", E, True, ("enumeration_type",), lambda o: True)   # the value itself: C26
        self.field("metac_value_set_enumeration", E, True, ("enumeration_type",), lambda o: True)
        et = f(F, "array_type_info.type")
        sz = ld(("out", "metac_entry_byte_size", 1, (et, ("local",))))
        self.field("metac_new_value_by_element_id", E, True, ("array_type",),
                   ("call", "metac_new_value", et, add(addr, mul(sz, A[1]))), refuse=idx_refusals(A[1], f(F, "array_type_info.count")))
        mem = add(f(F, "structure_type_info.members"), mul(A[1], C(S.esz)))
        self.field("metac_new_value_by_member_id", E, True, AGG,
                   ("call", "metac_new_value", mem, add(addr, f(mem, "member_info.byte_offset"))),
                   refuse=idx_refusals(A[1], f(F, "structure_type_info.members_count")),
                   extra={S.kind(mem): S.kinds["member"]})
        self.field("metac_new_element_count_value", E, True, ("array_type", "pointer_type"),
                   {"array_type": self.recount(E, addr), "pointer_type": self.recount(E, ld(addr))})
        for n, q in (("enumeration", "metac_value_enumeration"), ("pointer", "metac_value_pointer")):
            x, y = (ld(("out", q, 1, (A[k], ("local",)))) for k in (0, 1))
            self.judge("metac_value_equal_" + n, "any kind", {}, self.equal(x, y), trunc=True)
            self.judge("metac_value_copy_" + n, "any kind", {}, self.copy("metac_value_set_" + n, x))
        self.judge("metac_new_value_from_value", "any kind", {}, self.ret(("call", "metac_new_value", E, addr)))
        self.new_value()
        self.new_entry()
        self.new_count_entry()

    def final_kind(self, E):
        def w(o):
            for n, args, i, snap in o.calls:
                if n == "metac_entry_final_entry" and len(args) > 1 and args[0] == E and args[1] != A[1]:
                    return "the qualifiers in the caller's variable"
            return self.ret(self.S.kind(("F", E)))(o)
        return w

    def recount(self, E, at):
        def w(o):
            if o.ret[0] == "c":
                return None
            nc = ("call", "metac_new_element_count_entry", E, A[1])
            nf = ("call", "metac_new_element_count_entry", ("F", E), A[1])
            ok = [("call", "metac_new_value", x, at) for x in (nc, nf)]
            if o.ret in ok:
                return True
            return None if not pathval.clean(o.ret) else show(ok[0], self.S)
        return w

    def equal(self, x, y):
        c = cmp_("eq", x, y)

        def w(o):
            if o.ret == c:
                return True
            if o.ret == C(1) and c in o.facts or o.ret == C(0) and neg(c) in o.facts:
                return True
            if o.ret[0] == "c" and o.ret[1] < 0:
                return True
            return None if not pathval.clean(o.ret) else "whether the two are equal"
        return w

    def copy(self, setter, x):
        def w(o):
            if o.ret == C(0):
                return True
            if o.ret != A[1]:
                return None if not pathval.clean(o.ret) else "the destination"
            cs = [c for c in o.calls if c[0] == setter]
            if any(c[1] == (A[1], x) for c in cs):
                return True
            return "the destination, after writing to it what was read from the source" if cs or not o.calls else None
        return w

    def new_value(self):
        S = self.S
        fn = "metac_new_value"

        def w(o):
            if o.ret == C(0):
                return True
            obj = o.ret
            st = {a: v for a, v, i in o.stores}
            dyn = S.f(A[0], "dynamically_allocated")
            e, ad = st.get(obj), st.get(off(obj, 8))
            if e is None or ad is None:
                return None
            want = {A[0], ("call", "metac_new_entry", A[0])}
            if cmp_("eq", dyn, C(0)) in o.facts or cmp_("eq", A[0], C(0)) in o.facts:
                want = {A[0]}
            elif cmp_("ne", dyn, C(0)) in o.facts:
                want = {("call", "metac_new_entry", A[0])}
            if e not in want:
                return None if not pathval.clean(e) else "a value of the description passed (%s)" % show(sorted(want, key=repr)[0], S)
            if ad != A[1]:
                return None if not pathval.clean(ad) else "a value at the address passed"
            return True
        self.judge(fn, "any kind", {}, w)

    def new_entry(self):
        S = self.S

        def w(o):
            if o.ret == C(0):
                return True
            cp = [c for c in o.calls if c[0] == "memcpy" and c[1][0] == o.ret]
            if not cp:
                return None
            if not any(c[1][1] == A[0] and c[1][2] == C(S.esz) for c in cp):
                return "a complete copy of the description" if all(pathval.clean(x) for c in cp for x in c[1]) else None
            st = {a: v for a, v, i in o.stores}
            d = st.get(S.at(o.ret, "dynamically_allocated"))
            if d is None or d == C(0):
                return "a copy marked as dynamically allocated"
            ex = [a for a in st if a != S.at(o.ret, "dynamically_allocated") and pathval.clean(a)]
            if ex:
                return "an unchanged copy of the description"
            return True
        self.judge("metac_new_entry", "any kind", {}, w)

    def new_count_entry(self):
        S = self.S
        E = A[0]
        F = ("F", E)
        for k, src in (("array_type", "array_type_info.type"), ("pointer_type", "pointer_type_info.type")):
            def w(o, src=src):
                if o.ret == C(0):
                    return None
                cs = [c for c in o.calls if c[0] == "metac_new_entry"]
                if len(cs) != 1 or not cs[0][3] or 0 not in cs[0][3]:
                    return None
                d, z = cs[0][3][0]
                g = lambda x: d.get(S.en[x][0], C(0) if z == C(0) else None)
                for x, v in (("kind", C(S.kinds["array_type"])), ("array_type_info.type", S.f(F, src)), ("array_type_info.count", A[1]),
                             ("name", C(0)), ("array_type_info.lower_bound", C(0)), ("parents_count", C(0)), ("declaration", C(0)),
                             ("array_type_info.p_stride_bit_size", C(0))):
                    u = g(x)
                    if u is not None and u != v and pathval.clean(u):
                        return "an array description with %s = %s (not %s)" % (x, show(v, S), show(u, S))
                return True
            self.field("metac_new_element_count_entry", E, True, (k,), w, fail=lambda o: True)
        self.field("metac_new_element_count_entry", E, True, ("array_type", "pointer_type"), lambda o: True)

    # ------------------------------------------------ following links
    def loop(self, fn):
        """(paths object, header, variable that walks over the descriptions, other header variables)"""
        f = self.mod.fns.get(fn)
        if f is None:
            return None
        p = pathval.Paths(self.mod, f)
        cands = []
        for h in sorted(p.headers):
            for i in f.blocks[h].ins:
                if i.op != "phi":
                    break
                if i.ty == ("p",):
                    cands.append((h, i.id))
        if len(cands) != 1:
            return None
        return f, cands[0][0], cands[0][1]

    LINKS = dict([("typedef", "typedef_info.type"), ("variable", "variable_info.type"), ("func_parameter", "func_parameter_info.type"),
                  ("member", "member_info.type")] + [(q + "_type", "qual_type_info.type") for q in QUALS])

    def sizes(self, E):
        pass

    def resolve(self):
        S, f = self.S, self.S.f
        SIZE = dict([("base_type", "base_type_info.byte_size"), ("enumeration_type", "enumeration_type_info.byte_size"),
                     ("reference_type", "reference_type_info.byte_size"), ("rvalue_reference_type", "reference_type_info.byte_size")] +
                    [(k, "structure_type_info.byte_size") for k in AGG])
        for fn in ("metac_entry_byte_size", "metac_entry_final_entry"):
            L = self.loop(fn)
            if L is None:
                self.r.count("not judged: " + fn, 1)
                continue
            fx, h, pid_ = L
            X = ("phi", pid_)
            self.seen.add(fn)
            for k, num in S.kinds.items():
                asg = {S.kind(X): num}
                if k == "func_parameter":
                    asg[S.f(X, "func_parameter_info.unspecified_parameters")] = 0
                try:
                    p = pathval.Paths(self.mod, fx, asg)
                    outs = p.run(start=h)
                except pathval.TooMany:
                    continue
                self.r.ob("query x kind", "%s [%s] one step" % (fn, k))
                # the loop entry may be reached with a NULL link
                outs = [o for o in outs if cmp_("eq", X, C(0)) not in o.facts]
                for o in outs:
                    msg = self.one(fn, k, X, h, pid_, o, SIZE)
                    if msg is not None:
                        self.bad("resolution", fn, k, o, "%s, at a description of kind %s: %s" % (fn, k, msg))
                        break
            if fn == "metac_entry_final_entry":
                asg = {S.kind(X): S.kinds["func_parameter"], S.f(X, "func_parameter_info.unspecified_parameters"): 1}
                for o in pathval.Paths(self.mod, fx, asg).run(start=h):
                    if cmp_("eq", X, C(0)) in o.facts:
                        continue
                    if o.end == "ret" and o.ret != X and pathval.clean(o.ret):
                        self.bad("resolution", fn, "unspecified", o, "%s does not stop at the unspecified parameter" % fn)
            # first value of the walk: the argument
            for i in fx.blocks[h].ins:
                if i.op == "phi" and i.id == pid_:
                    for pb, x in i.incoming:
                        if x[0] == "a" and x != ("a", 0):
                            self.bad("resolution", fn, "start", None, "%s does not start at the description passed" % fn)

    def one(self, fn, k, X, h, pid_, o, SIZE):
        S = self.S
        size = fn == "metac_entry_byte_size"
        links = dict(self.LINKS)
        if size:
            links["array_type"] = "array_type_info.type"
        if o.end == "abort":
            return None
        if k in links:
            want = S.f(X, links[k])
            if o.end == "ret":
                if size and k == "array_type" and any(f[0] == "cmp" and f[2] == S.f(X, "array_type_info.count") for f in o.facts):
                    return None if o.ret[0] == "c" and o.ret[1] < 0 else "answers %s" % show(o.ret, S)
                if cmp_("eq", want, C(0)) in o.facts:
                    return None
                return "stops instead of following %s" % links[k]
            if o.nxt is None or o.nxt[0] != h:
                return None
            nx = o.nxt[1].get(pid_)
            if nx != want:
                return "follows %s instead of %s" % (show(nx, S), links[k]) if nx is not None and nx != X or nx == X else None
            for pv, v in o.nxt[1].items():
                if pv == pid_:
                    continue
                if size:
                    w = mul(("phi", pv), S.f(X, "array_type_info.count")) if k == "array_type" else ("phi", pv)
                    if v != w:
                        return "continues with the multiplier %s instead of %s" % (show(v, S), show(w, S))
                else:
                    q = QUALS.index(k[:-5]) if k.endswith("_type") and k[:-5] in QUALS else None
                    for b in range(6):
                        g = bit(v, b)
                        if g is None:
                            break
                        want_ = 1 if b == q else ("bit", ("phi", pv), b)
                        if g != want_:
                            return "qualifier bit '%s' becomes %s" % (QUALS[b], "set" if g == 1 else "cleared" if g == 0 else "another one's")
            return None
        # ends here
        if not size:
            if o.end == "back":
                return "continues instead of answering with it"
            if o.ret != X:
                return "answers %s" % show(o.ret, S) if o.ret is not None and (pathval.clean(o.ret)) else None
            qs = [(a, v) for a, v, i in o.stores if a == A[1]]
            if cmp_("eq", A[1], C(0)) not in o.facts and not qs and cmp_("ne", A[1], C(0)) in o.facts:
                return "does not deliver the qualifiers"
            return None
        if o.end == "back":
            return "continues although its size is known here"
        st = {a: v for a, v, i in o.stores}
        if k in SIZE or k == "pointer_type":
            base = S.f(X, SIZE[k]) if k in SIZE else C(8)
            if o.ret != C(0):
                return "fails"
            v = st.get(A[1])
            if v is None:
                return "delivers no size"
            phis = set()
            pathval.mentions(v, lambda e: e[0] == "phi" and e != X and (phis.add(e) or False))
            if len(phis) != 1:
                return "delivers %s" % show(v, S) if not phis else None
            if v != mul(next(iter(phis)), base):
                return "delivers %s, not the recorded size times the number of elements" % show(v, S)
            return None
        if not (o.ret[0] == "c" and o.ret[1] < 0):
            return "answers %s" % show(o.ret, S)
        return None


def bit(e, k):
    """bit k of an expression: 0, 1, ("bit", variable, k) or None"""
    if e[0] == "c":
        return (e[1] >> k) & 1
    if e[0] == "phi":
        return ("bit", e, k)
    if e[0] == "and":
        if not (e[2] >> k) & 1:
            return 0
        return bit(e[1], k)
    if e[0] == "shr":
        return bit(e[1], k + e[2])
    if e[0] == "lin":
        if e[1] == 0 and len(e[2]) == 1:
            t, c = e[2][0]
            if c > 0 and c & (c - 1) == 0:
                s = c.bit_length() - 1
                return 0 if k < s else bit(t, k - s)
        return None
    if e[0] == "cmp":
        return None if k == 0 else 0
    if e[0] == "op" and e[1] in ("or", "and", "xor"):
        x, y = bit(e[2], k), bit(e[3], k)
        if e[1] == "or":
            if 1 in (x, y):
                return 1
            if x == 0:
                return y
            if y == 0:
                return x
            return x if x == y else None
        if e[1] == "and":
            if 0 in (x, y):
                return 0
            if x == 1:
                return y
            if y == 1:
                return x
            return x if x == y else None
        if x in (0, 1) and y in (0, 1):
            return x ^ y
        if y == 0:
            return x
        if x == 0:
            return y
    return None


def show(e, S, depth=0):
    if e is None:
        return "nothing"
    if e[0] == "c":
        return str(e[1])
    if e[0] == "a":
        return "argument %d" % (e[1] + 1)
    if e[0] == "F":
        return "final(%s)" % show(e[1], S)
    if e[0] == "ld":
        c, d = pathval.lin(e[1])
        if len(d) == 1:
            t = next(iter(d))
            if t[0] == "F" or t in (A[0], V["E"]) or t[0] in ("phi", "ld"):
                nm = "/".join(n for n, x in S.en.items() if x[0] == c and n != "__sizeof__" and "linkage" not in n)[:60]
                if t == A[0] and c in (0, 8) and False:
                    nm = str(c)
                return "%s->{%s}" % (show(t, S), nm or c)
        return "*(%s)" % show(e[1], S)
    if e[0] == "lin":
        return " + ".join(([str(e[1])] if e[1] else []) + ["%s%s" % (("%d*" % k) if k != 1 else "", show(t, S)) for t, k in e[2]])
    if e[0] == "prod":
        return "*".join(show(x, S) for x in e[1])
    if e[0] == "call":
        return "%s(%s)" % (e[1], ", ".join(show(x, S) for x in e[2:]))
    if e[0] == "cmp":
        return "(%s %s %s)" % (show(e[2], S), e[1], show(e[3], S))
    if e[0] == "out":
        return "what %s delivers" % e[1]
    if e[0] in ("shr", "and"):
        return "(%s %s %d)" % (show(e[1], S), ">>" if e[0] == "shr" else "&", e[2])
    if e[0] == "zx":
        return "unsigned %s" % show(e[1], S)
    return "a computed value" if e[0] in ("phi", "i", "op") else e[0]
