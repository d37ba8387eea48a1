"""C26: a bit-field is read as exactly its bits and written without touching any other bit."""
import bits
import ir
from bits import T, const, top, value
from p_base import TYPES, text
from result import Result

TOP, BIT, LOW = "storage unit and offset from its top", "bit offset in the structure", "size only"
WHOLE = ("the type itself", "a typedef of it", "a variable", "a member")
FORMS = (BIT, TOP, LOW) + WHOLE


def fields(lay):
    for rec in ("struct metac_entry", "metac_entry", "struct metac_entry_"):
        if rec in lay:
            return lay[rec]
    for rec, f in lay.items():
        if "member_info.byte_offset" in f:
            return f
    raise ir.AnalysisBroken("no record with member_info.byte_offset")


class Case:
    """one description: name, encoding, width in bytes, signed, bits s at bit o, and how it is written down"""

    def __init__(self, form, w, s, o, enc, name, sg, ow, enums=None):
        self.form, self.w, self.s, self.o, self.enc, self.name, self.sg = form, w, s, o, enc, name, sg
        self.ow, self.enums = ow, enums            # width of the caller's variable; constants of an enumeration

    def text(self):
        if self.form in WHOLE:
            return "%s of %d bytes (%s)" % (self.name, self.w, self.form)
        return "%s of %d bits at bit %d (%s)" % (self.name, self.s, self.o, self.form)


class World:
    def __init__(self, mod, lay, k):
        self.mod, self.lay, self.k = mod, lay, k
        self.E = fields(lay)
        self.V = lay.get("metac_value") or lay.get("struct metac_value")
        if self.V is None or "addr" not in self.V or "p_entry" not in self.V:
            raise ir.AnalysisBroken("no layout of struct metac_value")

    def source(self, c):
        E, V, k = self.E, self.V, self.k
        ent, val = {}, {}

        def put(d, off, v):
            if v[0] == "b":
                for j in range(len(v[1]) // 8):
                    d[off + j] = ("b", v[1][8 * j:8 * j + 8])
            else:
                d[off] = ("o", v)
        put(val, V["p_entry"][0], ("p", ("entry",), (), 0))
        put(val, V["addr"][0], ("p", ("mem",), (("B", 1),), 0))
        put(ent, E["kind"][0], const(k["METAC_KND_" + {"a typedef of it": "typedef", "a variable": "variable", "the type itself":
                                                       "enumeration_type" if c.enums else "base_type"}.get(c.form, "member")], 8))
        put(ent, E["member_info.type"][0], ("p", ("type",), (), 0))
        put(ent, E["member_info.byte_offset"][0], bits.mklin(64, 0, {"B": 1}))
        cells = {}
        if c.form == TOP:
            cells["p_byte_size"] = const(c.w, 64)
            cells["p_bit_offset"] = const(8 * c.w - c.o - c.s, 64)
        elif c.form == BIT:
            cells["p_data_bit_offset"] = bits.mklin(64, c.o, {"D": 8})
        if c.form not in WHOLE:
            cells["p_bit_size"] = const(c.s, 64)
        fin, en = {}, {}
        put(fin, E["kind"][0], const(k["METAC_KND_enumeration_type" if c.enums else "METAC_KND_base_type"], 8))
        if c.enums:
            put(fin, E["enumeration_type_info.byte_size"][0], const(c.w, 64))
            put(fin, E["enumeration_type_info.enumerators_count"][0], const(len(c.enums), 32))
            put(fin, E["enumeration_type_info.enumerators"][0], ("p", ("enums",), (), 0))
            R = self.lay.get("metac_type_enumerator_info") or self.lay.get("struct metac_type_enumerator_info")
            for j, x in enumerate(c.enums):
                put(en, j * R["__sizeof__"][0] + R["const_value"][0], const(x & ((1 << 64) - 1), 64))
        else:
            put(fin, E["base_type_info.byte_size"][0], const(c.w, 64))
            put(fin, E["base_type_info.encoding"][0], const(c.enc, 8))
        for f in ("p_byte_size", "p_bit_offset", "p_data_bit_offset", "p_bit_size") if c.form not in WHOLE[:3] else ():
            put(ent, E["member_info." + f][0], ("p", ("cell", f), (), 0) if f in cells else const(0, 64))
        cm = {}
        for f, v in cells.items():
            cm[f] = {}
            put(cm[f], 0, v)
        fb = self.base(c)

        def src(st, r, at, b):
            if r == ("val",):
                return val.get(b)
            if r == ("entry",):
                return ent.get(b)
            if r == ("final",) and not at:
                return fin.get(b)
            if r == ("enums",) and not at:
                return en.get(b)
            if r[0] == "cell" and not at:
                return cm.get(r[1], {}).get(b)
            if r == ("mem",) and at == fb[0]:
                return ("b", tuple(("m", 8 * (b - fb[1]) + j, False) for j in range(8)))
            if r == ("var",) and not at and 0 <= b < c.ow // 8:
                return ("b", tuple(("v", 8 * b + j, False) for j in range(8)))
            return None
        return src

    def base(self, c):
        """atoms and constant of the byte that holds the field's first bit, as an offset in the structure; and the bit in it"""
        if c.form == BIT:
            return (("D", 1),), 0
        return (("B", 1),), c.o // 8

    def models(self, c):
        mod, k = self.mod, self.k

        def final(I, st, a, i):
            if len(a) > 1 and a[1][0] == "p":
                sz = self.lay.get("metac_quals_t", {}).get("__sizeof__", (4, ""))[0]
                I.copy(st, a[1], ("p", ("zero",), (), 0), 0, i)
                for j in range(sz):
                    I.store(st, I.add(a[1], const(j, 64)), const(0, 8), i)
            return ("p", ("final",), (), 0)

        def chk(I, st, a, i):
            nm = None
            if a[1][0] == "p" and a[1][1][0] == "g":
                nm = text(mod, ("g", a[1][1][1]))
            e, n = value(a[2]), value(a[3])
            if e is None or n is None:
                return top(32)
            ok = e == c.enc and n == c.w and (nm is None or nm == c.name)
            return const(0 if ok else (1 << 32) - 14, 32)
        return {"metac_entry_final_entry": final, "metac_entry_check_base_type": chk}


def places(w, only=None, quick=False):
    for form in FORMS:
        if form in WHOLE:
            yield form, 8 * w, 0
            continue
        for s in range(1, 8 * w + 1):
            if only and s != only:
                continue
            for o in range(0, 8 if form == BIT else 8 * w if form == TOP else 1):
                if quick and form == TOP and o > 8 and o not in (13, 16, 31, 33, 8 * w - s):
                    continue
                if o % 8 + s <= 8 * w and (o + s <= 8 * w or form == BIT):
                    yield form, s, o


def cases(k, quick):
    """[(getter, setter or None, cases)]"""
    out = []
    for t, (ctype, name, encs, kind) in TYPES.items():
        if kind not in "sub":
            continue
        w = {"char": 1, "uchar": 1, "bool": 1, "short": 2, "ushort": 2, "int": 4, "uint": 4}.get(t, 8)
        for e in encs:
            enc, sg = k["METAC_ENC_" + e], e.startswith("signed")
            pl = list(places(w, 1 if kind == "b" else None, quick))
            out.append(("metac_value_" + t, "metac_value_set_" + t, [Case(f, w, s, o, enc, name, sg, 8 * w) for f, s, o in pl]))
            if not (t == "char" and not sg) and kind != "b":
                out.append(("metac_value_num", None, [Case(f, w, s, o, enc, name, sg, 8 * k["sizeof(metac_num_t)"]) for f, s, o in pl]))
    for w in (1, 2, 4, 8):
        for en in ((0, 5, 1), (0, -1), (-3, 4, 9)):
            out.append(("metac_value_enumeration", "metac_value_set_enumeration",
                        [Case(f, w, s, o, None, "enumeration" + (" with a negative constant" if min(en) < 0 else ""), min(en) < 0, 64, en)
                         for f, s, o in places(w, None, quick)]))
    return out


def expect_read(c):
    o = c.o if c.form == BIT else c.o % 8
    return [("m", o + j, False) if j < c.s else (("m", o + c.s - 1, False) if c.sg else 0) for j in range(c.ow)]


def examine(W, c, fn, write):
    """None or (where, what) of the first difference"""
    I = bits.Interp(W.mod, W.models(c), W.source(c))
    st = bits.new_state()
    args = [("p", ("val",), (), 0)]
    if not write:
        args.append(("p", ("var",), (), 0))
    else:
        args.append(("b", tuple(("v", j, False) for j in range(c.ow))))
        if fn.ptypes[1] == ("i", 1):
            args[1] = ("b", (("v", 0, False),))
    at, b0 = W.base(c)
    o = c.o - 8 * b0
    nbytes = (o + c.s - 1) // 8 + 1
    outs = I.run(fn, args, st)
    if not outs:
        return fn, "no way out"
    for s, r, how in outs:
        if how != "ret":
            return fn, "ends in an assertion or abort"
        if value(r) != 0:
            return fn, "does not report success"
        for rw, reg, a, k, n, ins in s.touch:
            if reg == ("mem",):
                if a != at or k < b0 or k + n > b0 + nbytes:
                    return ins, "%s memory outside the %d bytes that hold the field" % ("writes" if rw == "w" else "reads", nbytes)
            if rw == "w" and reg == ("?",):
                return ins, "writes to an address that cannot be told"
            if rw == "w" and reg == ("var",) and (a or k < 0 or 8 * (k + n) > c.ow):
                return ins, "writes outside the variable"
            if rw == "w" and reg[0] in ("entry", "cell", "val", "type", "final", "enums"):
                return ins, "writes to the description"
        lit = lambda b: I.lit(s, b)
        if not write:
            got = []
            for b in range(c.ow // 8):
                x = s.mem.get((("var",), (), b))
                got += list(x[1]) if x is not None and x[0] == "b" else [("none",)] * 8
            for j, e in enumerate(expect_read(c)):
                if lit_eq(lit, got[j], e):
                    continue
                return last(s, ("var",), fn), "bit %d of the result is %s, expected %s" % (j, show(got[j]), show(e))
            if any(rw == "w" and reg == ("mem",) for rw, reg, *_ in s.touch):
                return fn, "a read changes the structure"
        else:
            for b in range(nbytes):
                x = s.mem.get((("mem",), at, b0 + b))
                for q in range(8):
                    j = 8 * b + q
                    was = ("m", j, False)
                    e = ("v", j - o, False) if o <= j < o + c.s else was
                    if e[0] == "v" and e[1] >= len(args[1][1]):
                        e = 0                          # a _Bool
                    g = was if x is None else x[1][q] if x[0] == "b" else T
                    if not lit_eq(lit, g, e):
                        return last(s, ("mem",), fn), "bit %d of the structure's bytes becomes %s, expected %s" % (j, show(g), show(e))
    return None


def last(s, reg, fn):
    """where it was written"""
    w = [x[5] for x in s.touch if x[0] == "w" and x[1] == reg]
    return w[-1] if w else fn


def lit_eq(lit, g, e):
    if g == ("none",):
        return False
    return g != T and lit(g) == lit(e)


def show(b):
    if b == T:
        return "undetermined"
    if b == 0 or b == 1:
        return str(b)
    if b == ("none",):
        return "not written"
    return ("the inverse of " if b[2] else "") + ("memory bit %d" % b[1] if b[0] == "m" else "value bit %d" % b[1])


def work(W, get, put, cs):
    found, n = [], 0
    for name in (get, put):
        if name is None:
            continue
        fn = W.mod.fns.get(name)
        if fn is None:
            raise ir.AnalysisBroken(name + " is gone")
        for c in cs:
            n += 1
            try:
                bad = examine(W, c, fn, name == put)
            except bits.Budget as e:
                return ("broken", str(e) + " for " + c.text())
            if bad:
                x, what = bad
                found.append((fn.name, x.where() if isinstance(x, ir.Ins) else "%s:%s" % (fn.file, fn.line), c.text(), what))
                if len(found) > 3:
                    break
    return (get, n, found)


_W = None


def _go(i):
    return work(_W[0], *_W[1][i])


def check(pid, tier="quick"):
    global _W
    import multiprocessing as mp
    r = Result("abstract interpretation of every integer accessor of a value (with everything it calls) in a bit-provenance domain, "
               "for each described width and position; bits of the structure and of the variable are tracked as sources",
               "after a read, bit j of the result is bit o+j of the structure (j < s), the sign bit or 0 above; after a write, bits "
               "[o, o+s) are the value's low bits and all others are what they were; only the bytes that hold the field are touched")
    lay = ir.layouts()
    encs = sorted({e for x in TYPES.values() for e in x[2]})
    k = ir.constants(["METAC_KND_" + x for x in ("member", "typedef", "variable", "base_type", "enumeration_type")] +
                     ["METAC_ENC_" + e for e in encs] + ["sizeof(metac_num_t)"])
    W = World(ir.load_module(), lay, k)
    jobs = []
    for g, p, cs in cases(k, tier == "quick"):
        for a in range(0, len(cs), 60):
            jobs.append((g, p, cs[a:a + 60]))
    _W = (W, jobs)
    total, per = 0, {}
    with mp.get_context("fork").Pool(8) as pool:
        for x in pool.imap(_go, range(len(jobs)), chunksize=1):
            if x[0] == "broken":
                raise ir.AnalysisBroken(x[1])
            t, n, found = x
            total += n
            per[t] = per.get(t, 0) + n
            for f, where, c, what in found:
                r.bad("bits", "%s|%s|%s" % (f, where, "write" if "_set_" in f else "read"), where, "%s: %s; %s" % (f, c, what))
    for t in sorted(per):
        r.ob("accessor", "%s: %d descriptions" % (t, per[t]))
    r.count("descriptions_analysed", total)
    r.need("accessor", 8)
    r.assumptions.append("little-endian target (the byte order test of the build is evaluated); fields that do not extend past the width "
                         "of their type from the byte of their first bit; metac_entry_final_entry and metac_entry_check_base_type are decided by C24/C12")
    return r
