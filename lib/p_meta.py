"""C05 kind-guarded variants, C06 indices of described collections, C07 descriptions are never modified."""
import ir
from engine import Obs, TOPF, f_const, f_has, f_hi, f_implies, f_lo, root, mentions
from result import Result
from run import Run

QUAL = ["const_type", "volatile_type", "restrict_type", "mutable_type", "shared_type", "packed_type"]
# variant of struct metac_entry -> kinds of description for which it is the active one
VARIANTS = {
    "typedef_info": ["typedef"], "qual_type_info": QUAL, "base_type_info": ["base_type"],
    "pointer_type_info": ["pointer_type"], "enumeration_type_info": ["enumeration_type"],
    "subroutine_type_info": ["subroutine_type"], "array_type_info": ["array_type"],
    "reference_type_info": ["reference_type", "rvalue_reference_type"], "member_info": ["member"],
    "structure_type_info": ["struct_type", "union_type", "class_type"], "variable_info": ["variable"],
    "func_parameter_info": ["func_parameter"], "subprogram_info": ["subprogram"], "lex_block_info": ["lex_block"],
    "namespace_info": ["namespace"], "compile_unit_info": ["compile_unit"],
}
ALL = sorted({k for v in VARIANTS.values() for k in v} | {"unspecified_type"})


class Layout:
    def __init__(self):
        L = ir.layouts()
        E = L.get("metac_entry") or L.get("struct metac_entry")
        if E is None:
            raise ir.AnalysisBroken("no layout of struct metac_entry")
        self.E = E
        self.size = E["__sizeof__"][0]
        self.kind = E["kind"][0]
        kn = ir.constants(["METAC_KND_" + k for k in ALL])
        self.knd = {k: kn["METAC_KND_" + k] for k in ALL}
        self.name = {v: k for k, v in self.knd.items()}
        self.elems = {}
        for (sn, fn), k in ELEMENTS.items():
            S = L.get(sn) or L.get("struct " + sn)
            if S and fn in S:
                self.elems[("struct." + sn, S[fn][0])] = self.knd[k]
        # variant offset
        self.lo = min(E[v][0] for v in VARIANTS)
        self.hi = self.size
        # structure type of a variant -> variants
        self.tag = {}
        for v in VARIANTS:
            t = E[v][1].replace("struct ", "").strip()
            self.tag.setdefault("struct." + t, []).append(v)
        # (field name, offset) -> kinds of all variants that have this field at this place
        self.same = {}
        # (offset, is pointer) -> kinds that have a field there
        self.ok = {}
        self.fields = {}
        for v, ks in VARIANTS.items():
            for f, (off, ty) in E.items():
                if not f.startswith(v + "."):
                    continue
                if any(g.startswith(f + ".") for g in E):
                    continue
                ptr = ty.endswith("*") or "(*" in ty or ty in ("metac_name_t", "va_arg_t")
                self.ok.setdefault((off, ptr), set()).update(self.knd[k] for k in ks)
                self.fields.setdefault((off, ptr), []).append(f)
                self.same.setdefault((f.split(".", 1)[1], off), set()).update(self.knd[k] for k in ks)

    def exact(self, mod, op, ins):
        """name and kinds of the field an address operand names, if it names one"""
        for _ in range(6):
            if op[0] != "i":
                return None
            i = ins.get(op[1])
            if i is None or i.op != "gep":
                return None
            for x in i.gep[2]:
                if x[0] in self.tag and x[0] in mod.structs and x[1] is not None:
                    o = mod.structs[x[0]][x[1]][0]
                    for v in self.tag[x[0]]:
                        base = self.E[v][0]
                        fs = [f for f, (off, ty) in self.E.items() if f.startswith(v + ".") and off == base + o and
                              not any(g.startswith(f + ".") for g in self.E)]
                        if fs:
                            n = fs[0].split(".", 1)[1]
                            return fs[0], frozenset(self.same[(n, base + o)])
                    return None
            op = i.ops[0]
        return None


def entry_path(E, op):
    """the address operand goes through a field of struct metac_entry"""
    n = 0
    while op[0] == "i" and n < 8:
        i = E._info.ins.get(op[1])
        if i is None or i.op != "gep":
            return False
        for x in i.gep[2]:
            if x[0] == "struct.metac_entry":
                return True
        op = i.ops[0]
        n += 1
    return False


ELEMENTS = {("structure_type_info", "members"): "member", ("subprogram_info", "parameters"): "func_parameter",
            ("subroutine_type_info", "parameters"): "func_parameter"}


def element_kind(E, L, op, seen=()):
    """kind of an element of a description's own members/parameters array"""
    for _ in range(10):
        if op[0] != "i" or op[1] in seen:
            return None
        i = E._info.ins.get(op[1])
        if i is None:
            return None
        if i.op in ("gep", "bitcast", "freeze"):
            op = i.ops[0]
            continue
        if i.op == "phi":
            # a pointer that steps through the array
            ks = set()
            for x in i.ops:
                if back(E, x, i.id):
                    continue
                ks.add(element_kind(E, L, x, seen + (i.id,)))
            return ks.pop() if len(ks) == 1 else None
        if i.op == "load":
            a = i.ops[0]
            g = E._info.ins.get(a[1]) if a[0] == "i" else None
            if g is None or g.op != "gep":
                return None
            p = [x for x in g.gep[2] if x[0] != "[]"]
            if p and p[-1][0] in E.mod.structs and p[-1][1] < len(E.mod.structs[p[-1][0]]):
                return L.elems.get((p[-1][0], E.mod.structs[p[-1][0]][p[-1][1]][0]))
        return None
    return None


def back(E, op, pid):
    for _ in range(6):
        if op == ("i", pid):
            return True
        i = E._info.ins.get(op[1]) if op[0] == "i" else None
        if i is None or i.op not in ("gep", "bitcast", "freeze"):
            return False
        op = i.ops[0]
    return False


def cell(st, obj, off, size):
    c = st.mem.get(obj)
    if c:
        for k, v in c.items():
            if len(k) == 3 and k[0] == off and k[1] == size:
                return v
    z = st.lz.get((obj, off, size))
    return z[0] if z is not None else None


class Variant(Obs):
    """reads and writes of kind-specific parts: which kinds are possible there"""

    def __init__(self, lib):
        self.L = LAY[0]
        self.out = {}

    def reset(self):
        self.out = {}

    def access(self, E, st, ins, addr, obj, off, size, store, val):
        if off is None or obj == ("?",):
            return
        op = ins.ops[1] if store else ins.ops[0]
        if not entry_path(E, op):
            return
        base = off - off % self.L.size
        o = off - base
        if o < self.L.lo:
            return
        ptr = (ins.srcty if store else ins.ty) == ("p",)
        ex = self.L.exact(E.mod, op, E._info.ins)
        key = (ins.loc, o, ptr, ex and ex[0], E._fn.name)
        k = cell(st, obj, base + self.L.kind, 1)
        allk = frozenset(self.L.name)
        ek = element_kind(E, self.L, op) if k is None else None
        if ek is not None:
            k = ("c", ek)
        if k is None:
            kinds = allk
        elif k[0] == "c":
            kinds = frozenset([k[1]])
        elif k[0] == "s":
            f = st.facts.get(k[1], TOPF)
            kinds = frozenset(x for x in allk if f_has(f, x))
        else:
            kinds = allk
        self.out.setdefault(key, {"where": ins.where(), "o": o, "ptr": ptr, "kinds": set(), "unk": False, "def": set(), "exact": ex,
                                  "loc": ins.loc, "store": store,
                                  "fn": E._fn.name})
        r = self.out[key]
        r["kinds"] |= kinds
        if k is None:
            r["unk"] = True
        else:
            r["def"] |= kinds


LAY = [None]


def check_variant(pid, tier):
    r = Result("every read and write through a kind-specific part of struct metac_entry is enumerated; dataflow gives the set of kinds "
               "the description can have there, which must all be kinds that have a field at that place",
               "a kind-specific field of a description is accessed only where the description's kind was checked to be one that "
               "carries this field")
    LAY[0] = L = Layout()
    R = Run(extra=[Variant])
    R.base(r)
    plain = ir.load_module(inline=lambda n, internal, info: False)
    own = {}
    for n, f in plain.fns.items():
        for b in f.blocks:
            for i in b.ins:
                if i.loc:
                    own.setdefault(i.loc, set()).add(n)
    sites = {}
    for n in sorted(R.out):
        for k, v in R.out[n][1][1].items():
            sites.setdefault((v["loc"], v["o"], v["ptr"], v["exact"]), {})[n] = v
    for (loc, o, ptr, ex), ctx in sorted(sites.items(), key=str):
        if ex:
            fields, ok = [ex[0]], set(ex[1])
        else:
            fields = L.fields.get((o, ptr))
            if not fields:
                continue
            ok = L.ok[(o, ptr)]
        w = next(iter(ctx.values()))["where"]
        r.ob("kind-specific access", "%s %s" % (w, "/".join(sorted(fields))))
        ext = [n for n in own.get(loc, ()) if n in R.mod.fns and n in ctx]
        bad = []
        if ext:
            bad = [n for n in ext if ctx[n]["kinds"] - ok]
        else:
            bad = [n for n in ctx if ctx[n]["def"] - ok]
            if not bad and all(ctx[n]["kinds"] - ok for n in ctx):
                bad = list(ctx)
        if bad:
            n = sorted(bad)[0]
            x = ctx[n]
            ks = "any kind (it was not examined)" if x["unk"] else ", ".join(sorted(L.name[k] for k in x["kinds"] - ok))
            r.bad("variant", "variant|%s|%s" % (n.split("@")[0], sorted(fields)[0]), w,
                  "%s accesses %s of a description whose kind can be %s" % (n, "/".join(sorted(fields)), ks))
    r.need("kind-specific access", 60)
    return r
