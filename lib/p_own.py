"""C01 C02 C03 C04 C13: ownership, release, failed allocation, NULL handles, walker protocol."""
import analysis as A
import ir
import model
from engine import FnInfo, tag_of
from result import Result
from run import ALLOC, Run

RULES = {
    "C01": ({"leak", "field-leak"}, "every heap object created on a path is released, stored in an object that outlives the path, "
            "returned, or handed to a callee that takes it, before the last reference to it dies; every field that is "
            "given owned memory is released by the code that releases the object it belongs to"),
    "C02": ({"release-double", "release-family", "release-nonheap", "release-interior", "use-after-release"},
            "on no path is an object released twice, released by a function that does not belong to the way it was "
            "created, released through a pointer that is not its start, or accessed after its release"),
    "C03": ({"alloc-null", "null-deref"}, "on no path is the result of a call that can fail, or a pointer already found to "
            "be NULL on that path, dereferenced"),
    "C13": ({"walker"}, "every visit of a task by a walker ends in exactly one of: next state, result, failure; a task ends "
            "only when its queue of dependencies is empty; nothing is queued or changed after a task ended"),
}
RELEASE = {"free", "realloc"} | set(model.DTOR)


def check(pid, tier):
    kinds, rule = RULES[pid]
    R = Run(limit=40 if tier == "quick" else 60, required=required() if pid == "C01" else None)
    r = Result("the C library is lowered to LLVM IR and interpreted over a finite abstract domain (ownership, NULL-ness, "
               "value sets, walker protocol state) on all paths of all functions, callees before callers; findings are "
               "reported at the construct that breaks the rule", rule)
    R.base(r)
    for n, i in R.calls():
        c = (i.callee or "?").split("@")[0]
        f = R.lib.loc.fn(i.loc)
        if pid in ("C01", "C03") and (c in ALLOC or c in model.CTOR):
            r.ob("allocation site", "%s %s in %s" % (i.where(), c, f))
        if pid == "C02" and c in RELEASE:
            r.ob("release site", "%s %s in %s" % (i.where(), c, f))
        if pid == "C13" and c.startswith(A.IT):
            r.ob("walker operation", "%s %s in %s" % (i.where(), c[len(A.IT):], f))
    if pid in ("C02", "C03"):
        seen = set()
        for n in R.out:
            for b in R.mod.fns[n].blocks:
                for i in b.ins:
                    if i.op in ("load", "store") and i.where() not in seen:
                        seen.add(i.where())
                        r.ob("memory access line", i.where())
        r.need("memory access line", 500)
    r.need({"C01": "allocation site", "C03": "allocation site", "C02": "release site", "C13": "walker operation"}[pid],
           {"C01": 60, "C03": 60, "C02": 60, "C13": 80}[pid])
    for k, v in sorted(R.findings.items()):
        if v[0] in kinds:
            r.bad(v[0], v[1], v[2], "%s (analysed as part of %s)" % (v[3], v[4]))
    if pid == "C01":
        fields(R, r)
        destructors(r)
        contexts(r)
        locals_(r)
        answers(r)
    return r


# ---------------------------------------------------------------- destructors and traversal contexts
# what a destructor takes down besides its argument
ALSO = {"metac_value_with_call_result_delete": [("metac_value_addr", "free")],
        "metac_value_with_call_params_delete": [("metac_value_addr", "metac_parameter_storage_delete")]}


def destructors(r):
    """a function that is named a destructor releases its argument on every path on which there is one"""
    import pathval
    from pathval import C, cmp_, lin
    mod = ir.load_module(inline=lambda n, internal, info: False)
    lay = ir.layouts()
    E = lay.get("metac_entry") or lay.get("struct metac_entry") or {}
    dyn = E.get("dynamically_allocated", (None,))[0]
    names = {n for n in mod.fns if n.split("@")[0].endswith(("_delete", "_free", "Free"))
             and mod.infos.get(n, {}).get("void")}
    short = {n.split("@")[0] for n in names} | {"free"}
    a0 = ("a", 0)
    for n in sorted(names):
        f = mod.fns[n]
        try:
            outs = pathval.Paths(mod, f).run()
        except pathval.TooMany:
            continue
        if any(c[0] in short and c[1] and c[1][0][0] == "phi" for o in outs for c in o.calls) and not any(
                c[0] in short and c[1] and c[1][0] == a0 for o in outs for c in o.calls):
            continue                                  # walks from its argument on: judged by the ownership analysis
        rets = [o for o in outs if o.end == "ret"]
        if not rets:
            continue
        r.ob("destructor", n)
        for o in rets:
            if cmp_("eq", a0, C(0)) in o.facts:
                continue
            if cmp_("eq", ("call", "metac_entry_is_dynamic", a0), C(0)) in o.facts:
                continue
            if dyn is not None and any(e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and e[2][0] == "ld" and lin(e[2][1]) == (dyn, {a0: 1})
                                       for e in o.facts):
                continue                              # a static entry
            if not any(c[0] in short and c[1] and c[1][0] == a0 for c in o.calls):
                r.bad("destructor", "destructor|%s" % n, "%s:%s" % (f.file, f.line),
                      "%s returns without having released its argument" % n)
                break
            for get, rel in ALSO.get(n, ()):
                x = ("call", get, a0)
                if not any(c[0] == rel and c[1] and c[1][0] == x for c in o.calls) and cmp_("eq", x, C(0)) not in o.facts:
                    r.bad("destructor", "destructor|%s|%s" % (n, get), "%s:%s" % (f.file, f.line),
                          "%s does not release what %s of its argument gives" % (n, get))


MAPS = {"hashmapCreate": "hashmapFree", "metac_new_value_memory_map_ex": "metac_value_memory_map_delete",
        "metac_new_value_memory_map": "metac_value_memory_map_delete"}
CALLH = "metac_value_event_handler_call"


def locals_(r):
    """maps kept in local variables: as many are released as were made, on every way to a return (loops are stepped over)"""
    import pathval
    from pathval import C, cmp_, mentions
    mod = ir.load_module(inline=lambda n, internal, info: internal and info["size"] < 400)
    for n in sorted(mod.fns):
        f = mod.fns[n]
        if not any(i.op == "call" and i.callee in MAPS for b in f.blocks for i in b.ins):
            continue
        P = pathval.Paths(mod, f, cap=20000)
        loops = set().union(*P.bodies.values()) if P.bodies else set()
        ways = set(MAPS) | set(MAPS.values())
        if any(i.op == "call" and i.callee in ways for b in loops for i in f.blocks[b].ins):
            continue
        try:
            outs = P.run(skip=True)
        except pathval.TooMany:
            continue
        for o in outs:
            if o.end != "ret":
                continue
            for mk, rel in MAPS.items():
                made = [c for c in o.calls if c[0] == mk]
                if not made:
                    continue
                made = [("call", mk) + tuple(P.show(a, None) for a in c[1]) for c in made]
                made = [x for x in made if cmp_("eq", x, C(0)) not in o.facts]
                if not made or any(mentions(v, lambda t: t in made) for a, v, i in o.stores) or \
                        o.ret is not None and mentions(o.ret, lambda t: t in made):
                    continue
                # the variable is found empty: not after it was filled
                if any(e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and e[2] in P.ptrs and mentions(e[2], lambda t: t[0] == "out")
                       for e in o.facts):
                    continue
                r.ob("local map", "%s: %s" % (n, mk))
                if len([c for c in o.calls if c[0] == rel]) < len(made):
                    r.bad("local map", "local map|%s|%s" % (n, mk), o.where.where(),
                          "%s returns without %s for what it got from %s" % (n, rel, mk))


def answers(r):
    """values a handler gives back: scheduled, used and released, or released when scheduling fails"""
    from p_cover import APPEND, Pass
    from pathval import C, cmp_, lin, mentions
    mod = ir.load_module(inline=lambda n, internal, info: internal and info["size"] < 400)
    off = ir.constants(["__builtin_offsetof(metac_value_event_t, p_return_value)"])
    off = next(iter(off.values()), None)
    if off is None:
        return
    for n in sorted(mod.fns):
        f = mod.fns[n]
        if not any(i.op == "call" and i.callee == CALLH for b in f.blocks for i in b.ins):
            continue
        P = Pass(mod, f, cap=40000)
        for h in sorted(P.headers):
            if not any(i.op == "call" and i.callee == A.IT + "next" for b in P.bodies[h] for i in f.blocks[b].ins):
                continue
            for o in P.passes(h):
                if o.end != "back" or o.nxt[0] != h:
                    continue
                if not any(c[0] == CALLH for c in o.calls):
                    continue
                xs = set()
                for e in list(o.facts) + [x for c in o.calls for x in c[1]]:
                    for t in _ldout(e, off):
                        xs.add(t)
                for x in xs:
                    if cmp_("eq", x, C(0)) in o.facts:
                        continue
                    users = [c for c in o.calls if x in c[1]]
                    r.ob("handler's answer", "%s: %s" % (n, o.where.where()))
                    if any(c[0].endswith("_delete") for c in users):
                        continue
                    app = [c for c in users if c[0] == APPEND]
                    if app and not any(e[0] == "cmp" and e[1] == "ne" and e[3] == C(0) and e[2][:2] == ("call", APPEND) and x in e[2]
                                       for e in o.facts):
                        continue
                    if any(v == x for a, v, i in o.stores):
                        continue
                    r.bad("answer", "answer|%s|%s" % (n, "append" if app else "lost"), o.where.where(),
                          "%s: the value a handler gave back is %s" % (n, "not released though scheduling it failed" if app else
                                                                       "neither scheduled nor released"))


def _ldout(e, off):
    from pathval import lin
    if not isinstance(e, tuple):
        return
    if e[0] == "ld":
        c, d = lin(e[1])
        if c == off and len(d) == 1 and next(iter(d))[0] == "out" and next(iter(d))[1] == CALLH:
            yield e
    for x in e:
        if isinstance(x, tuple):
            yield from _ldout(x, off)


def contexts(r):
    """objects parked in the traversal's context: handed over as the result or released when the item ends"""
    from p_cover import Pass
    from pathval import C, cmp_, mentions
    mod = ir.load_module(inline=lambda n, internal, info: internal and info["size"] < 400)
    IT = A.IT
    for n in sorted(mod.fns):
        f = mod.fns[n]
        if not any(i.op == "call" and i.callee == IT + "set_context" for b in f.blocks for i in b.ins):
            continue
        P = Pass(mod, f, cap=40000)
        for h in sorted(P.headers):
            if not any(i.op == "call" and i.callee == IT + "next" for b in P.bodies[h] for i in f.blocks[b].ins):
                continue
            for o in P.passes(h):
                if o.end != "back" or o.nxt[0] != h:
                    continue
                ends = [c for c in o.calls if c[0] in (IT + "done", IT + "fail")]
                got = [c for c in o.calls if c[0] == IT + "get_context"]
                if not ends or not got:
                    continue
                x = ("call", IT + "get_context") + tuple(P.show(a, None) for a in got[0][1])
                if cmp_("eq", x, C(0)) in o.facts:
                    continue
                r.ob("parked object", "%s: %s" % (n, ends[0][2].where()))
                if any(c[0] == IT + "done" and len(c[1]) > 1 and c[1][1] == x for c in ends):
                    continue
                if any(x in c[1] and (c[0] == "free" or c[0].endswith(("_delete", "_free"))) for c in o.calls):
                    continue
                r.bad("parked", "parked|%s|%s" % (n, ends[0][0]), ends[0][2].where(),
                      "%s ends an item while the object it keeps for it is neither handed over nor released" % n)


# ---------------------------------------------------------------- owning fields
def _trace(fn, info, o, seen=None):
    """SSA sources of a pointer value"""
    if seen is None:
        seen = set()
    if o in seen:
        return
    seen.add(o)
    if o[0] == "i":
        d = info[o[1]]
        if d.op in ("phi", "select"):
            for x in (d.ops if d.op == "phi" else d.ops[1:]):
                yield from _trace(fn, info, x, seen)
            return
        if d.op in ("bitcast", "freeze"):
            yield from _trace(fn, info, d.ops[0], seen)
            return
        yield ("i", d)
    elif o[0] == "a":
        yield ("a", o[1])


class _Info:
    def __init__(self, fn):
        self.ins = {i.id: i for b in fn.blocks for i in b.ins}


def ownership(R):
    """(owning, released, torn): fields given owned memory {tag: [sites]}, released {function: {tags}}, and
    functions that release an object whose fields they did not create {function: {struct: site}}"""
    mod = ir.load_module(inline=lambda n, i, info: i)
    fresh = set(ALLOC) | set(model.CTOR)
    for n, (sm, res, st, dr) in R.out.items():
        if any(o[0] and o[0][0] == "fresh" for o in sm["out"]):
            fresh.add(n.split("@")[0])
    names = [n for n, f in mod.fns.items() if not (n in mod.inlined and f.internal)]
    big = {n: FnInfo(mod.fns[n]) for n in names}
    calls = {}
    for n in names:
        for i in big[n].ins.values():
            if i.op == "call" and i.callee in big:
                calls.setdefault(i.callee, []).append((n, i))

    def isfresh(n, o, depth=0):
        for s in _trace(mod.fns[n], big[n].ins, o):
            if s[0] == "i" and s[1].op == "call":
                c = s[1].callee
                if c and c.split("@")[0] in fresh:
                    return True
            elif s[0] == "a" and depth < 3:
                for cn, ci in calls.get(n, ()):
                    if s[1] < len(ci.ops) and isfresh(cn, ci.ops[s[1]], depth + 1):
                        return True
        return False

    def tag(n, op):
        t = tag_of(big[n], op, ("p",))
        return t if len(t) == 2 and str(t[0]).startswith("struct.") else None
    owning, released, torn = {}, {}, {}
    for n in names:
        for i in big[n].ins.values():
            if i.op == "store" and i.srcty == ("p",):
                t = tag(n, i.ops[1])
                if t and isfresh(n, i.ops[0]):
                    owning.setdefault(t, []).append((n, i))
            elif i.op == "call" and (i.callee or "").split("@")[0] in RELEASE and i.ops:
                for s in _trace(mod.fns[n], big[n].ins, i.ops[0]):
                    if s[0] == "i" and s[1].op == "load":
                        t = tag(n, s[1].ops[0])
                        if t:
                            released.setdefault(n, set()).add(t)
    return mod, big, owning, released


def field_index(lay, rec, name):
    """position of a field in its record (as numbered in the IR)"""
    f = lay.get(rec)
    if not f or name not in f:
        return None
    tops = sorted(((o, n) for n, (o, t) in f.items() if "." not in n and n != "__sizeof__"))
    return [n for o, n in tops].index(name)


def required(lay=None):
    lay = lay or ir.layouts()
    req = {}
    for rec, names in model.OWNING.items():
        for n in names:
            k = field_index(lay, rec, n)
            if k is not None:
                req.setdefault("struct." + rec, {})[k] = n
    return req


def fields(R, r):
    """collections: the destructor releases what its elements own"""
    mod, big, owning, released = ownership(R)
    lay = ir.layouts()
    calls = {n: {i.callee for i in big[n].ins.values() if i.op == "call" and i.callee in big} for n in big}

    def closure(n, d=3):
        got = {n}
        if d:
            for c in calls.get(n, ()):
                got |= closure(c, d - 1)
        return got
    for d, items in sorted(model.OWNING_ELEMENTS.items()):
        if d not in big:
            continue
        have = set()
        for n in closure(d):
            have |= released.get(n, set())
        for rec, f in items:
            names = [rec]
            k = field_index(lay, rec, f)
            if k is None and not any(t[0] == "struct." + rec for t in have | set(owning)):
                continue
            k = 0 if k is None else k
            r.ob("owned element", "%s: %s.%s" % (d, rec, f))
            if ("struct." + rec, k) not in have:
                fn = mod.fns[d]
                r.bad("element-leak", "element-leak|%s|%s.%s" % (d, rec, f), "%s:%s" % (fn.file, fn.line),
                      "%s does not release what %s.%s of its elements points to" % (d, rec, f))
    for rec, fs in sorted(required(lay).items()):
        for k, n in sorted(fs.items()):
            r.ob("owning field", "%s.%s" % (rec, n))
