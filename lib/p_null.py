"""C04: NULL handles are answered, not dereferenced."""
import ir
from engine import Obs, TOPF, f_implies
from result import Result
from run import Run

HANDLES = ("metac_entry_t *", "metac_value_t *", "metac_parameter_storage_t *", "metac_tag_map_t *",
           "metac_recursive_iterator_t *", "struct metac_memory_map *", "struct metac_memory_entry *",
           "metac_value_walker_hierarchy_t *", "metac_value_event_t *")


def direct(E, ins, k):
    d = E._info.ins.get(ins.ops[0][1]) if ins.op == "br" and ins.ops and ins.ops[0][0] == "i" else None
    return d is not None and d.op == "icmp" and ("a", k) in d.ops


class Aborts(Obs):
    """assertions that fail because an argument is NULL"""

    def __init__(self, lib):
        self.out = {}

    def reset(self):
        self.out = {}

    def abort(self, E, st, ins, blk):
        for k, t in enumerate(E._fn.ptypes):
            # the assertion is about the parameter itself
            if t == ("p",) and direct(E, ins, k) and f_implies(st.facts.get(("a", k), TOPF), "eq", 0):
                self.out.setdefault((E._fn.name, k), ins.where())


def check(pid, tier):
    r = Result("for every function of the public headers the set of parameters it may dereference without having "
               "excluded NULL is computed by dataflow over its body and the bodies of its callees; the result is compared "
               "with the handle parameters of its declaration",
               "no path of a public function dereferences a handle parameter (description, value, parameter storage, tag "
               "map, walker, memory map, event) or fails an assertion on it when it is NULL")
    R = Run(extra=[Aborts])
    R.base(r)
    ab = {}
    for n, (sm, res, st, dr) in R.out.items():
        ab.update(res[1])
    pub, sig = ir.public_functions(), ir.signatures()
    for n in sorted(R.out):
        b = n.split("@")[0]
        if b not in pub or b not in sig or R.mod.fns[n].internal:
            continue
        ps = sig[b][1]
        if len(R.mod.fns[n].ptypes) != len([p for p in ps if p != "..."]):
            continue
        for k, t in enumerate(ps):
            t = t.replace("const ", "")
            if t not in HANDLES:
                continue
            r.ob("handle parameter", "%s #%d %s" % (b, k, t))
            if k in R.out[n][3]:
                w, f = R.out[n][3][k]
                r.bad("null-handle", "null-handle|%s|%d" % (b, k), w, "%s dereferences its parameter %d (%s) in %s without "
                      "excluding NULL" % (b, k + 1, t, f))
            elif (n, k) in ab:
                r.bad("null-abort", "null-abort|%s|%d" % (b, k), ab[(n, k)], "%s aborts when its parameter %d (%s) is NULL" % (b, k + 1, t))
    r.need("handle parameter", 150)
    return r
