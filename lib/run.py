"""one run of the dataflow engine over the whole library, shared by the checks built on it"""
import analysis as A
import ir
import model
from result import Result

ALLOC = {"malloc", "calloc", "realloc", "strdup", "strndup", "dsprintf", "dsprintf64", "vdsprintf", "aligned_alloc"}


class Run:
    def __init__(self, extra=(), limit=40, required=None):
        self.lib = A.Library(limit, required)
        self.mod = self.lib.mod
        facts = list(extra)
        self.out = A.run_library(self.lib, lambda L: [A.Collect(L.loc)] + [f(L) for f in facts])
        self.findings = {}
        self.states = 0
        self.degraded = []
        for n, (sm, res, st, dr) in sorted(self.out.items()):
            for k, v in res[0].items():
                self.findings.setdefault(k, v)
            self.states += st["states"]
            if st["degraded"]:
                self.degraded.append(n)

    def collected(self, idx):
        got = {}
        for n, (sm, res, st, dr) in sorted(self.out.items()):
            for k, v in res[1 + idx].items():
                got.setdefault(k, v)
        return got

    def calls(self):
        """(function, call instruction) of the source, each source position once"""
        seen = set()
        for n in sorted(self.out):
            for b in self.mod.fns[n].blocks:
                for i in b.ins:
                    if i.op == "call" and not (i.callee or "").startswith("llvm."):
                        k = (i.where(), i.callee)
                        if k not in seen:
                            seen.add(k)
                            yield n, i

    def base(self, r):
        r.count("functions analysed", len(self.out))
        r.count("abstract states", self.states)
        r.count("functions left out (state limit)", len(self.degraded))
        r.assumptions += [
            "allocation functions either fail with NULL or return fresh memory; both outcomes are followed at every call",
            "contracts of the constructor/destructor pairs listed in lib/model.py; bodies are checked against the same rules",
            "callbacks supplied by the user do not release or keep what they are handed beyond the documented event contract",
            "assert() is enabled: a path on which an assertion fails ends there"]
