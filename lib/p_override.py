"""C18: overrides win, the rest of a specification stays (pkg/override)"""
import gossa
from gossa import NIL, mentions
from p_dwarfy import Dw, key, unbox
from p_module import subs
from result import Result

STUBS = {"github.com/mitchellh/copystructure": "package copystructure\n\nfunc Copy(v interface{}) (interface{}, error) { return v, nil }\n"}
MAP = "map[string]interface{}"


class Ov:
    def __init__(self, prog, r):
        self.prog, self.r = prog, r
        loops = {f.short for f in prog.fns.values() if f.head}
        self.P = gossa.Paths(prog, opaque=loops | {"override.New", "override.Merge", "override.MergeAll"})
        self.outs = {f.short: self.P.of(f) for f in prog.fns.values()}
        self.fn = {f.short: f for f in prog.fns.values()}
        # functions that merge one table into another: name -> (position of the table merged into, position of the other)
        self.merger = {}
        for n, f in self.fn.items():
            for o in self.outs[n]:
                if o.end != "back":
                    continue
                rg = self.range(o)
                if rg is None or rg[1][0] != "p" or rg[1][1] not in f.params:
                    continue
                for e, v in o.facts:
                    if e[0] == "has" and e[1][0] == "p" and e[1][1] in f.params and e[2] == ("key", rg):
                        self.merger[n] = (f.params.index(e[1][1]), f.params.index(rg[1][1]))

    def range(self, o):
        for e, v in reversed(o.facts):
            if e[0] == "more" and v:
                return e[1]
        return None

    def bad(self, rule, f, o, text):
        self.r.bad(rule, "%s|%s|%s" % (rule, f.short, text[:40]), o.line or f.line, "%s: %s" % (f.short, text))

    def tables(self, f):
        """a pass over the entries of the table that is overridden"""
        seen = False
        for o in self.outs[f.short]:
            if o.end == "panic":
                continue
            rg = self.range(o)
            if rg is None:
                continue
            K, V = ("key", rg), ("elem", rg)
            if any(e == ("p", "merge") and not v for e, v in o.facts):
                continue                                        # removal of keys is never asked for
            if o.end == "ret":
                self.bad("pass", f, o, "entries of a table are left out")
                continue
            seen = True
            self.r.ob("entry", "%s: %d facts" % (f.short, len(o.facts)))
            has = [(e, v) for e, v in o.facts if e[0] == "has" and e[2] == K]
            up = [c for c in o.calls if c[0] == "mapupdate"]
            rm = [c for c in o.calls if c[0] == "delete"]
            call = [c for c in o.calls if c[0] in self.merger]
            if not has:
                if up or not call:
                    self.bad("wins", f, o, "an entry is treated without looking whether it is overridden")
                continue
            D = has[-1][0][1]
            old = ("lk", D, K)
            if D[0] != "new" and [c for c in up if c[1][0] == D]:
                there = any(not v and (e == ("bin", "==", D, NIL) or e[0] == "bin" and e[1] == "==" and e[2] == ("call", "len", D)) or
                            v and e[0] == "bin" and e[1] == "<" and e[3] == ("call", "len", D) for e, v in o.facts)
                if not there and not self.D_given(f, D):
                    self.bad("nil", f, o, "an override without content makes the merge fail: its table may be nil when an entry is put in")
            if not has[-1][1]:
                if not [c for c in up if c[1][0] == D and c[1][1] == K and unbox(c[1][2]) == V]:
                    self.bad("kept", f, o, "an entry that is not overridden is lost or changed")
                continue
            if [c for c in up + rm if c[1][0] == D]:
                w = [c for c in up if c[1][0] == D and c[1][1] == K and c[1][2] == old]
                m = [c for c in up if c[1][0] == D and c[1][1] == K and c[1][2][0] in ("mi", "call") and unbox(c[1][2])[0] == "call" and unbox(c[1][2])[1] in self.merger]
                if not w and not m:
                    self.bad("wins", f, o, "an override is replaced or removed")
                    continue
            both = [[v for e, v in o.facts if e[0] == "is" and e[1] == MAP and e[2] == x] for x in (old, V)]
            if call:
                for c in call:
                    d, s = self.merger[c[0]]
                    if unbox_ta(c[1][d]) != old or unbox_ta(c[1][s]) != V:
                        self.bad("wins", f, o, "tables are merged the wrong way round or not under the same key")
            elif False not in both[0] and False not in both[1]:
                nil = [v for e, v in o.facts if e[0] == "bin" and e[1] == "==" and e[2] in (old, V) and e[3] == NIL]
                if True not in nil:
                    self.bad("deep", f, o, "a table overridden by a table is not merged")
            elif True in both[0] and True in both[1]:
                self.bad("deep", f, o, "a table overridden by a table is not merged")
        return seen

    def D_given(self, f, D):
        """a parameter that every caller has filled: known from the callers' own tests"""
        if D[0] != "p":
            return False
        k = f.params.index(D[1])
        calls = [(o, c) for n, os in self.outs.items() for o in os for c in o.calls if c[0] == f.short]
        return bool(calls) and all(c[1][k][0] == "new" or any(not v and e == ("bin", "==", c[1][k], NIL) for e, v in o.facts) or
                                   any(v and e[0] == "is" and e[2] == unbox_ta(c[1][k]) for e, v in o.facts) for o, c in calls)

    def merge(self):
        f = self.fn.get("override.Merge")
        if f is None or len(f.params) != 2:
            return
        pin, pov = ("p", f.params[0]), ("p", f.params[1])
        for o in self.outs[f.short]:
            if o.end == "back" or o.end == "ret":
                for c in o.calls:
                    tgt = c[1][0] if c[0] in ("mapupdate", "delete") else c[1][self.merger[c[0]][0]] if c[0] in self.merger else None
                    if tgt is not None and mentions(tgt, lambda t: t == pin) and not mentions(tgt, lambda t: t[0] == "call" and t[1].endswith("Copy")) and \
                            not mentions(tgt, lambda t: t == pov):
                        self.bad("input", f, o, "the specification given is changed")
            if o.end != "ret":
                continue
            self.r.ob("merge", "return at %s" % o.line)
            lost = [e for e, v in o.facts if e[0] == "bin" and e[1] == "==" and e[3] == NIL and not v and e[2][0] == "ext" and e[2][2][0] == "call" and e[2][2][1].endswith("Copy")]
            if o.ret[-1] == NIL:
                if lost:
                    self.bad("failure", f, o, "success is returned though copying failed")
                if self.range(o) is None and not any(e[0] == "more" for e, v in o.facts) and not any(c[0] in self.merger for c in o.calls):
                    self.bad("kept", f, o, "what is not overridden is lost")
                x = o.ret[0]
                x = o.mem.get(x, x) if x[0] == "alloc" else x
                new = x[0] == "new"
                if x[0] != "alloc" and not mentions(x, lambda t: t == pov) and not new and not (x[0] == "call" and x[1] in self.merger):
                    self.bad("wins", f, o, "what is returned is not the merged table")

    def all(self):
        f = self.fn.get("override.MergeAll")
        if f is None or len(f.params) != 2:
            return
        d = Dw.__new__(Dw)
        pin, lst = ("p", f.params[0]), ("p", f.params[1])
        for o in self.outs[f.short]:
            lp = d.loop(o)
            w = o
            fails = [e for e, v in o.facts if e[0] == "bin" and e[1] == "==" and e[3] == NIL and not v and e[2][0] == "ext" and e[2][2][0] == "call" and
                     e[2][2][1] in ("override.New", "override.Merge") and e[2][1] == 1]
            merges = [c for c in o.calls if c[0] == "override.Merge"]
            if o.end == "back" and lp is not None:
                coll, el, inside, ok, phi = lp
                self.r.ob("order", "pass")
                if coll != lst or not ok:
                    self.bad("order", f, w, "the overrides are not applied from the first to the last")
                    continue
                if fails:
                    self.bad("failure", f, w, "an override that cannot be read or merged is passed over")
                    continue
                if len(merges) != 1 or not mentions(merges[0][1][1], lambda t: t == ("call", "override.New", el)):
                    self.bad("order", f, w, "an override is left out")
                    continue
                acc = [k for k, v in o.nxt[1].items() if mentions(v, lambda t: t[:2] == ("call", "override.Merge"))]
                cur = merges[0][1][0]
                if acc and cur[0] == "phi" and cur[2] not in acc or cur == pin:
                    self.bad("order", f, w, "an override is not applied to the result of those before it")
                if not acc and not any(mentions(s[1], lambda t: t[:2] == ("call", "override.Merge")) for s in o.stores):
                    self.bad("order", f, w, "the result of a merge is dropped")
                known = [v for e, v in o.facts if e[0] == "bin" and e[1] == "==" and e[3] == NIL and e[2][0] == "ext" and e[2][1] == 1 and e[2][2][:2] == ("call", "override.Merge")]
                if not known:
                    self.bad("failure", f, w, "the failure of a merge is passed over")
            if o.end == "ret":
                self.r.ob("all", "return at %s" % o.line)
                if o.ret[-1] == NIL:
                    if fails:
                        self.bad("failure", f, w, "success is returned though an override could not be read or merged")
                    if lp is not None and lp[2]:
                        self.bad("order", f, w, "overrides are left out")
                    if lp is None and merges and not f.head:
                        self.bad("order", f, w, "overrides after the first are left out")
                    if lp is None and (("bin", "==", pin, NIL), True) not in o.facts and not merges and not any(e[0] == "bin" and mentions(e, lambda t: t == ("call", "len", lst)) for e, v in o.facts):
                        self.bad("order", f, w, "the overrides are not applied")

    def new(self):
        f = self.fn.get("override.New")
        if f is None or len(f.params) != 1:
            return
        p = ("p", f.params[0])
        for o in self.outs[f.short]:
            if o.end != "ret":
                continue
            self.r.ob("read", "return at %s" % o.line)
            un = [c for c in o.calls if c[0].split(".")[-1] in ("Unmarshal", "Decode")]
            rd = [c for c in o.calls if c[0].split(".")[-1] == "ReadFile"]
            file = [v for e, v in o.facts if e[0] == "call" and e[1] == "strings.HasPrefix" and e[2] == p and key(e[3]) == "--file:"]
            ok = o.ret[-1] == NIL
            for c in rd:
                a = c[1][0]
                if True not in file and ("bin",) != a[:1] and not mentions(a, lambda t: t[0] == "call" and t[1] in ("strings.CutPrefix", "strings.TrimPrefix")):
                    self.bad("read", f, o, "a text that does not name a file is taken for a file's name")
                if a == p:
                    self.bad("read", f, o, "the prefix is taken for a part of the file's name")
            if True in file and not rd:
                self.bad("read", f, o, "the file named is not read")
            if False in file and rd:
                self.bad("read", f, o, "a text that does not name a file is taken for a file's name")
            for e, v in o.facts:
                if ok and not v and e[0] == "bin" and e[1] == "==" and e[3] == NIL and (e[2][0] == "call" and "Unmarshal" in e[2][1] or e[2][0] == "ext" and e[2][2][:1] == ("call",) and "ReadFile" in e[2][2][1]):
                    self.bad("failure", f, o, "success is returned though the override could not be read")
            if not un:
                if ok:
                    self.bad("read", f, o, "the override is not read")
                continue
            c = un[-1]
            src = c[1][0]
            if rd and not mentions(src, lambda t: t[0] == "call" and t[1] == rd[0][0]):
                self.bad("read", f, o, "the content of the file is not what is read")
            if not rd and not mentions(src, lambda t: t == p):
                self.bad("read", f, o, "the text given is not what is read")
            brace = [v for e, v in o.facts if e[0] == "call" and e[1] == "strings.HasPrefix" and key(e[3]) == "{"]
            if brace and ("json" in c[0]) != brace[-1]:
                self.bad("read", f, o, "a text is read as the wrong format")
            if ok:
                chk = [v for e, v in o.facts if e[0] == "bin" and e[1] == "==" and e[2][0] == "call" and "Unmarshal" in e[2][1] and e[3] == NIL]
                if not chk:
                    self.bad("failure", f, o, "success is returned though the override may not be readable")
                if unbox(c[1][1]) != o.ret[0]:
                    self.bad("read", f, o, "what is returned is not what was read")


def unbox_ta(e):
    e = unbox(e)
    while e[0] in ("ta", "mi", "cv") and len(e) > 2:
        e = e[2]
    return e


def check(pid, tier):
    r = Result("pkg/override, type-checked (the copying package replaced by its signature) and in SSA form: every path of the reading of overrides, of each pass over the entries of "
               "the tables merged and over the list of overrides",
               "an entry that is not overridden is put in unchanged; one that is overridden stays as the override has it, unless both are tables, which are merged in turn; the specification "
               "given is not written to; overrides apply from first to last, each to the result before; nothing that fails counts as success")
    try:
        prog = gossa.load(["./pkg/override"], stubs=STUBS)
        v = Ov(prog, r)
        r.count("functions", len(prog.fns))
        for n in sorted(v.fn):
            if n in v.merger or n == "override.Merge":
                v.tables(v.fn[n])
        v.merge()
        v.all()
        v.new()
    except gossa.Broken as e:
        r.need("loaded: " + str(e), 1)
        return r
    r.need("entry", 1)
    return r
