"""C20: module names stay below the look-up paths, and the look-up follows their order (pkg/module)"""
import gossa
from gossa import NIL, C, S, mentions
from result import Result

SINK = ("os.", "ioutil.", "io/ioutil.", "exec.", "invoke NewInstance", "filepath.Glob", "filepath.Walk")
CLASS = {"/": "a slash", "\\": "a backslash", "..": "the name `..'", ".": "the name `.'"}
LOOKS = ("strings.Contains", "strings.ContainsAny", "strings.ContainsRune", "strings.Index", "strings.IndexByte", "strings.IndexAny", "strings.IndexRune",
         "strings.HasPrefix", "strings.HasSuffix", "strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny", "strings.EqualFold", "strings.Count",
         "filepath.Base", "path.Base", "len", "strings.Trim", "strings.TrimSpace", "strings.TrimLeft", "strings.ToLower", "strings.ToUpper")


def text(e):
    """constant string or character of an expression"""
    if e[0] != "c":
        return None
    if e[1].startswith("#s:"):
        return e[1][3:]
    if e[1].startswith("#k:"):
        try:
            return chr(int(e[1][3:]))
        except ValueError:
            return None
    return None


def test(e, v, p):
    """(classes excluded, classes established, understood) by the fact `e is v' about the string p"""
    if e[0] == "call" and e[1] in LOOKS[:3] and len(e) == 4 and e[2] == p:
        t = text(e[3])
        if t is None:
            return set(), set(), False
        hit = {x for x in "/\\" if (t == x if e[1] == LOOKS[0] else x in t)}
        wide = not all(x in "/\\" for x in t)
        if not v:
            if e[1] == LOOKS[0] and t == ".":
                return {".", ".."}, set(), True
            if e[1] == LOOKS[0] and t == "..":
                return {".."}, set(), True
            return hit | ({".", ".."} if e[1] != LOOKS[0] and "." in t else set()), set(), True
        return set(), hit if not wide else set(), True
    if e[0] == "bin" and e[1] in ("==", "<"):
        a, b = e[2], e[3]
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x[0] == "call" and x[1] in LOOKS[3:7] and x[2] == p and len(x) == 4:
                none = (e[1] == "==" and y == C("#k:-1")) == v if e[1] == "==" else \
                    (v if not flip and y == C("#k:0") else not v if flip and y == C("#k:-1") else None)
                if none is None:
                    return set(), set(), False
                return test(("call", {"strings.Index": LOOKS[0], "strings.IndexByte": LOOKS[2], "strings.IndexRune": LOOKS[2], "strings.IndexAny": LOOKS[1]}[x[1]],
                             p, x[3]), not none, p)
        if e[1] == "==":
            if b == p:
                a, b = b, a
            if a == p and text(b) is not None:
                t = text(b)
                if v:
                    return set(CLASS) - {t} if "/" not in t and "\\" not in t else set(), {t} if t in ("..", ".", "") else set(), True
                return {t} & {"..", "."}, set(), True
            for x, y in ((a, b), (b, a)):
                if x == p and y[0] == "call" and y[1] in ("filepath.Base", "path.Base", "filepath.Clean") and y[2] == p:
                    return ({"/"}, set(), True) if v else (set(), {"/"}, True)
    if e[0] == "call" and e[1] == "strings.HasPrefix" and e[2] == p and text(e[3]) in (".", "..") and not v:
        return ({".", ".."} if text(e[3]) == "." else {".."}), set(), True
    if not mentions(e, lambda t: t == p):
        return set(), set(), True
    known = all(not mentions(t, lambda u: u == p) or t == p or t[0] == "call" and t[1] in LOOKS or t[0] in ("bin", "un", "c") for t in subs(e))
    return set(), set(), known


def subs(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            yield from subs(x)


def pasted(e, p):
    """p becomes part of a longer path in e"""
    return mentions(e, lambda t: t[0] == "cat" and any(mentions(x, lambda u: u == p) for x in t[1:]) or
                    t[0] == "call" and t[1].endswith(".Join") and any(mentions(x, lambda u: u == p) for x in t[2:]) or
                    t[0] == "call" and t[1] == "fmt.Sprintf" and any(mentions(x, lambda u: u == p) for x in t[2:]))


def bare(e):
    """without changes between slash forms"""
    while isinstance(e, tuple) and e[0] == "call" and e[1] in ("filepath.FromSlash", "filepath.ToSlash", "filepath.Clean"):
        e = e[2]
    return tuple(bare(x) if isinstance(x, tuple) else x for x in e) if isinstance(e, tuple) else e


def exported(f):
    n = f.short.split(".")[-1].rstrip(")")
    return n[:1].isupper()


class Mod:
    def __init__(self, prog, r):
        self.prog, self.r = prog, r
        self.P = gossa.Paths(prog)
        self.outs = {}
        for n, f in prog.fns.items():
            self.outs[n] = self.P.of(f)
        self.push = {}                                   # unexported function -> parameters it pastes unguarded

    def where(self, f, line):
        return line or f.line

    # ---- containment
    def sinks(self, o, p):
        for c in o.calls:
            n = c[0]
            if n.startswith(SINK):
                for a in c[1]:
                    if pasted(a, p):
                        yield c
                        break
            else:
                for f, ps in self.push.items():
                    if gossa.short(f) == n:
                        for k in ps:
                            if k < len(c[1]) and mentions(c[1][k], lambda t: t == p):
                                yield c

    def contain(self):
        for _ in range(4):
            more = False
            for n, f in self.prog.fns.items():
                if exported(f):
                    continue
                for k, t in enumerate(f.ptypes):
                    if t != "string" or k in self.push.get(n, ()):
                        continue
                    if any(self.missing(o, c, ("p", f.params[k])) for o in self.outs[n] for c in self.sinks(o, ("p", f.params[k]))):
                        self.push.setdefault(n, set()).add(k)
                        more = True
            if not more:
                break
        for n, f in sorted(self.prog.fns.items()):
            if not exported(f):
                continue
            for k, t in enumerate(f.ptypes):
                if t != "string":
                    continue
                p = ("p", f.params[k])
                used = False
                for o in self.outs[n]:
                    for c in self.sinks(o, p):
                        used = True
                        self.r.ob("contain", "%s: %s of %s" % (f.short, c[0], f.params[k]))
                        m = self.missing(o, c, p)
                        if m:
                            self.r.bad("contain", "contain|%s|%s" % (f.short, "".join(sorted(m))), self.where(f, c[3]),
                                       "%s: a name with %s reaches %s: it selects files outside the look-up path" %
                                       (f.short, " or ".join(CLASS[x] for x in sorted(m)), c[0]))
                if used:
                    self.refuse(n, f, p)

    def missing(self, o, c, p):
        have = set()
        for e, v in o.facts[:c[2]]:
            ex, _, known = test(e, v, p)
            if not known:
                return set()
            have |= ex
        if "." in have and ".." not in have and "/" in have and False:
            have.add("..")
        return set(CLASS) - have

    def refuse(self, n, f, p):
        """a name is refused only for one of the four reasons"""
        for o in self.outs[n]:
            if o.end != "ret" or not o.ret or o.ret[-1] == NIL or f.results[-1] != "error":
                continue
            if any(c[0].startswith(SINK) or any(gossa.short(x) == c[0] for x in self.prog.fns) for c in o.calls) or o.heads:
                continue
            est, known = set(), True
            for e, v in o.facts:
                _, s, k = test(e, v, p)
                est |= s
                known = known and k
            self.r.ob("refuse", "%s: %s" % (f.short, f.params[f.params.index(p[1])]))
            if known and not est:
                self.r.bad("refuse", "refuse|%s" % f.short, self.where(f, o.line), "%s: a name is refused that holds no slash or backslash and is not `.' or `..'" % f.short)

    # ---- loops over a list in order
    def loop(self, o):
        """(list, index, position known) of the innermost list loop of the path, from its facts"""
        for e, v in reversed(o.facts):
            if e[0] == "bin" and e[1] == "<" and e[3][0] == "call" and e[3][1] == "len":
                i, k = e[2], 0
                if i[0] == "bin" and i[1] == "+" and i[3] == C("#k:1"):
                    i, k = i[2], 1
                if i[0] == "phi":
                    init = [h[2].get(i[2]) for h in o.heads if i[2] in h[2]]
                    return e[3][2], e[2], v, i, init[-1] if init else None, k
        return None

    def ordered(self, f, o, lp):
        """starts with the first element and goes on by one"""
        _, idx, _, phi, init, k = lp
        if init not in (C("#k:0"), C("#k:-1")) or (init == C("#k:-1")) != (k == 1):
            return False
        if o.end == "back" and phi[2] in o.nxt[1]:
            return o.nxt[1][phi[2]] == ("bin", "+", phi, C("#k:1"))
        return True

    def failed(self, o):
        """the path carries a reason to go on with the next element"""
        return any(not v and (e[0] == "has" or e[0] == "bin" and e[1] == "==" and e[3] == NIL and e[2][0] in ("ext", "call")) for e, v in o.facts)

    def infos(self):
        f = self.prog.find("(*module.Runner).InfoByName")
        if f is None:
            return
        p = ("p", f.params[1])
        for o in self.outs[f.name]:
            lp = self.loop(o)
            if lp is None:
                continue
            lst, idx, inside, phi, init, _ = lp
            if not mentions(lst, lambda t: t[:2] == ("fa", "Paths")):
                continue
            w = self.where(f, o.line)
            self.r.ob("lookup", "InfoByName: path %s" % o.end)
            if not self.ordered(f, o, lp):
                self.r.bad("order", "order|InfoByName", w, "InfoByName: the look-up paths are not searched from the first to the last")
                continue
            el = ("ia", lst, idx)
            if o.end == "back":
                grown = [(k, x) for k, x in o.nxt[1].items() if x[0] == "append" or x[0] == "call" and x[1] == "append"]
                if not grown:
                    if not self.failed(o):
                        self.r.bad("skip", "skip|InfoByName", w, "InfoByName: a module that was found and can be loaded is left out")
                    continue
                for k, x in grown:
                    if x[0] != "append" or x[1][:1] != ("phi",) or x[1][2] != k or len(x) != 3:
                        self.r.bad("order", "order|InfoByName|append", w, "InfoByName: what is found is not put after what was found before")
                        continue
                    path = [s[1] for s in o.stores if s[0] == ("fa", "Path", x[2])]
                    kind = [s[1] for s in o.stores if s[0] == ("fa", "Kind", x[2])]
                    if len(path) == 1 and not (mentions(path[0], lambda t: t == el) and pasted(path[0], p)):
                        self.r.bad("pair", "pair|InfoByName|path", w, "InfoByName: the path reported is not this look-up path and the name")
                    if len(kind) == 1 and len(path) == 1:
                        rd = [t for t in subs(kind[0]) if t[0] == "call" and t[1].endswith("ReadFile")]
                        if rd and not any(mentions(t, lambda u: u == el) for t in rd):
                            self.r.bad("pair", "pair|InfoByName|kind", w, "InfoByName: the kind reported is not that of the module at this path")
                    if not any(v and e[0] == "has" for e, v in o.facts) and mentions(tuple(e for e, v in o.facts), lambda t: t[0] == "has"):
                        self.r.bad("pair", "pair|InfoByName|known", w, "InfoByName: a module of unknown kind is reported")
            elif o.end == "ret" and inside:
                if o.ret[-1] != NIL:
                    self.r.bad("skip", "skip|InfoByName|stop", w, "InfoByName: one path without a usable module ends the look-up")
            elif o.end == "ret" and (o.ret[-1] != NIL or o.ret[0][0] != "phi" and o.ret[0][0] != "ld"):
                self.r.bad("skip", "skip|InfoByName|ret", w, "InfoByName: what was found is not what is returned")

    def instance(self):
        f = self.prog.find("(*module.Runner).NewInstance")
        if f is None or len(f.params) < 3:
            return
        name, spec = ("p", f.params[1]), ("p", f.params[2])
        empty = ("bin", "==", name, S(""))
        for o in self.outs[f.name]:
            w = self.where(f, o.line)
            lp = self.loop(o)
            if lp is not None and not mentions(lp[0], lambda t: t[0] == "call" and t[1].endswith("InfoByName")):
                lp = None
            if lp is not None and not self.ordered(f, o, lp):
                self.r.bad("order", "order|NewInstance", w, "NewInstance: the modules found are not tried from the first to the last")
                continue
            if o.end == "back":
                if lp is not None and not self.failed(o):
                    self.r.bad("first", "first|NewInstance", w, "NewInstance: a module that was loaded is passed over")
                continue
            if o.end != "ret" or len(o.ret) != 2:
                continue
            inst, err = o.ret
            self.r.ob("instance", "NewInstance: return %s" % ("instance" if inst != NIL else "failure"))
            if err == NIL and inst == NIL:
                self.r.bad("none", "none|NewInstance", w, "NewInstance: neither an instance nor an error is returned")
                continue
            if inst == NIL:
                tried = any(not v and mentions(e, lambda t: t[0] == "ld" and t[1][0] == "ia" and mentions(t[1], lambda u: u[0] == "call" and u[1].endswith("InfoByName")))
                            for e, v in o.facts)
                if lp is not None and lp[2] or tried and lp is None:
                    self.r.bad("first", "first|NewInstance|stop", w, "NewInstance: one module that cannot be loaded keeps the ones after it from being tried")
                continue
            c = inst[2] if inst[0] == "ext" and inst[1] == 0 and inst[2][:2] == ("call", "invoke NewInstance") else None
            if c is None or len(c) != 6:
                continue
            kind, path, file = c[2], c[4], c[5]
            if err == NIL and (("bin", "==", ("ext", 1, c), NIL), True) not in o.facts:
                self.r.bad("none", "none|NewInstance|err", w, "NewInstance: an instance is returned without its error")
            k = kind[2] if kind[0] == "lk" else None
            if k is not None and not any(v and e[0] == "has" and e[2] == k for e, v in o.facts):
                self.r.bad("none", "none|NewInstance|kind", w, "NewInstance: the kind is used though it may not be known")
            if (empty, True) in o.facts:
                b = bare(path), bare(file)
                if b != (("call", "filepath.Dir", spec), ("call", "filepath.Base", spec)):
                    self.r.bad("spec", "spec|NewInstance", w, "NewInstance: without a name, the module is not the folder and file of the given spec file")
                if k is not None and not mentions(k, lambda t: t[0] == "call" and t[1].endswith("ReadFile") and bare(t[2]) == spec):
                    self.r.bad("spec", "spec|NewInstance|kind", w, "NewInstance: without a name, the kind is not that of the given spec file")
            elif lp is not None:
                el = ("ld", ("ia", lp[0], lp[1]))
                if not mentions(path, lambda t: t == ("fa", "Path", el)) or k is not None and not mentions(k, lambda t: t == ("fa", "Kind", el)):
                    self.r.bad("pair", "pair|NewInstance", w, "NewInstance: path and kind are not those of one module found")
                unset = (("bin", "==", spec, S("")), True) in o.facts
                given = (("bin", "==", spec, S("")), False) in o.facts
                if unset and file != S("module.yaml") or given and file != spec:
                    self.r.bad("spec", "spec|NewInstance|file", w, "NewInstance: the spec file is not the one asked for (module.yaml if none is)")


def check(pid, tier):
    r = Result("pkg/module, type-checked and in SSA form: every path of every function; file accesses and the names pasted into their paths, the loops over look-up paths "
               "and over modules found, and what is returned",
               "a name reaches the file system only on paths that exclude slash, backslash, `.' and `..'; it is refused only for one of these; paths are searched in "
               "order, each yields its module or is skipped for a reason; the first that loads is returned")
    try:
        prog = gossa.load(["./pkg/module"])
        m = Mod(prog, r)
    except gossa.Broken as e:
        r.need("loaded: " + str(e), 1)
        return r
    r.count("functions", len(prog.fns))
    m.contain()
    m.infos()
    m.instance()
    r.need("contain", 1)
    return r
