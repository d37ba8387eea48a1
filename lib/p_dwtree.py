"""C17: the tree of debug entries is the tree of the DWARF data (pkg/dwarfy NewData)"""
import gossa
from gossa import NIL, C, mentions
from p_dwarfy import Dw, key
from p_module import subs
from result import Result

ONE, ZERO = C("#k:1"), C("#k:0")
E, EERR, N, NERR = ("E",), ("Eerr",), ("N",), ("Nerr",)


def norm(e):
    """conversions and memory versions dropped; the entry read and the entry made named"""
    if not isinstance(e, tuple):
        return e
    if e and e[0] == "cv":
        return norm(e[2])
    if e and e[0] == "ld" and len(e) == 3:
        return norm(("ld", e[1]))
    if e and e[0] == "ext" and e[2][0] == "call" and e[2][1].endswith("Reader).Next"):
        return (E, EERR)[e[1]]
    if e and e[0] == "ext" and e[2][0] == "call" and e[2][1] == "dwarfy.NewEntry":
        return (N, NERR)[e[1]]
    return tuple(norm(x) for x in e)


OFF = ("ld", ("fa", "Offset", E))
TAG = ("ld", ("fa", "Tag", E))
KIDS = ("ld", ("fa", "Children", E))


def length(e):
    return e[2] if e[:2] == ("call", "len") else None


class Tree:
    def __init__(self, d, f, r):
        self.d, self.f, self.r = d, f, r

    def fact(self, o, want):
        return [v for e, v in o.facts if want(e)]

    def bad(self, rule, o, text):
        self.r.bad(rule, "%s|%s" % (rule, text[:40]), o.line or self.f.line, "NewData: " + text)

    def run(self):
        outs = [self.normal(o) for o in self.d.outs(self.f)]
        for o in outs:
            if o.end == "ret":
                self.ret(o)
            elif o.end == "back":
                if o.done:
                    self.one(o)
                else:
                    self.inner(o)

    def normal(self, o):
        o.facts = [(norm(e), v) for e, v in o.facts]
        o.calls = [(c[0], tuple(norm(a) for a in c[1])) + tuple(c[2:]) for c in o.calls]
        o.stores = [(norm(s[0]), norm(s[1])) + tuple(s[2:]) for s in o.stores]
        o.mem = {norm(k): norm(v) for k, v in o.mem.items()}
        if o.ret:
            o.ret = tuple(norm(x) for x in o.ret)
        o.used = [N] if any(c[0] == "dwarfy.NewEntry" for c in o.calls) else []
        if o.end == "back":
            o.nxt = (o.nxt[0], {k: norm(v) for k, v in o.nxt[1].items()})
            first = next((h for h in o.heads if h[0] == self.f.short), None)
            o.done = first is not None and o.nxt[0] == first[1]
        return o

    def ret(self, o):
        self.r.ob("end", "return at %s" % o.line)
        eof = self.fact(o, lambda e: e == ("bin", "==", E, NIL))
        err = self.fact(o, lambda e: e in (("bin", "==", EERR, NIL), ("bin", "==", NERR, NIL)))
        if o.ret[-1] == NIL:
            if not any(c[0].endswith("Reader).Next") for c in o.calls):
                return
            if EERR not in o.ret and True not in self.fact(o, lambda e: e == ("bin", "==", EERR, NIL)):
                self.bad("end", o, "data are returned though reading may have failed")
            if eof and eof[-1] is False and False not in err:
                self.bad("end", o, "entries are left unread")
            if False in err:
                self.bad("end", o, "data are returned though reading failed")
            if False in eof and not False in err and N in o.used:
                self.bad("end", o, "entries are left unread")

    def inner(self, o):
        """a pass of the search for the level that a sibling ends: going on means this level does not end here"""
        hit = self.fact(o, lambda e: e[0] == "bin" and e[1] == "==" and OFF in e[2:] and mentions(e, lambda t: t[0] in ("f", "fa") and t[1] == "Sibling"))
        self.r.ob("sibling", "pass")
        if True in hit:
            self.bad("sibling", o, "a level whose sibling has been reached is kept")

    def stack(self, o):
        """loop variable that holds the levels"""
        for k, v in o.nxt[1].items():
            p = ("phi", self.f.short, k)
            ini = next((h[2][k] for h in o.heads if k in h[2]), None)
            if ini is not None and ini[0] == "list":
                return k, p, ini
        return None, None, None

    def root_list(self, e):
        """a list with the root only"""
        return e[0] == "list" and len(e) == 2 and e[1][0] == "struct" and all(x[1] == ZERO for x in e[1][2:] if isinstance(x, tuple) and x)

    def one(self, o):
        k, s0, ini = self.stack(o)
        r = self.r
        r.ob("pass", str(len(r.instances.get("pass", ()))))
        if any(c[0].endswith("Reader).SkipChildren") for c in o.calls):
            self.bad("entry", o, "the children of an entry are passed over")
        null = self.fact(o, lambda e: e == ("bin", "==", TAG, ZERO))
        put = [c for c in o.calls if c[0] == "mapupdate" and c[1][1] != ZERO]
        if False in self.fact(o, lambda e: e in (("bin", "==", EERR, NIL), ("bin", "==", NERR, NIL))):
            self.bad("end", o, "a failure is passed over")
        root = [c for c in o.calls if c[0] == "mapupdate" and c[1][1] == ZERO]
        if not root:
            self.bad("root", o, "there is no root entry")
        if k is not None and not self.root_list(norm(ini)):
            self.bad("root", o, "the levels do not start with the root")
        if True in null:
            if put:
                self.bad("null", o, "a null entry is stored")
            if k is None:
                return
            nx = o.nxt[1][k]
            lens = [(e, v) for e, v in o.facts if e[0] == "bin" and mentions(e, lambda t: length(t) == s0)]
            pop = ("slice", s0, None, ("bin", "-", ("call", "len", s0), ONE), None)
            pop2 = ("slice", s0, ZERO, ("bin", "-", ("call", "len", s0), ONE), None)
            if nx == s0:
                only = any(v is False and e == ("bin", "<", ONE, ("call", "len", s0)) or v is True and e in (("bin", "==", ("call", "len", s0), ONE), ("bin", "<", ("call", "len", s0), C("#k:2")))
                           or v is True and e[1] == "<" and e[3] in (ONE, C("#k:2")) or v is True and e[1] == "==" and e[3] in (ONE, ZERO) for e, v in lens)
                if not only:
                    self.bad("null", o, "a null entry does not end its level")
            elif nx[0] == "slice" and nx[1] == s0:
                if nx not in (pop, pop2):
                    self.bad("null", o, "a null entry ends another level than its own")
                elif not any(v and e == ("bin", "<", ONE, ("call", "len", s0)) or not v and e[1] == "<" and e[3] == C("#k:2") or not v and e[1] == "==" and e[3] in (ONE, ZERO) or
                             v and e == ("bin", "<", ZERO, ("call", "len", s0)) and False for e, v in lens):
                    self.bad("null", o, "a null entry may remove the root level")
            elif nx[0] in ("append", "list"):
                self.bad("null", o, "a null entry opens a level")
            return
        if N not in o.used or not null:
            self.bad("entry", o, "an entry is passed over")
            return
        # the entry goes under its own offset
        mine = [c for c in put if c[1][2] == N]
        if not mine:
            self.bad("entry", o, "an entry is not stored")
        for c in mine:
            if c[1][1] != OFF:
                self.bad("entry", o, "an entry is not stored under its offset")
        made = [c for c in o.calls if c[0] == "dwarfy.NewEntry"]
        if any(c[1][-1] != E for c in made):
            self.bad("entry", o, "the entry stored is not made from the entry read")
        if k is None or not mine:
            return
        ents = mine[0][1][0]
        # levels after the ones that end here
        nx = o.nxt[1][k]
        push = nx[0] == "append" and nx[1] != nx
        s1 = nx[1] if push else nx
        cu = self.fact(o, lambda e: e[0] == "bin" and e[1] == "==" and (key(e[3]) == "CompileUnit" or e[2] == TAG and e[3] == C("#k:17")))
        ends = self.fact(o, lambda e: e[0] == "bin" and e[1] == "==" and OFF in e[2:] and mentions(e, lambda t: t[0] in ("f", "fa") and t[1] == "Sibling"))
        if True in cu:
            if s1[0] in ("phi", "slice") and not (s1[0] == "slice" and s1[1] == s0 and s1[2] in (None, ZERO) and s1[3] == ONE):
                self.bad("unit", o, "a compile unit does not belong to the root")
            elif s1[0] == "list" and not self.root_list(s1):
                self.bad("unit", o, "a compile unit does not belong to the root")
        elif s1[0] == "list":
            self.bad("unit", o, "the levels start anew at an entry that is no compile unit")
        elif s1[0] == "slice" and s1[1] == s0:
            if True not in ends:
                self.bad("sibling", o, "a level ends though its sibling has not been reached")
            else:
                idx = {t[2] for e, v in o.facts if v and OFF in e[1:] for t in subs(e) if t[0] == "ia" and t[1] == s0}
                if s1[2] not in (None, ZERO) or s1[3] not in idx:
                    self.bad("sibling", o, "another level ends than the one whose sibling has been reached")
        elif s1 == s0 and True in ends:
            self.bad("sibling", o, "a level whose sibling has been reached is kept")
        elif s1[0] not in ("phi", "slice"):
            return
        # parent and child
        top = ("ld", ("fa", "Offset", ("ia", s1, ("bin", "-", ("call", "len", s1), ONE))))
        top2 = ("f", "Offset", ("ld", ("ia", s1, ("bin", "-", ("call", "len", s1), ONE))))
        none = any(length(t) == s1 for e, v in o.facts if e[0] == "bin" and (v is False and e[1] == "<" and e[2] == ZERO or v and e[1] == "==" and e[3] == ZERO or v and e[1] == "<" and e[3] == ONE)
                   for t in subs(e))
        par = [s for s in o.stores if s[0] in (("fa", "Parent", N), ("fa", "Parent", ("lk", ents, OFF)))]
        kid = [s for s in o.stores if s[0][0] == "fa" and s[0][1] == "Children" and s[0][2][0] == "lk" and s[0][2][1] == ents]
        kid2 = [s for s in o.stores if s[0][0] == "fa" and s[0][1] == "Children" and s not in kid]
        if none:
            if par or kid:
                pass
        else:
            if not par:
                self.bad("parent", o, "an entry has no parent")
            else:
                v = par[-1][1]
                v = o.mem.get(v, v) if v[0] == "alloc" else v[1] if v[0] == "at" else v
                at = next((s[1] for s in reversed(o.stores) if s[0] == par[-1][1]), v)
                if at[0] in ("ld", "f", "c") and at not in (top, top2):
                    self.bad("parent", o, "the parent of an entry is not the innermost level")
            if not kid and not kid2:
                self.bad("child", o, "an entry is not among its parent's children")
            for s in kid:
                who = s[0][2][2]
                if who[0] == "ld" and who[1][0] in ("alloc", "fa") and who not in (top, top2):
                    who = next((x[1] for x in reversed(o.stores) if x[0] == who[1]), who)
                if who[0] in ("ld", "f", "c") and who not in (top, top2) and not mentions(who, lambda t: t[0] == "alloc"):
                    self.bad("child", o, "an entry becomes the child of another entry than its parent")
                if s[1][0] == "append":
                    if s[1][2:] != (OFF,):
                        self.bad("child", o, "a parent's list of children gets something else than the entry's offset")
                    if s[1][1][0] == "ld" and s[1][1][1][:2] != ("fa", "Children"):
                        self.bad("child", o, "the children before are lost")
                elif s[1][0] in ("list", "call"):
                    self.bad("child", o, "the children before are lost or come after")
        # level for the entry's own children
        own = self.fact(o, lambda e: e == KIDS)
        if True in own and not push:
            self.bad("level", o, "the children of an entry are not put below it")
        if push and True not in own:
            self.bad("level", o, "a level is opened for an entry without children")
        if push:
            el = nx[2]
            if len(nx) != 3 or el[0] != "struct":
                return
            fs = {x[0]: x[1] for x in el[2:] if isinstance(x, tuple) and len(x) == 2}
            if fs.get("Offset", OFF) != OFF:
                self.bad("level", o, "the level of an entry's children is not that of the entry")
            if "Offset" not in fs:
                self.bad("level", o, "the level of an entry's children is not that of the entry")
            sib = self.fact(o, lambda e: e[0] == "is" and e[1] == "dwarf.Offset" and mentions(e, lambda t: t == E))
            if True in sib and "Sibling" not in fs:
                self.bad("sibling", o, "the sibling that ends a level is not kept")
            if "Sibling" in fs and not mentions(fs["Sibling"], lambda t: t == ("call", "(*dwarf.Entry).Val", E, ONE)) and fs["Sibling"] != ZERO:
                self.bad("sibling", o, "what is kept as the end of a level is not the entry's sibling")


def check(pid, tier):
    r = Result("pkg/dwarfy NewData in SSA form: every pass over the DWARF entries, as a path of values (levels, map of entries, parent, children)",
               "every entry but null ones is stored under its offset, its parent is the innermost open level, and it is appended to that parent's children; a level opens exactly for "
               "an entry with children, ends at its null entry or at its sibling; compile units belong to the root; reading ends only at the end or with the error")
    try:
        prog = gossa.load(["./pkg/dwarfy"])
        f = prog.find("dwarfy.NewData")
        if f is not None:
            r.count("functions", 1)
            Tree(Dw(prog, r), f, r).run()
    except gossa.Broken as e:
        r.need("loaded: " + str(e), 1)
        return r
    r.need("pass", 1)
    return r
