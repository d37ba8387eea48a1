"""C16 tag strings: the scanner's transitions, taken from its IR one character at a time, are run against the grammar's automaton."""
import ir
import pathval
from p_store import A, entry_values
from p_tags import Tags, fold
from pathval import C, add, cmp_, ld, lin, mul
from result import Result

FN = "metac_entry_tag_string_lookup"
CHARS = "aZ0_-,= :\"\\"
CMPS = ("memcmp", "strncmp", "bcmp")
# the grammar: (state, character) -> (state, mark); states not listed are left open
def spec(s, c):
    if s == "between":
        return ("between", None) if c == " " else None if c == ":" else ("key", "K")
    if s == "key":
        return ("between", None) if c == " " else ("colon", "C") if c == ":" else ("key", None)
    if s == "colon":
        return ("value", "Q") if c == '"' else None if c == " " else ("broken", None)
    if s == "broken":
        return ("between", None) if c == " " else ("broken", None)
    if s == "value":
        return ("escape", None) if c == "\\" else ("between", "end") if c == '"' else ("value", None)
    return ("value", None)


def tok(x):
    return ("tok", x)


class Unknown(Exception):
    pass


def subst(e, env):
    """e with the loop's variables and the character replaced, folded"""
    if not isinstance(e, tuple) or not e:
        return e
    if e in env:
        return env[e]
    if e[0] in ("c", "a", "phi", "tok", "i"):
        return e
    if e[0] == "lin":
        s = C(e[1])
        for t, k in e[2]:
            s = add(s, mul(subst(t, env), C(k)))
        return s
    if e[0] == "ld":
        x = ld(subst(e[1], env))
        return env.get(x, x)
    if e[0] == "cmp":
        return cmp_(e[1], subst(e[2], env), subst(e[3], env))
    if e[0] == "not":
        x = subst(e[1], env)
        return C(1 - (x[1] & 1)) if x[0] == "c" else pathval.neg(x)
    if e[0] in ("sx", "zx", "sext", "zext"):
        x = subst(e[-1], env)
        return x if x[0] == "c" else e[:-1] + (x,)
    return tuple(subst(x, env) if isinstance(x, tuple) else x for x in e)


def tokens(e, out=None):
    out = set() if out is None else out
    if isinstance(e, tuple):
        if e[:1] == ("tok",):
            out.add(e[1])
        else:
            for x in e:
                tokens(x, out)
    return out


class Scanner:
    def __init__(self, G, r, off):
        self.G, self.r = G, r
        self.base = ld(add(A[0], C(off)))
        self.outs = G.paths(FN)
        self.f = G.mod.fns[FN]
        self.slen = ("call", "strlen", self.base)
        self.klen = ("call", "strlen", A[1])
        self.h = self.pos = None
        for h in G.headers(FN):
            backs = [o for o in self.outs if o.end == "back" and o.nxt[0] == h]
            if not backs:
                continue
            for i in self.f.blocks[h].ins:
                if i.op != "phi":
                    break
                me = ("phi", i.id)
                if all(lin(add(o.nxt[1][i.id], me, -1))[1] == {} for o in backs):
                    for a in (add(self.base, me), me):
                        if any(pathval.mentions(x, lambda z: z == ld(a)) for o in self.outs for x in o.facts):
                            ini = entry_values(G, self.f, i)
                            if a == me and ini != {self.base}:
                                continue
                            self.h, self.pos, self.addr, self.init = h, me, a, ini
                            break
                if self.pos:
                    break
            if self.pos:
                break
        if self.pos is None:
            return
        self.backs = [o for o in self.outs if o.end == "back" and o.nxt[0] == self.h]
        self.ctl, self.data, self.ini = [], [], {}
        for i in self.f.blocks[self.h].ins:
            if i.op != "phi":
                break
            me = ("phi", i.id)
            if me == self.pos:
                continue
            vals = entry_values(G, self.f, i)
            if len(vals) != 1:
                self.pos = None
                return
            self.ini[me] = next(iter(vals))
            if all(o.nxt[1][i.id] == me or o.nxt[1][i.id][0] == "c" for o in self.backs) and self.ini[me][0] == "c":
                self.ctl.append(me)
            else:
                self.data.append(me)

    def bad(self, key, o, text):
        self.G.bad("scan", FN, key, o, FN + " " + text)

    def at(self, t):
        """the address of the character at position t"""
        return subst(self.addr, {self.pos: t})

    # ---- one pass of the loop for one character
    def step(self, ctl, data, ch):
        env = dict(zip(self.ctl, ctl))
        env.update(zip(self.data, data))
        env[self.pos] = tok("I")
        env[ld(self.at(tok("I")))] = C(ord(ch))
        res = []
        for o in self.outs:
            if self.h not in o.path:
                continue
            keep, sure, fs = True, True, []
            for f in o.facts:
                g = subst(f, env)
                if g[0] == "c":
                    if not g[1] & 1:
                        keep = False
                        break
                    continue
                if self.bound(f) is False or self.bound(f) == "out":
                    keep = False                       # the end of the string
                    break
                if self.bound(f):
                    continue
                if pathval.mentions(f, lambda z: z in self.ctl or z == ld(self.addr)) and not self.about_key(g):
                    sure = False
                fs.append(g)
            if not keep:
                continue
            if o.end == "back" and o.nxt[0] != self.h:
                continue
            if not sure:
                raise Unknown()
            res.append((o, fs, env))
        return res

    def about_key(self, g):
        return pathval.mentions(g, lambda z: z == self.klen or z[0] == "call" and z[1] in CMPS or z == ("a", 1))

    def bound(self, f):
        """True: the fact says that the position is inside the string, "out": that it is behind it; None: another fact"""
        if f[0] != "cmp" or not pathval.mentions(f, lambda z: z == self.pos) or pathval.mentions(f, lambda z: z[0] == "ld" and z[1] == self.addr):
            return None
        d = add(f[2], f[3], -1)
        want = add(add(self.addr, self.base, -1), self.slen, -1)     # position - length
        for sg in (1, -1):
            k = add(d, mul(want, C(sg)), -1)
            if k[0] != "c":
                continue
            k = k[1]
            op = f[1]
            if op == "eq":
                return "out" if k == 0 else None
            if op == "ne":
                return True
            if op.endswith("lt") and op[0] in "us":
                op, k = "le", k + 1
            elif op.endswith("le") and op[0] in "us":
                op = "le"
            else:
                return None
            # d = sg*(pos-len) + k <= 0
            inside = sg == 1
            if inside:
                # pos <= len - k
                self.limit = getattr(self, "limit", set()) | {-k}
                return True
            return "out"
        return None

    def run(self):
        start = ("between", tuple(self.ini[x][1] for x in self.ctl), tuple(self.ini[x] for x in self.data), None)
        start = (start[0], tuple(C(x) for x in start[1]), start[2], None)
        seen, todo, n = {start}, [(start, "")], 0
        while todo:
            (s, ctl, data, pend), wit = todo.pop(0)
            if len(seen) > 3000:
                return
            for ch in ([pend] if pend else CHARS):
                t = spec(s, ch)
                if t is None:
                    continue
                try:
                    res = self.step(ctl, data, ch)
                except Unknown:
                    self.r.ob("open", "%s at '%s'" % (s, ch))
                    continue
                if not res:
                    self.r.ob("open", "%s at '%s'" % (s, ch))
                    continue
                n += 1
                self.r.ob("step", "%s at '%s'" % (s, ch))
                nxt = self.judge(s, ch, t, res, wit + ch)
                if nxt is None:
                    return
                for x, w in nxt:
                    if x not in seen:
                        seen.add(x)
                        todo.append((x, w))

    def judge(self, s, ch, t, res, wit):
        end = t[1] == "end"
        if end and not any(o.end == "back" and lin(add(o.nxt[1][self.pos[1]], self.pos, -1))[0] == 0 for o, _, _ in res):
            hit = False
            for o, fs, env in res:
                k = self.keyed(o, fs, wit)
                if k is None:
                    return None
                if o.end == "ret" and o.ret != C(0):
                    hit = True
                    if not k:
                        self.bad("key", o, "answers with a value without having found its key equal to the one asked for (at the end of %s)" % wit)
                        return None
                    if self.answer(o, fs, env, wit) is None:
                        return None
                elif o.end == "ret":
                    if not any(g[0] == "cmp" and g[1] == "eq" and g[3] == C(0) and pathval.mentions(g[2], lambda z: z[0] == "call" and z[1] in (
                            "malloc", "calloc", "strndup", "realloc")) for g in fs):
                        self.bad("giveup", o, "gives up at the end of a value (%s)" % wit)
                        return None
                elif k:
                    self.bad("miss", o, "passes over a value though its key is the one asked for (at the end of %s)" % wit)
                    return None
            if not hit:
                self.bad("miss", res[0][0], "never answers with the value that ends here: %s" % wit)
                return None
        else:
            for o, fs, env in res:
                if o.end == "ret" and o.ret != C(0):
                    self.bad("early", o, "answers though no value ends here: %s" % wit)
                    return None
                if o.end == "ret":
                    self.bad("stop", o, "stops in the middle of the tag string: %s" % wit)
                    return None
        out = []
        for o, fs, env in res:
            if o.end != "back":
                continue
            d = lin(add(o.nxt[1][self.pos[1]], self.pos, -1))[0]
            ctl = tuple(subst(o.nxt[1][x[1]], env) for x in self.ctl)
            data = [subst(o.nxt[1][x[1]], env) for x in self.data]
            if any(x[0] != "c" for x in ctl) or d < 0 or d > 3:
                continue
            if d == 0:
                out.append(((s, ctl, tuple(data), ch), wit[:-1]))
                continue
            alts = [(t[0], self.mark(data, t, 0), wit)]
            for j in range(1, d):
                more = []
                for st, dat, w in alts:
                    for c2 in CHARS:
                        u = spec(st, c2)
                        if u is None:
                            continue
                        if u[1] == "end":
                            self.bad("skip", o, "passes over the end of a value: %s" % (w + c2))
                            return None
                        more.append((u[0], self.mark(dat, u, j), w + c2))
                alts = more
            for st, dat, w in alts:
                out.append(((st, ctl, self.shift(dat, d, st), None), w))
        return out

    def mark(self, data, t, j):
        m = t[1]
        if m in ("K", "C", "Q"):
            return [subst(self.forget(x, {m}), {tok("I"): add(tok(m), C(-j))}) for x in data]
        return list(data)

    def forget(self, x, which):
        return tok("old") if tokens(x) & (which | {"old"}) else x

    def shift(self, data, d, st):
        out = []
        for x in data:
            if "I" in tokens(x):
                x = subst(x, {tok("I"): add(tok("I"), C(-d))})
                if abs(lin(x)[0]) > 3 or len(lin(x)[1]) != 1:
                    x = tok("old")
            if st in ("between", "broken"):
                x = self.forget(x, {"K", "C", "Q"})
            out.append(x)
        return tuple(out)

    def keyed(self, o, fs, wit):
        """the key was found equal (True), or something was found different (False); None after a report"""
        n = add(tok("C"), tok("K"), -1)
        length = same = False
        for g in fs:
            if g[0] != "cmp":
                continue
            if pathval.mentions(g, lambda z: z == self.klen) and not pathval.mentions(g, lambda z: z[0] == "call" and z[1] in CMPS):
                d = add(g[2], g[3], -1)
                good = d in (add(n, self.klen, -1), add(self.klen, n, -1))
                if g[1] == "eq":
                    if not good:
                        self.bad("length", o, "compares the length asked for with something other than the key's length (at the end of %s)" % wit)
                        return None
                    length = True
                elif g[1] == "ne" and not good:
                    self.bad("length", o, "compares the length asked for with something other than the key's length (at the end of %s)" % wit)
                    return None
            c = g[2]
            if c[0] == "ld" and c[1] == add(A[1], n) and g[1:] == ("eq", c, C(0)):
                length = True
            if c[0] == "call" and c[1] in CMPS and g[3] == C(0):
                x, y, k = c[2], c[3], c[4]
                if y != A[1]:
                    x, y = y, x
                if y == A[1] and x != self.at(tok("K")):
                    self.bad("key", o, "compares something other than the key with the one asked for (at the end of %s)" % wit)
                    return None
                if k not in (n, self.klen):
                    self.bad("key", o, "compares another number of characters than the key has (at the end of %s)" % wit)
                    return None
                same = g[1] == "eq"
        return length and same

    def answer(self, o, fs, env, wit):
        n = add(add(tok("I"), tok("Q"), -1), C(-1))
        src = add(self.at(tok("Q")), C(1))
        v = subst(o.ret, env)
        if v[0] != "call":
            return True
        if v[1] in ("strndup", "_strndup"):
            if v[2:4] != (src, n):
                self.bad("answer", o, "does not answer with the text between the quotes (%s)" % wit)
                return None
            return True
        if v[1] in ("malloc", "calloc"):
            size = v[2] if v[1] == "malloc" else mul(v[2], v[3])
            cps = [c for c in o.calls if c[0] in ("memcpy", "memmove") and subst(c[1][0], env) == v]
            if len(cps) != 1:
                return True
            a, k = subst(cps[0][1][1], env), subst(cps[0][1][2], env)
            if a != src:
                self.bad("answer", o, "does not answer with the text between the quotes (%s)" % wit)
                return None
            if k[0] == "phi":
                lim = [x for g in fs if g[0] == "cmp" and k in g[2:4] for x in g[2:4] if x != k and tokens(x)]
                if any(x != n for x in lim):
                    self.bad("answer", o, "does not answer with all of the text between the quotes (%s)" % wit)
                    return None
            elif k != n:
                self.bad("answer", o, "does not answer with all of the text between the quotes (%s)" % wit)
                return None
            if add(size, k, -1) != C(1):
                self.bad("answer", o, "does not allocate the value's characters and its end")
                return None
            if v[1] == "malloc" and not any(w == C(0) and subst(a2, env) == add(v, k) for a2, w, _ in o.stores):
                self.bad("answer", o, "does not end the value it answers with")
                return None
        return True


def check(pid, tier):
    r = Result("the scanner of tag strings: the passes of its loop over the string are taken from the IR for each value of its state variables and each class of "
               "character, and run side by side with the grammar's automaton (positions kept symbolically) over all reachable pairs of states",
               "exactly at the closing quote of a pair the key is compared, in full length, and the text between the quotes answered; nothing else ends the scan")
    G = Tags(r, lambda n, internal, info: internal, rewrite=fold)
    if FN not in G.mod.fns:
        r.ob("open", "no " + FN)
        return r
    off = G.L("metac_entry_tag").get("p_tagstring", (0,))[0]
    S = Scanner(G, r, off)
    if S.pos is None:
        r.ob("open", "the scan is not one loop over the characters")
        return r
    for o in S.outs:
        if o.end == "ret" and any(f == cmp_("eq", x, C(0)) for x in (A[0], A[1], S.base) for f in o.facts):
            r.ob("refusal", "missing tag, string or key")
            if o.ret != C(0) and pathval.clean(o.ret):
                S.bad("null", o, "answers something without a tag, a string or a key")
    if S.init not in ({C(0)}, {S.base}) and all(pathval.clean(x) for x in S.init):
        S.bad("start", None, "does not start with the first character")
    S.run()
    if any(k != -1 for k in getattr(S, "limit", ())):
        S.bad("limit", None, "does not look at every character up to the end of the string")
    return r
