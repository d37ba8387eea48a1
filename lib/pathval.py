"""Values along the acyclic paths of one function.

A loop is entered with the variables of its header unknown (so one pass stands for every iteration); a back edge ends the
path.  All values are canonical expressions: sums are linear forms, memory reads are ("ld", address) and calls
("call", callee, args).  Branches on known constants (a description's kind, say) take one side, all others both; a
condition met twice on a path is answered the same way.  No solver is involved.
"""
from engine import NEG, SWAP

PURE = ("metac_entry_", "metac_value_kind", "metac_value_final_kind", "metac_value_entry", "metac_value_addr", "metac_value_is_",
        "metac_value_has_", "metac_value_name", "strlen", "strcmp", "metac_value_element_count", "metac_value_member_count")
CASTS = ("sext", "zext", "trunc", "bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast")


class TooMany(Exception):
    pass


def C(n):
    return ("c", n)


def lin(e):
    """expression -> (constant, {term: coefficient})"""
    if e[0] == "c":
        return e[1], {}
    if e[0] == "lin":
        return e[1], dict(e[2])
    return 0, {e: 1}


def mk(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        t, k = next(iter(d.items()))
        if k == 1:
            return t
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def add(a, b, k=1):
    ca, da = lin(a)
    cb, db = lin(b)
    for t, x in db.items():
        da[t] = da.get(t, 0) + k * x
    return mk(ca + k * cb, da)


def mul(a, b):
    if a[0] == "c":
        a, b = b, a
    if b[0] == "c":
        c, d = lin(a)
        return mk(c * b[1], {t: k * b[1] for t, k in d.items()})
    ca, da = lin(a)
    cb, db = lin(b)
    c, out = ca * cb, {}
    for t, k in da.items():
        if cb:
            out[t] = out.get(t, 0) + k * cb
        for u, l in db.items():
            p = prod(t, u)
            out[p] = out.get(p, 0) + k * l
    for u, l in db.items():
        if ca:
            out[u] = out.get(u, 0) + l * ca
    return mk(c, out)


def prod(a, b):
    fs = (a[1] if a[0] == "prod" else (a,)) + (b[1] if b[0] == "prod" else (b,))
    return ("prod", tuple(sorted(fs, key=repr)))


def ld(a):
    return ("ld", a)


def off(a, k):
    return add(a, C(k))


def mentions(e, f):
    """some sub-expression satisfies f"""
    if not isinstance(e, tuple):
        return False
    return bool(e and isinstance(e[0], str) and f(e)) or any(mentions(x, f) for x in e)


def clean(e):
    """built from arguments, memory reads, constants, calls of queries only"""
    return not mentions(e, lambda x: x[0] in ("phi", "i", "undef", "alloca", "new", "loop"))


def boolean(e):
    """(predicate, left, right) or None"""
    return e[1:] if e[0] == "cmp" else None


def cmp_(p, a, b):
    if a[0] == "c" and b[0] != "c":
        p, a, b = SWAP[p], b, a
    if a[0] == "c" and b[0] == "c":
        x, y = a[1], b[1]
        m = (1 << 64) - 1
        f = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
             "ult": x & m < y & m, "ule": x & m <= y & m, "ugt": x & m > y & m, "uge": x & m >= y & m}
        return C(int(f[p]))
    if a == b:
        return C(int(p in ("eq", "sle", "sge", "ule", "uge")))
    if a[0] == "cmp" and b[0] == "c" and p in ("eq", "ne"):
        if b[1] == 0:
            return a if p == "ne" else neg(a)
        if b[1] == 1:
            return a if p == "eq" else neg(a)
    if p in ("eq", "ne") and b[0] != "c" and repr(b) < repr(a):
        a, b = b, a
    elif b[0] != "c" and p in ("sgt", "sge", "ugt", "uge"):
        p, a, b = SWAP[p], b, a
    # signed comparison with a constant: one spelling
    if b[0] == "c":
        if p == "sge":
            p, b = "sgt", C(b[1] - 1)
        elif p == "sle":
            p, b = "slt", C(b[1] + 1)
    return ("cmp", p, a, b)


def neg(e):
    if e[0] == "c":
        return C(int(not e[1]))
    if e[0] == "cmp":
        return cmp_(NEG[e[1]], e[2], e[3])
    if e[0] == "not":
        return e[1]
    return ("not", e)


class Out:
    """one path: how it ends and what it did"""
    __slots__ = ("end", "ret", "facts", "stores", "calls", "nxt", "where", "path", "ptrs", "locals")


QUEUE = tuple("metac_recursive_iterator_" + x for x in ("next", "done", "fail", "create_and_append_dep", "dequeue_and_delete_dep"))


class Paths:
    def __init__(self, mod, fn, assign=None, final=("metac_entry_final_entry",), zext=False, trunc=False, cap=6000, rewrite=None, havoc=True):
        self.mod, self.fn = mod, fn
        self.assign = assign or {}
        self.final, self.zext, self.trunc, self.cap = final, zext, trunc, cap
        self.rewrite, self.havoc = rewrite, havoc
        self.ptrs = set()                      # expressions compared as pointers
        self.ins = {i.id: i for b in fn.blocks for i in b.ins}
        self._loops()

    def _loops(self):
        """loop headers: targets of edges to a block on the depth-first stack"""
        fn = self.fn
        self.back = set()
        color = {0: 1}
        st = [(0, iter(fn.blocks[0].succ))]
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    self.back.add((b, s))
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter(fn.blocks[s].succ)))
                    break
            else:
                color[b] = 2
                st.pop()
        self.headers = {s for _, s in self.back}
        # local variables a loop writes: unknown when the loop is entered
        pred = {}
        for k, b in enumerate(fn.blocks):
            for s in b.succ:
                pred.setdefault(s, set()).add(k)
        self.written = {}
        self.bodies = {}
        for h in self.headers:
            body, todo = {h}, [b for b, s in self.back if s == h]
            while todo:
                b = todo.pop()
                if b not in body:
                    body.add(b)
                    todo.extend(pred.get(b, ()))
            self.bodies[h] = body
            w = set()
            for b in body:
                for i in fn.blocks[b].ins:
                    ops = [i.ops[1]] if i.op == "store" else i.ops if i.op == "call" else []
                    for x in ops:
                        a = self.local(x)
                        if a is not None:
                            w.add(a)
            self.written[h] = w

    def local(self, x):
        """the alloca an operand points into, by its address arithmetic"""
        for _ in range(50):
            if x[0] == "cg":
                x = x[1]
                continue
            i = self.ins.get(x[1]) if x[0] == "i" else None
            if i is None:
                return None
            if i.op == "alloca":
                return ("alloca", i.id)
            if i.op not in ("gep", "bitcast"):
                return None
            x = i.ops[0]
        return None

    # ---------------------------------------------- values
    def known(self, e):
        if e in self.assign:
            return C(self.assign[e])
        return e

    def ev(self, op, st):
        if op[0] == "i":
            v = st["v"].get(op[1])
            return v if v is not None else ("i", op[1])
        if op[0] == "cg":
            return add(self.ev(op[1], st), C(op[2])) if op[2] else self.ev(op[1], st)
        return self.known(op)

    def alloca_of(self, a):
        c, d = lin(a)
        ts = [t for t in d if t[0] == "alloca"]
        if len(ts) == 1 and d[ts[0]] == 1:
            return ts[0], (c if len(d) == 1 else None)
        return None, None

    def step(self, i, st):
        """value of one instruction; updates the path state"""
        o = i.op
        ev = lambda x: self.ev(x, st)
        if o in CASTS:
            v = ev(i.ops[0])
            if o == "zext" and i.srcty == ("i", 1) and v[0] == "c":
                return C(v[1] & 1)
            if o == "zext" and self.zext and i.srcty != ("i", 1) and v[0] == "ld":
                return ("zx", v)
            if o == "trunc" and v[0] == "zx":
                return v[1]
            if o == "trunc" and self.trunc and i.ty != ("i", 1) and v[0] not in ("c", "cmp", "not"):
                return ("tr", i.ty[1], v)
            if o == "trunc" and i.ty == ("i", 1) and v[0] == "c":
                return C(v[1] & 1)
            return v
        if o == "alloca":
            return ("alloca", i.id)
        if o == "gep":
            b = ev(i.ops[0])
            k, var, path, srcty = i.gep
            b = add(b, C(k))
            for x, sc in var:
                b = add(b, mul(ev(x), C(sc)))
            return b
        if o == "load":
            a = ev(i.ops[0])
            m = st["m"].get(a)
            if m is not None:
                return m[0] if isinstance(m, list) else m
            al, k = self.alloca_of(a)
            if al is not None:
                z = st["z"].get(al)
                if z is not None:
                    return z if z == C(0) else self.known(("ld", add(z, C(k)))) if k is not None else ("undef", a)
                return ("undef", a)
            return self.known(("ld", a))
        if o == "store":
            v, a = ev(i.ops[0]), ev(i.ops[1])
            st["m"][a] = v
            al, k = self.alloca_of(a)
            if al is None:
                st["s"].append((a, v, i))
            else:
                st["l"] = (st.get("l"), (a, v, i))
            return None
        if o == "icmp":
            a, b = ev(i.ops[0]), ev(i.ops[1])
            if i.srcty == ("p",):
                self.ptrs.update((a, b))
            return self.known(cmp_(i.pred, a, b))
        if o in ("add", "sub"):
            return self.known(add(ev(i.ops[0]), ev(i.ops[1]), 1 if o == "add" else -1))
        if o == "mul":
            return mul(ev(i.ops[0]), ev(i.ops[1]))
        if o in ("shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor"):
            a, b = ev(i.ops[0]), ev(i.ops[1])
            if i.ty == ("i", 1):
                if o == "xor" and b[0] == "c":
                    return neg(a) if b[1] & 1 else a
                if o == "and":
                    for x, y in ((a, b), (b, a)):
                        if x[0] == "c":
                            return y if x[1] & 1 else C(0)
                if o == "or":
                    for x, y in ((a, b), (b, a)):
                        if x[0] == "c":
                            return C(1) if x[1] & 1 else y
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                if o == "and":
                    return C(x & y)
                if o == "or":
                    return C(x | y)
                if o == "xor":
                    return C(x ^ y)
                if o == "shl" and 0 <= y < 64:
                    return C(x << y)
                if o in ("lshr", "ashr") and 0 <= y < 64 and x >= 0:
                    return C(x >> y)
            if b[0] == "c":
                if o == "shl" and 0 <= b[1] < 63:
                    return mul(a, C(1 << b[1]))
                if o in ("udiv", "sdiv") and b[1] == 1:
                    return a
                if o in ("udiv", "sdiv") and b[1] > 0 and b[1] & (b[1] - 1) == 0:
                    return ("shr", a, b[1].bit_length() - 1)
                if o in ("lshr", "ashr"):
                    return ("shr", a, b[1])
                if o in ("urem", "srem") and b[1] > 0 and b[1] & (b[1] - 1) == 0:
                    return ("and", a, b[1] - 1)
            if o in ("and", "or", "xor") and b[0] != "c" and (a[0] == "c" or repr(b) < repr(a)):
                a, b = b, a
            if o == "and" and b[0] == "c":
                return ("and", a, b[1])
            return ("op", o, a, b)
        if o == "call":
            return self.call(i, st)
        if o == "phi":
            return st["v"].get(i.id, ("phi", i.id))
        if o == "ret" or o in ("br", "switch", "unreachable"):
            return None
        if o in ("extractvalue", "insertvalue", "fcmp", "fadd", "fsub", "fmul", "fdiv", "va_arg"):
            return ("i", i.id)
        return ("i", i.id)

    def call(self, i, st):
        n = (i.callee or "").split("@")[0]
        args = tuple(self.ev(x, st) for x in i.ops)
        if n.startswith("llvm.") and not n.startswith(("llvm.mem",)):
            return ("i", i.id)
        if not n and args:
            f, args = args[-1], args[:-1]
            st["c"].append(("*", args, i, self.snap(args, st)))
            self.clobber("*", args, args, st)
            return ("call", "*", f) + tuple(self.show(a, st) for a in args)
        if n.startswith("llvm.memset") or n == "memset":
            al, k = self.alloca_of(args[0])
            if al is not None:
                if k == 0 and args[1] == C(0):
                    st["z"][al] = C(0)
                    for a in [a for a in st["m"] if self.alloca_of(a)[0] == al]:
                        del st["m"][a]
            else:
                st["c"].append(("memset", args, i, None))
            return args[0]
        if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove"):
            al, k = self.alloca_of(args[0])
            if al is not None:
                for a in [a for a in st["m"] if self.alloca_of(a)[0] == al]:
                    del st["m"][a]
                sa, sk = self.alloca_of(args[1])
                if sa is not None:
                    if k == 0 and sk == 0:
                        for a, v in list(st["m"].items()):
                            b, q = self.alloca_of(a)
                            if b == sa and q is not None:
                                st["m"][add(al, C(q))] = v
                        st["z"][al] = st["z"].get(sa)
                        if st["z"][al] is None:
                            del st["z"][al]
                elif k == 0:
                    st["z"][al] = args[1]
            else:
                snap = self.snap(args, st)
                st["c"].append(("memcpy", args, i, snap))
            return args[0]
        if n in self.final and i.ops:
            x = args[0]
            st["c"].append((n, args, i, None))
            self.clobber(n, args[1:], args, st, 1)
            if x == C(0):
                return C(0)
            if x[0] == "F":
                return self.known(x)
            return self.known(("F", x))
        st["c"].append((n, args, i, self.snap(args, st)))
        self.clobber(n, args, args, st)
        pub = tuple(self.show(a, st) for a in args)
        if n == "metac_recursive_iterator_dep_queue_is_empty":      # another answer after the queue has changed
            k = sum(c[0] in QUEUE for c in st["c"])
            pub += (("n", k),) if k else ()
        if n.startswith(PURE) and i.ty != ("v",):
            return self.known(("call", n) + pub)
        st["n"] = st.get("n", 0) + 1
        return self.known(("call", n) + pub) if n else ("i", i.id)

    def show(self, a, st):
        """an address of a local variable is not part of a call's identity"""
        al, k = self.alloca_of(a)
        return ("local",) if al is not None else a

    def snap(self, args, st):
        out = {}
        for k, a in enumerate(args):
            al, q = self.alloca_of(a)
            if al is not None:
                d = {}
                for x, v in st["m"].items():
                    b, o = self.alloca_of(x)
                    if b == al and o is not None:
                        d[o - (q or 0)] = v
                out[k] = (d, st["z"].get(al))
        return out

    def clobber(self, n, args, allargs, st, base=0):
        pub = tuple(self.show(a, st) for a in allargs)
        for k, a in enumerate(args):
            al, q = self.alloca_of(a)
            if al is None:
                continue
            for x in [x for x in st["m"] if self.alloca_of(x)[0] == al]:
                del st["m"][x]
            # what the callee left there: a read at this address plus anything
            st["z"][al] = ("out", n, k + base, pub)

    # ---------------------------------------------- paths
    def run(self, start=0, loop=None, within=None, skip=False):
        """all paths from `start`; within: set of blocks, a step out of it ends the path ("exit");
        skip: loops are left at their header (what they do is not looked at)"""
        self.within, self.skip = within, skip
        outs = []
        st = {"v": {}, "m": {}, "z": {}, "s": [], "c": [], "f": {}, "fl": []}
        todo = [(start, None, st, ())]
        n = 0
        while todo:
            b, pred, st, path = todo.pop()
            n += 1
            if n > self.cap:
                raise TooMany()
            B = self.fn.blocks[b]
            vs = {}
            for i in B.ins:
                if i.op != "phi":
                    break
                if b in self.headers or pred is None:
                    vs[i.id] = ("phi", i.id)
                    if b in self.headers and pred is not None:
                        ws = [self.ev(x, st) for pb, x in i.incoming if pb != pred]
                    continue
                for pb, x in i.incoming:
                    if pb == pred:
                        vs[i.id] = self.ev(x, st)
                        break
            st["v"].update(vs)
            if b in self.headers and pred is not None and self.havoc:
                for al in self.written[b]:
                    for x in [x for x in st["m"] if self.alloca_of(x)[0] == al]:
                        st["m"][x] = ("undef", x)
                    z = st["z"].get(al)
                    if z is not None:
                        st["z"][al] = ("loop", b, z)
            self.body(b, 0, st, path + (b,), todo, outs, loop)
        return outs

    def fork(self, st):
        return {"v": dict(st["v"]), "m": dict(st["m"]), "z": dict(st["z"]), "s": list(st["s"]), "c": list(st["c"]),
                "f": dict(st["f"]), "fl": list(st["fl"]), "l": st.get("l")}

    def decide(self, cond, st):
        """truth of a condition on this path, None if open"""
        if cond[0] == "c":
            return bool(cond[1] & 1) if cond[1] in (0, 1, -1) else True
        if cond in st["f"]:
            return st["f"][cond]
        n = neg(cond)
        if n in st["f"]:
            return not st["f"][n]
        p = boolean(cond)
        if p and p[2][0] == "c":
            for f, t in st["f"].items():
                q = boolean(f)
                if not q or q[1] != p[1] or q[2][0] != "c":
                    continue
                pr = q[0] if t else NEG[q[0]]
                if pr == "eq":
                    r = cmp_(p[0], q[2], p[2])
                    return bool(r[1])
        return None

    def assume(self, cond, truth, st):
        if cond[0] == "c":
            return
        st["f"][cond] = truth
        st["fl"].append(cond if truth else neg(cond))

    def body(self, b, k, st, path, todo, outs, loop):
        B = self.fn.blocks[b]
        ins = B.ins
        while k < len(ins):
            i = ins[k]
            if i.op == "phi":
                k += 1
                continue
            if i.op == "select":
                c = self.ev(i.ops[0], st)
                d = self.decide(c, st)
                if d is None:
                    if self.plain(i, st):
                        st["v"][i.id] = self.plain(i, st)
                        k += 1
                        continue
                    s2 = self.fork(st)
                    self.assume(c, False, s2)
                    s2["v"][i.id] = self.ev(i.ops[2], s2)
                    self.body(b, k + 1, s2, path, todo, outs, loop)
                    self.assume(c, True, st)
                    d = True
                st["v"][i.id] = self.ev(i.ops[1 if d else 2], st)
                k += 1
                continue
            v = self.step(i, st)
            if v is not None:
                if self.rewrite:
                    v = self.rewrite(v)
                st["v"][i.id] = v
            k += 1
        t = ins[-1]
        if t.op == "ret":
            v = self.ev(t.ops[0], st) if t.ops else None
            if v is not None and v[0] in ("cmp", "not"):
                d = self.decide(v, st)
                v = v if d is None else C(int(d))
            outs.append(self.out("ret", v, st, t, path))
            return
        if t.op == "unreachable":
            outs.append(self.out("abort", None, st, t, path))
            return
        targets = []
        if t.op == "switch":
            v = self.ev(t.ops[0], st)
            if v[0] == "c":
                s = None
                for c, x in zip(t.cases, B.succ):
                    if c == v[1]:
                        s = x
                if s is None:
                    s = next(x for c, x in zip(t.cases, B.succ) if c is None)
                targets = [(s, [])]
            else:
                dflt = None
                for c, x in zip(t.cases, B.succ):
                    if c is None:
                        dflt = x
                    else:
                        targets.append((x, [(cmp_("eq", v, C(c)), True)]))
                targets.append((dflt, [(cmp_("eq", v, C(c)), False) for c in t.cases if c is not None]))
        elif t.op == "br" and len(B.succ) == 2 and B.succ[0] != B.succ[1]:
            c = self.ev(t.ops[0], st)
            d = self.decide(c, st)
            if d is not None:
                targets = [(B.succ[0 if d else 1], [])]
            else:
                targets = [(B.succ[0], [(c, True)]), (B.succ[1], [(c, False)])]
        else:
            targets = [(s, []) for s in dict.fromkeys(B.succ)]
        for s, fs in targets:
            s2 = self.fork(st) if len(targets) > 1 else st
            bad = False
            for c, tr in fs:
                d = self.decide(c, s2)
                if d is not None and d != tr:
                    bad = True
                    break
                self.assume(c, tr, s2)
            if bad:
                continue
            if self.skip and b in self.headers and s in self.bodies[b] and any(x not in self.bodies[b] for x in B.succ):
                continue
            if (b, s) in self.back or s in path:
                o = self.out("back", None, s2, t, path)
                o.nxt = (s, {i.id: self.ev(x, s2) for i in self.fn.blocks[s].ins if i.op == "phi" for pb, x in i.incoming if pb == b})
                outs.append(o)
                continue
            if self.within is not None and s not in self.within:
                o = self.out("exit", None, s2, t, path)
                o.nxt = (s, {})
                outs.append(o)
                continue
            todo.append((s, b, s2, path))

    def plain(self, i, st):
        """cond ? 1 : 0 and the like stay values"""
        c, x, y = (self.ev(o, st) for o in i.ops)
        if x == y:
            return x
        if x == C(1) and y == C(0):
            return c
        if x == C(0) and y == C(1):
            return neg(c)
        return None

    def out(self, end, ret, st, t, path):
        o = Out()
        o.ptrs = self.ptrs
        o.locals = st.get("l")                 # stores to local variables, latest first: (earlier, (address, value, instruction))
        o.end, o.ret, o.facts, o.stores, o.calls, o.nxt, o.where, o.path = end, ret, st["fl"], st["s"], st["c"], None, t, path
        return o
