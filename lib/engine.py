"""Path-sensitive typestate dataflow over the SSA form built by ir.py.

Per function a worklist fixpoint over finite sets of abstract states.  A state maps SSA values,
memory cells and objects to a finite abstract domain:

  abstract values   ('c',n) constant | ('n',site) NULL obtained at `site` | ('p',obj,off) address
                    ('s',sym) opaque value with facts | ('b',pred,x,y) comparison | ('fn',name)
  symbols           named by the instruction that defines them (most recent instance) or its
                    summarised older instances; parameters
  objects           ('al',i) local, ('h',i) heap object allocated at i (most recent; 'H' older),
                    ('d',sym) pointee of an opaque pointer, ('g',name) global,
                    ('x',obj,off,scale,idx) array element of obj
  facts             per symbol: small value set or interval with excluded points
  object status     own / esc(aped) / freed, plus allocator family

No path condition is accumulated and no solver is involved: branch conditions only refine the
facts of the compared values; arithmetic inside loops is widened to its sign.
"""
from ir import AnalysisBroken

# parameters a function only writes through (never reads the old contents)
PURE = {}
OUTONLY = {"metac_recursive_iterator_dequeue_and_delete_dep": (1, 2), "metac_recursive_iterator_get_dep_out": (2, 3),
           "metac_recursive_iterator_get_out": (1, 2)}
INF = 1 << 70
TOPF = ("I", -INF, INF, frozenset())

NEG = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge", "sgt": "sle", "sle": "sgt",
       "sge": "slt", "slt": "sge"}
SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt",
        "sge": "sle", "sle": "sge"}


# ---------------------------------------------------------------- facts
def f_const(f):
    if f[0] == "S":
        if len(f[1]) == 1:
            return next(iter(f[1]))
        return None
    return f[1] if f[1] == f[2] else None


def f_has(f, c):
    if f[0] == "S":
        return c in f[1]
    return f[1] <= c <= f[2] and c not in f[3]


def f_lo(f):
    return min(f[1]) if f[0] == "S" else f[1]


def f_hi(f):
    return max(f[1]) if f[0] == "S" else f[2]


def f_norm(f):
    if f[0] == "I":
        lo, hi, ex = f[1], f[2], f[3]
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        if lo > hi:
            return None
        if lo == hi:
            return ("S", frozenset([lo]))
        if ex:
            ex = frozenset(e for e in ex if lo < e < hi)
        return ("I", lo, hi, ex)
    return f if f[1] else None


def f_meet(f, pred, c):
    """f refined with (value pred c); None when empty. Unsigned predicates refine only when safe."""
    if pred in ("ult", "ule"):
        if c >= 0:
            g = f_meet(f, "sge", 0)
            return g and f_meet(g, "s" + pred[1:], c)
        return f
    if pred in ("ugt", "uge"):
        if c == 0 and pred == "ugt":
            return f_meet(f, "ne", 0)
        if f_lo(f) >= 0 and c >= 0:
            return f_meet(f, "s" + pred[1:], c)
        return f
    if f[0] == "S":
        t = {"eq": lambda v: v == c, "ne": lambda v: v != c, "slt": lambda v: v < c, "sle": lambda v: v <= c,
             "sgt": lambda v: v > c, "sge": lambda v: v >= c}[pred]
        r = frozenset(v for v in f[1] if t(v))
        return ("S", r) if r else None
    lo, hi, ex = f[1], f[2], f[3]
    if pred == "eq":
        return ("S", frozenset([c])) if f_has(f, c) else None
    if pred == "ne":
        ex = ex | {c} if lo <= c <= hi else ex
        if len(ex) > 48:
            ex = frozenset(sorted(ex)[:48])
    elif pred == "slt":
        hi = min(hi, c - 1)
    elif pred == "sle":
        hi = min(hi, c)
    elif pred == "sgt":
        lo = max(lo, c + 1)
    elif pred == "sge":
        lo = max(lo, c)
    return f_norm(("I", lo, hi, frozenset(ex)))


def f_join(a, b):
    if a == b:
        return a
    if a[0] == "S" and b[0] == "S":
        r = a[1] | b[1]
        if len(r) <= 64:
            return ("S", r)
        return ("I", min(r), max(r), frozenset())
    lo, hi = min(f_lo(a), f_lo(b)), max(f_hi(a), f_hi(b))
    cand = set()
    if a[0] == "I":
        cand |= {c for c in a[3] if not f_has(b, c)}
    if b[0] == "I":
        cand |= {c for c in b[3] if not f_has(a, c)}
    if not f_has(a, 0) and not f_has(b, 0):
        cand.add(0)
    return f_norm(("I", lo, hi, frozenset(cand))) or TOPF


def f_widen(f, h):
    """h is above f: jump to a coarse bound so that chains stay short"""
    if h[0] == "S":
        return h
    lo = h[1] if h[1] == f_lo(f) else (0 if h[1] >= 0 else -INF)
    hi = h[2] if h[2] == f_hi(f) else (0 if h[2] <= 0 else INF)
    return f_norm(("I", lo, hi, frozenset(e for e in h[3] if lo < e < hi))) or TOPF


def f_implies(f, pred, c):
    """True/False/None: is (v pred c) decided by the fact?"""
    if pred in ("ult", "ule", "ugt", "uge"):
        if f_lo(f) >= 0 and c >= 0:
            pred = "s" + pred[1:]
        elif c == 0 and pred == "ugt":
            pred = "ne"
        elif c == 0 and pred == "ule":
            pred = "eq"
        else:
            return None
    lo, hi = f_lo(f), f_hi(f)
    if pred == "eq":
        k = f_const(f)
        if k is not None:
            return k == c
        return None if f_has(f, c) else False
    if pred == "ne":
        k = f_const(f)
        if k is not None:
            return k != c
        return None if f_has(f, c) else True
    if pred == "slt":
        return True if hi < c else (False if lo >= c else None)
    if pred == "sle":
        return True if hi <= c else (False if lo > c else None)
    if pred == "sgt":
        return True if lo > c else (False if hi <= c else None)
    if pred == "sge":
        return True if lo >= c else (False if hi < c else None)


# ---------------------------------------------------------------- states
class State:
    __slots__ = ("env", "mem", "objs", "facts", "rels", "deg", "extra", "lz")

    def __init__(self):
        self.env = {}
        self.mem = {}     # values this code stored: obj -> {(off,size,tag): av}
        self.lz = {}      # values read from memory not written here: (obj,off,size) -> (av, tag)
        self.objs = {}    # obj -> (status, family, site)
        self.facts = {}
        self.rels = frozenset()
        self.deg = False
        self.extra = ()   # observers' own finite state (hashable)

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = {o: dict(c) for o, c in self.mem.items()}
        s.objs = dict(self.objs)
        s.lz = dict(self.lz)
        s.facts = dict(self.facts)
        s.rels = self.rels
        s.deg = self.deg
        s.extra = self.extra
        return s

    def core(self):
        return (frozenset(self.env.items()),
                frozenset((o, frozenset(c.items())) for o, c in self.mem.items() if c),
                frozenset(self.objs.items()), self.extra)

    def key(self):
        return (self.core(), frozenset(self.facts.items()), self.rels, self.deg)


def subst(x, m):
    """substitute symbols/objects inside an AV / object / tuple"""
    if isinstance(x, tuple):
        if x in m:
            return m[x]
        r = None
        for i, y in enumerate(x):
            if isinstance(y, tuple):
                z = subst(y, m)
                if z is not y:
                    if r is None:
                        r = list(x)
                    r[i] = z
        return tuple(r) if r is not None else x
    return x


def mentions(x, t):
    if x == t:
        return True
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple) and mentions(y, t):
                return True
    return False


def root(o):
    while o[0] == "x":
        o = o[1]
    return o


def is_null(a):
    return a == ("c", 0) or a[0] == "n"


class FnInfo:
    """per function: liveness, loops, exposed allocas"""

    def __init__(self, fn):
        self.fn = fn
        self.ins = {}
        for b in fn.blocks:
            for i in b.ins:
                self.ins[i.id] = i
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]

        def uses(o, acc):
            if isinstance(o, tuple):
                if o and o[0] == "i" and len(o) == 2 and isinstance(o[1], int):
                    acc.add(o[1])
                elif o and o[0] == "a" and len(o) == 2:
                    acc.add(o)
                elif o and o[0] in ("cg", "ce", "agg"):
                    for y in o[1:]:
                        uses(y, acc)
        self.uses = uses
        for b in fn.blocks:
            for i in b.ins:
                acc = set()
                if i.op == "phi":
                    for p, v in i.incoming:
                        a2 = set()
                        uses(v, a2)
                        phiuse[p] |= a2
                else:
                    for o in i.ops:
                        uses(o, acc)
                    if i.gep:
                        for o, _ in i.gep[1]:
                            uses(o, acc)
                    use[b.idx] |= acc - deff[b.idx]
                deff[b.idx].add(i.id)
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set(phiuse[b.idx])
                for s in b.succ:
                    out |= livein[s]
                li = use[b.idx] | (out - deff[b.idx])
                if li != livein[b.idx]:
                    livein[b.idx] = li
                    ch = True
        self.livein = livein
        self.canret = set()
        work = [b.idx for b in fn.blocks if b.ins and b.ins[-1].op == "ret"]
        while work:
            x = work.pop()
            if x in self.canret:
                continue
            self.canret.add(x)
            work += fn.blocks[x].preds
        self.induction = set()
        self.defphi = {i.id for b in fn.blocks for i in b.ins if i.op == "phi" and any(v[0] in ("fn", "g") for v in i.ops)
                       and any(v[0] == "a" for v in i.ops)}
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "phi" and i.ty[0] == "i" and i.ty[1] > 1:
                    for _, v in i.incoming:
                        seen, w = set(), [v]
                        while w:
                            o = w.pop()
                            if o[0] != "i" or o[1] in seen or o[1] not in self.ins:
                                continue
                            seen.add(o[1])
                            d = self.ins[o[1]]
                            if d.op in ("add", "sub") and any(x == ("i", i.id) for x in d.ops):
                                self.induction.add(i.id)
                            elif d.op in ("phi", "select") and len(seen) < 8 and d is not i:
                                w += list(d.ops)
        # allocas always live (small); natural loop membership via SCC
        self.inloop = self._sccs(fn)
        self.dom = None
        # exposed allocas: address used other than as load/store address or via gep
        self.exposed = set()
        alias = {}
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "alloca":
                    alias[i.id] = i.id
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                for i in b.ins:
                    if i.op in ("gep", "phi", "select", "bitcast"):
                        for o in i.ops:
                            if o[0] == "i" and o[1] in alias and i.id not in alias:
                                alias[i.id] = alias[o[1]]
                                ch = True
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "call":
                    for o in i.ops:
                        if o[0] == "i" and o[1] in alias:
                            if not (i.callee or "").startswith("llvm.mem"):
                                self.exposed.add(alias[o[1]])
                elif i.op == "store":
                    o = i.ops[0]
                    if o[0] == "i" and o[1] in alias:
                        self.exposed.add(alias[o[1]])
                elif i.op == "ptrtoint":
                    o = i.ops[0]
                    if o[0] == "i" and o[1] in alias:
                        self.exposed.add(alias[o[1]])

        self._cells(fn, alias)
        self._loops(fn)
        self.captured = set()
        for b in fn.blocks:
            for i in b.ins:
                if i.op in ("store", "ptrtoint"):
                    o = i.ops[0]
                    if o[0] == "i" and o[1] in alias:
                        self.captured.add(alias[o[1]])

    def _loops(self, fn):
        """natural loops: header -> set of blocks"""
        n = len(fn.blocks)
        order, seen = [], {0}
        st = [(0, iter(fn.blocks[0].succ))]
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    st.append((w, iter(fn.blocks[w].succ)))
                    break
            else:
                st.pop()
                order.append(v)
        order.reverse()
        num = {b: k for k, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in fn.blocks[b].preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for b in order:
            for h in fn.blocks[b].succ:
                if h in idom and dom(h, b):
                    body = self.loops.setdefault(h, {h})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += [p for p in fn.blocks[x].preds if p in idom]

    def _cells(self, fn, alias):
        """liveness of the contents of local variables, per constant offset"""
        addr = {}      # instr id -> (alloca id, offset|None)
        size = {}
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "alloca":
                    addr[i.id] = (i.id, 0)
                    size[i.id] = i.size
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                for i in b.ins:
                    if i.id in addr or i.id not in alias:
                        continue
                    if i.op == "gep" and i.ops[0][0] == "i" and i.ops[0][1] in addr:
                        a, o = addr[i.ops[0][1]]
                        addr[i.id] = (a, None if i.gep[1] or o is None else o + i.gep[0])
                        ch = True
                    elif i.op == "bitcast" and i.ops[0][0] == "i" and i.ops[0][1] in addr:
                        addr[i.id] = addr[i.ops[0][1]]
                        ch = True
                    elif i.op in ("phi", "select"):
                        addr[i.id] = (alias[i.id], None)
                        ch = True

        def ad(o):
            return addr.get(o[1]) if o[0] == "i" else None
        cells = {}
        for b in fn.blocks:
            for i in b.ins:
                if i.op in ("load", "store"):
                    a = ad(i.ops[0] if i.op == "load" else i.ops[1])
                    if a and a[1] is not None:
                        cells.setdefault(a[0], set()).add((a[1], i.size))
        n = len(fn.blocks)
        self.cell_live = [None] * n
        gen, kill = [set() for _ in range(n)], [set() for _ in range(n)]

        def allc(a):
            return {(a, o, z) for o, z in cells.get(a, ())} | {(a, None, None)}

        def over(a, o, z):
            return {(a, o2, z2) for o2, z2 in cells.get(a, ()) if o2 < o + z and o < o2 + z2}

        def inside(a, o, z):
            return {(a, o2, z2) for o2, z2 in cells.get(a, ()) if o <= o2 and o2 + z2 <= o + z}
        for b in fn.blocks:
            g, k = gen[b.idx], kill[b.idx]
            for i in b.ins:
                if i.op == "load":
                    a = ad(i.ops[0])
                    if a:
                        u = allc(a[0]) if a[1] is None else over(a[0], a[1], i.size)
                        g |= u - k
                elif i.op == "store":
                    v = ad(i.ops[0])
                    if v:
                        g |= allc(v[0]) - k
                    a = ad(i.ops[1])
                    if a and a[1] is not None:
                        k |= inside(a[0], a[1], i.size)
                elif i.op == "call":
                    c = i.callee or ""
                    if c.startswith("llvm.mem"):
                        d = ad(i.ops[0])
                        if c.startswith("llvm.memcpy") or c.startswith("llvm.memmove"):
                            s = ad(i.ops[1])
                            if s:
                                g |= allc(s[0]) - k
                        if d and d[1] == 0 and i.ops[2][0] == "c":
                            k |= inside(d[0], 0, i.ops[2][1])
                    else:
                        wo = OUTONLY.get(c.split("@")[0], ())
                        for n2, o in enumerate(i.ops):
                            a = ad(o)
                            if a and n2 not in wo:
                                g |= allc(a[0]) - k
                        for n2 in wo:
                            a = ad(i.ops[n2]) if n2 < len(i.ops) else None
                            if a:
                                k |= allc(a[0])
                elif i.op == "phi":
                    for p, o in i.incoming:
                        a = ad(o)
                        if a:
                            g |= allc(a[0]) - k
                else:
                    for o in i.ops:
                        a = ad(o)
                        if a and i.op not in ("gep", "bitcast", "icmp"):
                            g |= allc(a[0]) - k
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.blocks):
                out = set()
                for s in b.succ:
                    out |= live[s]
                li = gen[b.idx] | (out - kill[b.idx])
                if li != live[b.idx]:
                    live[b.idx] = li
                    ch = True
        self.cell_live = live
        self.cell_set = {(a, o, z) for a, c in cells.items() for o, z in c}

    def _sccs(self, fn):
        idx, low, st, on, res, cnt = {}, {}, [], set(), set(), [0]
        self.sccid = {}
        for start in range(len(fn.blocks)):
            if start in idx:
                continue
            work = [(start, 0)]
            while work:
                v, pi = work[-1]
                if pi == 0:
                    idx[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    on.add(v)
                succ = fn.blocks[v].succ
                adv = False
                while pi < len(succ):
                    w = succ[pi]
                    pi += 1
                    if w not in idx:
                        work[-1] = (v, pi)
                        work.append((w, 0))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in fn.blocks[v].succ:
                        res |= set(comp)
                        for w in comp:
                            self.sccid[w] = v
        return res


def tag_of(info, op, ty):
    """field tag of an address operand: (struct, index) or ('raw', type)"""
    seen = 0
    while op[0] == "i" and seen < 4:
        i = info.ins.get(op[1])
        if i is None:
            break
        if i.op == "gep":
            p = [x for x in i.gep[2] if x[0] != "[]"]
            if p:
                return p[-1]
            return ("raw",)
        if i.op == "alloca":
            return ("raw",)
        break
    if op[0] == "cg" and op[3]:
        p = [x for x in op[3] if x[0] != "[]"]
        if p:
            return p[-1]
    return ("raw",)


class Obs:
    """observer base"""

    def access(self, E, st, ins, addr, obj, off, size, store, val):
        pass

    def nullderef(self, E, st, ins, site):
        pass

    def maybe_null(self, E, st, ins, sym):
        pass

    def call(self, E, st, ins, args):
        pass

    def bad_free(self, E, st, ins, kind, obj, rec):
        pass

    def uaf(self, E, st, ins, obj, rec):
        pass

    def leak(self, E, st, ins, obj, rec):
        pass

    def ret(self, E, st, ins, val):
        pass

    def gepvar(self, E, st, ins, base, idx, scale):
        pass

    def abort(self, E, st, ins, blk):
        """the state takes an edge to code that never returns (a failed assertion)"""


class Engine:
    CAP = 160
    STEPS = 250000

    def __init__(self, mod, contracts=None, observers=(), summaries=None, cap=None):
        self.mod = mod
        self.obs = list(observers)
        self.con = contracts or {}
        self.summ = summaries if summaries is not None else {}
        self.infos = {}
        self.mods = None
        if cap:
            self.CAP = cap
        self.stats = {"functions": 0, "states": 0, "steps": 0, "capped": 0}
        self.hook_state = None

    # ------------------------------------------------ mod sets
    def info(self, fn):
        r = self.infos.get(fn.name)
        if r is None:
            r = self.infos[fn.name] = FnInfo(fn)
        return r

    def modset(self, name):
        if self.mods is None:
            self._build_mods()
        return self.mods.get(name)

    LIBMOD = {"free": (), "malloc": (), "calloc": (), "strdup": (), "strlen": (), "strcmp": (), "memcmp": (),
              "strncmp": (), "strstr": (), "strchr": (), "__assert_fail": (), "printf": (), "__ctype_b_loc": (),
              "bsearch": (), "strcasecmp": (), "abort": ()}

    def _build_mods(self):
        direct = {}
        calls = {}
        for nm, fn in self.mod.fns.items():
            info = self.info(fn)
            d, c = set(), set()
            alloc = {i.id for b in fn.blocks for i in b.ins if i.op == "alloca"}
            for b in fn.blocks:
                for i in b.ins:
                    if i.op == "store":
                        a = i.ops[1]
                        if a[0] == "i" and a[1] in alloc:
                            continue
                        d.add(tag_of(info, a, i.srcty))
                    elif i.op == "call":
                        if i.callee is None:
                            c.add("?")
                        else:
                            c.add(i.callee)
            direct[nm] = d
            calls[nm] = c
        ch = True
        res = {n: set(d) for n, d in direct.items()}
        while ch:
            ch = False
            for n in res:
                for c in calls[n]:
                    if c in res:
                        add = res[c]
                    elif c in self.LIBMOD:
                        add = ()
                    else:
                        add = {("raw",)}
                    if not set(add) <= res[n]:
                        res[n] |= set(add)
                        ch = True
        self.mods = res
        self.calls_of = calls

    # ------------------------------------------------ value helpers
    def ev(self, st, op):
        k = op[0]
        if k == "i":
            r = st.env.get(op[1])
            return r if r is not None else ("s", ("i", op[1]))
        if k == "a":
            return st.env.get(("a", op[1])) or ("s", ("a", op[1]))
        if k == "c":
            return op
        if k == "g":
            return ("p", op, 0)
        if k == "fn":
            return op
        if k == "cg":
            b = self.ev(st, op[1])
            if b[0] == "p" and b[2] is not None:
                return ("p", b[1], b[2] + op[2])
            return b
        return ("u",)

    def fact(self, st, av):
        k = av[0]
        if k == "c":
            return ("S", frozenset([av[1]]))
        if k == "n":
            return ("S", frozenset([0]))
        if k in ("p", "fn"):
            return ("I", -INF, INF, frozenset([0]))
        if k == "s":
            return st.facts.get(av[1], TOPF)
        if k == "b":
            r = self.truth(st, av)
            if r is None:
                return ("S", frozenset([0, 1]))
            return ("S", frozenset([1 if r else 0]))
        return TOPF

    def setfact(self, st, sym, f):
        if f == TOPF:
            st.facts.pop(sym, None)
        else:
            st.facts[sym] = f

    def nonnull(self, st, av):
        """True/False/None"""
        if av[0] in ("p", "fn"):
            return True
        if is_null(av):
            return False
        r = f_implies(self.fact(st, av), "ne", 0)
        return r

    def truth(self, st, av):
        """truth of an i1 AV"""
        if av[0] == "c":
            return av[1] != 0
        if av[0] == "n":
            return False
        if av[0] == "b":
            return self.cmp(st, av[1], av[2], av[3])
        if av[0] == "s":
            return f_implies(self.fact(st, av), "ne", 0)
        if av[0] in ("p", "fn"):
            return True
        return None

    def cmp(self, st, pred, x, y):
        if x[0] == "n":
            x = ("c", 0)
        if y[0] == "n":
            y = ("c", 0)
        if x == y and x[0] != "u":
            return pred in ("eq", "ule", "uge", "sle", "sge")
        if x[0] == "c" and y[0] != "c":
            return self.cmp(st, SWAP[pred], y, x)
        if x[0] == "c" and y[0] == "c":
            if pred[0] == "u":
                a, b = x[1] & (2**64 - 1), y[1] & (2**64 - 1)
            else:
                a, b = x[1], y[1]
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[
                pred if pred in ("eq", "ne") else pred[1:]]
        if y[0] == "c":
            if x[0] in ("p", "fn"):
                if y[1] == 0:
                    if pred in ("eq", "ule"):
                        return False
                    if pred in ("ne", "ugt"):
                        return True
                return None
            if x[0] == "b":
                t = self.truth(st, x)
                if t is None:
                    return None
                return self.cmp(st, pred, ("c", 1 if t else 0), y)
            return f_implies(self.fact(st, x), pred, y[1])
        # object addresses: distinct local/heap objects differ
        if x[0] == "p" and y[0] == "p" and pred in ("eq", "ne"):
            rx, ry = root(x[1]), root(y[1])
            if rx != ry and rx[0] in ("al", "h") and ry[0] in ("al", "h"):
                return pred == "ne"
            if x[1] == y[1] and x[2] is not None and y[2] is not None:
                return (x[2] == y[2]) == (pred == "eq")
            return None
        fx, fy = self.fact(st, x), self.fact(st, y)
        if pred in ("eq", "ne"):
            if fx[0] == "S" and fy[0] == "S" and not (fx[1] & fy[1]):
                return pred == "ne"
            if (f_implies(fx, "ne", 0) is False and f_implies(fy, "ne", 0) is True) or \
               (f_implies(fy, "ne", 0) is False and f_implies(fx, "ne", 0) is True):
                return pred == "ne"
        p = pred
        if p[0] == "u" and f_lo(fx) >= 0 and f_lo(fy) >= 0:
            p = "s" + p[1:]
        if p[0] == "s":
            if f_hi(fx) < f_lo(fy):
                return p in ("slt", "sle")
            if f_lo(fx) > f_hi(fy):
                return p in ("sgt", "sge")
        if (pred, x, y) in st.rels or (SWAP[pred], y, x) in st.rels:
            return True
        if (NEG[pred], x, y) in st.rels or (SWAP[NEG[pred]], y, x) in st.rels:
            return False
        return None

    def assume(self, st, av, val):
        """refine st with av == val (bool). False if contradictory."""
        t = self.truth(st, av)
        if t is not None:
            return t == val
        if av[0] == "s":
            f = f_meet(self.fact(st, av), "ne" if val else "eq", 0)
            if f is None:
                return False
            self.setfact(st, av[1], f)
            return True
        if av[0] != "b":
            return True
        pred, x, y = av[1], av[2], av[3]
        if not val:
            pred = NEG[pred]
        if x[0] in ("c", "n") and y[0] not in ("c", "n"):
            pred, x, y = SWAP[pred], y, x
        c = self.fact(st, y)
        k = f_const(c)
        if k is not None:
            if x[0] == "b":
                # (bool pred k)
                r1 = self.cmp(st, pred, ("c", 1), ("c", k))
                r0 = self.cmp(st, pred, ("c", 0), ("c", k))
                if r1 and not r0:
                    return self.assume(st, x, True)
                if r0 and not r1:
                    return self.assume(st, x, False)
                return bool(r0 or r1)
            if x[0] == "s":
                f = f_meet(self.fact(st, x), pred, k)
                if f is None:
                    return False
                self.setfact(st, x[1], f)
                return True
            return True
        kx = f_const(self.fact(st, x))
        if kx is not None and y[0] == "s":
            f = f_meet(self.fact(st, y), SWAP[pred], kx)
            if f is None:
                return False
            self.setfact(st, y[1], f)
            return True
        # two symbols: relation + bound propagation
        st.rels = st.rels | {(pred, x, y)}
        fx, fy = self.fact(st, x), self.fact(st, y)
        p = pred
        if p[0] == "u" and f_lo(fy) >= 0 and p in ("ult", "ule") and y[0] == "s":
            # x <u y with y a non-negative value bounds x from below by 0
            p = "s" + p[1:]
            if x[0] == "s":
                f = f_meet(fx, "sge", 0)
                if f is None:
                    return False
                self.setfact(st, x[1], f)
                fx = f
        if p == "slt" or p == "sle":
            if x[0] == "s" and f_hi(fy) < INF:
                f = f_meet(fx, p, f_hi(fy))
                if f is None:
                    return False
                self.setfact(st, x[1], f)
            if y[0] == "s" and f_lo(fx) > -INF:
                f = f_meet(fy, SWAP[p], f_lo(fx))
                if f is None:
                    return False
                self.setfact(st, y[1], f)
        elif p in ("sgt", "sge"):
            if x[0] == "s" and f_lo(fy) > -INF:
                f = f_meet(fx, p, f_lo(fy))
                if f is None:
                    return False
                self.setfact(st, x[1], f)
            if y[0] == "s" and f_hi(fx) < INF:
                f = f_meet(fy, SWAP[p], f_hi(fx))
                if f is None:
                    return False
                self.setfact(st, y[1], f)
        elif p == "eq":
            # unify facts both ways
            if x[0] == "s" and fy != TOPF:
                f = self._meetf(fx, fy)
                if f is None:
                    return False
                self.setfact(st, x[1], f)
            if y[0] == "s" and fx != TOPF:
                f = self._meetf(fy, fx)
                if f is None:
                    return False
                self.setfact(st, y[1], f)
        return True

    def _meetf(self, f, g):
        if g[0] == "S":
            if f[0] == "S":
                r = f[1] & g[1]
            else:
                r = frozenset(v for v in g[1] if f_has(f, v))
            return ("S", r) if r else None
        f = f_meet(f, "sge", g[1]) if g[1] > -INF else f
        f = f and (f_meet(f, "sle", g[2]) if g[2] < INF else f)
        for e in g[3]:
            f = f and f_meet(f, "ne", e)
        return f

    # ------------------------------------------------ symbols
    def _rename(self, st, m):
        """m: mapping symbol/object -> replacement, joining facts/objs on collision"""
        # facts
        nf = {}
        for s, f in st.facts.items():
            t = m.get(s, s)
            if t in nf:
                nf[t] = f_join(nf[t], f)
            elif t != s and t in st.facts:
                nf[t] = f_join(f, st.facts[t])
            else:
                if t != s and self._occurs(st, t):
                    continue  # other instance unconstrained
                nf[t] = f
        # an unconstrained renamed symbol makes the target unconstrained
        for s, t in m.items():
            if s not in st.facts and t in st.facts and self._occurs(st, s):
                nf.pop(t, None)
        st.facts = {s: f for s, f in nf.items() if f != TOPF}
        st.env = {k: subst(v, m) for k, v in st.env.items()}
        nm = {}
        for o, cells in st.mem.items():
            o2 = subst(o, m)
            c2 = {k: subst(v, m) for k, v in cells.items()}
            if o2 in nm or (o2 != o and o2 in st.mem):
                other = nm.get(o2)
                if other is None:
                    nm[o2] = c2
                else:
                    nm[o2] = {k: v for k, v in c2.items() if other.get(k) == v}
            else:
                nm[o2] = c2
        st.mem = nm
        if st.lz:
            tv = set(m)
            st.lz = {k: v for k, v in st.lz.items()
                     if not any(mentions(k[0], t) or mentions(v[0], t) for t in tv)}
        no = {}
        for o, rec in st.objs.items():
            o2 = subst(o, m)
            if o2 in no and no[o2] != rec:
                a, b = no[o2], rec
                pr = {"own": 0, "esc": 1, "freed": 2}
                # weak summary: keep the least accusing status
                no[o2] = a if a[0] == "esc" else (b if b[0] == "esc" else ("esc",) + a[1:])
            else:
                no[o2] = rec
        st.objs = no
        st.rels = frozenset(r2 for r2 in ((r[0], subst(r[1], m), subst(r[2], m)) for r in st.rels) if r2[1] != r2[2]) \
            if st.rels else st.rels
        if m and any(mentions(r, t) for r in st.rels for t in m.values()):
            # relations about summarised old instances are not kept
            st.rels = frozenset(r for r in st.rels if not any(mentions(r, t) for t in m.values()))

    def _occurs(self, st, sym):
        for v in st.env.values():
            if mentions(v, sym):
                return True
        for o, cells in st.mem.items():
            if mentions(o, sym):
                return True
            for v in cells.values():
                if mentions(v, sym):
                    return True
        if sym in st.facts:
            return True
        for k, v in st.lz.items():
            if mentions(k[0], sym) or mentions(v[0], sym):
                return True
        for o in st.objs:
            if mentions(o, sym):
                return True
        return False

    def newsym(self, st, ins, sub=None, fact=None):
        sym = ("i", ins.id) if sub is None else ("i", ins.id, sub)
        st.env.pop(ins.id, None)
        if self._cur_loop and self._occurs(st, sym):
            old = ("o",) + sym[1:]
            self._rename(st, {sym: old})
        st.facts.pop(sym, None)
        if st.rels:
            st.rels = frozenset(r for r in st.rels if not (mentions(r[1], sym) or mentions(r[2], sym)))
        if fact is not None and fact != TOPF:
            st.facts[sym] = fact
        return ("s", sym)

    def newobj(self, st, ins, family, zero=False, sub=None):
        o = ("h", ins.id) if sub is None else ("h", ins.id, sub)
        st.env.pop(ins.id, None)
        if o in st.objs or o in st.mem:
            old = ("H",) + o[1:]
            self._gc_obj(st, ins, o)
            if o in st.objs or o in st.mem:
                self._rename(st, {o: old})
        st.objs[o] = ("own", family, ins.id if sub is None else ins.id)
        st.mem[o] = {("z",): 1} if zero else {}
        return ("p", o, 0)

    def _gc_obj(self, st, ins, o):
        pass

    # ------------------------------------------------ memory
    def region(self, av):
        if av[0] == "p":
            return av[1], av[2]
        if av[0] == "s":
            return ("d", av[1]), 0
        return None, None

    def addr_sym(self, av):
        """opaque pointer symbol the address is based on, if any"""
        if av[0] == "s":
            return av[1]
        if av[0] == "p":
            r = root(av[1])
            if r[0] == "d":
                return r[1]
        return None

    def deref(self, st, ins, av):
        """common checks for a dereference. returns (obj,off) or None to end the path"""
        if is_null(av):
            for o in self.obs:
                o.nullderef(self, st, ins, av)
            return None
        obj, off = self.region(av)
        if obj is None:
            return ("?",), None
        rt = root(obj)
        rec = st.objs.get(rt)
        if rec is not None and rec[0] == "freed":
            for o in self.obs:
                o.uaf(self, st, ins, rt, rec)
            st.objs[rt] = ("esc",) + rec[1:]
        sym = self.addr_sym(av)
        if sym is not None:
            nn = f_implies(st.facts.get(sym, TOPF), "ne", 0)
            if nn is not True:
                if nn is False:
                    for o in self.obs:
                        o.nullderef(self, st, ins, ("n", ("sym", sym)))
                    return None
                if sym[0] == "a":
                    self.derefs.setdefault(sym[1], ins)
                for o in self.obs:
                    o.maybe_null(self, st, ins, sym)
                f = f_meet(st.facts.get(sym, TOPF), "ne", 0)
                self.setfact(st, sym, f)
        return obj, off

    def escape(self, st, av):
        if av[0] == "p":
            self.escape_obj(st, root(av[1]))
        elif av[0] == "s":
            pass

    def escape_obj(self, st, o):
        rec = st.objs.get(o)
        if rec is None or rec[0] != "own":
            return
        st.objs[o] = ("esc",) + rec[1:]
        for obj, cells in list(st.mem.items()):
            if root(obj) == o:
                for k, v in list(cells.items()):
                    if isinstance(v, tuple) and v[0] == "p":
                        self.escape(st, v)
                    elif isinstance(v, tuple) and v[0] == "s":
                        self.note_escape(st, v[1])

    def kill_tag(self, st, tags, keep=None, only_shared=True, info=None):
        """forget cells of the given field tags in memory that other code can reach"""
        info = info or self._info
        if st.lz:
            for k in [k for k, v in st.lz.items() if v[1] in tags and k[0] != keep and not (
                    root(k[0])[0] == "al" and root(k[0]) not in self._passed and root(k[0])[1] not in info.captured)]:
                del st.lz[k]
        for obj, cells in st.mem.items():
            if obj == keep:
                continue
            rt = root(obj)
            if rt[0] in ("h", "H"):
                rec = st.objs.get(rt)
                if rec and rec[0] == "own" and rt not in self._passed:
                    continue
            if rt[0] == "al" and rt not in self._passed and rt[1] not in info.captured:
                continue
            if rt[0] == "g" and self.mod.globals.get(rt[1]) is not None and self.mod.globals[rt[1]].const:
                continue
            for k in [k for k, v in cells.items() if len(k) == 3 and k[2] in tags]:
                del cells[k]

    def load(self, st, ins, av):
        r = self.deref(st, ins, av)
        if r is None:
            return None
        obj, off = r
        for o in self.obs:
            o.access(self, st, ins, av, obj, off, ins.size, False, None)
        if off is None or obj == ("?",):
            return self.newsym(st, ins, fact=self._tyfact(ins))
        cells = st.mem.get(obj)
        if cells is not None:
            for k, v in cells.items():
                if len(k) == 3 and k[0] == off:
                    if k[1] == ins.size:
                        return v
        z = st.lz.get((obj, off, ins.size))
        if z is not None:
            return z[0]
        rt = root(obj)
        if rt[0] in ("h", "H") and obj == rt and cells is not None and ("z",) in cells and rt[0] == "h":
            return ("c", 0)
        tag = tag_of(self._info, ins.ops[0], ins.ty)
        if rt[0] == "g":
            G = self.mod.globals.get(rt[1])
            if G is not None and G.const and obj == rt and G.init and G.init[0] == "agg":
                pass
        s = self.newsym(st, ins, fact=self._tyfact(ins))
        # newsym may have renamed the object
        obj = self.region(self.ev(st, ins.ops[0]))[0] if not is_null(self.ev(st, ins.ops[0])) else obj
        if obj is not None and not mentions(obj, s[1]) and not self._isold(obj):
            st.lz[(obj, off, ins.size)] = (s, tag)
        return s

    def _isold(self, o):
        while o[0] == "x":
            if o[4][0] == "s" and o[4][1][0] == "o":
                return True
            o = o[1]
        return o[0] == "H" or (o[0] == "d" and o[1][0] == "o")

    def _tyfact(self, ins):
        if ins.ty == ("i", 1):
            return ("S", frozenset([0, 1]))
        return None

    def store(self, st, ins, av, val):
        r = self.deref(st, ins, av)
        if r is None:
            return False
        obj, off = r
        for o in self.obs:
            o.access(self, st, ins, av, obj, off, ins.size, True, val)
        rt = root(obj)
        local = rt[0] == "al" and rt[1] not in self._info.captured
        owned = rt[0] in ("h", "H") and st.objs.get(rt, ("esc",))[0] == "own"
        tag = tag_of(self._info, ins.ops[1], ins.srcty)
        if tag[0] == "struct.__va_list_tag":
            return True
        if not local and not owned:
            self.kill_tag(st, {tag}, keep=obj)
            if tag == ("raw",) and rt[0] == "d" and rt[1][0] in ("i", "o") and isinstance(rt[1][1], int) and len(rt[1]) == 2 \
                    and ins.srcty == ("p",):
                d = self._info.ins.get(rt[1][1])
                if d is not None and d.op == "load":
                    # a pointer written through an address kept in memory (list back links) may be any pointer field
                    for k in [k for k in st.lz if k[2] == 8 and k[0] != obj and root(k[0])[0] != "al"]:
                        del st.lz[k]
                    for o2, c2 in st.mem.items():
                        r2 = root(o2)
                        if r2[0] == "al" or (r2[0] in ("h", "H") and st.objs.get(r2, ("esc",))[0] == "own"):
                            continue
                        for k in [k for k in c2 if len(k) == 3 and k[1] == 8]:
                            del c2[k]
        if not (rt[0] == "al") and not owned:
            self.escape(st, val)
            if val[0] == "s":
                self.note_escape(st, val[1])
        if off is None or obj == ("?",):
            # unknown position: forget the object's cells
            if obj in st.mem:
                st.mem[obj] = {k: v for k, v in st.mem[obj].items() if len(k) != 3}
            for k in [k for k in st.lz if k[0] == obj]:
                del st.lz[k]
            if rt in st.objs and val[0] == "p":
                self.escape(st, val)
            return True
        for k in [k for k in st.lz if k[0] == obj and k[1] < off + ins.size and off < k[1] + k[2]]:
            del st.lz[k]
        if self._isold(obj):
            return True
        if rt[0] in ("d", "g") and val[0] in ("s", "c", "n", "b") and not (
                self._keep_params and rt[0] == "d" and rt[1][0] == "a" and obj == rt and tag == ("raw",)):
            c0 = st.mem.get(obj)
            if c0:
                for k in [k for k in c0 if len(k) == 3 and k[0] < off + ins.size and off < k[0] + k[1]]:
                    del c0[k]
            st.lz[(obj, off, ins.size)] = (val, tag)
            return True
        cells = st.mem.setdefault(obj, {})
        for k in [k for k in cells if len(k) == 3 and k[0] < off + ins.size and off < k[0] + k[1]]:
            del cells[k]
        if ins.size == 1 and tag == ("raw",) and rt[0] in ("h", "d"):
            cells.pop(("z",), None)
            return True      # text contents are not tracked
        if val[0] != "u":
            cells[(off, ins.size, tag)] = val
        elif ("z",) in cells:
            cells[(off, ins.size, tag)] = self.newsym(st, ins)
        # elements of the same array may alias
        if obj[0] == "x" or any(o[0] == "x" and o[1] == obj for o in st.mem) or any(k[0][0] == "x" and k[0][1] == obj for k in st.lz):
            base = root(obj)
            for k in [k for k in st.lz if k[0] != obj and root(k[0]) == base and st.lz[k][1] == tag]:
                del st.lz[k]
            for o2, c2 in st.mem.items():
                if o2 != obj and root(o2) == base and (o2[0] == "x"):
                    for k in [k for k in c2 if len(k) == 3 and k[2] == tag]:
                        del c2[k]
        return True

    def note_escape(self, st, sym):
        if sym[0] == "a":
            rec = st.objs.get(("d", sym))
            if rec is None or rec[0] == "borrow":
                st.objs[("d", sym)] = ("esc", "param", None)

    # ------------------------------------------------ liveness pruning + leak detection
    def prune(self, st, live, ins, retval=None):
        env = {}
        pend = []
        for k, v in st.env.items():
            if k in live:
                env[k] = v
            elif self._keep_params and isinstance(k, tuple):
                pend.append((k, v))
        st.env = env
        reach_o, reach_s = set(), set()
        work = list(env.values())
        if retval is not None:
            work.append(retval)

        memroots = {}
        for o in st.mem:
            memroots.setdefault(root(o), []).append(o)
        lzroots = {}
        for k in st.lz:
            lzroots.setdefault(root(k[0]), []).append(k)

        def visit(x):
            if not isinstance(x, tuple) or not x:
                return
            k = x[0]
            if k == "s":
                if x[1] not in reach_s:
                    reach_s.add(x[1])
                    ro = ("d", x[1])
                    addobj(ro)
            elif k == "p":
                visitobj(x[1])
            elif k == "b":
                visit(x[2])
                visit(x[3])

        def visitobj(o):
            while o[0] == "x":
                visit(o[4])
                o = o[1]
            if o[0] == "d":
                if o[1] not in reach_s:
                    reach_s.add(o[1])
            addobj(o)

        def addobj(o):
            if o in reach_o:
                return
            reach_o.add(o)
            for o2 in memroots.get(o, ()):
                y = o2
                while y[0] == "x":
                    y = y[1]
                for v in st.mem[o2].values():
                    if isinstance(v, tuple):
                        work.append(v)
            for k in lzroots.get(o, ()):
                work.append(st.lz[k][0])
        # parameters stay addressable by the caller only through escaped objects: not roots
        while work:
            visit(work.pop())
        if self._keep_params:
            # values stored through a parameter are part of the function's outcome
            for o in list(st.mem):
                if o[0] == "d" and o[1][0] == "a" and o not in reach_o:
                    reach_o.add(o)
                    st.mem[o] = {k: v for k, v in st.mem[o].items() if len(k) == 3 and k[2] == ("raw",)}
                    for v in st.mem[o].values():
                        work.append(v)
            while work:
                visit(work.pop())
            for k, v in pend:
                st.env[k] = v
        if st.lz:
            def lzok(o):
                if root(o) not in reach_o:
                    return False
                while o[0] == "x":
                    if o[4][0] == "s" and o[4][1] not in reach_s:
                        return False
                    o = o[1]
                return True
            for k in [k for k in st.lz if not lzok(k[0])]:
                del st.lz[k]
        for o in list(st.mem):
            if root(o) not in reach_o:
                del st.mem[o]
            else:
                ok = True
                y = o
                while y[0] == "x":
                    idx = y[4]
                    if idx[0] == "s" and idx[1] not in reach_s:
                        ok = False
                    y = y[1]
                if not ok:
                    # element cells whose index value is dead: owned contents stay reachable via escape
                    for v in st.mem[o].values():
                        if isinstance(v, tuple) and v[0] == "p":
                            self.escape(st, v)
                    del st.mem[o]
        for o, rec in list(st.objs.items()):
            if o in reach_o:
                continue
            if o[0] == "d" and o[1][0] == "a":
                continue   # what happened to a parameter's pointee is part of the summary
            if rec[0] == "own":
                for ob in self.obs:
                    ob.leak(self, st, ins, o, rec)
            del st.objs[o]
        for s in list(st.facts):
            if s not in reach_s:
                if s[0] == "a" and self._keep_params and self._fn.ptypes[s[1]] == ("p",):
                    nn = f_implies(st.facts[s], "ne", 0)
                    if nn is True:
                        st.facts[s] = ("I", -INF, INF, frozenset([0]))
                    elif nn is None:
                        del st.facts[s]
                else:
                    del st.facts[s]
        if st.rels:
            def ok(a):
                if a[0] == "s":
                    return a[1] in reach_s
                if a[0] == "p":
                    return root(a[1]) in reach_o
                return True
            st.rels = frozenset(r for r in st.rels if ok(r[1]) and ok(r[2]))

    # ------------------------------------------------ main loop
    def run(self, fn, init=None, keep_params=False):
        info = self._info = self.info(fn)
        self._fn = fn
        self._passed = set()
        self._keep_params = keep_params
        self._njoin = {}
        self.outcomes = []
        self.derefs = {}
        self.bad_sums = set()
        self.stats["functions"] += 1
        st = init() if init else State()
        for k in range(len(fn.ptypes)):
            st.env.setdefault(("a", k), ("s", ("a", k)))
        seen = [dict() for _ in fn.blocks]      # block -> core -> [ [facts, lz, rels, joins] ]
        steps = 0
        self.degraded = False
        self.block_states = seen
        import heapq
        rpo = self._rpo(fn)
        pending = {0: {st.core(): [st]}}
        heap = [(0, 0)]
        while heap:
            _, b = heapq.heappop(heap)
            todo = pending.pop(b, None)
            if not todo:
                continue
            for sts in todo.values():
                for st in sts:
                    out = self.exec_block(fn, info, b, st.copy())
                    steps += 1
                    for (s, st2) in out:
                        if s not in info.canret:
                            for o in self.obs:
                                o.abort(self, st2, fn.blocks[b].ins[-1], s)
                            continue      # only reaches an assertion failure
                        st2 = self.enter(fn, info, b, s, st2)
                        self._merge(seen[s], pending, heap, rpo, s, st2)
            if steps > self.STEPS:
                self.degraded = True
                self.stats["capped"] += 1
                break
        self.stats["steps"] += steps
        return self.outcomes

    K = 2

    def _leq(self, st, acc):
        for y, f in acc.facts.items():
            g = st.facts.get(y)
            if g is None or (g != f and f_join(g, f) != f):
                return False
        for k, v in acc.lz.items():
            if st.lz.get(k) != v:
                return False
        return acc.rels <= st.rels

    def _merge(self, sv, pending, heap, rpo, s, st):
        import heapq
        core = st.core()
        lst = sv.get(core)
        if lst is None:
            if len(sv) >= self.CAP:
                self.stats["capped"] += 1
                self.degraded = True
                if len(sv) >= 4 * self.CAP:
                    return
            lst = sv[core] = []
        for acc in lst:
            if self._leq(st, acc):
                return
        old = None
        if len(lst) >= self.K:
            acc = lst[-1]
            old = acc
            n = State()
            n.env, n.mem, n.objs, n.extra = st.env, st.mem, st.objs, st.extra
            n.deg = acc.deg or st.deg
            for y, f in acc.facts.items():
                g = st.facts.get(y)
                if g is not None:
                    h = f_join(f, g)
                    if h != f and acc.env is not None and self._njoin.get((s, core), 0) > 12:
                        h = f_widen(f, h)
                    if h != TOPF:
                        n.facts[y] = h
            n.lz = {k: v for k, v in acc.lz.items() if st.lz.get(k) == v}
            n.rels = acc.rels & st.rels
            self._njoin[(s, core)] = self._njoin.get((s, core), 0) + 1
            st = n
            lst[-1] = st
        else:
            lst.append(st)
        self.stats["states"] += 1
        pd = pending.get(s)
        if pd is None:
            pd = pending[s] = {}
            heapq.heappush(heap, (rpo.get(s, 0), s))
        pl = pd.setdefault(core, [])
        pl[:] = [x for x in pl if x is not old]
        pl.append(st)

    def _rpo(self, fn):
        seen, order = set(), []
        st = [(0, iter(fn.blocks[0].succ))]
        seen.add(0)
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    st.append((w, iter(fn.blocks[w].succ)))
                    break
            else:
                st.pop()
                order.append(v)
        order.reverse()
        return {b: i for i, b in enumerate(order)}

    def enter(self, fn, info, b, s, st):
        blk = fn.blocks[s]
        vals = {}
        phis = []
        for i in blk.ins:
            if i.op != "phi":
                break
            phis.append(i)
            for p, v in i.incoming:
                if p == b:
                    vals[i.id] = self.ev(st, v)
                    break
        for i in phis:
            v = vals.get(i.id, ("u",))
            if i.id in info.defphi and (v[0] in ("fn", "p") or v[0] == "s" and v[1][0] == "a") and self.nonnull(st, v):
                # "use the default when the caller passed none": one name for whichever was chosen
                if self._occurs(st, ("i", i.id)):
                    self._rename(st, {("i", i.id): ("o", i.id)})
                st.facts[("i", i.id)] = ("I", -INF, INF, frozenset([0]))
                v = ("s", ("i", i.id))
            if v[0] == "c" and i.id in info.induction:
                # loop counters are always named by their phi; their range lives in the facts
                n = v[1]
                if self._occurs(st, ("i", i.id)):
                    self._rename(st, {("i", i.id): ("o", i.id)})
                st.facts[("i", i.id)] = ("S", frozenset([n]))
                v = ("s", ("i", i.id))
            if v[0] == "u":
                st.env.pop(i.id, None)
            else:
                st.env[i.id] = v
        live = info.livein[s] | {i.id for i in phis}
        cl = info.cell_live[s]
        for o in list(st.mem):
            if o[0] == "al":
                cells = st.mem[o]
                dead = [k for k in cells if len(k) == 3 and (o[1], k[0], k[1]) not in cl and (
                    (o[1], k[0], k[1]) in info.cell_set or (o[1], None, None) not in cl)]
                for k in dead:
                    del cells[k]
        if st.lz:
            for k in [k for k in st.lz if k[0][0] == "al" and (k[0][1], k[1], k[2]) not in cl and (
                    (k[0][1], k[1], k[2]) in info.cell_set or (k[0][1], None, None) not in cl)]:
                del st.lz[k]
        first = blk.ins[len(phis)] if len(blk.ins) > len(phis) else blk.ins[-1]
        self.prune(st, live, first)
        if len(blk.preds) > 1:
            self.canon(st, phis)
        return st

    def canon(self, st, phis):
        """rename opaque values at control-flow joins to the name of the phi / local cell that
        holds them, so that states differing only in which load produced a value coincide"""
        done = set()

        def to(sym, new):
            if sym == new or sym in done or sym[0] == "a":
                return
            if sym[0] == "o":
                return
            done.add(new)
            if self._occurs(st, new):
                self._rename(st, {new: ("o",) + new[1:]})
            self._rename1(st, sym, new)
        for i in phis:
            v = st.env.get(i.id)
            if v is not None and v[0] == "s":
                to(v[1], ("i", i.id))
        for o in sorted(o for o in st.mem if o[0] in ("al", "h")):
            for k in sorted(k for k in st.mem[o] if len(k) == 3):
                v = st.mem.get(o, {}).get(k)
                if v is not None and v[0] == "s" and v[1] not in done:
                    to(v[1], ("m", o[1:], k[0]))

    def _rename1(self, st, a, b):
        """1:1 renaming of a symbol (no information lost)"""
        m = {a: b}
        st.env = {k: subst(v, m) for k, v in st.env.items()}
        st.mem = {subst(o, m): {k: (subst(v, m) if isinstance(v, tuple) else v) for k, v in c.items()}
                  for o, c in st.mem.items()}
        st.objs = {subst(o, m): r for o, r in st.objs.items()}
        st.lz = {(subst(k[0], m), k[1], k[2]): (subst(v[0], m), v[1]) for k, v in st.lz.items()}
        if a in st.facts:
            st.facts[b] = st.facts.pop(a)
        if st.rels:
            st.rels = frozenset((r[0], subst(r[1], m), subst(r[2], m)) for r in st.rels)

    def exec_block(self, fn, info, b, st):
        """returns [(succ, state)]"""
        self._cur_loop = b in info.inloop
        self._info = info
        states = [st]
        blk = fn.blocks[b]
        for i in blk.ins:
            if i.op == "phi":
                continue
            if i.op in ("br", "switch", "ret", "unreachable"):
                out = []
                for st in states:
                    out += self.term(fn, info, blk, i, st)
                return out
            nxt = []
            for st in states:
                r = self.step(st, i)
                if r is None:
                    continue
                if isinstance(r, list):
                    nxt += r
                else:
                    nxt.append(r)
            states = nxt
            if not states:
                return []
        return []

    def term(self, fn, info, blk, i, st):
        if i.op == "unreachable":
            return []
        if i.op == "ret":
            v = self.ev(st, i.ops[0]) if i.ops else None
            for o in self.obs:
                o.ret(self, st, i, v)
            self.finish(st, i, v)
            return []
        if i.op == "br":
            if not i.ops:
                return [(blk.succ[0], st)]
            c = self.ev(st, i.ops[0])
            t = self.truth(st, c)
            # LLVM-C successor order: [true, false]
            if blk.succ[0] == blk.succ[1]:
                return [(blk.succ[0], st)]
            if t is True:
                return [(blk.succ[0], st)]
            if t is False:
                return [(blk.succ[1], st)]
            s2 = st.copy()
            out = []
            if self.assume(st, c, True):
                out.append((blk.succ[0], st))
            if self.assume(s2, c, False):
                out.append((blk.succ[1], s2))
            return out
        if i.op == "switch":
            v = self.ev(st, i.ops[0])
            out = []
            default = st
            k = f_const(self.fact(st, v))
            if k is not None:
                for idx, c in enumerate(i.cases):
                    if c == k:
                        return [(blk.succ[idx], st)]
                return [(blk.succ[0], st)]
            for idx, c in enumerate(i.cases):
                if c is None:
                    continue
                s2 = st.copy()
                if self.assume(s2, ("b", "eq", v, ("c", c)), True):
                    out.append((blk.succ[idx], s2))
            ok = True
            for c in i.cases:
                if c is None:
                    continue
                if not self.assume(default, ("b", "ne", v, ("c", c)), True):
                    ok = False
                    break
            if ok:
                out.append((blk.succ[0], default))
            return out
        return []

    # ------------------------------------------------ transfer
    def step(self, st, i):
        op = i.op
        if op == "alloca":
            o = ("al", i.id)
            st.env[i.id] = ("p", o, 0)
            if self._cur_loop:
                st.mem.pop(o, None)
                for k in [k for k in st.lz if root(k[0]) == o]:
                    del st.lz[k]
            return st
        if op == "load":
            v = self.load(st, i, self.ev(st, i.ops[0]))
            if v is None:
                return None
            st.env[i.id] = v
            return st
        if op == "store":
            if not self.store(st, i, self.ev(st, i.ops[1]), self.ev(st, i.ops[0])):
                return None
            return st
        if op == "gep":
            v = self.gep(st, i)
            st.env[i.id] = v
            return st
        if op == "icmp":
            x, y = self.ev(st, i.ops[0]), self.ev(st, i.ops[1])
            if x[0] == "u" or y[0] == "u":
                st.env[i.id] = self.newsym(st, i, fact=("S", frozenset([0, 1])))
                return st
            t = self.cmp(st, i.pred, x, y)
            if t is not None:
                st.env[i.id] = ("c", 1 if t else 0)
            else:
                st.env[i.id] = ("b", i.pred, x, y)
            return st
        if op == "call":
            return self.do_call(st, i)
        if op in ("zext", "sext"):
            x = self.ev(st, i.ops[0])
            if x[0] == "c" and op == "zext" and x[1] < 0:
                x = ("c", x[1] & ((1 << i.srcty[1]) - 1))
            if op == "sext" and x == ("c", 1) and i.srcty == ("i", 1):
                x = ("c", -1)
            if x[0] == "s" and op == "zext":
                f = self.fact(st, x)
                if f_lo(f) < 0:
                    w = i.srcty[1]
                    if w <= 8:
                        # flags: zero-extended small integers keep their identity
                        pass
                    elif w < 64:
                        x = self.newsym(st, i, fact=("I", 0, (1 << w) - 1, frozenset([0]) if f_implies(f, "ne", 0) else frozenset()))
            if x[0] == "u":
                x = self.newsym(st, i)
            st.env[i.id] = x
            return st
        if op == "trunc":
            x = self.ev(st, i.ops[0])
            w = i.ty[1]
            if x[0] == "c":
                n = x[1] & ((1 << w) - 1)
                if n >> (w - 1) and w > 1:
                    n -= 1 << w
                st.env[i.id] = ("c", n)
            elif x[0] == "b" or x[0] == "n":
                st.env[i.id] = x
            elif x[0] == "s":
                f = self.fact(st, x)
                if f_lo(f) >= -(1 << (w - 1)) and f_hi(f) < (1 << w):
                    st.env[i.id] = x
                elif w == 1:
                    st.env[i.id] = self.newsym(st, i, fact=("S", frozenset([0, 1])))
                elif w >= 32:
                    # truncation of a count/size: same value modulo 2^w, keep sign facts only
                    st.env[i.id] = self.newsym(st, i)
                else:
                    st.env[i.id] = self.newsym(st, i)
            else:
                st.env[i.id] = self.newsym(st, i)
            return st
        if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "freeze"):
            x = self.ev(st, i.ops[0])
            st.env[i.id] = x if x[0] != "u" else self.newsym(st, i)
            return st
        if op == "select":
            c = self.ev(st, i.ops[0])
            t = self.truth(st, c)
            a, b = self.ev(st, i.ops[1]), self.ev(st, i.ops[2])
            if t is not None:
                v = a if t else b
                st.env[i.id] = v if v[0] != "u" else self.newsym(st, i)
                return st
            if a == b:
                st.env[i.id] = a
                return st
            s2 = st.copy()
            out = []
            for s, v, tv in ((st, a, True), (s2, b, False)):
                if self.assume(s, c, tv):
                    s.env[i.id] = v if v[0] != "u" else self.newsym(s, i)
                    out.append(s)
            return out
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            st.env[i.id] = self.arith(st, i)
            return st
        if op in ("extractvalue", "insertvalue", "va_arg") or True:
            st.env[i.id] = self.newsym(st, i, fact=self._tyfact(i))
            return st

    def arith(self, st, i):
        op = i.op
        x, y = self.ev(st, i.ops[0]), self.ev(st, i.ops[1])
        if x[0] == "n":
            x = ("c", 0)
        if y[0] == "n":
            y = ("c", 0)
        if i.ty == ("i", 1):
            # boolean algebra
            if op == "xor" and y == ("c", 1) or (op == "xor" and y == ("c", -1)):
                if x[0] == "b":
                    return ("b", NEG[x[1]], x[2], x[3])
                t = self.truth(st, x)
                if t is not None:
                    return ("c", 0 if t else 1)
                return ("b", "eq", x, ("c", 0))
            tx, ty = self.truth(st, x), self.truth(st, y)
            if op == "and":
                if tx is False or ty is False:
                    return ("c", 0)
                if tx is True:
                    return y
                if ty is True:
                    return x
            if op == "or":
                if tx is True or ty is True:
                    return ("c", 1)
                if tx is False:
                    return y
                if ty is False:
                    return x
            return self.newsym(st, i, fact=("S", frozenset([0, 1])))
        if op == "xor" and y[0] == "c" and x[0] == "b" and y[1] == 1:
            return ("b", NEG[x[1]], x[2], x[3])
        if x[0] == "c" and y[0] == "c" and not self._cur_loop:
            try:
                a, b = x[1], y[1]
                r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                     "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b if 0 <= b < 64 else None,
                     "lshr": lambda: a >> b if a >= 0 and 0 <= b < 64 else None, "ashr": lambda: a >> b,
                     "udiv": lambda: a // b if a >= 0 and b > 0 else None,
                     "sdiv": lambda: int(a / b) if b else None,
                     "urem": lambda: a % b if a >= 0 and b > 0 else None,
                     "srem": lambda: a % b if a >= 0 and b > 0 else None}[op]()
                if r is not None:
                    w = i.ty[1]
                    r &= (1 << w) - 1
                    if r >> (w - 1):
                        r -= 1 << w
                    return ("c", r)
            except Exception:
                pass
        if y == ("c", 0) and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
            return x if x[0] != "u" else self.newsym(st, i)
        if x == ("c", 0) and op in ("add", "or", "xor") and y[0] != "c":
            return y if y[0] != "u" else self.newsym(st, i)
        fx, fy = self.fact(st, x) if x[0] != "u" else TOPF, self.fact(st, y) if y[0] != "u" else TOPF
        lo, hi = -INF, INF
        if x[0] == "p" or y[0] == "p":
            return self.newsym(st, i)
        if op == "add":
            lo, hi = f_lo(fx) + f_lo(fy), f_hi(fx) + f_hi(fy)
        elif op == "sub":
            lo, hi = f_lo(fx) - f_hi(fy), f_hi(fx) - f_lo(fy)
        elif op == "and":
            if f_lo(fx) >= 0 or f_lo(fy) >= 0:
                lo = 0
                hi = min(f_hi(fx) if f_lo(fx) >= 0 else INF, f_hi(fy) if f_lo(fy) >= 0 else INF)
        elif op in ("lshr", "urem", "srem", "udiv"):
            if f_lo(fx) >= 0:
                lo, hi = 0, f_hi(fx)
            if op == "urem" and f_const(fy):
                lo, hi = 0, f_const(fy) - 1
            if op == "lshr" and f_const(fy) and f_const(fy) > 0:
                lo = 0
        elif op == "mul":
            if f_lo(fx) >= 0 and f_lo(fy) >= 0:
                lo = f_lo(fx) * f_lo(fy)
        if lo <= -(1 << 62):
            lo = -INF
        if hi >= (1 << 62):
            hi = INF
        # widen to the sign inside loops
        if self._cur_loop:
            lo = 1 if lo >= 1 else (0 if lo >= 0 else -INF)
            hi = -1 if hi <= -1 else (0 if hi <= 0 else INF)
        s = self.newsym(st, i)
        f = f_norm(("I", lo, hi, frozenset())) or TOPF
        self.setfact(st, s[1], f)
        # i-1 < i style relations for bounds reasoning
        if op == "sub" and y[0] == "c" and y[1] > 0 and x[0] == "s" and x[1] != s[1]:
            st.rels = st.rels | {("slt", s, x)}
        return s

    def gep(self, st, i):
        base = self.ev(st, i.ops[0])
        off, var, path, srcty = i.gep
        if is_null(base):
            if not var and off == 0:
                return base
            return base
        if base[0] == "u":
            base = self.newsym(st, i)
        cur = base
        for o, sc in var:
            idx = self.ev(st, o)
            if idx[0] == "n":
                idx = ("c", 0)
            for ob in self.obs:
                ob.gepvar(self, st, i, cur, idx, sc)
            if idx[0] == "c" and not (self._cur_loop and idx[1] != 0):
                cur = self._addoff(cur, idx[1] * sc)
            else:
                obj, bo = self.region(cur)
                if obj is None or bo is None:
                    return ("p", obj or ("?",), None)
                d = 0
                y = obj
                while y[0] == "x":
                    d += 1
                    y = y[1]
                if d >= 2 or idx[0] not in ("s", "c"):
                    cur = ("p", root(obj), None)
                    return cur
                cur = ("p", ("x", obj, bo, sc, idx), 0)
        # only the pointer-stepping part (leading index) can move unboundedly in a loop
        step = [c for (s, c) in path if s == "[]" and c]
        if self._cur_loop and step and not var and len(path) == 1:
            obj, bo = self.region(cur)
            return ("p", obj, None)
        return self._addoff(cur, off)

    def _addoff(self, av, off):
        if off == 0:
            return av
        if av[0] == "s":
            return ("p", ("d", av[1]), off)
        if av[0] == "p":
            if av[2] is None:
                return av
            n = av[2] + off
            if n == 0 and av[1][0] == "d":
                return ("s", av[1][1])
            return ("p", av[1], n)
        return av

    # ------------------------------------------------ calls
    NOEFF = {"strlen", "strcmp", "strncmp", "memcmp", "strstr", "strchr", "strcasecmp", "printf", "__ctype_b_loc"}

    def fork_null(self, st, i, family, zero, sub=None):
        s2 = st.copy()
        st.env[i.id] = self.newobj(st, i, family, zero, sub)
        s2.env[i.id] = ("n", i.id)
        return [st, s2]

    def do_call(self, st, i):
        args = [self.ev(st, o) for o in (i.ops if i.callee else i.ops[:-1])]
        for o in self.obs:
            r = o.call(self, st, i, args)
            if r is not None:
                return r
        name = i.callee
        con = self.con.get(name) if name else self.con.get("?")
        if con is not None:
            r = con(self, st, i, args)
            if r is not NotImplemented:
                return r
        if name is None:
            return self.generic_call(st, i, args, {("raw",)} | self.callback_mods(), True)
        if name in ("malloc", "calloc"):
            return self.fork_null(st, i, "libc", name == "calloc")
        if name in ("strdup", "strndup"):
            r = self.deref(st, i, args[0])
            if r is None:
                return None
            return self.fork_null(st, i, "libc", False)
        if name == "realloc":
            return self.generic_call(st, i, args, {("raw",)}, True)
        if name == "free":
            return self.do_free(st, i, args[0], "libc")
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            return self.do_memcpy(st, i, args)
        if name.startswith("llvm.memset"):
            return self.do_memset(st, i, args)
        if name.startswith("llvm.va_") or name == "__assert_fail":
            if name == "llvm.va_start" or name == "llvm.va_copy":
                obj, off = self.region(args[0])
                if obj in st.mem:
                    st.mem[obj] = {}
            return st
        if name in self.NOEFF or name.startswith("llvm."):
            if name in ("strlen", "strcmp", "strncmp", "strstr", "strchr", "strcasecmp", "memcmp"):
                for k, a in enumerate(args[:2]):
                    if k < 2 and (name != "strlen" or k == 0) and (i.srcty[k] == ("p",)):
                        r = self.deref(st, i, a)
                        if r is None:
                            return None
            if i.ty != ("v",):
                f = ("I", 0, INF, frozenset()) if name == "strlen" else None
                st.env[i.id] = self.newsym(st, i, fact=f)
            return st
        if name in self.summ:
            return self.apply_summary(st, i, args, self.summ[name])
        mods = self.modset(name)
        if mods is None:
            mods = {("raw",)}
        return self.generic_call(st, i, args, mods, name not in self.mod.fns)

    def callback_mods(self):
        return set()

    def generic_call(self, st, i, args, mods, external):
        passed = set()
        for a in args:
            if a[0] == "p":
                passed.add(root(a[1]))
        self._passed = passed
        self.kill_tag(st, mods)
        # memory handed over by address may be rewritten at raw granularity
        self._passed = set()
        if i.ty != ("v",):
            st.env[i.id] = self.newsym(st, i, fact=self._tyfact(i))
        return st

    def do_free(self, st, i, a, family):
        if is_null(a):
            return st
        obj, off = self.region(a)
        if obj is None:
            return st
        rt = root(obj)
        rec = st.objs.get(rt)
        if rt[0] in ("al", "g"):
            for o in self.obs:
                o.bad_free(self, st, i, "nonheap", rt, rec)
            return st
        if rt[0] == "?":
            return st
        if (off is None or off != 0) and rt[0] in ("h",):
            for o in self.obs:
                o.bad_free(self, st, i, "interior", rt, rec)
        if rec is not None and rec[0] == "freed":
            for o in self.obs:
                o.bad_free(self, st, i, "double", rt, rec)
            return st
        if rec is not None and rec[1] != family and rec[1] not in ("param", "any") and family != "any":
            for o in self.obs:
                o.bad_free(self, st, i, "family", rt, rec)
        if obj[0] == "x" or (rt[0] == "d" and off != 0):
            return st
        if rt[0] == "H":
            # one of several older objects: weak
            st.objs[rt] = ("esc",) + (rec[1:] if rec else (family, None))
            return st
        fam = rec[1] if rec else family
        if rt[0] == "d" and rt[1][0] == "o":
            return st
        self.freeing(st, i, a, rt)
        st.objs[rt] = ("freed", fam, i.id)
        # contents are gone: pointers stored inside become unreachable through it
        for o in list(st.mem):
            if root(o) == rt:
                del st.mem[o]
        for k in [k for k in st.lz if root(k[0]) == rt]:
            del st.lz[k]
        return st

    def freeing(self, st, i, a, rt):
        """about to release the object rt"""

    def do_memcpy(self, st, i, args):
        dst, src, n = args[0], args[1], args[2]
        nz = f_const(self.fact(st, n))
        if nz == 0:
            return st
        rs = self.deref(st, i, src)
        if rs is None:
            return None
        rd = self.deref(st, i, dst)
        if rd is None:
            return None
        so, soff = rs
        do, doff = rd
        for o in self.obs:
            o.access(self, st, i, src, so, soff, nz, False, None)
        for o in self.obs:
            o.access(self, st, i, dst, do, doff, nz, True, None)
        rt = root(do)
        srclz = [(k, v) for k, v in st.lz.items() if k[0] == so]
        for k in [k for k in st.lz if k[0] == do]:
            del st.lz[k]
        cells = st.mem.get(do)
        if cells:
            if nz is None or doff is None:
                st.mem[do] = {}
            else:
                for k in [k for k in cells if len(k) != 3 or (k[0] < doff + nz and doff < k[0] + k[1])]:
                    del cells[k]
        else:
            if do in st.mem:
                st.mem[do] = {}
        if nz is not None and doff is not None and soff is not None and (so in st.mem or srclz):
            new = {}
            for k, v in srclz:
                if soff <= k[1] and k[1] + k[2] <= soff + nz:
                    new[(k[1] - soff + doff, k[2], v[1])] = v[0]
            for k, v in st.mem.get(so, {}).items():
                if len(k) == 3 and soff <= k[0] and k[0] + k[1] <= soff + nz:
                    new[(k[0] - soff + doff, k[1], k[2])] = v
            st.mem.setdefault(do, {}).update(new)
            if rt[0] not in ("al",) and not (st.objs.get(rt, ("esc",))[0] == "own"):
                for v in new.values():
                    self.escape(st, v)
        if rt[0] not in ("al", "h"):
            self.kill_tag(st, {("raw",)}, keep=do)
        return st

    def do_memset(self, st, i, args):
        dst, val, n = args[0], args[1], args[2]
        r = self.deref(st, i, dst)
        if r is None:
            return None
        obj, off = r
        nz = f_const(self.fact(st, n))
        for o in self.obs:
            o.access(self, st, i, dst, obj, off, nz, True, val)
        for k in [k for k in st.lz if k[0] == obj]:
            del st.lz[k]
        if off == 0:
            st.mem[obj] = {("z",): 1} if val == ("c", 0) and root(obj)[0] == "h" else {}
        elif obj in st.mem:
            st.mem[obj] = {}
        if root(obj)[0] == "al" and val == ("c", 0) and off == 0:
            st.mem[obj] = {("z",): 1}
        return st

    # ------------------------------------------------ summaries
    def finish(self, st, ins, v):
        """record an outcome and detect leaks at return"""
        freed, esc = set(), set()
        for o, rec in st.objs.items():
            if o[0] == "d" and o[1][0] == "a":
                if rec[0] == "freed":
                    freed.add(o[1][1])
                elif rec[0] == "esc":
                    esc.add(o[1][1])
        outs = {}
        nulls = {}
        if v is not None and v[0] == "p":
            work, seen = [root(v[1])], set()
            while work:
                o = work.pop()
                if o in seen or o[0] not in ("h", "H"):
                    continue
                seen.add(o)
                for o2, cells in list(st.mem.items()) + [(k[0], {k: z[0]}) for k, z in st.lz.items()]:
                    if root(o2) != o:
                        continue
                    for val in cells.values():
                        if isinstance(val, tuple) and val[0] == "s" and val[1][0] == "a":
                            esc.add(val[1][1])
                        elif isinstance(val, tuple) and val[0] == "p":
                            r2 = root(val[1])
                            if r2[0] == "d" and r2[1][0] == "a":
                                esc.add(r2[1][1])
                            work.append(r2)
        esc -= freed
        for k, t in enumerate(self._fn.ptypes):
            if t == ("p",):
                f = f_implies(st.facts.get(("a", k), TOPF), "ne", 0)
                if f is not None:
                    nulls[k] = f
                cells = st.mem.get(("d", ("a", k)))
                if cells:
                    for key, val in cells.items():
                        if len(key) == 3:
                            c = self.classify(st, val)
                            if c is not None and key[2] == ("raw",):
                                outs[(k, key[0], key[1])] = c
        rc = self.classify(st, v) if v is not None else None
        if v is not None and v[0] == "p":
            pass
        self.outcomes.append((rc, frozenset(freed), frozenset(esc), frozenset(outs.items()), frozenset(nulls.items())))
        keep = st.copy()
        keep.env = {}
        self.prune(keep, set(), ins, retval=v)

    def classify(self, st, v):
        if v is None:
            return None
        if v[0] == "c":
            return v
        if v[0] == "n":
            return ("c", 0)
        if v[0] == "p":
            rt = root(v[1])
            rec = st.objs.get(rt)
            if rt[0] in ("h", "H") and rec:
                if v[1] == rt and v[2] == 0:
                    return ("fresh", rec[1]) if rec[0] == "own" else ("nn",)
            return ("nn",)
        if v[0] == "s":
            if v[1][0] == "a":
                return ("param", v[1][1])
            f = self.fact(st, v)
            if f_implies(f, "ne", 0):
                if f[0] == "S":
                    return ("f", f)
                return ("f", ("I", 1 if f[1] >= 1 else -INF, -1 if f[2] <= -1 else INF, frozenset([0])))
            if f[0] == "S":
                return ("f", f)
            if f[1] >= 0:
                return ("f", ("I", 0, INF, frozenset()))
            return None
        if v[0] == "b":
            return ("f", self.fact(st, v))
        return None

    def pure_cell(self, st, i, args):
        """metadata queries have no effect and metadata does not change: the same question about the same entry has
        the same answer.  Kept as a pseudo field of the entry."""
        nm = (i.callee or "")
        if not nm.startswith("metac_entry_") or i.ty == ("v",) or not args:
            return None
        if args[0][0] not in ("s", "p"):
            return None
        rest = []
        for a in args[1:]:
            if a[0] == "n":
                a = ("c", 0)
            if a[0] != "c":
                return None
            rest.append(a[1])
        obj, off = self.region(args[0])
        if obj is None or off is None:
            return None
        if root(obj)[0] in ("al", "h", "H"):
            return None
        key = (nm, tuple(rest), off)
        n = PURE.setdefault(key, len(PURE))
        return (obj, -1024 - 16 * n, 8)

    def apply_summary(self, st, i, args, summ):
        pk = self.pure_cell(st, i, args)
        if pk is not None:
            if any(o[0] and o[0][0] == "fresh" for o in summ["out"]):
                pk = None
            elif pk in st.lz:
                v = st.lz[pk][0]
                st.env[i.id] = v if v != ("c", 0) or i.ty != ("p",) else ("n", i.id)
                return [st]
        out = self.apply_summary1(st, i, args, summ)
        if pk is not None and out:
            for s2 in out:
                v = s2.env.get(i.id)
                if v is not None:
                    s2.lz[pk] = (("c", 0) if v[0] == "n" else v, ("pure", i.callee))
        return out

    def apply_summary1(self, st, i, args, summ):
        out = []
        mods = self.modset(i.callee) or set()
        for k in summ["deref"]:
            if k < len(args) and not self.arg_deref(st, i, args[k]):
                return None
        ctor = self.ctor_class(i.callee)
        for n, oc in enumerate(summ["out"]):
            rc, freed, esc, cells, nulls = oc
            s2 = st.copy()
            ok = True
            for k, nn in nulls:
                if k >= len(args):
                    continue
                a = args[k]
                cur = self.nonnull(s2, a)
                if cur is None:
                    if not self.assume(s2, ("b", "ne", a, ("c", 0)), nn):
                        ok = False
                elif cur != nn:
                    ok = False
            if not ok:
                continue
            self.generic_call(s2, i, args, mods, False)
            a2 = args
            for k in freed:
                if k < len(a2):
                    self.do_free_deep(s2, i, a2[k])
            for k in esc:
                if k < len(a2):
                    if a2[k][0] == "p" and root(a2[k][1])[0] == "al":
                        self._info.captured.add(root(a2[k][1])[1])
                    self.escape(s2, a2[k])
                    if a2[k][0] == "s":
                        self.note_escape(s2, a2[k][1])
            for (k, off, size), c in cells:
                if k < len(a2) and not is_null(a2[k]):
                    obj, bo = self.region(a2[k])
                    if obj is None or bo is None:
                        continue
                    v = self.materialise(s2, i, c, a2, sub=("o", k, off))
                    if v is not None:
                        s2.mem.setdefault(obj, {})[(bo + off, size, ("raw",))] = v
            if i.ty != ("v",):
                if ctor and rc and rc[0] == "fresh":
                    rc = ("fresh", ctor)
                v = self.materialise(s2, i, rc, a2, sub=None)
                s2.env[i.id] = v if v is not None else self.newsym(s2, i, fact=self._tyfact(i))
                if rc and rc[0] == "fresh":
                    self.fresh_from(s2, i, v[1], a2, esc)
            out.append(s2)
        return out

    def ctor_class(self, name):
        return None

    def fresh_from(self, st, i, obj, args, esc):
        """the object just created holds these arguments"""

    def arg_deref(self, st, i, a):
        """argument the callee dereferences without checking it: NULL or released memory is an error here.
        Returns False when the path cannot continue."""
        if is_null(a):
            for o in self.obs:
                o.nullderef(self, st, i, a)
            return False
        if a[0] not in ("p", "s"):
            return True
        obj, off = self.region(a)
        rt = root(obj)
        rec = st.objs.get(rt)
        if rec is not None and rec[0] == "freed":
            for o in self.obs:
                o.uaf(self, st, i, rt, rec)
        if a[0] == "s":
            nn = f_implies(st.facts.get(a[1], TOPF), "ne", 0)
            if nn is False:
                for o in self.obs:
                    o.nullderef(self, st, i, ("n", ("sym", a[1])))
                return False
            if nn is None:
                if a[1][0] == "a":
                    self.derefs.setdefault(a[1][1], i)
                for o in self.obs:
                    o.maybe_null(self, st, i, a[1])
                self.setfact(st, a[1], f_meet(st.facts.get(a[1], TOPF), "ne", 0))
        return True

    def do_free_deep(self, st, i, a):
        if is_null(a):
            return
        obj, off = self.region(a)
        rt = root(obj)
        inner = []
        for o, cells in st.mem.items():
            if root(o) == rt:
                for v in cells.values():
                    if isinstance(v, tuple) and v[0] == "p":
                        r2 = root(v[1])
                        if st.objs.get(r2, ("",))[0] == "own" and r2 != rt:
                            inner.append(r2)
        self.do_free(st, i, a, "any")
        for r2 in inner:
            if st.objs.get(r2, ("",))[0] == "own":
                self.escape_obj(st, r2)

    def materialise(self, st, i, c, args, sub):
        if c is None:
            return None
        if c[0] == "c":
            return ("n", i.id) if (c[1] == 0 and i.ty == ("p",) and sub is None) else c
        if c[0] == "fresh":
            return self.newobj(st, i, c[1], False, sub)
        if c[0] == "nn":
            return self.newsym(st, i, sub, fact=("I", -INF, INF, frozenset([0])))
        if c[0] == "param":
            return args[c[1]]
        if c[0] == "f":
            return self.newsym(st, i, sub, fact=c[1])
        return None


def summarise(outcomes, derefs=(), cap=24):
    """merge equal outcomes; fall back to dropping detail"""
    s = set(outcomes)
    if len(s) > cap:
        s2 = set()
        for rc, fr, es, outs, nulls in s:
            s2.add((rc, fr, es, frozenset(), nulls))
        s = s2
    if len(s) > cap:
        s = {(rc, fr, es, outs, frozenset()) for rc, fr, es, outs, nulls in s}
    return {"out": sorted(s, key=repr), "deref": sorted(derefs)}
