"""Value numbering and dominating branch conditions of one function (no path enumeration).

val(op) is a canonical expression of an operand: two operands with equal expressions hold the same value as long as the
memory they read does not change in between (callers use it for memory the library treats as constant).
"""
from engine import NEG, SWAP

PUREPFX = ("metac_entry_", "metac_value_kind", "metac_value_final_kind", "metac_value_entry", "metac_value_addr",
           "metac_value_element_count", "metac_value_member_count", "metac_value_is_", "metac_value_has_",
           "metac_value_name", "strlen", "strcmp")


class View:
    def __init__(self, mod, fn):
        self.mod, self.fn = mod, fn
        self.ins = {i.id: i for b in fn.blocks for i in b.ins}
        self.memo = {}
        self._dom()
        self.fmemo = {}
        self.ememo = {}
        self.uses = None

    # ------------------------------------------------ dominators
    def _dom(self):
        fn = self.fn
        n = len(fn.blocks)
        order, seen = [], set()
        st = [(0, iter(fn.blocks[0].succ))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(fn.blocks[s].succ)))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        pos = {b: k for k, b in enumerate(order)}
        self.reach = seen
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in fn.blocks[b].preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.pos = pos

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    # ------------------------------------------------ values
    def val(self, op):
        if op[0] == "i":
            if op[1] in self.memo:
                return self.memo[op[1]]
            self.memo[op[1]] = op        # cycles end here
            v = self._val(self.ins[op[1]]) if op[1] in self.ins else op
            self.memo[op[1]] = v
            return v
        if op[0] == "cg":
            return ("off", self.val(op[1]), op[2]) if op[2] else self.val(op[1])
        return op

    def _val(self, i):
        o = i.op
        if o in ("sext", "zext", "bitcast", "freeze", "inttoptr", "ptrtoint"):
            if o == "zext" and i.srcty == ("i", 1):
                return ("bool", self.val(i.ops[0]))
            return self.val(i.ops[0])
        if o == "trunc":
            return self.val(i.ops[0])
        if o == "gep":
            b = self.val(i.ops[0])
            off, var, path, srcty = i.gep
            for x, sc in var:
                xv = self.val(x)
                if xv[0] == "c":
                    off += xv[1] * sc
                else:
                    b = ("idx", b, sc, xv)
            if off:
                if b[0] == "off":
                    b = ("off", b[1], b[2] + off)
                else:
                    b = ("off", b, off)
            return b
        if o == "load":
            a = self.val(i.ops[0])
            r = a
            while r[0] in ("off", "idx"):
                r = r[1]
            if r[0] == "i" and self.ins.get(r[1]) is not None and self.ins[r[1]].op == "alloca":
                return ("i", i.id)
            return ("ld", a, i.size)
        if o == "phi":
            vs = []
            for x in i.ops:
                v = self.val(x)
                if v == ("i", i.id) or v in vs:
                    continue
                vs.append(v)
            if len(vs) == 1:
                return vs[0]
            if i.ty == ("p",):
                nz = [v for v in vs if v != ("c", 0)]
                if len(nz) == 1 and not self._mentions(nz[0], ("i", i.id)):
                    return nz[0]
            return ("i", i.id)
        if o == "select":
            x, y = self.val(i.ops[1]), self.val(i.ops[2])
            return x if x == y else ("i", i.id)
        if o == "icmp":
            return ("cmp", i.pred, self.val(i.ops[0]), self.val(i.ops[1]))
        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            x, y = self.val(i.ops[0]), self.val(i.ops[1])
            if o == "sub" and y[0] == "c":
                o, y = "add", ("c", -y[1])
            if o == "add" and x[0] == "c":
                x, y = y, x
            if o == "add" and x[0] == "op" and x[1] == "add" and x[3][0] == "c" and y[0] == "c":
                x, y = x[2], ("c", x[3][1] + y[1])
                if y[1] == 0:
                    return x
            return ("op", o, x, y)
        if o == "call" and i.callee:
            n = i.callee.split("@")[0]
            if n.startswith(PUREPFX) and i.ty != ("v",):
                return ("call", n) + tuple(self.val(x) for x in i.ops)
        return ("i", i.id)

    def _mentions(self, x, t):
        if x == t:
            return True
        return isinstance(x, tuple) and any(isinstance(y, tuple) and self._mentions(y, t) for y in x)

    # ------------------------------------------------ facts
    def implied(self, op, truth, depth=0):
        """comparisons that hold when the i1/integer operand is (non-)zero"""
        out = []
        if depth > 6:
            return out
        if op[0] != "i":
            return out
        i = self.ins.get(op[1])
        if i is None:
            return out
        if i.op == "icmp":
            p = i.pred if truth else NEG[i.pred]
            x, y = self.val(i.ops[0]), self.val(i.ops[1])
            out.append((p, x, y))
            # (cond as number) compared with a constant
            for a, b, q in ((i.ops[0], y, p), (i.ops[1], x, SWAP[p])):
                if b == ("c", 0) and q in ("ne", "eq", "ugt", "sgt"):
                    out += self.implied(a, q != "eq", depth + 1)
            return out
        if i.op in ("zext", "sext", "trunc", "freeze"):
            return self.implied(i.ops[0], truth, depth + 1)
        if i.op == "xor" and i.ops[1][0] == "c" and i.ops[1][1] in (1, -1) and i.ty == ("i", 1):
            return self.implied(i.ops[0], not truth, depth + 1)
        if i.op == "and" and truth:
            return self.implied(i.ops[0], True, depth + 1) + self.implied(i.ops[1], True, depth + 1)
        if i.op == "or" and not truth:
            return self.implied(i.ops[0], False, depth + 1) + self.implied(i.ops[1], False, depth + 1)
        if i.op == "select":
            c, x, y = i.ops
            can = []
            for z, t in ((x, True), (y, False)):
                if z[0] == "c" and bool(z[1]) != truth:
                    continue
                can.append((z, t))
            if len(can) == 1:
                z, t = can[0]
                out = self.implied(c, t, depth + 1)
                if z[0] == "i":
                    out = out + self.implied(z, truth, depth + 1)
            return out
        if i.op == "phi":
            can = [(b, v) for b, v in i.incoming if not (v[0] == "c" and bool(v[1]) != truth)]
            if any(b not in self.reach or self.dominates(i.block, b) for b, v in can):
                return out                # facts of an earlier iteration do not carry over
            if len(can) == 1:
                b, v = can[0]
                out = list(self.facts(b)) + self.edge(b, i.block)
                if v[0] == "i":
                    out += self.implied(v, truth, depth + 1)
            elif can:
                # what holds in every remaining case
                sets = []
                for b, v in can:
                    s = list(self.facts(b)) + self.edge(b, i.block)
                    if v[0] == "i":
                        s += self.implied(v, truth, depth + 1)
                    sets.append(set(s))
                out = list(set.intersection(*sets))
            return out
        return out

    def edge(self, b, s):
        """facts of taking the edge b -> s"""
        if (b, s) not in self.ememo:
            self.ememo[(b, s)] = []
            self.ememo[(b, s)] = self._edge(b, s)
        return self.ememo[(b, s)]

    def _edge(self, b, s):
        B = self.fn.blocks[b]
        t = B.ins[-1]
        if t.op == "br" and len(B.succ) == 2 and B.succ[0] != B.succ[1]:
            if t.ops[0][0] == "i":
                return self.implied(t.ops[0], B.succ[0] == s)
        if t.op == "switch":
            v = self.val(t.ops[0])
            cs = [c for c, x in zip(t.cases, B.succ) if x == s]
            if None not in cs:
                if len(cs) == 1:
                    return [("eq", v, ("c", cs[0]))]
                return [("in", v, tuple(sorted(cs)))]
            return [("ne", v, ("c", c)) for c, x in zip(t.cases, B.succ) if c is not None and x != s]
        return []

    def facts(self, b):
        """facts that hold whenever block b runs"""
        if b in self.fmemo:
            return self.fmemo[b]
        self.fmemo[b] = ()
        out = []
        x = b
        while True:
            ps = [p for p in self.fn.blocks[x].preds if p in self.reach]
            fw = [p for p in ps if not self.dominates(x, p)]       # without back edges
            if len(fw) == 1:
                out += self.edge(fw[0], x)
            elif len(fw) > 1:
                sets = [set(self.edge(p, x)) | set(self._local(p, self.idom.get(x))) for p in fw]
                out += list(set.intersection(*sets))
            if x == 0 or x not in self.idom:
                break
            nx = fw[0] if len(fw) == 1 else self.idom[x]
            x = nx
        out = tuple(dict.fromkeys(out))
        self.fmemo[b] = out
        return out

    def _local(self, p, stop, depth=0):
        """facts gathered between stop and p along single predecessors"""
        out = []
        n = 0
        while p != stop and n < 40:
            ps = [q for q in self.fn.blocks[p].preds if q in self.reach and not self.dominates(p, q)]
            if len(ps) == 1:
                out += self.edge(ps[0], p)
                p = ps[0]
            elif len(ps) > 1 and depth < 3:
                sets = [set(self.edge(q, p)) | set(self._local(q, self.idom.get(p), depth + 1)) for q in ps]
                out += list(set.intersection(*sets))
                p = self.idom[p]
            else:
                break
            n += 1
        return out

    # ------------------------------------------------ order queries
    def phi_of(self, v):
        if v[0] == "i":
            i = self.ins.get(v[1])
            if i is not None and i.op == "phi":
                return i
        return None

    def steps(self, phi):
        """(initial values, increments) of an induction variable; None if it is something else"""
        init, inc = [], []
        for x in phi.ops:
            v = self.val(x)
            if v == ("i", phi.id):
                continue
            if v[0] == "op" and v[1] == "add" and v[2] == ("i", phi.id) and v[3][0] == "c":
                inc.append(v[3][1])
            elif self._mentions(v, ("i", phi.id)):
                return None
            else:
                q = self.phi_of(v)
                if q is not None and self._mentions_phi(q, phi.id):
                    w = self._through(q, phi.id)
                    if w is None:
                        return None
                    inc += w
                else:
                    init.append(v)
        return init, inc

    def _mentions_phi(self, q, pid):
        return any(self._mentions(self.val(x), ("i", pid)) for x in q.ops)

    def _through(self, q, pid):
        """a merge inside the loop body: each side is the variable or the variable plus a constant"""
        out = []
        for x in q.ops:
            v = self.val(x)
            if v == ("i", pid):
                out.append(0)
            elif v[0] == "op" and v[1] == "add" and v[2] == ("i", pid) and v[3][0] == "c":
                out.append(v[3][1])
            else:
                return None
        return out

    def bounds_eq(self, v, w):
        """v is w, or a merge of w with constants that are not positive"""
        if v == w:
            return True
        q = self.phi_of(v)
        if q is not None:
            vs = [self.val(x) for x in q.ops]
            return all(x == w or (x[0] == "c" and x[1] <= 0) or (self.phi_of(x) is not None and x != v and self.bounds_eq(x, w))
                       for x in vs) and any(x[0] != "c" for x in vs)
        return False

    def nonneg(self, v, facts, seen=()):
        if v[0] == "c":
            return v[1] >= 0
        for p, x, y in facts:
            if x == v and y[0] == "c" if isinstance(y, tuple) and y and y[0] in ("c",) else False:
                if (p == "sge" and y[1] >= 0) or (p == "sgt" and y[1] >= -1) or (p == "eq" and y[1] >= 0):
                    return True
            if isinstance(y, tuple) and y == v and x[0] == "c":
                if (p == "sle" and x[1] >= 0) or (p == "slt" and x[1] >= -1):
                    return True
        q = self.phi_of(v)
        if q is not None and v not in seen:
            s = self.steps(q)
            if s is not None:
                init, inc = s
                if all(k >= 0 for k in inc) and all(self.nonneg(x, facts, seen + (v,)) for x in init):
                    return True
        if v[0] == "op" and v[1] == "add" and v[3][0] == "c":
            x, k = v[2], v[3][1]
            if k >= 0 and self.nonneg(x, facts, seen + (v,)):
                return True
            for p, a, b in facts:
                if a == x and isinstance(b, tuple) and b[0] == "c":
                    if (p == "sgt" and b[1] + 1 + k >= 0) or (p == "sge" and b[1] + k >= 0) or (
                            p == "ne" and b[1] == 0 and k == -1 and self.nonneg(x, facts, seen + (v,))):
                        return True
        if v[0] == "op" and v[1] == "and" and (v[3][0] == "c" and v[3][1] >= 0):
            return True
        if v[0] == "bool":
            return True
        return False

    def below(self, v, w, facts, seen=()):
        """v < w (signed), given facts"""
        if v[0] == "c" and w[0] == "c":
            return v[1] < w[1]
        for p, x, y in facts:
            if not isinstance(y, tuple) or p == "in":
                continue
            if x == v and p in ("slt", "ult") and self.bounds_eq(y, w):
                return True
            if y == v and p in ("sgt", "ugt") and self.bounds_eq(x, w):
                return True
            # v != w with v an upward induction variable that starts below or at w
            if p == "ne" and ((x == v and self.bounds_eq(y, w)) or (y == v and self.bounds_eq(x, w))):
                q = self.phi_of(v)
                if q is not None:
                    s = self.steps(q)
                    if s and all(k in (0, 1) for k in s[1]) and all(z == ("c", 0) for z in s[0]):
                        return True
            if v[0] == "c" and x == w and isinstance(y, tuple) and y[0] == "c":
                if (p == "sgt" and y[1] >= v[1]) or (p == "sge" and y[1] > v[1]):
                    return True
        if v[0] == "op" and v[1] == "add" and v[3][0] == "c" and v[3][1] < 0:
            if v[2] == w or self.atmost(v[2], w, facts, seen + (v,)):
                return True
        q = self.phi_of(v)
        if q is not None and v not in seen:
            s = self.steps(q)
            if s is not None and all(k <= 0 for k in s[1]) and s[0] and all(self.below(x, w, facts, seen + (v,)) for x in s[0]):
                return True
        return False

    def atmost(self, v, w, facts, seen=()):
        if v == w or self.below(v, w, facts, seen):
            return True
        q = self.phi_of(v)
        if q is not None and v not in seen:
            s = self.steps(q)
            if s is not None and all(k <= 0 for k in s[1]) and s[0] and all(self.atmost(x, w, facts, seen + (v,)) for x in s[0]):
                return True
        return False

    # ------------------------------------------------ uses
    def users(self, iid):
        if self.uses is None:
            self.uses = {}
            for b in self.fn.blocks:
                for i in b.ins:
                    for o in list(i.ops) + ([x for x, _ in i.gep[1]] if i.gep else []):
                        if o[0] == "i":
                            self.uses.setdefault(o[1], []).append(i)
        return self.uses.get(iid, [])

    # ------------------------------------------------ paths
    def _relevant(self):
        """phis that (through casts, comparisons, logic) decide a branch"""
        if hasattr(self, "rel"):
            return self.rel
        rel, todo = set(), list(getattr(self, "watch", ()))
        for b in self.fn.blocks:
            t = b.ins[-1]
            if t.op in ("br", "switch", "ret") and t.ops:
                todo.append(t.ops[0])
        seen = set()
        while todo:
            o = todo.pop()
            if o[0] != "i" or o[1] in seen:
                continue
            seen.add(o[1])
            i = self.ins.get(o[1])
            if i is None:
                continue
            if i.op == "load" and i.id in getattr(self, "_fwd", ()):
                todo.append(self._fwd[i.id])
            if i.op in ("phi", "select"):
                rel.add(i.id)
                todo += list(i.ops)
            elif i.op in ("icmp", "zext", "sext", "trunc", "freeze", "xor", "and", "or", "bitcast"):
                todo += list(i.ops)
        self.rel = rel
        return rel

    def under(self, op, sel, depth=0):
        """operand with the phis of this path resolved"""
        while depth < 12 and op[0] == "i" and op[1] in sel:
            op = sel[op[1]]
            depth += 1
        return op

    def const_under(self, op, sel, depth=0):
        """constant value of an operand on this path, or None"""
        op = self.under(op, sel)
        if op[0] == "c":
            return op[1]
        if op[0] != "i" or depth > 8:
            return None
        i = self.ins.get(op[1])
        if i is None:
            return None
        if i.op in ("zext", "sext", "trunc", "freeze"):
            c = self.const_under(i.ops[0], sel, depth + 1)
            if c is None:
                return None
            if i.op == "zext" and i.srcty == ("i", 1):
                return c & 1
            return c
        if i.op == "xor" and i.ty == ("i", 1):
            x, y = self.const_under(i.ops[0], sel, depth + 1), self.const_under(i.ops[1], sel, depth + 1)
            return None if x is None or y is None else (x ^ y) & 1
        if i.op == "icmp":
            x, y = self.const_under(i.ops[0], sel, depth + 1), self.const_under(i.ops[1], sel, depth + 1)
            if x is None or y is None:
                return None
            f = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}
            return int(f[i.pred]) if i.pred in f else None
        if i.op == "select":
            c = self.const_under(i.ops[0], sel, depth + 1)
            return None if c is None else self.const_under(i.ops[1 if c & 1 else 2], sel, depth + 1)
        return None

    def implied_under(self, op, truth, sel, depth=0):
        op = self.under(op, sel)
        if op[0] != "i" or depth > 8:
            return []
        i = self.ins.get(op[1])
        if i is None:
            return []
        if i.op == "icmp":
            p = i.pred if truth else NEG[i.pred]
            a, b = self.under(i.ops[0], sel), self.under(i.ops[1], sel)
            x, y = self.val(a), self.val(b)
            out = [(p, x, y)]
            for o, c, q in ((a, y, p), (b, x, SWAP[p])):
                if c == ("c", 0) and q in ("ne", "eq", "ugt", "sgt"):
                    out += self.implied_under(o, q != "eq", sel, depth + 1)
            return out
        if i.op in ("zext", "sext", "trunc", "freeze"):
            return self.implied_under(i.ops[0], truth, sel, depth + 1)
        if i.op == "xor" and i.ty == ("i", 1) and i.ops[1][0] == "c":
            return self.implied_under(i.ops[0], not truth, sel, depth + 1)
        if (i.op == "and" and truth) or (i.op == "or" and not truth):
            return self.implied_under(i.ops[0], truth, sel, depth + 1) + self.implied_under(i.ops[1], truth, sel, depth + 1)
        # the value itself as a truth value
        return [("ne" if truth else "eq", self.val(op), ("c", 0))]

    def _forks(self, b, d, accept):
        """the block's conditional values decided either way; ways that imply an accepted fact are left out"""
        out = [d]
        for i in self.fn.blocks[b].ins:
            if i.op == "select" and i.id in self.rel and len(out) < 16:
                nxt = []
                for e in out:
                    c = self.const_under(i.ops[0], e)
                    for k, truth in ((1, True), (2, False)):
                        if c is not None and bool(c) != truth:
                            continue
                        if any(accept(f) for f in self.implied_under(i.ops[0], truth, e)):
                            continue
                        m = dict(e)
                        m[i.id] = self.under(i.ops[k], e)
                        nxt.append(m)
                out = nxt
        return out

    def escape_from(self, block, seed, sinks, stop=None):
        """a path that leaves `block` with the instructions of `seed` fixed and ends in a sink before re-entering `block`"""
        return self.escape(lambda f: False, sinks, start=block, first=True, stop=stop or {block}, seed=seed)

    def escape(self, accept, sinks, start=0, cap=40000, first=None, stop=None, seed=None):
        """a path from block `start` to a block of `sinks` on which no branch implies a fact accepted by `accept`;
        returns the list of blocks, or None.  `sinks` maps block -> anything true; `stop` blocks end a path."""
        rel = self._relevant()
        todo = [(start, tuple(sorted((seed or {}).items())), (start, None))]
        seen = set()
        n = 0
        while todo:
            b, sel, path = todo.pop()
            if (b, sel) in seen:
                continue
            seen.add((b, sel))
            n += 1
            if n > cap:
                return None
            forks = self._forks(b, dict(sel), accept)
            for d in forks:
                if (sinks(b, d) if callable(sinks) else b in sinks) and not (first is not None and path[1] is None):
                    out = []
                    while path is not None:
                        out.append(path[0])
                        path = path[1]
                    return out[::-1]
            if stop is not None and b in stop and path[1] is not None:
                continue
            B = self.fn.blocks[b]
            t = B.ins[-1]
            for d, s in [(d, s) for d in forks for s in dict.fromkeys(B.succ)]:
                fs = []
                if t.op == "br" and len(B.succ) == 2 and B.succ[0] != B.succ[1]:
                    c = self.const_under(t.ops[0], d)
                    if c is not None and bool(c) != (B.succ[0] == s):
                        continue
                    fs = self.implied_under(t.ops[0], B.succ[0] == s, d)
                elif t.op == "switch":
                    c = self.const_under(t.ops[0], d)
                    cs = [k for k, x in zip(t.cases, B.succ) if x == s]
                    if c is not None:
                        if c in t.cases:
                            if c not in cs:
                                continue
                        elif None not in cs:
                            continue
                    o = self.under(t.ops[0], d)
                    v = self.val(o)
                    if None not in cs:
                        fs = [("eq", v, ("c", cs[0]))] if len(cs) == 1 else [("in", v, tuple(sorted(cs)))]
                    else:
                        fs = [("ne", v, ("c", k)) for k, x in zip(t.cases, B.succ) if k is not None and x != s]
                if any(accept(f) for f in fs):
                    continue
                nd = dict(d)
                for i in self.fn.blocks[s].ins:
                    if i.op != "phi":
                        break
                    if i.id in rel:
                        for pb, o in i.incoming:
                            if pb == b:
                                o = self.under(o, d)
                                if o == ("i", i.id):
                                    nd.pop(i.id, None)
                                else:
                                    nd[i.id] = o
                                break
                todo.append((s, tuple(sorted(nd.items())), (s, path)))
        return None

    def paths(self, start, seed, stop, cap=4000):
        """acyclic paths from `start` until a block of `stop` or the end of the function, as (blocks, decisions, last block);
        `seed` fixes the value of some instructions"""
        rel = self._all_phis()
        todo = [(start, dict(seed), (start,))]
        n = 0
        while todo:
            b, d, path = todo.pop()
            n += 1
            if n > cap * 20:
                return
            if len(path) > 1 and b in stop:
                yield path, d, b
                continue
            B = self.fn.blocks[b]
            if not B.succ:
                yield path + (None,), d, None
                continue
            for e in self._forks(b, d, lambda f: False):
                t = B.ins[-1]
                for s in dict.fromkeys(B.succ):
                    if s in path and s not in stop:
                        continue
                    if t.op == "br" and len(B.succ) == 2 and B.succ[0] != B.succ[1]:
                        c = self.const_under(t.ops[0], e)
                        if c is not None and bool(c) != (B.succ[0] == s):
                            continue
                    elif t.op == "switch":
                        c = self.const_under(t.ops[0], e)
                        cs = [k for k, x in zip(t.cases, B.succ) if x == s]
                        if c is not None:
                            if c in t.cases:
                                if c not in cs:
                                    continue
                            elif None not in cs:
                                continue
                    nd = dict(e)
                    for i in self.fn.blocks[s].ins:
                        if i.op != "phi":
                            break
                        if s in stop:
                            break
                        for pb, o in i.incoming:
                            if pb == b:
                                o = self.under(o, e)
                                if o != ("i", i.id):
                                    nd[i.id] = o
                                break
                    todo.append((s, nd, path + (s,)))

    def _all_phis(self):
        self._relevant()
