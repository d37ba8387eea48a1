"""Abstract interpretation of functions in a bit-provenance domain.

Every bit of an integer is 0, 1, a (possibly inverted) bit of a named source, or unknown.  Integers that are sums of named
offsets are kept as linear forms.  Addresses are a named region plus a linear offset.  Traces are partitioned at branches
whose condition is one source bit (the bit is then known on either side); a branch on anything unknown is taken both ways.
"""
import sys

T = "T"                                        # an unknown bit
LIBC_RET = ("strcmp", "strncmp", "strlen")


class Budget(Exception):
    pass


def const(n, w):
    return ("b", tuple((n >> k) & 1 for k in range(w)))


def top(w):
    return ("b", (T,) * w)


def value(v):
    """the unsigned number of a constant, or None"""
    if v[0] != "b":
        if v[0] == "l" and not v[3]:
            return v[2] & ((1 << v[1]) - 1)
        return None
    n = 0
    for k, b in enumerate(v[1]):
        if b == 1:
            n |= 1 << k
        elif b != 0:
            return None
    return n


def signed(n, w):
    return n - (1 << w) if n >> (w - 1) & 1 else n


def inv(b):
    if b == T:
        return T
    if b == 0 or b == 1:
        return 1 - b
    return (b[0], b[1], not b[2])


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a != T and b != T and a == inv(b):
        return 0
    return T


def b_or(a, b):
    return inv(b_and(inv(a), inv(b)))


def b_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == 1:
        return inv(b)
    if b == 1:
        return inv(a)
    if a != T and a == b:
        return 0
    if a != T and b != T and a == inv(b):
        return 1
    return T


def b_maj(a, b, c):
    if a == b:
        return a
    if a == c:
        return a
    if b == c:
        return b
    if T not in (a, b) and a == inv(b):
        return c
    if T not in (a, c) and a == inv(c):
        return b
    if T not in (b, c) and b == inv(c):
        return a
    return T


def b_sum(a, b, c):
    out, r = [], c
    for x, y in zip(a, b):
        # the order of the exclusive-or matters only for precision
        s = T
        for p, q, z in ((x, y, r), (x, r, y), (y, r, x)):
            t = b_xor(b_xor(p, q), z)
            if t != T:
                s = t
                break
        out.append(s)
        r = b_maj(x, y, r)
    return tuple(out)


def aslin(v):
    """(width, constant, {atom: coefficient}) or None"""
    if v[0] == "l":
        return v[1], v[2], dict(v[3])
    n = value(v)
    if n is not None:
        return len(v[1]), n, {}
    return None


def mklin(w, c, d):
    d = tuple(sorted((k, x) for k, x in d.items() if x))
    if not d:
        return const(c & ((1 << w) - 1), w)
    return ("l", w, signed(c & ((1 << w) - 1), w), d)


def width(v):
    return len(v[1]) if v[0] == "b" else v[1] if v[0] == "l" else 64


class State:
    __slots__ = ("mem", "lits", "touch", "n")

    def copy(self):
        s = State()
        s.mem, s.lits, s.touch, s.n = dict(self.mem), dict(self.lits), list(self.touch), self.n
        return s


def new_state():
    s = State()
    s.mem, s.lits, s.touch, s.n = {}, {}, [], [0]
    return s


class Interp:
    """models: {callee: f(interp, state, args, ins) -> value or [(state, value)]};
    source(state, region, atoms, byte) -> 8 bits for memory nobody has written, None if it has no contents"""

    def __init__(self, mod, models, source, budget=60000):
        self.mod, self.models, self.source, self.left = mod, models, source, budget

    # ---- values
    def lit(self, st, b):
        if b == T or b == 0 or b == 1:
            return b
        v = st.lits.get(b[:2])
        return b if v is None else v ^ (1 if b[2] else 0)

    def norm(self, st, v):
        if v[0] == "b" and st.lits:
            return ("b", tuple(self.lit(st, b) for b in v[1]))
        return v

    def op(self, x, env, st, w=64):
        k = x[0]
        if k == "i":
            v = env.get(x[1])
            return self.norm(st, v) if v is not None else top(w)
        if k == "a":
            return self.norm(st, env[("a", x[1])])
        if k == "c":
            return const(x[1] & ((1 << w) - 1), w)
        if k == "g":
            return ("p", ("g", x[1]), (), 0)
        if k == "fn":
            return ("p", ("fn", x[1]), (), 0)
        if k == "cg":
            return self.add(self.op(x[1], env, st), const(x[2] & ((1 << 64) - 1), 64))
        return top(w)

    def add(self, a, b, sub=False):
        if a[0] == "p" and b[0] == "p":
            if sub and a[1] == b[1]:
                d = dict(a[2])
                for k, x in b[2]:
                    d[k] = d.get(k, 0) - x
                return mklin(64, a[3] - b[3], d)
            return top(64)
        if b[0] == "p" and not sub:
            a, b = b, a
        if a[0] == "p":
            l = aslin(b)
            if l is None:
                return ("p", a[1], (("?", 1),), 0)
            d = dict(a[2])
            for k, x in l[2].items():
                d[k] = d.get(k, 0) + (-x if sub else x)
            c = signed(l[1] & ((1 << 64) - 1), 64)
            return ("p", a[1], tuple(sorted((k, x) for k, x in d.items() if x)), a[3] + (-c if sub else c))
        w = width(a)
        la, lb = aslin(a), aslin(b)
        if la and lb:
            d = dict(la[2])
            for k, x in lb[2].items():
                d[k] = d.get(k, 0) + (-x if sub else x)
            return mklin(w, la[1] - lb[1] if sub else la[1] + lb[1], d)
        if a[0] == "b" and b[0] == "b" and len(a[1]) == len(b[1]):
            y = tuple(inv(z) for z in b[1]) if sub else b[1]
            return ("b", b_sum(a[1], y, 1 if sub else 0))
        return top(w)

    def arith(self, o, a, b, w):
        if o in ("add", "sub"):
            return self.add(a, b, o == "sub")
        x, y = value(a), value(b)
        if o == "mul":
            if x is not None and y is not None:
                return const(x * y & ((1 << w) - 1), w)
            if x is not None:
                a, b, x, y = b, a, y, x
            if y is not None:
                l = aslin(a)
                if l:
                    return mklin(w, l[1] * y, {k: c * y for k, c in l[2].items()})
                if y and y & (y - 1) == 0:
                    o, b, y = "shl", const(y.bit_length() - 1, w), y.bit_length() - 1
                else:
                    return top(w)
            else:
                return top(w)
        if o in ("udiv", "sdiv", "urem", "srem"):
            if y is not None and y and y & (y - 1) == 0 and o[0] == "u":
                k = y.bit_length() - 1
                return self.arith("lshr", a, const(k, w), w) if o == "udiv" else self.arith("and", a, const(y - 1, w), w)
            if x is not None and y:
                if o[0] == "s":
                    p, q = signed(x, w), signed(y, w)
                    d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                    return const((d if o == "sdiv" else p - d * q) & ((1 << w) - 1), w)
                return const(x // y if o == "udiv" else x % y, w)
            l = aslin(a)
            if l and l[2] and y and y & (y - 1) == 0:       # offsets are not negative
                return self.arith("lshr" if o[1:] == "div" else "and", a, const(y.bit_length() - 1 if o[1:] == "div" else y - 1, w), w)
            return top(w)
        if o in ("shl", "lshr", "ashr"):
            if y is None or y >= w:
                return top(w)
            if a[0] == "l":
                if o == "shl":
                    return mklin(w, a[2] << y, {k: c << y for k, c in a[3]})
                if all(c % (1 << y) == 0 for _, c in a[3]):
                    return mklin(w, a[2] >> y, {k: c >> y for k, c in a[3]})
                return top(w)
            if a[0] == "p":
                return top(w)
            t = a[1]
            if o == "shl":
                return ("b", (0,) * y + t[:w - y])
            return ("b", t[y:] + ((0 if o == "lshr" else t[-1]),) * y)
        if o in ("and", "or", "xor"):
            for p, q, n in ((a, b, y), (b, a, x)):
                if p[0] == "l" and n is not None:
                    if o == "and" and n & (n + 1) == 0 and all(c % (n + 1) == 0 for _, c in p[3]):
                        return const(p[2] & n, w)
                    if n == 0 and o != "and":
                        return p
                    if o == "and" and n == (1 << w) - 1:
                        return p
            if a[0] != "b" or b[0] != "b":
                return top(w)
            f = {"and": b_and, "or": b_or, "xor": b_xor}[o]
            return ("b", tuple(f(p, q) for p, q in zip(a[1], b[1])))
        return top(w)

    def icmp(self, pred, a, b):
        if a[0] == "p" or b[0] == "p":
            r = None
            if a[0] == "p" and b[0] == "p":
                if a[1] != b[1]:
                    r = False if "?" not in (a[1], b[1]) else None
                elif a[2] == b[2] and a[2] != (("?", 1),):
                    x, y = a[3], b[3]
                    return const(int({"eq": x == y, "ne": x != y, "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y,
                                      "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[pred]), 1)
            else:
                n = value(b if a[0] == "p" else a)
                r = False if n == 0 else None          # a valid address is not null
            if r is None or pred not in ("eq", "ne"):
                return top(1)
            return const(int(r if pred == "eq" else not r), 1)
        w = width(a)
        x, y = value(a), value(b)
        if x is None and y is None and aslin(a) and aslin(b):
            la, lb = aslin(a), aslin(b)
            if la[2] == lb[2]:
                x, y = la[1] & ((1 << w) - 1), lb[1] & ((1 << w) - 1)
        if x is not None and y is not None:
            if pred[0] == "s":
                x, y = signed(x, w), signed(y, w)
            p = pred if pred in ("eq", "ne") else pred[1:]
            return const(int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]), 1)
        if x is not None:
            a, b, x, y = b, a, y, x
            pred = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
                    "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}[pred]
        if a[0] != "b" or b[0] != "b":
            return top(1)
        if pred in ("eq", "ne"):
            acc = 1
            for p, q in zip(a[1], b[1]):
                acc = b_and(acc, inv(b_xor(p, q)))
            return ("b", (acc if pred == "eq" else inv(acc),))
        if y is not None:
            s = a[1][-1]
            ys = signed(y, w)
            if pred == "slt" and ys == 0 or pred == "sle" and ys == -1:
                return ("b", (s,))
            if pred == "sge" and ys == 0 or pred == "sgt" and ys == -1:
                return ("b", (inv(s),))
            # range of the known bits
            lo = sum(1 << k for k, p in enumerate(a[1]) if p == 1)
            hi = sum(1 << k for k, p in enumerate(a[1]) if p != 0)
            if pred[0] == "s" and s == 0 and ys >= 0 or pred[0] == "u":
                p = pred[1:]
                yy = ys if pred[0] == "s" else y
                if p in ("gt", "ge"):
                    if (lo > yy) if p == "gt" else (lo >= yy):
                        return const(1, 1)
                    if (hi <= yy) if p == "gt" else (hi < yy):
                        return const(0, 1)
                    if pred == "ugt" and y == 0 or pred == "uge" and y == 1:
                        return self.icmp("ne", a, const(0, w))
                else:
                    if (hi < yy) if p == "lt" else (hi <= yy):
                        return const(1, 1)
                    if (lo >= yy) if p == "lt" else (lo > yy):
                        return const(0, 1)
        return top(1)

    # ---- memory: (region, atoms, byte) -> ("o", value) for an address, or 8 bits
    def load(self, st, a, w, ins):
        n = (w + 7) // 8
        if a[0] != "p" or a[2] == (("?", 1),):
            return top(w)
        r, at, k = a[1:]
        st.touch.append(("r", r, at, k, n, ins))
        c = st.mem.get((r, at, k))
        if c is not None and c[0] == "o":
            return c[1] if w == 64 and width(c[1]) == 64 else top(w)
        bits = []
        for j in range(n):
            bits += self.byte(st, r, at, k + j, w)
            if bits and bits[-1] == "o":
                return bits[-2]
        return self.norm(st, ("b", tuple(bits[:w])))

    def byte(self, st, r, at, k, w=8):
        c = st.mem.get((r, at, k))
        if c is not None:
            return list(c[1]) if c[0] == "b" else [T] * 8
        if r[0] == "g":
            v = self.initial(r[1], at, k, w)
            if v is not None:
                return v
        v = self.source(st, r, at, k)
        if v is None:
            return [T] * 8
        if v[0] == "o":
            return [v[1], "o"]
        return list(v[1])

    def initial(self, name, at, k, w):
        g = self.mod.globals.get(name)
        if g is None or not g.const or g.init is None or at or k < 0:
            return None
        i = g.init
        if i[0] == "str":
            return list(const(i[1][k] if k < len(i[1]) else 0, 8)[1])
        if i[0] == "agg" and len(i) > 1 and all(x[0] == "c" for x in i[1:]) and g.size and g.size % (len(i) - 1) == 0:
            es = g.size // (len(i) - 1)
            if k < g.size:
                v = i[1 + k // es][1] & ((1 << (8 * es)) - 1)
                return list(const(v >> (8 * (k % es)) & 255, 8)[1])
        if i[0] == "c" and g.size and k < g.size:
            return list(const(i[1] >> (8 * k) & 255, 8)[1])
        return None

    def store(self, st, a, v, ins):
        if a[0] != "p":
            st.touch.append(("w", ("?",), (), 0, 0, ins))
            return
        r, at, k = a[1:]
        w = width(v)
        n = (w + 7) // 8
        st.touch.append(("w", r, at, k, n, ins))
        if at == (("?", 1),):
            for x in [x for x in st.mem if x[0] == r]:
                st.mem[x] = ("b", (T,) * 8)
            return
        for j in range(-7, 0):
            c = st.mem.get((r, at, k + j))
            if c is not None and c[0] == "o" and j + 8 > 0:
                del st.mem[(r, at, k + j)]
        for j in range(n):
            st.mem.pop((r, at, k + j), None)
        if v[0] in ("p", "l"):
            if w == 64:
                st.mem[(r, at, k)] = ("o", v)
                for j in range(1, 8):
                    st.mem[(r, at, k + j)] = ("b", (T,) * 8)
            else:
                for j in range(n):
                    st.mem[(r, at, k + j)] = ("b", (T,) * 8)
            return
        t = v[1] + (0,) * (8 * n - w)
        for j in range(n):
            st.mem[(r, at, k + j)] = ("b", t[8 * j:8 * j + 8])

    def copy(self, st, d, s, n, ins):
        if d[0] != "p" or d[2] == (("?", 1),) or n is None or n > 4096:
            self.store(st, ("p", d[1], (("?", 1),), 0) if d[0] == "p" else d, top(8), ins)
            return
        cells = []
        if s[0] == "p" and s[2] != (("?", 1),):
            st.touch.append(("r", s[1], s[2], s[3], n, ins))
            j = 0
            while j < n:
                c = st.mem.get((s[1], s[2], s[3] + j))
                if c is not None and c[0] == "o" and j + 8 <= n:
                    cells.append((j, c))
                    j += 8
                    continue
                b = self.byte(st, s[1], s[2], s[3] + j, 8)
                if b[-1] == "o":
                    if j + 8 <= n:
                        cells.append((j, ("o", b[-2])))
                        j += 8
                        continue
                    b = [T] * 8
                cells.append((j, ("b", tuple(self.lit(st, x) for x in b))))
                j += 1
        else:
            cells = [(j, ("b", (T,) * 8)) for j in range(n)]
        st.touch.append(("w", d[1], d[2], d[3], n, ins))
        for j in range(n):
            st.mem.pop((d[1], d[2], d[3] + j), None)
        for j, c in cells:
            st.mem[(d[1], d[2], d[3] + j)] = c
            if c[0] == "o":
                for q in range(1, 8):
                    st.mem[(d[1], d[2], d[3] + j + q)] = ("b", (T,) * 8)

    # ---- control
    def assume(self, st, b, truth):
        s = st.copy()
        s.lits[b[:2]] = int(truth) ^ (1 if b[2] else 0)
        for k, c in s.mem.items():
            if c[0] == "b":
                s.mem[k] = ("b", tuple(self.lit(s, x) for x in c[1]))
        return s

    def run(self, fn, args, st, depth=0):
        """[(state, value or None, how)]; how is 'ret' or 'abort'"""
        if depth > 12:
            raise Budget("calls nest too deep in " + fn.name)
        env = {("a", k): v for k, v in enumerate(args)}
        st.n = [st.n[0] + 1]
        frame = st.n[0]
        todo = [(0, None, 0, env, st)]
        out = []
        while todo:
            b, pred, pos, env, st = todo.pop()
            B = fn.blocks[b]
            if pos == 0 and pred is not None:
                new = {}
                for i in B.ins:
                    if i.op != "phi":
                        break
                    for pb, x in i.incoming:
                        if pb == pred:
                            new[i.id] = self.op(x, env, st, i.ty[1] if i.ty[0] == "i" else 64)
                            break
                env = {**env, **new}
            stop = False
            for pos in range(pos, len(B.ins)):
                i = B.ins[pos]
                self.left -= 1
                if self.left < 0:
                    raise Budget("too many steps in " + fn.name)
                o = i.op
                w = i.ty[1] if i.ty[0] == "i" else 64
                if o == "phi":
                    continue
                if o == "alloca":
                    env[i.id] = ("p", ("l", frame, i.id), (), 0)
                elif o == "load":
                    env[i.id] = self.load(st, self.op(i.ops[0], env, st), w, i)
                elif o == "store":
                    v = self.op(i.ops[0], env, st, 8 * i.size if i.size else 64)
                    self.store(st, self.op(i.ops[1], env, st), v, i)
                elif o == "gep":
                    v = self.add(self.op(i.ops[0], env, st), const(i.gep[0] & ((1 << 64) - 1), 64))
                    for x, sc in i.gep[1]:
                        q = self.op(x, env, st)
                        if width(q) < 64:
                            q = self.cast("sext", q, 64)
                        v = self.add(v, self.arith("mul", q, const(sc & ((1 << 64) - 1), 64), 64))
                    env[i.id] = v
                elif o in ("sext", "zext", "trunc", "bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast"):
                    sw = i.srcty[1] if i.srcty and i.srcty[0] == "i" else 64
                    env[i.id] = self.cast(o, self.op(i.ops[0], env, st, sw), w)
                elif o == "icmp":
                    sw = i.srcty[1] if i.srcty and i.srcty[0] == "i" else 64
                    env[i.id] = self.icmp(i.pred, self.op(i.ops[0], env, st, sw), self.op(i.ops[1], env, st, sw))
                elif o in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
                    env[i.id] = self.arith(o, self.op(i.ops[0], env, st, w), self.op(i.ops[1], env, st, w), w)
                elif o == "select":
                    c = self.op(i.ops[0], env, st, 1)[1][0]
                    if c == 0 or c == 1:
                        env[i.id] = self.op(i.ops[1] if c else i.ops[2], env, st, w)
                    else:
                        for t in (True, False):
                            s = self.assume(st, c, t) if c != T else st.copy()
                            e = dict(env)
                            e[i.id] = self.op(i.ops[1] if t else i.ops[2], e, s, w)
                            todo.append((b, None, pos + 1, e, s))
                        stop = True
                        break
                elif o == "call":
                    rs = self.call(i, env, st, depth, fn)
                    if len(rs) == 1 and rs[0][2] == "ret":
                        st = rs[0][0]
                        if rs[0][1] is not None:
                            env[i.id] = rs[0][1]
                        continue
                    for s, v, how in rs:
                        if how == "abort":
                            out.append((s, None, how))
                            continue
                        e = dict(env)
                        if v is not None:
                            e[i.id] = v
                        todo.append((b, None, pos + 1, e, s))
                    stop = True
                    break
                elif o == "ret":
                    out.append((st, self.op(i.ops[0], env, st, self.retw(fn)) if i.ops else None, "ret"))
                    stop = True
                    break
                elif o == "unreachable":
                    out.append((st, None, "abort"))
                    stop = True
                    break
                elif o == "br":
                    if not i.ops:
                        todo.append((B.succ[0], b, 0, env, st))
                    else:
                        c = self.op(i.ops[0], env, st, 1)
                        c = c[1][0] if c[0] == "b" else T
                        if c == 0 or c == 1:
                            todo.append((B.succ[0 if c else 1], b, 0, env, st))
                        else:
                            for t in (True, False):
                                todo.append((B.succ[0 if t else 1], b, 0, dict(env), self.assume(st, c, t) if c != T else st.copy()))
                    stop = True
                    break
                elif o == "switch":
                    v = self.op(i.ops[0], env, st, 32)
                    sw, n = width(v), value(v)
                    succ = list(B.succ)
                    if n is not None and i.cases is not None:
                        succ = [self.case(i, n, sw, B)]
                    for s in succ:
                        todo.append((s, b, 0, dict(env), st.copy()))
                    stop = True
                    break
                else:
                    env[i.id] = top(w)
            if not stop:
                raise Budget("no way out of a block of " + fn.name)
        return out

    def case(self, i, n, w, B):
        for v, t in zip(i.cases, B.succ):
            if v is not None and v & ((1 << w) - 1) == n:
                return t
        return B.succ[i.cases.index(None)]

    def retw(self, fn):
        return fn.ret[1] if fn.ret and fn.ret[0] == "i" else 64

    def cast(self, o, v, w):
        if v[0] == "p":
            return v if w == 64 else top(w)
        if o in ("bitcast", "freeze", "inttoptr", "ptrtoint", "addrspacecast"):
            return v if width(v) == w else top(w)
        if v[0] == "l":
            return ("l", w, v[2], v[3])                # offsets are small
        t = v[1]
        if o == "trunc":
            return ("b", t[:w])
        return ("b", t + ((0 if o == "zext" else t[-1]),) * (w - len(t)))

    def call(self, i, env, st, depth, fn):
        n = (i.callee or "").split("@")[0]
        args = [self.op(x, env, st, t[1] if t[0] == "i" else 64) for x, t in zip(i.ops, i.srcty or [("p",)] * len(i.ops))]
        if not i.callee and args:
            f, args = args[-1], args[:-1]
            if f[0] == "p" and f[1][0] == "fn":
                n = f[1][1].split("@")[0]
                if f[1][1] in self.mod.fns and n not in self.models:
                    return self.run(self.mod.fns[f[1][1]], args, st, depth + 1)
        if n in self.models:
            r = self.models[n](self, st, args, i)
            return [(s, v, "ret") for s, v in r] if isinstance(r, list) else [(st, r, "ret")]
        if n.startswith("llvm."):
            if n.startswith(("llvm.memcpy", "llvm.memmove")):
                self.copy(st, args[0], args[1], value(args[2]), i)
            elif n.startswith("llvm.memset"):
                self.fill(st, args, i)
            return [(st, None if i.ty == ("v",) else top(i.ty[1] if i.ty[0] == "i" else 64), "ret")]
        if n in ("memcpy", "memmove"):
            self.copy(st, args[0], args[1], value(args[2]), i)
            return [(st, args[0], "ret")]
        if n == "memset":
            self.fill(st, args, i)
            return [(st, args[0], "ret")]
        if n in ("__assert_fail", "abort", "exit", "_exit"):
            return [(st, None, "abort")]
        f = self.mod.fns.get(i.callee)
        if f is not None and not f.vararg:
            return self.run(f, args, st, depth + 1)
        # something else: it may change what it is handed
        if n not in LIBC_RET:
            for a in args:
                if a[0] == "p" and a[1][0] not in ("g", "fn"):
                    self.store(st, ("p", a[1], (("?", 1),), 0), top(8), i)
        return [(st, None if i.ty == ("v",) else top(i.ty[1] if i.ty[0] == "i" else 64), "ret")]

    def fill(self, st, args, i):
        n, v = value(args[2]), args[1]
        if n is None or n > 4096 or args[0][0] != "p":
            self.store(st, ("p", args[0][1], (("?", 1),), 0) if args[0][0] == "p" else args[0], top(8), i)
            return
        for j in range(n):
            self.store(st, self.add(args[0], const(j, 64)), ("b", v[1][:8]) if v[0] == "b" else top(8), i)


sys.setrecursionlimit(10000)
