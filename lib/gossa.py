"""Go packages of /repo as SSA (exporter in ../gossa, built anew) and value numbering along their paths.

One path = entry to return; a loop is passed once with the values it changes unknown; the path ends when it comes back to the
loop's head (end "back") or leaves the function. Calls of loop-free functions of the same packages are replaced by their paths."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIMIT = 60000


class Broken(Exception):
    pass


def load(pkgs, stubs=None):
    """SSA of the packages (paths below the repository)"""
    tmp = tempfile.mkdtemp(prefix="gossa")
    try:
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GONOSUMDB="*", GOTOOLCHAIN="local", GOWORK="off",
                   GOCACHE=os.environ.get("GOCACHE", os.path.join(tmp, "cache")))
        src = os.path.join(tmp, "src")
        shutil.copytree(os.path.join(HERE, "gossa"), src)
        exe = os.path.join(tmp, "gossa")
        p = subprocess.run(["go", "build", "-o", exe, "."], cwd=src, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise Broken("gossa does not build: " + p.stderr[-400:])
        repo = os.path.join(tmp, "repo")                     # go commands may rewrite go.mod: work on a copy of the Go sources
        os.makedirs(repo)
        for d, ds, fs in os.walk(REPO):
            ds[:] = [x for x in ds if x not in (".git", "_results", "testdata")]
            for f in fs:
                if f.endswith(".go") or d == REPO and f in ("go.mod", "go.sum"):
                    to = os.path.join(repo, os.path.relpath(d, REPO))
                    os.makedirs(to, exist_ok=True)
                    shutil.copy(os.path.join(d, f), os.path.join(to, f))
        for name, text in (stubs or {}).items():
            d = os.path.join(tmp, "stub", name)
            os.makedirs(d)
            with open(os.path.join(d, "stub.go"), "w") as f:
                f.write(text)
            with open(os.path.join(d, "go.mod"), "w") as f:
                f.write("module %s\n" % name)
            with open(os.path.join(repo, "go.mod"), "a") as f:
                f.write("\nreplace %s => %s\n" % (name, d))
        p = subprocess.run([exe, repo] + pkgs, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise Broken("packages cannot be loaded: " + p.stderr[-400:])
        d = json.loads(p.stdout.replace(repo + "/", ""))
        if d["errors"]:
            raise Broken("packages cannot be loaded: " + "; ".join(d["errors"])[-400:])
        return Prog(d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Prog:
    def __init__(self, d):
        self.fns = {f["name"]: Fn(self, f) for f in d["fns"] or []}
        self.structs = {s["name"]: s["fields"] for s in d["structs"] or []}

    def find(self, name):
        """function by its name without the package path: pkg.F, (*pkg.T).M"""
        for f in self.fns.values():
            if f.short == name:
                return f
        return None


def short(n):
    """package path -> package name"""
    i = n.rfind("/")
    if i < 0:
        return n
    pre = ""
    for c in n:
        if c in "(*":
            pre += c
        else:
            break
    return pre + n[i + 1:]


class Fn:
    def __init__(self, prog, f):
        self.prog, self.name, self.short, self.pkg = prog, f["name"], short(f["name"]), f["pkg"]
        self.params, self.ptypes, self.results, self.line = f["params"] or [], f["ptypes"] or [], f["results"] or [], f["line"]
        self.blocks, self.free = f["blocks"], f.get("free") or []
        self.consts = f["consts"]
        self.heads()

    def heads(self):
        """loop heads = targets of back edges of a depth-first walk (go/ssa is reducible); bodies"""
        col, self.head, back = {}, set(), []
        st = [(0, iter(self.blocks[0]["succ"]))]
        col[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if s not in col:
                    col[s] = 1
                    st.append((s, iter(self.blocks[s]["succ"])))
                    break
                if col[s] == 1:
                    self.head.add(s)
                    back.append((b, s))
            else:
                col[b] = 2
                st.pop()
        self.body = {h: {h} for h in self.head}
        for b, h in back:
            w = [b]
            while w:
                x = w.pop()
                if x not in self.body[h]:
                    self.body[h].add(x)
                    w += self.blocks[x]["pred"]


class Out:
    pass


def C(x):
    return ("c", x)


def S(x):
    return ("c", "#s:" + x)


NIL, TRUE, FALSE = C("#nil"), C("#k:true"), C("#k:false")


def mentions(e, f):
    if not isinstance(e, tuple):
        return False
    return bool(e and isinstance(e[0], str) and f(e)) or any(mentions(x, f) for x in e)


def root(a):
    while isinstance(a, tuple) and a[0] in ("fa", "ia"):
        a = a[2] if a[0] == "fa" else a[1]
    return a


def fact(e, v):
    """normal form of `e is v'"""
    while True:
        if e[0] == "un" and e[1] == "!":
            e, v = e[2], not v
        elif e[0] == "bin" and e[1] == "!=":
            e, v = ("bin", "==", e[2], e[3]), not v
        elif e[0] == "bin" and e[1] in ("==",) and e[3] in (TRUE, FALSE):
            e, v = e[2], v == (e[3] == TRUE)
        elif e[0] == "bin" and e[1] in (">", ">="):
            e = ("bin", {">": "<", ">=": "<="}[e[1]], e[3], e[2])
        elif e[0] == "bin" and e[1] == "<=":
            e, v = ("bin", "<", e[3], e[2]), not v
        else:
            break
    if e[0] == "bin" and e[1] == "==" and e[2][0] == "c" and e[3][0] != "c":
        e = ("bin", "==", e[3], e[2])
    return e, v


class Paths:
    """all paths of a function"""

    def __init__(self, prog, inline=True, opaque=()):
        self.prog, self.inline, self.opaque = prog, inline, set(opaque)
        self.n = 0

    def can_inline(self, name, depth):
        f = self.prog.fns.get(name)
        return f if self.inline and f is not None and not f.head and depth < 4 and f.short not in self.opaque and not f.free and len(f.blocks) < 60 else None

    def of(self, fn, args=None):
        self.n = 0
        st = {"v": {}, "m": {}, "f": [], "c": [], "s": [], "h": []}
        for k, p in enumerate(fn.params):
            st["v"][p] = args[k] if args else ("p", p)
        for p in fn.free:
            st["v"][p] = ("free", p)
        return self.walk(fn, 0, None, st, {}, 0, "")

    def copy(self, st):
        return {"v": dict(st["v"]), "m": dict(st["m"]), "f": list(st["f"]), "c": list(st["c"]), "s": list(st["s"]), "h": list(st["h"])}

    def out(self, st, end, ret=None, nxt=None, line=""):
        o = Out()
        o.facts, o.calls, o.stores, o.ret, o.end, o.nxt, o.line, o.heads, o.mem = st["f"], st["c"], st["s"], ret, end, nxt, line, st["h"], st["m"]
        return o

    def val(self, st, fn, a):
        if a in st["v"]:
            return st["v"][a]
        if a[:1] in "#@$!":
            return ("c", a)
        return ("undef", a)

    def walk(self, fn, b, pred, st, seen, depth, tag):
        """outcomes from block b on"""
        self.n += 1
        if self.n > LIMIT:
            raise Broken("%s: too many paths" % fn.short)
        blk = fn.blocks[b]
        if b in fn.head:
            if b in seen:
                nxt = {}
                for i in blk["ins"]:
                    if i["op"] == "Phi":
                        nxt[i["id"]] = self.val(st, fn, i["args"][blk["pred"].index(pred)])
                return [self.out(st, "back", nxt=(b, nxt))]
            seen = dict(seen)
            seen[b] = 1
            st["h"].append((fn.short, b, {i["id"]: self.val(st, fn, i["args"][blk["pred"].index(pred)]) for i in blk["ins"] if i["op"] == "Phi"} if pred is not None else {}))
            # what the loop writes is unknown from here on
            for x in fn.body[b]:
                for i in fn.blocks[x]["ins"]:
                    if i["op"] == "Store":
                        r = self.static_root(fn, i["args"][0])
                        self.havoc(st, st["v"].get(r), ("loop", fn.short + tag, b))
                    elif i["op"] in ("Call", "Defer", "Go"):
                        for a in i["args"]:
                            r = self.static_root(fn, a)
                            if st["v"].get(r, ("",))[0] == "alloc":
                                self.havoc(st, st["v"].get(r), ("loop", fn.short + tag, b))
            for i in blk["ins"]:
                if i["op"] == "Phi":
                    st["v"][i["id"]] = ("phi", fn.short + tag, i["id"])
        else:
            vs = {}
            for i in blk["ins"]:
                if i["op"] == "Phi":
                    vs[i["id"]] = self.val(st, fn, i["args"][blk["pred"].index(pred)])
            st["v"].update(vs)
        return self.run(fn, b, 0, st, seen, depth, tag)

    def static_root(self, fn, a):
        for _ in range(20):
            for bl in fn.blocks:
                for i in bl["ins"]:
                    if i.get("id") == a:
                        if i["op"] in ("FieldAddr", "IndexAddr", "Slice", "ChangeType", "MakeInterface"):
                            a = i["args"][0]
                            break
                        return a
                else:
                    continue
                break
            else:
                return a
        return a

    def havoc(self, st, r, mark):
        if r is None:
            return
        r = root(r)
        st["m"] = {k: v for k, v in st["m"].items() if root(k) != r and not (r[0] != "alloc" and root(k)[0] != "alloc")}
        st["m"][("ver", r)] = mark

    def load(self, st, a):
        if a in st["m"]:
            return st["m"][a]
        # a whole struct written, a field read
        if a[0] == "fa" and st["m"].get(a[2]) == ("c", "#zero"):
            return ("zero", a)
        if a[0] == "fa" and a[2] in st["m"]:
            return ("f", a[1], st["m"][a[2]])
        r = root(a)
        parts = {k[1]: v for k, v in st["m"].items() if k[0] == "fa" and k[2] == a}
        if parts and r[0] == "alloc":
            return ("struct", a) + tuple(sorted(parts.items()))
        v = st["m"].get(("ver", r))
        if r[0] == "alloc" and v is None:
            return ("zero", a)
        return ("ld", a) if v is None else ("ld", a, v)

    def run(self, fn, b, k, st, seen, depth, tag):
        blk = fn.blocks[b]
        g = lambda a: self.val(st, fn, a)                      # noqa: E731
        while k < len(blk["ins"]):
            i = blk["ins"][k]
            k += 1
            op, a, d = i["op"], i["args"], i.get("id")
            if op == "Phi" or op == "DebugRef":
                continue
            if op == "Return":
                return [self.out(st, "ret", ret=tuple(g(x) for x in a), line=i.get("line", ""))]
            if op == "Panic":
                return [self.out(st, "panic", line=i.get("line", ""))]
            if op == "Jump":
                return self.walk(fn, blk["succ"][0], b, st, seen, depth, tag)
            if op == "If":
                c = g(a[0])
                res = []
                for v, s in ((True, blk["succ"][0]), (False, blk["succ"][1])):
                    e, w = fact(c, v)
                    if e in (TRUE, FALSE):
                        if (e == TRUE) != w:
                            continue
                        res += self.walk(fn, s, b, self.copy(st), seen, depth, tag)
                        continue
                    if (e, not w) in st["f"] or self.impossible(st["f"], e, w):
                        continue
                    st2 = self.copy(st)
                    if (e, w) not in st2["f"]:
                        st2["f"].append((e, w))
                    res += self.walk(fn, s, b, st2, seen, depth, tag)
                return res
            if op == "Alloc":
                st["v"][d] = ("alloc", fn.short + tag, d)
                if b in set().union(*fn.body.values()) if fn.body else False:
                    st["m"] = {m: v for m, v in st["m"].items() if root(m) != st["v"][d]}
            elif op == "Store":
                ad, v = g(a[0]), g(a[1])
                st["m"] = {m: x for m, x in st["m"].items() if not (m[0] == "fa" and m[2] == ad)}
                if root(ad)[0] not in ("alloc",):
                    # another pointer may name the same place: forget loads of the same field
                    st["m"] = {m: x for m, x in st["m"].items() if m == ad or m[0] != "fa" or ad[0] != "fa" or m[1] != ad[1] or root(m)[0] == "alloc"}
                if v[0] == "struct":
                    for fl, x in v[2:]:
                        st["m"][("fa", fl, ad)] = x
                        st["s"].append((("fa", fl, ad), x, len(st["f"]), i.get("line", "")))
                else:
                    st["m"][ad] = v
                    st["s"].append((ad, v, len(st["f"]), i.get("line", "")))
            elif op == "MapUpdate":
                st["c"].append(("mapupdate", (g(a[0]), g(a[1]), g(a[2])), len(st["f"]), i.get("line", ""), None))
            elif op == "UnOp":
                x = g(a[0])
                if i.get("sub") == "*":
                    st["v"][d] = self.load(st, x)
                elif i.get("sub") == "!" and x in (TRUE, FALSE):
                    st["v"][d] = FALSE if x == TRUE else TRUE
                else:
                    st["v"][d] = ("un", i.get("sub"), x)
            elif op == "BinOp":
                st["v"][d] = self.binop(i["sub"], g(a[0]), g(a[1]))
            elif op == "FieldAddr":
                st["v"][d] = ("fa", i["sub"], g(a[0]))
            elif op == "Field":
                x = g(a[0])
                if x[0] == "struct":
                    st["v"][d] = dict(x[2:]).get(i["sub"], ("zero", ("fa", i["sub"], x[1])))
                else:
                    st["v"][d] = ("f", i["sub"], x) if x[0] != "ld" or len(x) > 2 else ("ld", ("fa", i["sub"], x[1]))
            elif op == "IndexAddr":
                st["v"][d] = ("ia", g(a[0]), g(a[1]))
            elif op == "Extract":
                x = g(a[0])
                st["v"][d] = x[1 + i.get("n", 0)] if x[0] == "tuple" else ("ext", i.get("n", 0), x)
            elif op == "TypeAssert":
                x = g(a[0])
                if x[0] == "mi":
                    same = x[1] == i["aux"]
                    if i.get("ok"):
                        st["v"][d] = ("tuple", x[2], TRUE) if same else ("ext2", i["aux"], x)
                        if not same:
                            st["v"][d] = ("tuple", ("zero", x), FALSE) if not i["aux"].startswith("interface") else ("tuple", x, TRUE)
                    else:
                        st["v"][d] = x[2] if same else ("ta", i["aux"], x)
                elif i.get("ok"):
                    st["v"][d] = ("tuple", ("ta", i["aux"], x), ("is", i["aux"], x))
                else:
                    st["v"][d] = ("ta", i["aux"], x)
            elif op == "MakeInterface":
                st["v"][d] = ("mi", i["aux"], g(a[0]))
            elif op in ("Convert", "ChangeType", "MultiConvert"):
                x = g(a[0])
                st["v"][d] = ("cv", i["type"], x, i.get("aux", "")) if x[0] != "c" or op == "Convert" else x
            elif op == "ChangeInterface":
                st["v"][d] = g(a[0])
            elif op == "Lookup":
                x = ("lk", g(a[0]), g(a[1]))
                st["v"][d] = ("tuple", x, ("has", g(a[0]), g(a[1]))) if i.get("ok") else x
            elif op == "Call":
                r = self.call(fn, b, k, i, st, seen, depth, tag)
                if r is not None:
                    return r
            elif op in ("Defer", "Go", "RunDefers", "Send"):
                st["c"].append((op.lower() + " " + i.get("sub", ""), tuple(g(x) for x in a), len(st["f"]), i.get("line", ""), None))
            elif op == "Range":
                st["v"][d] = ("range", g(a[0]))
            elif op == "Next":
                st["v"][d] = ("tuple", ("more", g(a[0])), ("key", g(a[0])), ("elem", g(a[0])))
            elif op == "Slice":
                x = g(a[0])
                st["v"][d] = ("slice",) + tuple(g(y) if y else None for y in a)
                if x[0] == "alloc":                            # slice of a local array: its elements as stored so far
                    els = {m[2]: v for m, v in st["m"].items() if m[0] == "ia" and m[1] == x}
                    if els:
                        st["v"][d] = ("list",) + tuple(els[e] for e in sorted(els, key=str))
                    else:
                        sub = {}
                        for m, v in st["m"].items():
                            if m[0] == "fa" and m[2][0] == "ia" and m[2][1] == x:
                                sub.setdefault(m[2][2], {})[m[1]] = v
                        if sub:
                            st["v"][d] = ("list",) + tuple(("struct", ("ia", x, e)) + tuple(sorted(sub[e].items())) for e in sorted(sub, key=str))
            elif op in ("MakeMap", "MakeSlice", "MakeChan"):
                st["v"][d] = ("new", op, fn.short + tag, d)
            elif op == "MakeClosure":
                st["v"][d] = ("closure", a[0]) + tuple(g(x) for x in a[1:])
            else:
                st["v"][d] = ("op", op, i.get("sub", "")) + tuple(g(x) for x in a)
        return [self.out(st, "end")]

    def impossible(self, facts, e, w):
        """e is w contradicts an equality with another constant, or a type already known"""
        if w and e[0] == "bin" and e[1] == "==" and e[3][0] == "c":
            return any(v and f[0] == "bin" and f[1] == "==" and f[2] == e[2] and f[3][0] == "c" and f[3] != e[3] for f, v in facts)
        if w and e[0] == "is":
            return any(v and f[0] == "is" and f[2] == e[2] and f[1] != e[1] for f, v in facts)
        return False

    def binop(self, op, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if op == "==":
                return TRUE if x == y else FALSE
            if op == "!=":
                return FALSE if x == y else TRUE
            if op == "+" and x.startswith("#s:") and y.startswith("#s:"):
                return S(x[3:] + y[3:])
        if op in ("==", "!="):
            for u, v in ((a, b), (b, a)):
                if v == NIL and (u[0] in ("alloc", "mi", "new", "list", "closure") or u[0] == "call" and u[1] in ("fmt.Errorf", "errors.New")):
                    return FALSE if op == "==" else TRUE
        if op == "+":                                            # strings: flat concatenation
            xs = (a[1:] if a[0] == "cat" else (a,)) + (b[1:] if b[0] == "cat" else (b,))
            if any(x[0] == "c" and x[1].startswith("#s:") for x in xs) or a[0] == "cat" or b[0] == "cat":
                return ("cat",) + xs
        return ("bin", op, a, b)

    def call(self, fn, b, k, i, st, seen, depth, tag):
        sub, d = i.get("sub", ""), i.get("id")
        args = tuple(self.val(st, fn, x) for x in i["args"])
        f = self.can_inline(sub, depth)
        if f is not None and not sub.startswith("closure"):
            res = []
            inner = {"v": dict(zip(f.params, args)), "m": dict(st["m"]), "f": list(st["f"]), "c": list(st["c"]), "s": list(st["s"]), "h": list(st["h"])}
            # values of the callee's own names; addresses are told apart by the call's tag
            for o in self.walk(f, 0, None, inner, {}, depth + 1, tag + "/" + fn.short + ":" + str(d or k)):
                if o.end != "ret":
                    res.append(o)
                    continue
                st2 = {"v": dict(st["v"]), "m": dict(o.mem), "f": list(o.facts), "c": list(o.calls), "s": list(o.stores), "h": list(o.heads)}
                if d:
                    st2["v"][d] = o.ret[0] if len(o.ret) == 1 else ("tuple",) + o.ret
                res += self.run(fn, b, k, st2, seen, depth, tag)
            return res
        name = sub[8:] if sub.startswith("builtin ") else short(sub)
        v = ("call", name) + tuple(("at", st["m"][a], a) if a[0] == "alloc" and a in st["m"] and st["m"][a] != ("c", "#zero") else a for a in args)
        if name == "append" and len(args) == 2 and args[1][0] == "list":
            v = ("append", args[0]) + args[1][1:]
        st["c"].append((name, args, len(st["f"]), i.get("line", ""), v))
        for a in args:                                           # what is handed over may be changed
            while a[0] in ("mi", "cv"):
                a = a[2]
            if root(a)[0] == "alloc" and not sub.startswith("builtin "):
                self.havoc(st, a, ("by", v))
            elif a[0] in ("ld", "p", "ta", "ext", "cv") and sub in self.prog.fns and i["args"]:
                f = self.prog.fns[sub]
                n = args.index(a) if a in args else 99
                if n < len(f.ptypes) and f.ptypes[n].startswith("*"):
                    self.havoc(st, a, ("by", v))
        if d:
            st["v"][d] = v
        return None
