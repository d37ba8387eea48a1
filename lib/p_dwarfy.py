"""C21: dwarfy data survive the way to unstructured, JSON and YAML form and back (pkg/dwarfy)"""
import re

import gossa
from gossa import NIL, C, mentions
from p_module import subs
from result import Result

KINDS = {"ClassAddress": "uint64", "ClassReferenceSig": "uint64", "ClassReference": "dwarfy.Offset", "ClassConstant": "int64", "ClassLinePtr": "int64",
         "ClassLocListPtr": "int64", "ClassMacPtr": "int64", "ClassRangeListPtr": "int64", "ClassUnknown": "int64", "ClassExprLoc": "[]int", "ClassBlock": "[]int"}
NARROW = {"int8", "uint8", "byte", "int16", "uint16", "float32"}
SMALL = NARROW | {"int32"}


def unbox(e):
    while e[0] in ("mi", "cv"):
        e = e[2]
    return e


def key(e):
    return e[1][3:] if e[0] == "c" and e[1].startswith("#s:") else None


class Dw:
    def __init__(self, prog, r):
        self.prog, self.r = prog, r
        own = {f.short for f in prog.fns.values() if re.search(r"ToUnstructured$|FromUnstructured$|fixValBasedOnClass$|^dwarfy\.New", f.short)}
        self.P = gossa.Paths(prog, opaque=own)
        self.types = sorted(n for n in prog.structs if prog.find("(*%s).ToUnstructured" % n))

    def outs(self, f):
        return self.P.of(f)

    def expand(self, o, e, d=0):
        """contents in place of local variables"""
        if not isinstance(e, tuple) or d > 12:
            return e
        if e and e[0] == "alloc":
            got = o.mem.get(e)
            if got is not None:
                return ("at", self.expand(o, got, d + 1))
            return e
        return tuple(self.expand(o, x, d + 1) if isinstance(x, tuple) else x for x in e)

    # ---- loops over lists
    def loop(self, o):
        """innermost list or map loop the path is in or has left: (collection, element, inside, ordered)"""
        for e, v in reversed(o.facts):
            if e[0] == "bin" and e[1] == "<" and e[3][0] == "call" and e[3][1] == "len":
                i, k = e[2], 0
                if i[0] == "bin" and i[1] == "+" and i[3] == C("#k:1"):
                    i, k = i[2], 1
                if i[0] != "phi":
                    continue
                init = [h[2].get(i[2]) for h in o.heads if i[2] in h[2]]
                ok = bool(init) and init[-1] in (C("#k:0"), C("#k:-1")) and (init[-1] == C("#k:-1")) == (k == 1)
                if o.end == "back" and i[2] in o.nxt[1]:
                    ok = ok and o.nxt[1][i[2]] == ("bin", "+", i, C("#k:1"))
                coll = e[3][2]
                if coll[0] == "slice" and any(x is not None and x != C("#k:0") for x in coll[2:]):
                    ok = False
                return coll, ("ld", ("ia", coll, e[2])), v, ok, i
            if e[0] == "more":
                return e[1], ("elem", e[1]), v, True, None
        return None

    def passes(self, f, outs):
        """every pass over a list hands its element on (or fails); lists are gone through in order"""
        for o in outs:
            lp = self.loop(o)
            if lp is None:
                continue
            coll, el, inside, ok, phi = lp
            w = o.line or f.line
            is_el = lambda t: t == el or el[0] == "ld" and t == el[1]       # noqa: E731
            if not ok:
                self.r.bad("order", "order|%s" % f.short, w, "%s: a list is not gone through from the first to the last element" % f.short)
                continue
            if o.end != "back":
                if inside and o.end == "ret" and o.ret and f.results and f.results[-1] == "error" and o.ret[-1] == NIL:
                    self.r.bad("pass", "pass|%s|stop" % f.short, w, "%s: a list is left before its end without an error" % f.short)
                continue
            self.r.ob("pass", "%s: pass over %s" % (f.short, str(coll)[:120]))
            uses = [x for k, x in o.nxt[1].items() if x[0] == "append"] + [s[1] for s in o.stores if s[1][0] == "append"]
            grown = [x for x in uses if any(mentions(y, is_el) for y in x[2:])]
            blank = [x for x in uses if (("bin", "==", el, NIL), True) in o.facts]
            put = [c for c in o.calls if c[0] == "mapupdate" and (mentions(c[1][2], is_el) or mentions(c[1][1], lambda t: t == ("key", coll)))]
            fix = [c for c in o.calls if c[0].endswith("fixValBasedOnClass") and is_el(c[1][0])]
            if not grown and not put and not fix and not blank:
                self.r.bad("pass", "pass|%s" % f.short, w, "%s: an element of a list is left out" % f.short)
            for x in grown:
                if len(x) != 3:
                    self.r.bad("pass", "pass|%s|twice" % f.short, w, "%s: an element is put in more than once" % f.short)
            for k, x in o.nxt[1].items():
                if x[0] == "call" and x[1] == "append":
                    self.r.bad("order", "order|%s|append" % f.short, w, "%s: an element is not put after those before it" % f.short)
                elif x[0] == "append" and x[1] != ("phi", f.short, k):
                    self.r.bad("pass", "pass|%s|lost" % f.short, w, "%s: the elements before are lost" % f.short)
            for c in put:
                if coll[0] == "range" and not (mentions(c[1][1], lambda t: t == ("key", coll)) and mentions(c[1][2], is_el)):
                    self.r.bad("pass", "pass|%s|key" % f.short, w, "%s: an entry is not put under its own key" % f.short)

    # ---- one struct: written and read
    def written(self, n, f):
        """per path: {key: (value, facts at the time)}"""
        res = []
        for o in self.outs(f):
            if o.end != "ret":
                continue
            m = unbox(o.ret[0])
            w = {}
            for c in o.calls:
                if c[0] == "mapupdate" and c[1][0] == m and key(c[1][1]) is not None:
                    w[key(c[1][1])] = (c[1][2], o.facts[:c[2]], c[3])
            res.append((o, w))
        return res

    def field_of(self, e, recv):
        return {t[1] for t in subs(e) if t[0] == "fa" and t[2] == recv}

    def pair(self, n):
        wf, rf = self.prog.find("(*%s).ToUnstructured" % n), self.prog.find("dwarfy.New%sFromUnstructured" % n.split(".")[-1])
        if rf is None:
            return
        recv = ("p", wf.params[0])
        ws, routs = self.written(n, wf), self.outs(rf)
        wouts = self.outs(wf)
        if not any(w for _, w in ws):
            return
        # values collected by loops: key -> fields of the collections whose elements are put in
        src = {}                                                    # key -> fields it is written from
        vals = {}
        for o, w in ws:
            for k, (v, facts, line) in w.items():
                fs = self.field_of(v, recv)
                for t in subs(v):
                    if t[0] == "phi":
                        for b in wouts:
                            if b.end == "back" and t[2] in b.nxt[1]:
                                fs |= self.field_of(b.nxt[1][t[2]], recv)
                                vals.setdefault(k, []).append(b.nxt[1][t[2]])
                    if t[0] == "new":
                        for b in wouts:
                            for c in b.calls:
                                if c[0] == "mapupdate" and c[1][0] == t:
                                    fs |= self.field_of(c[1][2], recv) | self.field_of(c[1][1], recv)
                                    vals.setdefault(k, []).append(c[1][2])
                src.setdefault(k, set()).update(fs)
                vals.setdefault(k, []).append(v)
        # read side
        dst, mand, types, made, texts = {}, set(), {}, {}, {}
        for o in routs:
            for e, v in o.facts:
                for t in subs(e):
                    if t[0] in ("has", "lk") and key(t[2]) is not None and mentions(t[1], lambda u: u[0] == "p"):
                        dst.setdefault(key(t[2]), set())
                    if t[0] == "is" and t[2][0] == "lk" and key(t[2][2]) is not None:
                        types.setdefault(key(t[2][2]), set()).add(t[1])
            if o.end == "ret" and o.ret[-1] != NIL and o.facts:
                e, v = o.facts[-1]
                if e[0] == "has" and not v and key(e[2]) is not None:
                    mand.add(key(e[2]))
            for ad, val, _, _ in o.stores:
                x = self.expand(o, val)
                if ad[0] == "fa" and ad[2][0] == "alloc":
                    for t in subs(x):
                        if t[0] == "lk" and key(t[2]) is not None:
                            dst.setdefault(key(t[2]), set()).add(ad[1])
                            made.setdefault(key(t[2]), []).append(x)
            for c in o.calls:
                if c[0] == "mapupdate":
                    tgt = c[1][0]
                    fld = {s[0][1] for s in o.stores if s[0][0] == "fa" and s[1] == tgt} | ({tgt[1][1]} if tgt[0] == "ld" and tgt[1][0] == "fa" else set())
                    for t in list(subs(c[1][2])) + list(subs(c[1][1])):
                        if t[0] == "lk" and key(t[2]) is not None:
                            dst.setdefault(key(t[2]), set()).update(fld)
                            made.setdefault(key(t[2]), []).append(c[1][2])
        # pointers to local lists that a loop fills
        for k in list(dst):
            if dst[k]:
                continue
            phis = {p for o in routs if o.end == "back" for p, x in o.nxt[1].items() if x[0] == "append" and mentions(x, lambda t: t[0] == "lk" and key(t[2]) == k)}
            cells = {s[0] for o in routs for s in o.stores if s[0][0] == "alloc" and s[1][0] == "append" and
                     mentions(s[1], lambda t: t[0] == "lk" and key(t[2]) == k)}
            for o in routs:
                for ad, val, _, _ in o.stores:
                    if ad[0] == "fa" and ad[2][0] == "alloc" and (val in cells or mentions(self.expand(o, val), lambda t: t[0] == "phi" and t[2] in phis)):
                        dst[k].add(ad[1])
        w = wf.line
        for k in sorted(set(src) | set(dst)):
            self.r.ob("key", "%s: %s" % (n, k))
            if k not in dst:
                self.r.bad("key", "key|%s|%s|unread" % (n, k), w, "%s: `%s' is written but not read back" % (n, k))
                continue
            if k not in src:
                self.r.bad("key", "key|%s|%s|unwritten" % (n, k), rf.line, "%s: `%s' is read but not written" % (n, k))
                continue
            if src[k] and dst[k] and not (src[k] & dst[k]):
                self.r.bad("field", "field|%s|%s" % (n, k), rf.line, "%s: `%s' is written from %s but read into %s" %
                           (n, k, "/".join(sorted(src[k])), "/".join(sorted(dst[k]))))
            if src[k] and not dst[k]:
                self.r.bad("field", "field|%s|%s|dropped" % (n, k), rf.line, "%s: what is read under `%s' reaches no field" % (n, k))
            # same form on both sides
            forms = {v[1] for o, ww in ws for kk, (v, _, _) in ww.items() if kk == k and v[0] == "mi"}
            if forms and types.get(k) and not (forms <= types[k]):
                self.r.bad("form", "form|%s|%s" % (n, k), rf.line, "%s: `%s' is written as %s but read as %s" % (n, k, "/".join(sorted(forms)), "/".join(sorted(types[k]))))
            wt = {t[1] for v in vals.get(k, ()) for t in subs(v) if t[0] == "call" and t[1].endswith("ToUnstructured")}
            rt = {t[1] for v in made.get(k, ()) for t in subs(v) if t[0] == "call" and t[1].endswith("FromUnstructured")}
            tn = lambda s: re.sub(r"^.*\.(New)?|FromUnstructured$|\)$", "", s.replace(").ToUnstructured", ""))       # noqa: E731
            if wt and rt and {tn(x) for x in wt} != {tn(x) for x in rt}:
                self.r.bad("form", "form|%s|%s|type" % (n, k), rf.line, "%s: elements of `%s' are read back as another type" % (n, k))
            self.numbers(n, k, vals.get(k, ()), made.get(k, ()), w, rf.line)
        fields = {f[0] for f in self.prog.structs[n]}
        for f in sorted(fields):
            self.r.ob("field", "%s.%s" % (n, f))
            if not any(f in x for x in src.values()):
                self.r.bad("field", "field|%s|%s|lost" % (n, f), w, "%s: field %s is not written" % (n, f))
            elif not any(f in x for x in dst.values()):
                self.r.bad("field", "field|%s|%s|unset" % (n, f), rf.line, "%s: field %s is not read back" % (n, f))
        for o, ww in ws:
            for k in src:
                if k in ww:
                    continue
                if k in mand:
                    self.r.bad("mandatory", "mandatory|%s|%s" % (n, k), o.line or w, "%s: `%s' is not always written, but must be there to be read back" % (n, k))
                elif not self.empty(o, src[k], recv):
                    self.r.bad("left out", "out|%s|%s" % (n, k), o.line or w, "%s: `%s' is left out though the field may have a value" % (n, k))
        # reading: with all keys there and well formed, every key that is present is used
        for o in routs:
            if o.end != "ret" or o.ret[-1] != NIL:
                continue
            st = {a for a, _, _, _ in o.stores}
            for e, v in o.facts:
                if e[0] == "has" and v and key(e[2]) in dst and len(dst[key(e[2])]) == 1:
                    fld = next(iter(dst[key(e[2])]))
                    if not any(a[0] == "fa" and a[1] == fld for a in st) and not self.in_loop(routs, fld, o) and not self.elsewhere(routs, key(e[2])):
                        self.r.bad("unset", "unset|%s|%s" % (n, key(e[2])), o.line, "%s: `%s' is present but its field is not set" % (n, key(e[2])))

    def in_loop(self, routs, fld, o):
        return any(s[0][0] == "fa" and s[0][1] == fld for b in routs if b.end == "back" for s in b.stores)

    def elsewhere(self, routs, k):
        return any(c[0] == "mapupdate" and mentions(c[1][2], lambda t: t[0] == "lk" and key(t[2]) == k) for b in routs for c in b.calls)

    def empty(self, o, fs, recv):
        """the path knows that the field is empty"""
        for e, v in o.facts:
            if not (self.field_of(e, recv) & fs):
                continue
            if e[0] == "bin" and e[1] == "==" and e[3] == NIL and v:
                return True
            if e[0] == "bin" and e[1] == "==" and e[3] == C("#k:0") and e[2][:2] == ("call", "len") and v:
                return True
            if e[0] == "bin" and e[1] == "<" and e[2] == C("#k:0") and e[3][:2] == ("call", "len") and not v:
                return True
            if e[0] == "bin" and e[1] == "<" and e[3] == C("#k:1") and e[2][:2] == ("call", "len") and v:
                return True
        return False

    def numbers(self, n, k, ws, rs, wl, rl):
        for v in ws:
            for t in subs(v):
                if t[0] == "cv" and t[1] in SMALL:
                    self.r.bad("number", "number|%s|%s|w" % (n, k), wl, "%s: `%s' is cut to %s when written" % (n, k, t[1]))
                if t[0] == "call" and t[1] == "fmt.Sprintf" and key(t[2]) not in ("%d", "%v", None):
                    self.r.bad("number", "number|%s|%s|fmt" % (n, k), wl, "%s: the number `%s' is written with format %s" % (n, k, key(t[2])))
        for v in rs:
            self.parsed(n, k, v, rl)

    def parsed(self, n, k, v, rl):
        for t in subs(v):
            if t[0] == "cv" and t[1] in SMALL:
                self.r.bad("number", "number|%s|%s|r" % (n, k), rl, "%s: `%s' is cut to %s when read" % (n, k, t[1]))
            if t[0] == "call" and t[1] in ("strconv.ParseInt", "strconv.ParseUint") and len(t) == 5:
                bits = t[4][1][3:] if t[4][0] == "c" else "64"
                if t[3] not in (C("#k:10"), C("#k:0")) or bits.isdigit() and 0 < int(bits) < (33 if t[1].endswith("Int") else 32):
                    self.r.bad("number", "number|%s|%s|parse" % (n, k), rl, "%s: not every number written for `%s' is read back" % (n, k))

    def reference(self):
        """a field whose value is read back as an offset is written in the form offsets are read from"""
        wf, rf = self.prog.find("(*dwarfy.Field).ToUnstructured"), self.prog.find("dwarfy.NewFieldFromUnstructured")
        if wf is None or rf is None:
            return
        recv = ("p", wf.params[0])
        cls = ("ld", ("fa", "Class", recv))
        for o, w in self.written("dwarfy.Field", wf):
            is_ref = [v for e, v in o.facts if e[0] == "bin" and e[1] == "==" and unbox(e[2]) == cls and key(e[3]) == "ClassReference"]
            is_off = [v for e, v in o.facts if e[0] == "is" and e[1] == "dwarfy.Offset" and unbox(e[2]) == ("ld", ("fa", "Val", recv))]
            if "Val" not in w:
                continue
            v = w["Val"][0]
            self.r.ob("form", "Field.Val / reference %s" % is_ref)
            text = v[0] == "mi" and v[1] == "string" or v[:2] == ("call", "(dwarfy.Offset).ToUnstructured")
            if True in is_ref and True in is_off and not text:
                self.r.bad("form", "form|Field|reference", w["Val"][2] or o.line, "Field.ToUnstructured: a reference is not written as the text it is read back from")
            if False in is_ref and v != ("ld", ("fa", "Val", recv)):
                self.r.bad("form", "form|Field|value", w["Val"][2] or o.line, "Field.ToUnstructured: a value that is no reference is not written as it is")
            if not is_ref and (v != ("ld", ("fa", "Val", recv)) and not text or True in is_off) and False not in is_off:
                self.r.bad("form", "form|Field|any", w["Val"][2] or o.line, "Field.ToUnstructured: a value is changed whatever its class")

    def scalar(self):
        """Offset: text <-> number"""
        wf, rf = self.prog.find("(dwarfy.Offset).ToUnstructured"), self.prog.find("dwarfy.NewOffsetFromUnstructured")
        if wf is None or rf is None:
            return
        self.r.ob("key", "dwarfy.Offset")
        forms = set()
        for o in self.outs(wf):
            if o.end == "ret":
                self.numbers("dwarfy.Offset", "offset", [o.ret[0]], [], wf.line, rf.line)
                if o.ret[0][0] == "mi":
                    forms.add(o.ret[0][1])
                if not mentions(o.ret[0], lambda t: t == ("p", wf.params[0])):
                    self.r.bad("field", "field|Offset", wf.line, "an offset is not written from its value")
        for o in self.outs(rf):
            if o.end != "ret":
                continue
            if o.ret[-1] == NIL:
                self.parsed("dwarfy.Offset", "offset", o.ret[0], rf.line)
                got = {t[1] for t in subs(o.ret[0]) if t[0] == "ta"}
                if got and forms and not (forms <= got):
                    self.r.bad("form", "form|Offset", rf.line, "an offset is written as %s but read as %s" % ("/".join(forms), "/".join(got)))
                if not mentions(o.ret[0], lambda t: t[0] == "p"):
                    self.r.bad("field", "field|Offset|read", o.line, "an offset is not read from the value given")
                if any(not v and e[0] == "bin" and e[1] == "==" and e[3] == NIL for e, v in o.facts):
                    self.r.bad("error", "error|Offset", o.line, "a text that is no number is read as an offset")

    def errors(self):
        """success is returned only if every call on the way succeeded"""
        for f in sorted(self.prog.fns.values(), key=lambda f: f.name):
            if not f.results or f.results[-1] != "error":
                continue
            self.r.ob("error", f.short)
            for o in self.outs(f):
                if o.end == "ret" and o.ret[-1] == NIL:
                    for e, v in o.facts:
                        if e[0] == "bin" and e[1] == "==" and e[3] == NIL and not v and e[2][0] == "ext" and e[2][2][0] == "call" and \
                                not e[2][2][1].endswith("Reader).Next"):
                            if self.is_err(e[2]):
                                self.r.bad("error", "error|%s" % f.short, o.line, "%s: success is returned though %s failed" % (f.short, e[2][2][1]))
                        if e[0] == "is" and not v and e[2][0] == "lk" and not any(e2[0] == "is" and v2 and e2[2] == e[2] for e2, v2 in o.facts):
                            self.r.bad("error", "error|%s|type" % f.short, o.line, "%s: a value of the wrong type is passed over" % f.short)
                if o.end == "back":
                    for e, v in o.facts:
                        if e[0] == "bin" and e[1] == "==" and e[3] == NIL and not v and e[2][0] == "ext" and e[2][2][0] == "call" and self.is_err(e[2]):
                            self.r.bad("error", "error|%s|loop" % f.short, f.line, "%s: the failure of %s is passed over" % (f.short, e[2][2][1]))

    def is_err(self, x):
        """an error result (last of its call)"""
        g = next((h for h in self.prog.fns.values() if h.short == x[2][1]), None)
        if g is not None:
            return x[1] == len(g.results) - 1 and g.results[-1] == "error"
        return x[2][1] in ("strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint") and x[1] == 1 or \
            x[2][1].endswith("LineReader") and x[1] == 1

    # ---- values by class
    def classes(self):
        f = self.prog.find("(*dwarfy.Field).fixValBasedOnClass")
        if f is None:
            return
        recv = ("p", f.params[0])
        cls, val = ("ld", ("fa", "Class", recv)), ("ld", ("fa", "Val", recv))
        outs = self.outs(f)
        seen = {}
        for o in outs:
            k = [key(e[3]) for e, v in o.facts if v and e[0] == "bin" and e[1] == "==" and unbox(e[2]) == cls and key(e[3]) is not None]
            t = [e[1] for e, v in o.facts if v and e[0] == "is" and e[2] == val]
            st = [s for s in o.stores if s[0] == ("fa", "Val", recv)]
            w = o.line or f.line
            if not k:
                if st and any(e[0] == "bin" and unbox(e[2]) == cls for e, v in o.facts):
                    if not any(mentions(e, lambda x: x[0] in ("lk", "has")) for e, v in o.facts):
                        self.r.bad("class", "class|other", st[0][3] or w, "fixValBasedOnClass: a value is changed whose class asks for none")
                continue
            want = KINDS.get(k[-1])
            self.r.ob("class", "%s / %s" % (k[-1], "/".join(t)))
            if want is None:
                if st:
                    self.r.bad("class", "class|%s" % k[-1], w, "fixValBasedOnClass: a value of class %s is changed" % k[-1])
                continue
            if not t:
                seen.setdefault(k[-1], set())
                if st:
                    self.r.bad("class", "class|%s|blind" % k[-1], w, "fixValBasedOnClass: a value of class %s is changed whatever its type" % k[-1])
                continue
            seen.setdefault(k[-1], set()).add(t[-1])
            if want == "[]int":
                if o.end == "ret" and st and (st[-1][1][0] != "mi" or st[-1][1][1] not in ("[]int",)):
                    self.r.bad("class", "class|%s|type" % k[-1], w, "fixValBasedOnClass: a value of class %s becomes %s" % (k[-1], st[-1][1][1]))
                if o.end == "ret" and not st and t[-1] in ("[]byte", "[]interface{}"):
                    self.r.bad("class", "class|%s|kept" % k[-1], w, "fixValBasedOnClass: a value of class %s read as %s is not turned into a list of numbers" % (k[-1], t[-1]))
                continue
            if t[-1] == want:
                continue
            if not st:
                self.r.bad("class", "class|%s|kept" % k[-1], w, "fixValBasedOnClass: a value of class %s that came as %s stays so" % (k[-1], t[-1]))
                continue
            v = st[-1][1]
            if v[0] != "mi" or v[1] != want:
                self.r.bad("class", "class|%s|type" % k[-1], w, "fixValBasedOnClass: a value of class %s becomes %s instead of %s" % (k[-1], v[1] if v[0] == "mi" else "?", want))
                continue
            wide = {"uint64": {"uint64"}, "int64": {"int64", "int"}, "dwarfy.Offset": {"dwarfy.Offset", "uint32", "uint64", "int64", "int", "uint", "dwarf.Offset", "debug/dwarf.Offset"}}[want]
            for x in subs(v):
                if x[0] == "cv" and x[1] not in wide | {"float64"} and not (want == "uint64" and x[1] in ("int64", "int", "uint") and t[-1] == "int"):
                    self.r.bad("class", "class|%s|cut" % k[-1], w, "fixValBasedOnClass: a value of class %s passes through %s" % (k[-1], x[1]))
            if unbox(v) != ("ta", t[-1], val):
                self.r.bad("class", "class|%s|value" % k[-1], w, "fixValBasedOnClass: a value of class %s is not converted from itself" % k[-1])
        if seen:
            for k in sorted(KINDS):
                self.r.ob("class", k)
                need = {"[]int": {"[]byte", "[]interface{}"}}.get(KINDS[k], {"float64", "int"})
                if k == "ClassReference":
                    need = need | {"dwarf.Offset"}
                if k not in seen:
                    self.r.bad("class", "class|%s|none" % k, f.line, "fixValBasedOnClass: values of class %s are not brought to their type" % k)
                elif need - seen[k]:
                    self.r.bad("class", "class|%s|%s" % (k, "".join(sorted(need - seen[k]))), f.line,
                               "fixValBasedOnClass: a value of class %s that came as %s stays so" % (k, "/".join(sorted(need - seen[k]))))
        for o in outs:
            if o.end != "back":
                continue
            lp = self.loop(o)
            if lp is None:
                continue
            for k, x in o.nxt[1].items():
                if x[0] == "append" and (len(x) != 3 or any(t[0] == "cv" and t[1] in NARROW for t in subs(x[2]))):
                    self.r.bad("class", "class|block", f.line, "fixValBasedOnClass: a byte of a block is changed")
            put = [x for x in o.nxt[1].values() if x[0] == "append"] + [s for s in o.stores if s[1][0] == "append" or mentions(s[1], lambda t: t in (lp[1], lp[1][1]))]
            if not put and not self.element_types(f, o, lp):
                self.r.bad("class", "class|block|left", f.line, "fixValBasedOnClass: a byte of a block is left out")

    def element_types(self, f, o, lp):
        """a loop over untyped elements may pass over those of a type that no decoder makes"""
        t = [e[1] for e, v in o.facts if e[0] == "is" and e[2] == lp[1] and not v]
        yes = [e[1] for e, v in o.facts if e[0] == "is" and e[2] == lp[1] and v]
        return not yes and {"int", "float64"} <= set(t)

    def ready(self):
        """whoever makes a field or reads data in brings the values to their types before handing them out"""
        for n in ("NewField", "NewFieldFromUnstructured", "NewDataFromJsonBuffer", "NewDataFromYamlBuffer"):
            f = self.prog.find("dwarfy." + n)
            if f is None:
                continue
            self.r.ob("ready", n)
            for o in self.outs(f):
                if o.end == "ret" and o.ret[-1] == NIL:
                    fix = [c for c in o.calls if c[0].endswith("fixValBasedOnClass") and c[1][0] == o.ret[0]]
                    if not fix:
                        self.r.bad("ready", "ready|" + n, o.line, "%s: values are handed out that were not brought to the types of their classes" % n)
                if n.endswith("Buffer") and o.end == "ret":
                    un = [c for c in o.calls if c[0].endswith("Unmarshal") or c[0].endswith("Decode")]
                    want = "json" if "Json" in n else "yaml"
                    if un and want not in un[0][0]:
                        self.r.bad("ready", "ready|%s|codec" % n, o.line, "%s: decodes with %s" % (n, un[0][0]))
                    if o.ret[-1] == NIL and un and not any(v and e[0] == "bin" and e[1] == "==" and e[2][:1] == ("call",) and e[3] == NIL for e, v in o.facts):
                        self.r.bad("ready", "ready|%s|error" % n, o.line, "%s: success is returned though the text may not have been readable" % n)
        for n, m in (("ToJsonBuffer", "json"), ("ToYamlBuffer", "yaml")):
            f = self.prog.find("(*dwarfy.Data).%s" % n)
            if f is None:
                continue
            for o in self.outs(f):
                self.r.ob("ready", n)
                mc = [c for c in o.calls if "Marshal" in c[0]]
                if mc and (m not in mc[0][0] or not mentions(mc[0][1], lambda t: t == ("p", f.params[0]))):
                    self.r.bad("ready", "ready|" + n, o.line, "%s: does not write the data given as %s" % (n, m))

    def sources(self):
        """NewField, NewEntry: every part of the debug entry is taken over"""
        f = self.prog.find("dwarfy.NewField")
        if f is not None:
            p = ("p", f.params[0])
            for o in self.outs(f):
                if o.end != "ret" or o.ret[-1] != NIL:
                    continue
                for name in ("Attr", "Val", "Class"):
                    self.r.ob("source", "NewField: " + name)
                    st = [s[1] for s in o.stores if s[0] == ("fa", name, o.ret[0])]
                    if st and self.field_of(st[-1], p) != {name} or not st:
                        self.r.bad("source", "source|NewField|" + name, o.line, "NewField: %s is not taken from the debug data" % name)
        f = self.prog.find("dwarfy.NewEntry")
        if f is not None and len(f.params) == 2:
            p = ("p", f.params[1])
            for o in self.outs(f):
                if o.end == "ret" and o.ret[-1] == NIL:
                    self.r.ob("source", "NewEntry: Tag")
                    st = [s[1] for s in o.stores if s[0] == ("fa", "Tag", o.ret[0])]
                    if not st or self.field_of(st[-1], p) != {"Tag"}:
                        self.r.bad("source", "source|NewEntry|Tag", o.line, "NewEntry: the tag is not taken from the debug data")
                    cu = [v for e, v in o.facts if e[0] == "bin" and e[1] == "==" and self.field_of(e[2], p) == {"Tag"}]
                    files = any(s[0] == ("fa", "DeclFiles", o.ret[0]) for s in o.stores)
                    unit = [e[3] for e, v in o.facts if e[0] == "bin" and e[1] == "==" and self.field_of(e[2], p) == {"Tag"}]
                    if cu and (cu[-1] != files or unit[-1][0] == "c" and unit[-1][1].startswith("#k:") and unit[-1] != C("#k:%d" % 0x11)):
                        self.r.bad("source", "source|NewEntry|DeclFiles", o.line, "NewEntry: the files of a compile unit are not taken over")

    def tags(self):
        for n in self.types:
            seen = {"json": {}, "yaml": {}}
            for name, typ, tag in self.prog.structs[n]:
                self.r.ob("tag", "%s.%s" % (n, name))
                got = {}
                for m in ("json", "yaml"):
                    x = re.search(r'%s:"([^"]*)"' % m, tag)
                    p = x.group(1).split(",") if x else [""]
                    got[m] = p[0]
                    label = p[0] or (name.lower() if m == "yaml" else name)
                    if p[0] == "-":
                        self.r.bad("tag", "tag|%s|%s" % (n, name), n, "%s: field %s is not part of the %s form" % (n, name, m))
                    if label in seen[m]:
                        self.r.bad("tag", "tag|%s|%s|twice" % (n, name), n, "%s: fields %s and %s have the same name in %s" % (n, seen[m][label], name, m))
                    seen[m][label] = name
                if got["json"] != got["yaml"]:
                    self.r.bad("tag", "tag|%s|%s|differ" % (n, name), n, "%s: field %s has different names in JSON and YAML" % (n, name))


def check(pid, tier):
    r = Result("pkg/dwarfy, type-checked and in SSA form: every path of the conversions to and from unstructured, JSON and YAML form, of the conversion of values by class, "
               "and of the constructors; the structs' tags",
               "every field is written under a key from which it is read back, in the same form; a key is left out only for an empty field; every pass over a list hands its "
               "element on; each class's values end in the class's Go type whatever decoder made them; failures are not passed over")
    try:
        prog = gossa.load(["./pkg/dwarfy"])
        d = Dw(prog, r)
        r.count("functions", len(prog.fns))
        for n in d.types:
            d.pair(n)
        for f in sorted(prog.fns.values(), key=lambda f: f.name):
            if f.short in d.P.opaque and f.short not in ("dwarfy.NewData", "(*dwarfy.Field).fixValBasedOnClass"):
                d.passes(f, d.outs(f))
        d.scalar()
        d.reference()
        d.errors()
        d.classes()
        d.ready()
        d.sources()
        d.tags()
    except gossa.Broken as e:
        r.need("loaded: " + str(e), 1)
        return r
    r.need("key", 1)
    return r
