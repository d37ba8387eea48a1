"""Where does a pointer come from?  Whole-library, flow-insensitive points-to sets with field-based memory.

labels:  ENTRY   reached from a type description (metadata)
         DESC    memory described by a value (its data address and everything pointers found there lead to)
         USER    handed in by the caller with an untyped pointer
         LIB     an object of the library handed in by the caller
         ("V", fn, k) value handed in as parameter k, ("D", fn, k) memory that value describes
         ("H", where, callee)  memory from a C allocator called directly
         ("I", where)          result of a function pointer
         ("L", fn, id) local variable, ("G", name) static object, ("F", name) function, ("P", fn, k) function pointer parameter
         ("A", struct, offset) address of that field (used to find the contents)
"""
import ir

ALLOC = {"malloc", "calloc", "realloc", "strdup", "strndup", "aligned_alloc", "dsprintf", "dsprintf64", "vdsprintf"}
META = ("metac_entry_t", "struct metac_entry", "metac_db_t", "struct metac_db", "metac_entry_db")
MEMW = ("llvm.memcpy", "llvm.memmove", "llvm.memset", "memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strncat",
        "sprintf", "snprintf", "vsprintf", "vsnprintf", "stpcpy", "bzero", "qsort", "strtok", "strtok_r", "gets", "fgets", "read",
        "fread", "sscanf", "explicit_bzero", "bcopy", "memccpy", "mempcpy", "strsep", "swab")
# constructor of a value -> which argument gives the memory it describes
NEWVAL = {"metac_new_value": (1,), "metac_new_value_from_value": (0,), "metac_new_value_by_element_id": (0,),
          "metac_new_value_by_member_id": (0,), "metac_new_element_count_value": (0,), "metac_value_walker_new_value": (0,),
          "metac_parameter_storage_new_param_value": ()}
SAME = ("memchr", "strchr", "strrchr", "strstr", "strpbrk", "strtok", "strtok_r", "strsep", "rawmemchr", "strchrnul")


def first_struct(mod, i):
    """(struct, offset of the selected field in it) of an address computation"""
    off, var, path, srcty = i.gep
    base = None
    tot = 0
    for s, k in path:
        if s == "[]":
            if base is None or k is None:
                continue
            continue
        if base is None or (s.startswith("struct.") and not s.startswith("struct.anon") and not s.startswith("union.")):
            if base is None or not s.startswith(("struct.anon", "union.")):
                base, tot = s, 0
        tot += mod.structs[s][k][0]
    if base is None:
        return None
    return base, tot


class Prov:
    def __init__(self, mod=None):
        self.mod = mod or ir.load_module(inline=lambda n, internal, info: internal)
        self.sigs = ir.signatures()
        self.pub = ir.public_functions()
        L = ir.layouts()
        self.addr_off = L["metac_value"]["addr"][0]
        self.ent_off = L["metac_value"]["p_entry"][0]
        self.S = {}
        self.seeds()
        self.solve()

    def put(self, k, labs):
        s = self.S.get(k)
        if s is None:
            s = self.S[k] = set()
        n = len(s)
        s |= labs
        if len(s) != n:
            self.changed = True

    def get(self, k):
        return self.S.get(k, frozenset())

    def of(self, fn, op):
        t = op[0]
        if t == "i":
            return self.get(("i", fn.name, op[1]))
        if t == "a":
            return self.get(("a", fn.name, op[1]))
        if t == "g":
            return {("G", op[1])}
        if t == "fn":
            return {("F", op[1])}
        if t == "cg":
            return self.of(fn, op[1])
        return frozenset()

    def typed(self, t):
        t = t.replace("const ", "").strip()
        if not t.endswith("*") and "(*" not in t:
            return frozenset()
        if "(*" in t:
            return {"FNP"}
        b = t.rstrip("* ").strip()
        if b in META:
            return {"ENTRY"}
        if b in ("void", "char", "unsigned char", "metac_name_t", "int", "metac_flag_t", "size_t", "metac_num_t", "metac_encoding_t",
                 "metac_size_t", "metac_kind_t") or b.endswith("int") or b.endswith("long") or "char" in b or b.startswith("metac_bound"):
            return {"USER"}
        return {"LIB"}

    def seeds(self):
        taken = set()
        for fn in self.mod.fns.values():
            for b in fn.blocks:
                for i in b.ins:
                    if i.op == "call" and (i.callee or "").startswith("hashmap"):
                        continue                     # called back with what the map holds
                    for o in i.ops:
                        if o[0] == "fn":
                            taken.add(o[1])

        def inits(o):
            if o and o[0] == "fn":
                taken.add(o[1])
            elif o and o[0] == "agg":
                for x in o[1:]:
                    inits(x)
        for g in self.mod.globals.values():
            inits(g.init)
        for fn in self.mod.fns.values():
            n = fn.name.split("@")[0]
            if n in self.sigs and (n in self.pub or not fn.internal or fn.name in taken):
                for k, t in enumerate(self.sigs[n][1]):
                    labs = self.typed(t)
                    if t in ("metac_name_t", "metac_value_event_handler_t"):
                        labs = {"USER"}
                    if "FNP" in labs:
                        labs = {("P", fn.name, k)}
                    if labs == {"LIB"} and t.replace("const ", "").replace("struct ", "").replace(" ", "") in ("metac_value_t*", "metac_value*"):
                        labs = {"LIB", ("V", fn.name, k)}
                    if labs:
                        self.S[("a", fn.name, k)] = set(labs)

    # ------------------------------------------------ memory
    def cells(self, labs):
        """memory cells a pointer with these labels designates"""
        a = [l for l in labs if isinstance(l, tuple) and l[0] == "A"]
        if a:
            return a
        return [("O", l) for l in labs if isinstance(l, tuple) and l[0] in ("L", "H", "G", "I")]

    def read(self, labs):
        out = set()
        for l in labs:
            if l in ("ENTRY", "DESC"):
                out.add(l)
            elif l == "USER":
                out.add("USER")
            elif l == "LIB" and not any(isinstance(x, tuple) and x[0] == "A" for x in labs):
                out.add("LIB")
            elif isinstance(l, tuple) and l[0] == "I":
                out.add(l)
            elif isinstance(l, tuple) and l[0] == "A" and l[1] == "struct.metac_value":
                if l[2] == self.addr_off:
                    return self.data(labs)
                if l[2] == self.ent_off:
                    return {"ENTRY"}
        for c in self.cells(labs):
            out |= self.get(c)
        return out

    def data(self, labs):
        """memory described by a value with these labels"""
        out = {"DESC"}
        for l in labs:
            if isinstance(l, tuple) and l[0] == "V":
                out.add(("D",) + l[1:])
            elif isinstance(l, tuple) and l[0] == "H":
                out |= self.get(("VA", l))
        return out

    def write(self, labs, what):
        if not what:
            return
        for c in self.cells(labs):
            self.put(c, what)

    def maps(self, labs, kind):
        m = [l for l in labs if isinstance(l, tuple) and l[0] == "H"]
        return [(kind, l) for l in m] or ([(kind, "any")] if labs else [])

    # ------------------------------------------------ solving
    def solve(self):
        fns = list(self.mod.fns.values())
        skip = ("hashmap", "metac_recursive_iterator_", "metac_new_recursive_iterator")
        self.rounds = 0
        self.changed = True
        while self.changed and self.rounds < 60:
            self.changed = False
            self.rounds += 1
            for fn in fns:
                if fn.name.startswith(skip):
                    continue
                for b in fn.blocks:
                    for i in b.ins:
                        self.step(fn, i)

    def step(self, fn, i):
        o = i.op
        me = ("i", fn.name, i.id)
        if o in ("bitcast", "inttoptr", "ptrtoint", "freeze", "phi", "select", "addrspacecast"):
            for x in (i.ops if o != "select" else i.ops[1:]):
                if x[0] not in ("c", "undef"):
                    self.put(me, self.of(fn, x))
        elif o in ("add", "sub", "and"):
            # pointer arithmetic on integers; a difference of two pointers is a number
            l = [self.of(fn, x) for x in i.ops]
            if o == "sub" and l[0] and l[1]:
                return
            for x in l:
                if x:
                    self.put(me, x)
        elif o == "alloca":
            self.put(me, {("L", fn.name, i.id)})
        elif o == "gep":
            base = self.of(fn, i.ops[0])
            fs = first_struct(self.mod, i)
            if fs is not None:
                out = {l for l in base if not (isinstance(l, tuple) and l[0] == "A")}
                out.add(("A",) + fs)
                self.put(me, out)
            else:
                self.put(me, base)
        elif o == "load":
            if i.ty == ("p",) or i.ty[0] in ("s", "a") or (i.ty == ("i", 64)):
                self.put(me, self.read(self.of(fn, i.ops[0])))
        elif o == "store":
            self.write(self.of(fn, i.ops[1]), self.of(fn, i.ops[0]))
        elif o in ("extractvalue", "insertvalue"):
            for x in i.ops:
                self.put(me, self.of(fn, x))
        elif o == "ret":
            for x in i.ops:
                self.put(("r", fn.name), self.of(fn, x))
        elif o == "call":
            self.call(fn, i, me)

    def call(self, fn, i, me):
        n = (i.callee or "").split("@")[0]
        A = [self.of(fn, x) for x in i.ops]
        if i.callee is None:
            tgt = A[-1]
            for l in tgt:
                if isinstance(l, tuple) and l[0] == "F":
                    self.bind(l[1], A[:-1], me, fn, i)
            if i.ty == ("p",) and any(not (isinstance(l, tuple) and l[0] == "F" and l[1] in self.mod.fns) for l in tgt):
                self.put(me, {("I", i.where())})
            return
        if n in ALLOC:
            self.put(me, {("H", i.where(), n)})
            if n == "realloc":
                self.put(me, A[0])
            return
        if n in SAME:
            self.put(me, A[0])
            return
        if n.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")):
            self.write(A[0], self.read(A[1]))
            if n[0] == "m":
                self.put(me, A[0])
            return
        if n == "metac_value_addr":
            self.put(me, self.data(A[0]))
            return
        if n in NEWVAL and len(A) > max(NEWVAL[n] + (0,)):
            l = ("H", i.where(), n)
            self.put(me, {l})
            for k in NEWVAL[n]:
                self.put(("VA", l), A[k] if n == "metac_new_value" else self.data(A[k]))
            self.put(("VA", l), {"DESC"})
            if i.callee in self.mod.fns:
                self.bind(i.callee, A, None, fn, i)
            return
        if n == "hashmapCreate":
            self.put(me, {("H", i.where(), n)})
        elif n == "hashmapPut":
            for c in self.maps(A[0], "mk"):
                self.put(c, A[1])
            for c in self.maps(A[0], "mv"):
                self.put(c, A[2])
                self.write(A[3], self.get(c))
        elif n in ("hashmapGet", "hashmapRemove"):
            for c in self.maps(A[0], "mv"):
                self.put(me, self.get(c))
        elif n in ("hashmapForEach", "hashmapMemoize"):
            ks, vs = set(), set()
            for c in self.maps(A[0], "mk"):
                ks |= self.get(c)
            for c in self.maps(A[0], "mv"):
                vs |= self.get(c)
            for l in A[1 if n == "hashmapForEach" else 2]:
                if isinstance(l, tuple) and l[0] == "F":
                    self.bind(l[1], [ks, vs, A[2]], None, fn, i, cb=True)
        elif n == "metac_new_recursive_iterator":
            l = ("H", i.where(), n)
            self.put(me, {l})
            self.put(("it", l), A[0])
        elif n.startswith("metac_recursive_iterator_"):
            k = n[len("metac_recursive_iterator_"):]
            if k == "create_and_append_dep":
                for c in self.maps(A[0], "it"):
                    self.put(c, A[1])
            elif k in ("next", "get_in"):
                for c in self.maps(A[0], "it"):
                    self.put(me, self.get(c))
            elif k == "done":
                for c in self.maps(A[0], "out"):
                    self.put(c, A[1])
                self.put(me, A[0])
            elif k in ("get_out", "dequeue_and_delete_dep", "get_dep_out"):
                for c in self.maps(A[0], "out"):
                    self.put(me, self.get(c))
                for c in self.maps(A[0], "it"):
                    self.write(A[-2], self.get(c))
            elif k == "set_context":
                for c in self.maps(A[0], "ctx"):
                    self.put(c, A[1])
            elif k == "get_context":
                for c in self.maps(A[0], "ctx"):
                    self.put(me, self.get(c))
            else:
                self.put(me, A[0])
        elif i.callee in self.mod.fns:
            self.bind(i.callee, A, me, fn, i)
        elif i.ty == ("p",):
            self.put(me, {("X", n)})

    def bind(self, name, A, me, fn, i, cb=False):
        f = self.mod.fns.get(name)
        if f is None:
            if name in ALLOC and me is not None:
                self.put(me, {("I", i.where())})
            return
        for k, a in enumerate(A):
            if k < len(f.params) and a:
                self.put(("a", name, k), a)
        if me is not None and i.ty[0] == "p":
            self.put(me, self.get(("r", name)))

    # ------------------------------------------------ writes
    def writes(self):
        """(function, instruction, labels of the address)"""
        for fn in self.mod.fns.values():
            for b in fn.blocks:
                for i in b.ins:
                    if i.op == "store":
                        yield fn, i, self.of(fn, i.ops[1])
                    elif i.op == "call" and (i.callee or "").startswith(MEMW) and i.ops:
                        yield fn, i, self.of(fn, i.ops[0])
                    elif i.op in ("atomicrmw", "cmpxchg", "op57", "op56") and i.ops:
                        yield fn, i, self.of(fn, i.ops[0])
