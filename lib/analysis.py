"""Whole-library run of the dataflow engine: bottom-up over the call graph, one summary per function,
walker (recursive iterator) protocol modelled as a typestate, findings collected by observers."""
import multiprocessing as mp
import os
import sys
import time

import ir
import model
from engine import (Engine, Obs, State, summarise, root, is_null, f_implies, f_const, f_has, f_meet, TOPF, INF,
                    subst, mentions, tag_of)
from ir import AnalysisBroken

IT = "metac_recursive_iterator_"


class Locator:
    """file:line -> function whose source contains it"""

    def __init__(self, mod):
        self.by = {}
        for f in mod.fns.values():
            self.by.setdefault(f.file, []).append((f.line, f.name.split("@")[0]))
        for v in self.by.values():
            v.sort()

    def fn(self, loc):
        if not loc:
            return "?"
        best = "?"
        for line, n in self.by.get(loc[0], ()):
            if line <= loc[1]:
                best = n
            else:
                break
        return best


class Walk:
    """what one walker function does with its iterator; grown over passes until stable"""

    def __init__(self):
        self.counts = {}        # (region, state) -> set of pending-dependency counts
        self.inf = set()        # families of owned task inputs
        self.outf = set()       # families of owned results
        self.ctxf = set()       # families of owned task contexts
        self.states = {0}
        self.ctxcap = set()     # does the task's context hold the task's input?
        self.outcap = set()     # does the result?

    def snap(self):
        return (tuple(self.ctxcap), tuple(self.outcap), tuple(sorted((k, tuple(sorted(v))) for k, v in self.counts.items())), tuple(sorted(self.inf)),
                tuple(sorted(self.outf)), tuple(sorted(self.ctxf)), tuple(sorted(self.states)))


# st.extra for functions that own an iterator:
#   ()                                   no visit in progress
#   (region, statesym|None, count|None, tr, ctx)
NOVISIT = ()
MANY, LEFT = 3, 4


class LibEngine(Engine):
    CAP = 420
    STEPS = 120000

    def __init__(self, mod, **kw):
        Engine.__init__(self, mod, **kw)
        self.walk = None
        self.wviol = None
        self.kindcache = {}
        self.loopcache = {}
        C = self.con
        for nm, f in (("next", self.it_next), ("get_state", self.it_get_state), ("set_state", self.it_set_state),
                      ("done", self.it_done), ("fail", self.it_fail), ("create_and_append_dep", self.it_append),
                      ("dequeue_and_delete_dep", self.it_dequeue), ("get_dep_out", self.it_depout),
                      ("get_out", self.it_getout), ("dep_queue_is_empty", self.it_empty),
                      ("dep_queue_size", self.it_size), ("set_context", self.it_setctx),
                      ("get_context", self.it_getctx)):
            C[IT + nm] = f
        C["hashmapPut"] = self.c_put
        C["hashmapContainsKey"] = self.c_has
        C["hashmapGet"] = self.c_get
        C["metac_value_event_handler_call"] = self.c_event
        C["?"] = self.c_indirect
        for d in model.DTOR:
            C[d] = self.c_dtor
        for n in ("dsprintf", "dsprintf64", "vdsprintf"):
            C[n] = lambda E, st, i, a: E.fork_null(st, i, "libc", False)

    # ------------------------------------------------ fields that own memory
    required = {}       # struct -> {field index: name}

    def load(self, st, ins, av):
        v = Engine.load(self, st, ins, av)
        if v is not None and self.required and ins.ty == ("p",):
            t = self._tracked().get(ins.id)
            if t:
                obj, off = self.region(self.ev(st, ins.ops[0]))
                if obj is not None and obj[0] in ("d", "h") and not mentions(obj, v):
                    st.mem.setdefault(obj, {})[("ld", t)] = v
        return v

    def _tracked(self):
        """loads of owning fields of objects this function releases: {load: (struct, field)}"""
        k = (self._fn.name, "tracked")
        r = self.loopcache.get(k)
        if r is None:
            r = {}
            for i in self._info.ins.values():
                if i.op == "call" and i.callee == "free" and i.ops:
                    for S in self._struct_of(i):
                        for d in self._info.ins.values():
                            if d.op != "load" or d.ty != ("p",):
                                continue
                            t = tag_of(self._info, d.ops[0], d.ty)
                            if t == ("raw",) and d.ops[0] in self._same(i):
                                t = (S, 0)       # the first field may be read without a field address
                            if t[0] == S and t[1] in self.required[S]:
                                r[d.id] = t
            self.loopcache[k] = r
        return r

    def _same(self, i):
        seen, work = set(), [i.ops[0]]
        while work:
            o = work.pop()
            if o in seen:
                continue
            seen.add(o)
            d = self._info.ins.get(o[1]) if o[0] == "i" else None
            if d is not None and d.op == "phi":
                work += [x for p, x in d.incoming]
        return seen

    def _struct_of(self, i):
        """struct types the released pointer is used as"""
        k = (self._fn.name, "struct", i.id)
        r = self.loopcache.get(k)
        if r is None:
            seen = self._same(i)
            r = set()
            for d in self._info.ins.values():
                if d.op == "gep" and d.ops[0] in seen and d.gep[2] and str(d.gep[2][0][0]).startswith("struct."):
                    r.add(d.gep[2][0][0])
            if ("a", 0) in seen:
                s = model.DTOR_STRUCT.get(self._fn.name.split("@")[0])
                if s:
                    r.add("struct." + s)
            r = self.loopcache[k] = {x for x in r if x in self.required}
        return r

    def freeing(self, st, i, a, rt):
        if not self.required or rt[0] != "d" or not i.ops or i.callee != "free":
            return
        for S in sorted(self._struct_of(i)):
            for f, nm in sorted(self.required[S].items()):
                v = None
                for o, cells in st.mem.items():
                    if root(o) == rt:
                        v = cells.get(("ld", (S, f)), v)
                ok = False
                if v is not None:
                    if is_null(v) or v == ("c", 0):
                        ok = True
                    else:
                        o2, _ = self.region(v)
                        r2 = root(o2) if o2 is not None else None
                        rec = st.objs.get(r2)
                        ok = rec is not None and rec[0] != "own"
                        if not ok and v[0] == "s" and f_implies(st.facts.get(v[1], TOPF), "eq", 0):
                            ok = True
                        if not ok and r2 is not None:
                            # entries that are not dynamic are not released
                            for kk, z in st.lz.items():
                                if kk[0] == r2 and kk[1] <= -1024 and z[1][1] == "metac_entry_is_dynamic" and z[0] == ("c", 0):
                                    ok = True
                if not ok:
                    for ob in self.obs:
                        if hasattr(ob, "field"):
                            ob.field(self, st, i, S, nm)

    def ctor_class(self, name):
        return model.CTOR.get((name or "").split("@")[0])

    # ------------------------------------------------ walker typestate
    def _viol(self, st, ins, what):
        for o in self.obs:
            if hasattr(o, "walker"):
                o.walker(self, st, ins, what)

    def _guard(self):
        """inside iterator.c the protocol functions are analysed, not assumed"""
        return self._fn.file.endswith("iterator.c")

    def visiting(self, st):
        return len(st.extra) == 5

    def prune(self, st, live, ins, retval=None):
        if len(st.extra) != 5:
            return Engine.prune(self, st, live, ins, retval)
        r, ss, c, tr, ctx = st.extra
        # the task's context stays reachable until the task is finished; the state it was visited in
        # decides what is queued
        if ctx is not None:
            if tr != 2:
                st.env[("ctx",)] = ("p", ctx, 0)
            else:
                st.extra = (r, ss, c, tr, None)
        if ss is not None and c is None:
            st.env[("st",)] = ("s", ss)
        Engine.prune(self, st, live | {("ctx",), ("st",)}, ins, retval)
        st.env.pop(("ctx",), None)
        st.env.pop(("st",), None)

    # queue contents: a set of possible sizes out of 0, 1, 2, MANY (unknown, filled by a loop) and LEFT
    # (a loop that empties the queue was left early)
    def cnt(self, st):
        region, ss, cnt, tr, ctx = st.extra
        if cnt is not None:
            return cnt
        f = st.facts.get(ss, TOPF) if ss is not None else ("S", frozenset([0]))
        if ss is None or f_has(f, 0):
            return frozenset([0])          # first visit
        got = set()
        for v in sorted(self.walk.states):
            if v != 0 and f_has(f, v):
                got |= self._lookup(region, v)
        return frozenset(got)

    def _lookup(self, region, v):
        """sizes recorded for state v by visits that took a compatible route through the dispatch"""
        W, R = self.walk, set(region)
        exact = W.counts.get((region, v))
        if exact:
            return exact
        got, anyc, same = set(), set(), False
        for (r, v2), cs in W.counts.items():
            comp = set(r) <= R or R <= set(r)
            if comp and r:
                same = True
            if v2 == v:
                anyc |= cs
                if comp:
                    got |= cs
        # a task of this kind never enters a state no visit of its kind has set
        return got if same else (got or anyc)

    def _setc(self, st, c):
        if self.visiting(st):
            r, ss, _, tr, ctx = st.extra
            st.extra = (r, ss, frozenset(c), tr, ctx)

    def _settr(self, st, tr):
        if self.visiting(st):
            r, ss, c, _, ctx = st.extra
            st.extra = (r, ss, c, tr, ctx)

    def _visitids(self):
        """SSA values that hold the input of the task being visited"""
        k = (self._fn.name, "visit ids")
        r = self.loopcache.get(k)
        if r is None:
            ins = self._info.ins
            r = {x for x, d in ins.items() if d.op == "call" and d.callee == IT + "next"}
            r |= {x for x, d in ins.items() if d.op == "phi" and d.ops and all(o[0] == "i" and o[1] in r for o in d.ops)}
            self.loopcache[k] = r
        return r

    def _isin(self, st, v):
        return v[0] == "s" and any(st.env.get(x) == v for x in self._visitids())

    def fresh_from(self, st, i, obj, args, esc):
        if self.walk is not None and any(k < len(args) and (
                i.ops[k][0] == "i" and i.ops[k][1] in self._visitids() or self._isin(st, args[k])) for k in esc):
            st.mem.setdefault(obj, {})[("cap",)] = 1

    def _cap(self, st, o):
        for obj, cells in st.mem.items():
            if root(obj) == o and (("cap",) in cells or any(
                    isinstance(v, tuple) and self._isin(st, v) for k, v in cells.items() if len(k) == 3)):
                return True
        return False

    def it_next(self, E, st, i, args):
        if self._guard():
            return NotImplemented
        if is_null(args[0]):
            st.env[i.id] = ("n", i.id)
            return st
        if not self._live_arg(st, i, args[0]):
            return None
        if self.visiting(st) and st.extra[3] == 0:
            if not self.cnt(st):
                return None
            self._viol(st, i, "the walker returns to the scheduler without moving the task on (no next state, result or failure)")
        if self.visiting(st) and isinstance(st.extra[3], tuple):
            c = self.cnt(st)
            if not c:
                return None
            self.walk_record(st, st.extra[3][1], c)
            if st.extra[4] is not None:
                self.escape_obj(st, st.extra[4])
        s2 = st.copy()
        s2.extra = NOVISIT
        s2.env[i.id] = ("n", i.id)
        st.extra = ((), None, None, 0, None)
        st.env[i.id] = self.newsym(st, i, fact=("I", -INF, INF, frozenset([0])))
        return [st, s2]

    def _live_arg(self, st, i, a):
        obj, off = self.region(a)
        if obj is None:
            return True
        rec = st.objs.get(root(obj))
        if rec is not None and rec[0] == "freed":
            for o in self.obs:
                o.uaf(self, st, i, root(obj), rec)
            return False
        return True

    def it_get_state(self, E, st, i, args):
        if self._guard() or not self.visiting(st):
            return NotImplemented
        v = self.newsym(st, i, fact=("S", frozenset(self.walk.states)))
        r, ss, c, tr, ctx = st.extra
        st.extra = (r, v[1], c, tr, ctx)
        st.env[i.id] = v
        return st

    def it_set_state(self, E, st, i, args):
        if self._guard() or not self.visiting(st):
            return NotImplemented
        vals = self.fact(st, args[1])
        c = self.cnt(st)
        if not c:
            return None
        self._setc(st, c)
        if st.extra[3] == 2:
            self._viol(st, i, "state changed after the task was finished")
            return None
        self._settr(st, ("k", vals))
        st.env[i.id] = args[0]
        return st

    def walk_record(self, st, vals, c):
        region = st.extra[0]
        if vals[0] != "S":
            vals = ("S", frozenset([1, 2, 3]))
        for v in vals[1]:
            self.walk.states.add(v)
            self.walk.counts.setdefault((region, v), set()).update(MANY if x == LEFT else x for x in c)

    def _end(self, st, i, args, how):
        if self.visiting(st):
            c = self.cnt(st)
            if not c:
                return None
            if st.extra[3] == 2:
                self._viol(st, i, "task finished twice in one visit")
                return None
            if LEFT in c or not (c & {0, MANY}):
                self._viol(st, i, "task %s while dependencies are still queued (their results are lost and the "
                                  "scheduler aborts on cleanup)" % how)
            self._settr(st, 2)
        st.env[i.id] = args[0]
        return st

    def it_done(self, E, st, i, args):
        if self._guard():
            return NotImplemented
        if len(args) > 1 and args[1][0] == "p":
            rec = st.objs.get(root(args[1][1]))
            if rec is not None and rec[0] == "freed":
                for o in self.obs:
                    o.uaf(self, st, i, root(args[1][1]), rec)
            if rec is not None and rec[0] == "own" and self.walk is not None:
                self.walk.outf.add(rec[1])
                self.walk.outcap.add(self._cap(st, root(args[1][1])))
            self.escape(st, args[1])
        return self._end(st, i, args, "completes")

    def it_fail(self, E, st, i, args):
        if self._guard():
            return NotImplemented
        return self._end(st, i, args, "fails")

    def it_append(self, E, st, i, args):
        if self._guard():
            return NotImplemented
        if self.visiting(st):
            c = self.cnt(st)
            if not c:
                return None
            if st.extra[3] == 2:
                self._viol(st, i, "dependency queued after the task was finished")
                return None
            self._setc(st, c)
        s3 = st.copy()
        if args[1][0] == "p":
            rec = st.objs.get(root(args[1][1]))
            if rec is not None and rec[0] == "own" and self.walk is not None:
                self.walk.inf.add(rec[1])
            if rec is not None and rec[0] == "freed":
                for o in self.obs:
                    o.uaf(self, st, i, root(args[1][1]), rec)
        self.escape(st, args[1])
        if self.visiting(st):
            if self.inner_loop(i.block):
                self._setc(st, {MANY})
            else:
                self._setc(st, {min(x + 1, MANY) for x in c})
        st.env[i.id] = ("c", 0)
        s3.env[i.id] = ("c", -12)
        return [st, s3]

    def inner_loop(self, b):
        """is block b in a loop inside the walker's own visit loop?"""
        for h, body in self._info.loops.items():
            if b in body and not self._has(h, "next"):
                return True
        return False

    def _has(self, h, what):
        k = (self._fn.name, h, what)
        r = self.loopcache.get(k)
        if r is None:
            nm = IT + what
            r = self.loopcache[k] = any(i.op == "call" and i.callee == nm for b in self._info.loops[h]
                                        for i in self._fn.blocks[b].ins)
        return r

    def _leave(self, b, s, st):
        """edge b->s: leaving a loop that takes results off the queue"""
        for h, body in self._info.loops.items():
            if b in body and s not in body and not self._has(h, "next") and self._has(h, "dequeue_and_delete_dep"):
                c = self.cnt(st)
                if self._cond_exit(h, b, body):
                    self._setc(st, {0})
                else:
                    self._setc(st, {LEFT if x == MANY else x for x in c})

    def _cond_exit(self, h, b, body):
        """the loop's own condition (no work done yet in this round)"""
        k = (self._fn.name, h, b, "ce")
        r = self.loopcache.get(k)
        if r is None:
            seen, work, r = set(), [b], True
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                if any(i.op == "call" and not (i.callee or "").startswith((IT + "dep_queue", "llvm.")) for i in self._fn.blocks[x].ins):
                    r = False
                    break
                if x != h:
                    work += [p for p in self._fn.blocks[x].preds if p in body]
            if not r and b == h:
                r = True
            self.loopcache[k] = r
        return r

    def _outcell(self, st, i, a, v):
        if is_null(a):
            return
        obj, off = self.region(a)
        if obj is None or off is None:
            return
        for k in [k for k in st.lz if k[0] == obj and k[1] == off]:
            del st.lz[k]
        cells = st.mem.setdefault(obj, {})
        for k in [k for k in cells if len(k) == 3 and k[0] == off]:
            del cells[k]
        cells[(off, 8 if v[0] != "f4" else 4, ("raw",))] = v if v[0] != "f4" else v[1]

    def _fam(self, s):
        return sorted(s)[0] if len(s) == 1 else ("any" if s else None)

    def it_dequeue(self, E, st, i, args):
        if self._guard() or not self.visiting(st):
            return NotImplemented
        out = []
        W = self.walk
        c = self.cnt(st)
        if not c:
            return None
        if c == {0}:
            st.env[i.id] = ("n", i.id)
            self._setc(st, {0})
            return st
        self._setc(st, {x - 1 if x in (1, 2) else x for x in c})
        s3 = st
        if W.inf:
            v = self.newobj(s3, i, self._fam(W.inf), False, ("in",))
            if is_null(args[1]):
                for o in self.obs:
                    o.leak(self, s3, i, v[1], s3.objs[v[1]])
                s3.objs[v[1]] = ("esc",) + s3.objs[v[1]][1:]
        else:
            v = self.newsym(s3, i, ("in",), fact=("I", -INF, INF, frozenset([0])))
        self._outcell(s3, i, args[1], v)
        if not is_null(args[2]):
            f = self.newsym(s3, i, ("fl",), fact=("S", frozenset([0, 1])))
            self._outcell(s3, i, args[2], ("f4", f))
        if W.outf:
            s4 = s3.copy()
            s4.env[i.id] = ("n", i.id)
            s3.env[i.id] = self.newobj(s3, i, self._fam(W.outf), False, ("out",))
            if W.inf and W.outcap == {True} and v[0] == "p" and s3.objs.get(v[1], ("",))[0] == "own":
                self.escape_obj(s3, v[1])       # the result holds its input
            # a failed task has no result
            if not is_null(args[2]):
                s3.facts[("i", i.id, ("fl",))] = ("S", frozenset([0]))
            return [s3, s4]
        s3.env[i.id] = self.newsym(s3, i)
        return s3

    def it_depout(self, E, st, i, args):
        if self._guard():
            return NotImplemented
        self._outcell(st, i, args[2], self.newsym(st, i, ("in",)))
        self._outcell(st, i, args[3], ("f4", self.newsym(st, i, ("fl",), fact=("S", frozenset([0, 1])))))
        st.env[i.id] = self.newsym(st, i)
        return st

    def it_getout(self, E, st, i, args):
        if self._guard():
            return NotImplemented
        if is_null(args[0]):
            st.env[i.id] = ("n", i.id)
            return st
        self._outcell(st, i, args[1], self.newsym(st, i, ("in",)))
        if not is_null(args[2]):
            self._outcell(st, i, args[2], ("f4", self.newsym(st, i, ("fl",), fact=("S", frozenset([0, 1])))))
        if self.walk is not None and self.walk.outf:
            s2 = st.copy()
            s2.env[i.id] = ("n", i.id)
            st.env[i.id] = self.newobj(st, i, self._fam(self.walk.outf), False, ("out",))
            if not is_null(args[2]):
                st.facts[("i", i.id, ("fl",))] = ("S", frozenset([0]))
            return [st, s2]
        st.env[i.id] = self.newsym(st, i)
        return st

    def it_empty(self, E, st, i, args):
        if self._guard() or not self.visiting(st):
            return NotImplemented
        c = self.cnt(st)
        out = []
        s2 = st.copy()
        if c & {0, MANY, LEFT}:
            self._setc(st, {0})
            st.env[i.id] = ("c", 1)
            out.append(st)
        if c - {0}:
            self._setc(s2, {MANY if x == LEFT else x for x in c if x})
            s2.env[i.id] = ("c", 0)
            out.append(s2)
        return out

    def it_size(self, E, st, i, args):
        if self._guard() or not self.visiting(st):
            return NotImplemented
        c = self.cnt(st)
        if not c:
            return None
        if c & {MANY, LEFT}:
            f = ("I", 0, INF, frozenset())
        else:
            f = ("S", frozenset(c))
        st.env[i.id] = self.newsym(st, i, fact=f)
        return st

    def it_setctx(self, E, st, i, args):
        if self._guard():
            return NotImplemented
        if args[1][0] == "p":
            rec = st.objs.get(root(args[1][1]))
            if rec is not None and rec[0] == "own" and self.walk is not None:
                self.walk.ctxf.add(rec[1])
                self.walk.ctxcap.add(self._cap(st, root(args[1][1])))
                if self.visiting(st):
                    r, ss, c, tr, ctx = st.extra
                    # the task keeps it: ours until the visit ends
                    st.extra = (r, ss, c, tr, root(args[1][1]))
        st.env[i.id] = args[1]
        return st

    def it_getctx(self, E, st, i, args):
        if self._guard():
            return NotImplemented
        if self.visiting(st) and self.walk.ctxf:
            r, ss, c, tr, ctx = st.extra
            if ctx is None:
                v = self.newobj(st, i, self._fam(self.walk.ctxf), False, ("ctx",))
                if self.walk.ctxcap == {True}:
                    st.mem[v[1]][("cap",)] = 1
                st.extra = (r, ss, c, tr, v[1])
            else:
                v = ("p", ctx, 0)
            st.env[i.id] = v
            return st
        st.env[i.id] = self.newsym(st, i)
        return st

    # region: which alternatives of the walker's own dispatch were taken since the visit began
    def term(self, fn, info, blk, i, st):
        if not self.visiting(st) or i.op not in ("switch", "br"):
            return Engine.term(self, fn, info, blk, i, st)
        v = self.ev(st, i.ops[0]) if i.ops else ("u",)
        mark = None
        if i.op == "switch":
            if v[0] == "s" and v[1] != st.extra[1]:
                mark = "all"
        elif v[0] == "b" and v[1] in ("eq", "ne") and v[2][0] == "s" and v[3][0] == "c" and self._iskind(v[2][1]):
            mark = 0 if v[1] == "eq" else 1
        out = Engine.term(self, fn, info, blk, i, st)
        for s, s2 in out:
            if mark is not None and (mark == "all" or s == blk.succ[mark]):
                r, ss, c, tr, ctx = s2.extra
                if s not in r:
                    s2.extra = (r + (s,), ss, c, tr, ctx)
            self._leave(blk.idx, s, s2)
        return out

    def _iskind(self, sym):
        if sym in self.kindcache:
            return self.kindcache[sym]
        r = False
        if sym[0] == "i" and len(sym) == 2:
            d = self._info.ins.get(sym[1])
            if d is not None:
                r = d.op == "call" and "kind" in (d.callee or "")
        self.kindcache[sym] = r
        return r

    # ------------------------------------------------ other contracts
    def c_put(self, E, st, i, args):
        """0: the map keeps key and value and *p_res is the replaced value or NULL; negative: nothing kept
        (the implementation is held to this by the map's own rules)"""
        if self._fn.file.endswith("hashmap.c"):
            return NotImplemented
        if not self.arg_deref(st, i, args[0]):
            return None
        self.generic_call(st, i, args[:1], self.modset(i.callee) or set(), False)
        s2 = st.copy()
        s2.env[i.id] = ("c", -12)
        self.escape(st, args[1])
        self.escape(st, args[2])
        for a in args[1:3]:
            if a[0] == "s":
                self.note_escape(st, a[1])
        st.env[i.id] = ("c", 0)
        out = [st, s2]
        if not is_null(args[3]):
            s3 = st.copy()
            self._outcell(st, i, args[3], ("c", 0))
            self._outcell(s3, i, args[3], self.newsym(s3, i, ("old",), fact=("I", -INF, INF, frozenset([0]))))
            self._outcell(s2, i, args[3], ("c", 0))
            out.append(s3)
        return out

    def c_has(self, E, st, i, args):
        if self._fn.file.endswith("hashmap.c"):
            return NotImplemented
        if not self.arg_deref(st, i, args[0]):
            return None
        s2 = st.copy()
        s2.env[i.id] = ("c", 0)
        st.env[i.id] = ("c", -1)
        st.rels = st.rels | {("has", args[0], args[1])}
        return [st, s2]

    def c_get(self, E, st, i, args):
        """a key that is in the map is found (the library never maps a key to NULL)"""
        if self._fn.file.endswith("hashmap.c") or ("has", args[0], args[1]) not in st.rels:
            return NotImplemented
        st.env[i.id] = self.newsym(st, i, fact=("I", -INF, INF, frozenset([0])))
        return st

    def c_event(self, E, st, i, args):
        if self._fn.name == "metac_value_event_handler_call":
            return NotImplemented
        self.generic_call(st, i, args, {("raw",)}, True)
        s0 = st.copy()
        s0.env[i.id] = self.newsym(s0, i, fact=("I", -INF, INF, frozenset([0])))
        st.env[i.id] = ("c", 0)
        s2 = st.copy()
        self._outcell8(st, args[2], ("c", 0))
        v = self.newobj(s2, i, "value", False, ("ev",))
        self._outcell8(s2, args[2], v)
        return [s0, st, s2]

    def _outcell8(self, st, a, v):
        if a[0] == "p" and a[2] is not None:
            self._outcell(st, None, ("p", a[1], a[2] + 8), v)

    def c_indirect(self, E, st, i, args):
        callee = self.ev(st, i.ops[-1])
        if callee[0] == "fn" and callee[1] not in ("free", "calloc", "malloc"):
            return NotImplemented
        ptys = i.srcty or []
        if i.ty == ("p",) and ptys and all(t[0] == "i" for t in ptys):
            self.generic_call(st, i, args, {("raw",)}, True)
            return self.fork_null(st, i, "user", False)
        if i.ty == ("v",) and ptys == [("p",)]:
            self.generic_call(st, i, args, set(), True)
            return self.do_free(st, i, args[0], "user")
        return NotImplemented

    def c_dtor(self, E, st, i, args):
        cls = model.DTOR[i.callee.split("@")[0]]
        sm = self.summ.get(i.callee)
        if sm and 0 in sm["deref"]:
            if not self.arg_deref(st, i, args[0]):
                return None
        self.generic_call(st, i, args, self.modset(i.callee) or set(), False)
        a = args[0]
        if is_null(a):
            return st
        obj, off = self.region(a)
        rt = root(obj)
        inner = []
        for o, cells in st.mem.items():
            if root(o) == rt:
                for v in cells.values():
                    if isinstance(v, tuple) and v[0] == "p":
                        r2 = root(v[1])
                        if st.objs.get(r2, ("",))[0] == "own" and r2 != rt:
                            inner.append(r2)
        if rt[0] in ("al", "g"):
            return st
        rec = st.objs.get(rt)
        if rec and rec[1] == "libc" and self.ctor_class(self._fn.name) == cls:
            st.objs[rt] = (rec[0], cls, rec[2])      # a constructor undoing its own work
        self.do_free(st, i, a, cls)
        for r2 in inner:
            if st.objs.get(r2, ("",))[0] == "own":
                self.escape_obj(st, r2)
        return st


class Finding(tuple):
    """(rule, key, where, text, fn)"""


class Collect(Obs):
    """turns engine events into findings"""

    def __init__(self, loc):
        self.loc = loc
        self.out = {}

    def reset(self):
        self.out = {}

    def add(self, rule, E, ins, detail, text):
        f = self.loc.fn(ins.loc)
        k = "%s|%s|%s" % (rule, f, detail)
        self.out.setdefault(k, (rule, k, ins.where(), text, E._fn.name.split("@")[0]))

    def site(self, E, s):
        i = E._info.ins.get(s) if isinstance(s, int) else None
        if i is None:
            return None, "?"
        return i, "%s in %s" % (i.callee or i.op, self.loc.fn(i.loc))

    def nullderef(self, E, st, ins, site):
        if site[0] == "n":
            s = site[1]
            if isinstance(s, tuple) and s[0] == "sym":
                i = E._info.ins.get(s[1][1]) if s[1][0] in ("i", "o") and isinstance(s[1][1], int) else None
                if i is None:
                    self.add("null-deref", E, ins, "checked", "dereferences a pointer on a path where it was found to be NULL")
                    return
                self.add("null-deref", E, ins, "%s" % (i.callee or i.op),
                         "dereferences the result of %s at %s on a path where it is NULL" % (i.callee or i.op, i.where()))
                return
            i, d = self.site(E, s)
            self.add("alloc-null", E, ins, d, "uses the result of %s obtained at %s without excluding failure (NULL)" % (
                i.callee if i else "?", i.where() if i else "?"))
        else:
            self.add("null-deref", E, ins, "null constant", "dereferences NULL")

    def bad_free(self, E, st, ins, kind, obj, rec):
        i, d = self.site(E, obj[1] if len(obj) > 1 else None)
        fam = rec[1] if rec else "?"
        text = {"double": "releases memory that was already released at %s" % (
                    E._info.ins[rec[2]].where() if rec and rec[2] in E._info.ins else "?"),
                "family": "releases a '%s' object with the wrong release function" % fam,
                "nonheap": "releases memory that was not allocated",
                "interior": "releases a pointer into the middle of an allocation"}[kind]
        self.add("release-" + kind, E, ins, "%s" % (d if kind != "nonheap" else obj[0]),
                 text + (" (object from %s)" % i.where() if i else ""))

    def uaf(self, E, st, ins, obj, rec):
        i, d = self.site(E, obj[1] if len(obj) > 1 else None)
        fr = E._info.ins.get(rec[2]) if rec else None
        self.add("use-after-release", E, ins, d, "uses memory released at %s" % (fr.where() if fr else "?"))

    def leak(self, E, st, ins, obj, rec):
        i = E._info.ins.get(rec[2])
        f = self.loc.fn(i.loc)
        k = "leak|%s|%s|%s" % (f, i.callee or "indirect allocation", rec[1])
        self.out.setdefault(k + "|" + ins.where(), (
            "leak", k, i.where(), "%s object from %s (%s) is lost at %s without being released or handed over" % (
                rec[1], i.callee or "an indirect allocation", i.where(), ins.where()), E._fn.name.split("@")[0]))

    def field(self, E, st, ins, S, name):
        self.add("field-leak", E, ins, "%s.%s" % (S, name), "releases a %s on a path where the memory its field '%s' owns is "
                 "not released" % (S.replace(".", " "), name))

    def walker(self, E, st, ins, what):
        self.add("walker", E, ins, what, what)


class Library:
    """compiled library + analysis order"""

    def __init__(self, limit=40, required=None):
        self.mod = ir.load_module(inline=model.inline_policy(limit))
        self.loc = Locator(self.mod)
        e = LibEngine(self.mod)
        e.modset("x")
        self.base = e
        self.required = required or {}
        self.levels = self._levels()

    def _levels(self):
        calls = {n: {c for c in self.base.calls_of[n] if c in self.mod.fns} for n in self.mod.fns}
        names = [n for n in sorted(self.mod.fns) if not (n in self.mod.inlined and self.mod.fns[n].internal)]
        level = {}

        def lv(n, stack):
            if n in level:
                return level[n]
            if n in stack:
                return 0
            r = 0
            for c in sorted(calls[n]):
                r = max(r, lv(c, stack | {n}) + 1)
            level[n] = r
            return r
        out = {}
        for n in names:
            out.setdefault(lv(n, frozenset()), []).append(n)
        self.calls = calls
        return [out[k] for k in sorted(out)]


_L = None
_FACT = None


def run_fn(lib, summ, name, observers):
    """one function to a fixpoint (walkers: until their protocol table is stable)"""
    fn = lib.mod.fns[name]
    E = LibEngine(lib.mod, observers=observers, summaries=summ)
    E.required = lib.required
    E.mods, E.calls_of = lib.base.mods, lib.base.calls_of
    uses_it = any((c or "").startswith(IT) for c in lib.base.calls_of[name]) and not fn.file.endswith("iterator.c")
    called = any(name in c for c in lib.calls.values())
    E.walk = Walk() if uses_it else None
    oc = None
    for _ in range(8):
        for o in observers:
            o.reset()
        before = E.walk.snap() if E.walk else None
        oc = E.run(fn, keep_params=called)
        if not E.walk or E.walk.snap() == before:
            break
    sm = summarise(oc, E.derefs)
    return sm, E


def _job(args):
    name, summ = args
    t = time.time()
    obs = _FACT(_L)
    sm, E = run_fn(_L, summ, name, obs)
    res = []
    for o in obs:
        res.append(o.result() if hasattr(o, "result") else dict(o.out))
    if E.degraded:
        sm = {"out": [], "deref": sm["deref"], "bad": True}
    stats = dict(E.stats)
    stats["t"] = time.time() - t
    stats["degraded"] = E.degraded
    dr = {k: (i.where(), _L.loc.fn(i.loc)) for k, i in E.derefs.items()}
    return name, sm, res, stats, dr


def run_library(lib, factory, procs=8, only=None, verbose=False):
    """factory(lib) -> list of observers.  Returns {fn: (summary, results, stats, derefs)}"""
    global _L, _FACT
    _L, _FACT = lib, factory
    summ, out = {}, {}
    for names in lib.levels:
        jobs = [(n, None) for n in names]
        need = {n: {c: summ[c] for c in lib.base.calls_of[n] if c in summ} for n in names}
        jobs = sorted(((n, need[n]) for n in names), key=lambda x: -lib.mod.fns[x[0]].nins)
        big = sum(lib.mod.fns[n].nins for n in names)
        if procs > 1 and big > 400:
            with mp.get_context("fork").Pool(min(procs, len(jobs))) as p:
                rs = p.map(_job, jobs, chunksize=1)
        else:
            rs = [_job(j) for j in jobs]
        for name, sm, res, stats, dr in rs:
            if not sm.get("bad"):
                summ[name] = sm
            out[name] = (sm, res, stats, dr)
            if verbose and (stats["t"] > 2 or stats["degraded"]):
                print("  ", name, round(stats["t"], 1), stats["states"], "DEGRADED" if stats["degraded"] else "", flush=True)
    return out
