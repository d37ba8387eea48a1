"""C14: a failure inside an operation is never reported as success."""
import re

import ir
import vn
from p_base import READ, WRITE
from result import Result

# queries whose "nothing there" answer is not a failure
QUERY = re.compile(
    r"metac_entry_(kind|name|is_|has_|final|by_|parent|tag_string|from_|.*_name$|.*_entry$|.*count$|.*_to_id$|result_type|.*_info$|check_|.*_to_name$)"
    r"|metac_recursive_iterator_(done|set_|get_|fail|deq|level|next|dep_queue)"
    r"|metac_value_(name|kind|entry|addr|walker|final|.*count$|hierarchy|check_|level_|is_|has_|.*_to_name$)"
    r"|metac_tag_map_tag$|metac_memory_entry_parent|hashmap(ContainsKey|Get|Remove)$|.*_delete$|.*_free$|_sort|.*_callback$")
# 0 for success, a negative code otherwise, as documented
CODED = {"hashmapPut", "hashmapMemoize", "metac_parameter_storage_append_by_buffer", "metac_parameter_storage_append_by_parameter_storage",
         "metac_parameter_storage_copy", "metac_recursive_iterator_create_and_append_dep", "metac_store_printf_params",
         "metac_store_vprintf_params", "metac_tag_map_set_tag", "metac_value_base_type", "metac_value_set_base_type", "metac_value_enumeration",
         "metac_value_set_enumeration", "metac_value_pointer", "metac_value_set_pointer", "metac_value_num", "metac_entry_byte_size",
         "metac_entry_member_bitfield_offsets", "metac_handle_count_by", "metac_handle_container_of", "metac_handle_ptr_cast",
         "metac_handle_union_member_select", "metac_handle_zero_ended_string", "metac_handle_printf_format"}
ALLOC = {"calloc", "malloc", "realloc", "strdup"}


def returns(V):
    """constants a function may return; '?' for anything else"""
    out = set()
    for b in V.fn.blocks:
        t = b.ins[-1]
        if t.op != "ret" or not t.ops or b.idx not in V.reach:
            continue
        todo, seen, bit = [t.ops[0]], set(), False
        while todo:
            o = todo.pop()
            if o[0] == "c":
                out.add(o[1] & 1 if bit else o[1])
                continue
            if o[0] == "i" and o[1] not in seen:
                seen.add(o[1])
                i = V.ins.get(o[1])
                if i is not None and i.op == "phi":
                    todo += list(i.ops)
                    continue
                if i is not None and i.op == "select":
                    todo += list(i.ops[1:])
                    continue
                if i is not None and i.op in ("sext", "zext", "trunc"):
                    bit = bit or i.op == "zext" and i.srcty == ("i", 1)
                    todo.append(i.ops[0])
                    continue
                if i is not None and i.op == "call" and i.callee:
                    out.add(("call", i.callee))
                    continue
                out.add("?")
    return out


def conventions(mod, view):
    """function -> 'int' (0 or a negative code), 'num' (value or a negative code), 'ptr' (NULL on failure)"""
    ret = {n: returns(view(n)) for n in mod.fns}
    conv = {n: "int" for n in mod.fns if n in CODED and mod.fns[n].ret[0] == "i"}
    ch = True
    while ch:
        ch = False
        for n, f in mod.fns.items():
            if n in conv:
                continue
            cs = ret[n]
            via = {conv.get(c[1]) for c in cs if isinstance(c, tuple)}
            if f.ret[0] == "i" and (any(isinstance(c, int) and c < 0 for c in cs) or via & {"int"}):
                conv[n] = "int" if 0 in cs or "int" in via else "num"
                ch = True
            elif f.ret == ("p",) and (0 in cs or "ptr" in via or any(c[1] in ALLOC for c in cs if isinstance(c, tuple))):
                conv[n] = "ptr"
                ch = True
    return conv


QUEUED = ("metac_recursive_iterator_create_and_append_dep",)    # unasked, its failure shows when the part is missed later


def check(pid, tier):
    r = Result("the failure convention of every function is derived from what it returns (negative code, NULL); for every call of an "
               "allocation, constructor or operation that can fail, the control flow of LLVM IR is searched from the call with its "
               "result fixed to failure",
               "no path from a failed call leads to the caller's own success (0, a finished traversal step, a constructed object) unless "
               "the call is tried again; what a failed call should have delivered is not read")
    # helpers without a result have nothing to report and stay on their own
    mod = ir.load_module(inline=lambda n, internal, info: internal and not info["void"])
    views = {}

    def view(n):
        if n not in views:
            views[n] = vn.View(mod, mod.fns[n])
        return views[n]
    conv = conventions(mod, view)
    r.count("functions_with_failure_convention", len(conv))

    def cls(c):
        if c in ALLOC:
            return "ptr"
        k = conv.get(c)
        return None if not k or QUERY.match(c.split("@")[0]) else k

    for n in sorted(mod.fns):
        if n in mod.inlined:
            continue
        V = view(n)
        fn = V.fn
        ret = {b.idx: b.ins[-1] for b in fn.blocks if b.ins[-1].op == "ret" and b.ins[-1].ops}
        at = {}
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "call" and i.callee:
                    at.setdefault(i.callee.split("@")[0], set()).add(b.idx)
        done, nxt = at.get("metac_recursive_iterator_done", set()), at.get("metac_recursive_iterator_next", set())
        fail = at.get("metac_recursive_iterator_fail", set())
        dones = [i for b in fn.blocks for i in b.ins if i.op == "call" and i.callee == "metac_recursive_iterator_done" and b.idx in V.reach]
        deps = [i for b in fn.blocks for i in b.ins if i.op == "call" and i.callee and i.callee.split("@")[0] == "metac_recursive_iterator_create_and_append_dep" and
                len(i.ops) > 1 and b.idx in V.reach]
        states = {}
        for b in fn.blocks:
            for i in b.ins:
                if i.op == "call" and i.callee == "metac_recursive_iterator_set_state" and len(i.ops) > 1 and b.idx in V.reach:
                    states[b.idx] = i
        V.watch = [i.ops[1] for i in list(states.values()) + dones + deps if len(i.ops) > 1]
        V.__dict__.pop("rel", None)
        valued = any(len(i.ops) > 1 and i.ops[1][0] != "c" for i in dones)

        def finish(bb, sel):
            # without a value the step counts as failed where steps have values
            return any(i.block == bb and not (valued and V.const_under(i.ops[1], sel) == 0) for i in dones)
        for b in fn.blocks:
            if b.idx not in V.reach:
                continue
            for i in b.ins:
                if i.op != "call" or not i.callee:
                    continue
                k = cls(i.callee)
                if k is None:
                    continue
                g = i.callee.split("@")[0]
                seed = seeds(V, i, 0 if k == "ptr" else -1, cls)
                stop = fail | nxt
                for h in at:
                    if family(h) == family(g):
                        stop |= at[h]
                walker = bool(nxt or done or fail)
                what, sink = None, None
                if walker and done:
                    sink, what = finish, "finishes the step of the traversal"
                elif conv.get(n) == "int":
                    sink, what = (lambda bb, sel: bb in ret and V.const_under(ret[bb].ops[0], sel) == 0), "returns success"
                elif fn.ret == ("p",) and not walker:
                    sink, what = (lambda bb, sel: bb in ret and V.const_under(ret[bb].ops[0], sel) != 0), "returns an object"
                if sink is None:
                    continue
                r.ob("fallible call", "%s %s in %s" % (i.where(), g, n))
                p = V.escape_from(i.block, seed, sink, stop)
                if p is None and sink is finish and states and k == "int" and (g not in QUEUED or list(V.users(i.id))):
                    # does the traversal go on to the same next state as after success?
                    good = dict(forward(V))
                    for bb in fn.blocks:
                        for c in bb.ins:
                            if c.op == "call" and c.callee and cls(c.callee):
                                good[c.id] = ("c", 4096 if cls(c.callee) == "ptr" else 0)
                    both = []
                    for sd in (seed, good):
                        hit = set()

                        def see(bb, sel):
                            if bb in states:
                                hit.add((bb, V.const_under(states[bb].ops[1], sel)))
                            return False
                        V.escape_from(i.block, sd, see, stop | set(states))
                        both.append(hit)
                    if both[1] and both[1] <= both[0] and (g not in QUEUED or all(x is not None for h in both for _, x in h)):
                        p, what = (), "goes on to the next step"
                if p is None and sink is finish and g != "metac_new_recursive_iterator" and (conv.get(n) == "int" or fn.ret == ("p",)):
                    # before and after the traversal the function's own answer counts
                    if conv.get(n) == "int":
                        own = lambda bb, sel: bb in ret and V.const_under(ret[bb].ops[0], sel) == 0      # noqa: E731
                        what = "returns success"
                    else:
                        own = lambda bb, sel: bb in ret and V.const_under(ret[bb].ops[0], sel) != 0      # noqa: E731
                        what = "returns an object"
                    p = V.escape_from(i.block, seed, own, stop)
                if p is None and k == "ptr" and deps:
                    # a part that could not be made is not scheduled
                    missing = lambda bb, sel: any(d.block == bb and V.const_under(d.ops[1], sel) == 0 for d in deps)      # noqa: E731
                    p = V.escape_from(i.block, seed, missing, fail | nxt | at.get(g, set()))
                    what = "schedules nothing in place of a part"
                if p is not None:
                    r.bad("lost", "lost|%s|%s" % (n, g), i.where(), "%s %s although %s failed" % (n, what, g))
        delivered(V, n, conv, r)
        for b in fn.blocks:
            for i in b.ins:
                if i.op != "call" or i.callee != "metac_recursive_iterator_get_out" or b.idx not in V.reach or len(i.ops) < 3:
                    continue
                seed = dict(forward(V))
                seed[i.id] = ("c", 0)
                o = i.ops[2]
                if o[0] == "i" and o[1] in V.ins and V.ins[o[1]].op == "alloca":
                    for u in V.users(o[1]):
                        if u.op == "load":
                            seed[u.id] = ("c", 1)
                if conv.get(n) in ("int", "num"):
                    ok = lambda bb, sel: bb in ret and (lambda c: c is None or c >= 0)(V.const_under(ret[bb].ops[0], sel))
                elif fn.ret == ("p",):
                    ok = lambda bb, sel: bb in ret and V.const_under(ret[bb].ops[0], sel) != 0
                else:
                    continue
                r.ob("outcome of a traversal", "%s in %s" % (i.where(), n))
                if V.escape(lambda f: False, ok, start=b.idx, seed=seed) is not None:
                    r.bad("lost", "lost-walk|" + n, i.where(), "%s reports success although its traversal failed" % n)
    texts(r)
    r.need("fallible call", 50)
    return r


def contradicts(P, o):
    """index < count inside a loop that counts up from 0, and count <= 0 after it"""
    from pathval import C, cmp_, lin
    for e in o.facts:
        if e[0] == "cmp" and e[1] in ("slt", "ult") and e[2][0] == "phi" and (cmp_("slt", e[3], C(1)) in o.facts or cmp_("eq", e[3], C(0)) in o.facts):
            st = {"v": {}, "m": {}, "z": {}, "s": [], "c": [], "f": {}, "fl": []}
            vs = [P.ev(x, st) for _, x in P.ins[e[2][1]].incoming]
            if all(v[0] == "c" and v[1] >= 0 or lin(v)[1] == {e[2]: 1} and lin(v)[0] > 0 for v in vs):
                return True
    return False


TEXT = ("dsprintf", "strdup", "metac_recursive_iterator_dequeue_and_delete_dep")


def texts(r):
    """pieces of text: one that could not be made is not printed, does not restart the text and does not end in a result"""
    from p_cover import DONE, FAIL, Pass
    from pathval import C, cmp_
    mod = ir.load_module(inline=lambda n, internal, info: internal and info["size"] < 400)

    def piece(e):
        return e[0] == "call" and e[1].startswith(TEXT)
    for n in sorted(mod.fns):
        f = mod.fns[n]
        if not any(i.op == "call" and (i.callee or "").startswith(TEXT) for b in f.blocks for i in b.ins) or n.startswith("dsprintf"):
            continue
        P = Pass(mod, f, cap=40000)
        for h in sorted(P.headers):
            body = P.bodies[h]
            if not any(i.op == "call" and (i.callee or "").startswith(TEXT) for b in body for i in f.blocks[b].ins):
                continue
            for o in P.passes(h):
                if o.end != "back" or o.nxt[0] != h:
                    continue
                fs = set(o.facts)
                if contradicts(P, o):
                    continue
                if any(c[0] == DONE and len(c[1]) > 1 and c[1][1] != C(0) and cmp_("eq", c[1][1], C(0)) not in fs for c in o.calls) and \
                        not any(c[0] == FAIL for c in o.calls):
                    r.ob("finished text", "%s: %s" % (n, o.where.where()))
                    for e in o.facts:
                        if e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and piece(e[2]):
                            r.bad("text", "text|%s|%s" % (n, e[2][1]), o.where.where(),
                                  "%s finishes the step of the traversal although %s failed" % (n, e[2][1]))
                for c in o.calls:
                    if c[0].startswith("dsprintf"):
                        for x in c[1]:
                            if piece(x):
                                r.ob("printed piece", "%s: %s" % (n, c[2].where()))
                                if cmp_("ne", x, C(0)) not in fs:
                                    r.bad("text", "piece|%s|%s" % (n, x[1]), c[2].where(),
                                          "%s prints a piece of text without knowing that %s made it" % (n, x[1]))
                if any(piece(v) for v in o.nxt[1].values()):
                    for e in o.facts:
                        if e[0] == "cmp" and e[1] == "eq" and e[3] == C(0) and piece(e[2]) and not any(
                                v[0] == "c" and v[1] != 0 for v in o.nxt[1].values()):
                            r.bad("text", "goes-on|%s|%s" % (n, e[2][1]), o.where.where(),
                                  "%s adds to the text although %s failed" % (n, e[2][1]))
                for k, v in o.nxt[1].items():
                    if piece(v) and v[1].startswith("dsprintf"):
                        r.ob("carried text", "%s: %s" % (n, o.where.where()))
                        if cmp_("ne", v, C(0)) not in fs:
                            r.bad("text", "carry|%s" % n, o.where.where(),
                                  "%s goes on with the next part although the text could not be extended" % n)


def delivered(V, n, conv, r):
    """a variable that only a successful call fills is not read after the call failed"""
    for b in V.fn.blocks:
        if b.idx not in V.reach:
            continue
        for i in b.ins:
            if i.op != "call" or not i.callee or conv.get(i.callee) not in ("int", "num"):
                continue
            for o in i.ops:
                if o[0] != "i" or o[1] not in V.ins or V.ins[o[1]].op != "alloca":
                    continue
                use = V.users(o[1])
                if any(u.op not in ("load", "store", "call") or u.op == "store" and u.ops[1] != o for u in use):
                    continue
                writes = [u for u in use if u.op == "store" or u.op == "call" and u is not i]
                if any(w.block != b.idx and V.dominates(w.block, b.idx) or w.block == b.idx and w.idx < i.idx for w in writes):
                    continue          # has a value already
                loads = {u.block for u in use if u.op == "load" and not any(
                    w.block == u.block and w.idx < u.idx for w in writes)}
                r.ob("delivered variable", "%s %s" % (i.where(), i.callee))
                seed = seeds(V, i, -1, lambda c: None)
                bad = any(u.op == "load" and u.block == b.idx and u.idx > i.idx and not any(
                    w.block == b.idx and i.idx < w.idx < u.idx for w in writes) for u in use)
                if not bad:
                    p = V.escape_from(b.idx, seed, lambda bb, sel: bb in loads, {w.block for w in writes} | {b.idx})
                    bad = p is not None
                if bad:
                    r.bad("undelivered", "undelivered|%s|%s" % (n, i.callee), i.where(),
                          "%s reads what %s should have delivered although it failed" % (n, i.callee))


def family(g):
    """calls that try the same thing for another type"""
    return "read" if g in READ or g in ("metac_value_enumeration", "metac_value_num") else "write" if g in WRITE else g


def seeds(V, call, v, cls):
    """the failed result, also where it is read back from the place it was stored to; output variables that keep their
    value; comparisons decided by what holds at the call"""
    seed = dict(forward(V))
    seed[call.id] = ("c", v)
    for u in V.users(call.id):
        if u.op == "call" and u.callee == "metac_recursive_iterator_next":
            seed[u.id] = ("c", 0)
        elif u.op == "call" and u.callee and u.ops and u.ops[0] == ("i", call.id) and v == 0 and cls(u.callee):
            seed[u.id] = ("c", 0 if cls(u.callee) == "ptr" else -1)       # nothing handed on: fails as well
    # a query answered yes: its argument was there
    there = {x[2] for p, x, y in V.facts(call.block) if p == "ne" and y == ("c", 0) and isinstance(x, tuple) and x[0] == "call" and
             x[1].startswith("metac_") and len(x) > 2}
    for b in V.fn.blocks:
        for i in b.ins:
            if i.op == "icmp" and i.pred in ("eq", "ne"):
                x, y = V.val(i.ops[0]), V.val(i.ops[1])
                if y == ("c", 0) and x in there:
                    seed[i.id] = ("c", int(i.pred == "ne"))
    for o in call.ops:
        if o[0] == "i" and o[1] in V.ins and V.ins[o[1]].op == "alloca":
            init, ok = None, True
            loads = []
            for u in V.users(o[1]):
                if u.op == "store" and u.ops[1] == o and u.ops[0][0] == "c" and init is None:
                    init = u.ops[0][1]
                elif u.op == "load":
                    loads.append(u.id)
                elif u is call:
                    pass
                else:
                    ok = False
            if ok and init is not None:
                for l in loads:
                    seed[l] = ("c", init)
    return seed


def forward(V):
    """load -> operand of the nearest store to the same address that dominates it"""
    if hasattr(V, "_fwd"):
        return V._fwd
    st = {}
    for b in V.fn.blocks:
        if b.idx in V.reach:
            for i in b.ins:
                if i.op == "store":
                    st.setdefault(V.val(i.ops[1]), []).append(i)
    out = {}
    for b in V.fn.blocks:
        if b.idx not in V.reach:
            continue
        for l in b.ins:
            if l.op != "load":
                continue
            c = [s for s in st.get(V.val(l.ops[0]), ()) if s.size == l.size and
                 (s.block != b.idx and V.dominates(s.block, b.idx) or s.block == b.idx and s.idx < l.idx)]
            if not c:
                continue
            best = c[0]
            for s in c[1:]:
                if s.block == best.block and s.idx > best.idx or s.block != best.block and V.dominates(best.block, s.block):
                    best = s
            if best.ops[0][0] == "i":
                out[l.id] = best.ops[0]
    V._fwd = out
    return out
