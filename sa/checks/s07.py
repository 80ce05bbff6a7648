"""S07: non-empty paths are only built after a goal test."""
from search import *
RULE = ("In every inlined solve(), every construction of path elements for distinct endpoints is reached only over control-flow edges on which the index of a cell just taken from (or just put into) a search container is known to be "
        "the goal's index, or on which the goal was found in the table of settled cells; where the solution is parked in an optional first, only assignments behind such an edge fill it. The goal tested is the endpoint the search did not start from.")
TECH = "edge cuts of the control-flow graph by branch facts over inlined SSA"
MIN_OB = 150

def unit(S, r):
    fn = S.fn; sem = S.sem
    ne = ("eq", *sorted((S.idx("start"), S.idx("end")), key=repr))
    ge = S.goal_edges(); roots = S.roots()
    if len(roots) != 1: raise CheckError(f"{S.name}: roots of the search not recognised: {roots}")
    goal = "end" if roots == {"start"} else "start"
    edges = {e for e, (w, k, q) in ge.items() if w == goal}
    deep = any(cls == "chdr::stack" and "::state" in S.dem(i) for i, cls, m, o in S.inserts())
    for e, (w, k, q) in list(ge.items()):
        if deep and k == "taken" and not all(o[1] in ("back", "rbegin", "end", "operator[]", "emplace_back") and S.elem_class(o[2])[0] == "vector" for a in alts(q) for o in S.origin(a[1]) if isinstance(o, tuple) and o[0] == "elem"):
            edges.discard(e); i = fn.term(e[0])
            if w == goal: r.bad(f"{S.solver}:goal-test-stale", i.where(), f"{S.name}: the goal test looks at a cell other than the last one of the current path, which is what is returned")
    for e, (w, k, q) in ge.items():
        i = fn.term(e[0])
        if w == goal: r.ok(f"{S.name}: goal test on a cell {k}", i.where())
        elif k != "found": r.bad(f"{S.solver}:goal-is-root", i.where(), f"{S.name}: the goal test compares with the cell the search starts from")
    same = set()
    for b in fn.order:
        for s in fn.blocks[b].succs:
            for v, tr in fn.edge_fact(b, s):
                c = sem.cond(v) if not isinstance(v, tuple) else None
                if c is not None and c[0] == ne and (c[1] == tr): same.add((b, s))
    cut = edges | same
    for i, m in S.grows():
        if sem.known(i.bb).get(ne) is True: continue
        if not S.reachable_without(i.bb, cut): r.ok(f"{S.name}: path elements only after a goal test", i.where()); continue
        # a solution parked in an optional
        ok = False
        for v, tr in fn.facts(i.bb):
            if not (tr and isinstance(v, int)): continue
            j = fn.inst.get(v)
            if j is None: continue
            if j.op in ("call", "invoke") and fn.callee(j).rpartition("::")[2] in ("has_value", "operator bool") and "optional" in fn.callee(j):
                R = sem.addr(j.ops[0])[0]; fills = 0; good = True
                for c in fn.calls():
                    n = fn.callee(c)
                    if n.startswith("std::optional::") and c.ops and sem.addr(c.ops[0])[0] == R and n.rpartition("::")[2] in ("emplace", "operator=", "swap"):
                        fills += 1
                        if S.reachable_without(c.bb, cut): good = False
                ok = ok or (fills > 0 and good)
            elif j.op in ("load", "phi", "trunc", "icmp", "zext"):
                ok = ok or flagged(S, sem, fn, v, cut, set())
        if ok: r.ok(f"{S.name}: path elements only for a solution stored after a goal test", i.where())
        else: r.bad(f"{S.solver}:path-without-goal", i.where(), f"{S.name}: path elements are built on a way that never found the goal reached")
    if not edges: r.bad(f"{S.solver}:no-goal-test", fn.sp_where(), f"{S.name}: no test whether a cell is the goal")

def flagged(S, sem, fn, v, cut, seen):
    """can v be non-zero only by way of the cut edges"""
    if isinstance(v, tuple): return cval(v) == 0
    if v in seen: return True
    seen.add(v); i = fn.inst.get(v)
    if i is None: return False
    if i.op in ("trunc", "zext"): return flagged(S, sem, fn, i.ops[0], cut, seen)
    if i.op == "icmp" and i.d["pred"] == "ne" and isc(i.ops[1], 0): return flagged(S, sem, fn, i.ops[0], cut, seen)
    if i.op == "phi": return all(not S.reachable_without(b, cut) or flagged(S, sem, fn, tup(x), cut, seen) for b, x in i.d["in"])
    if i.op == "load":
        R, o = sem.addr(i.ops[0])
        if not sem.alloca(R) or o is None: return False
        for d in sem.defs(R, o, i.d["bytes"], i):
            if d[0] == "undef": continue
            if d[0] == "store" and (not S.reachable_without(d[1].bb, cut) or flagged(S, sem, fn, d[1].ops[0], cut, seen)): continue
            if d[0] == "memset" and cval(d[1].ops[1]) == 0: continue
            if d[0] in ("copy",) and not S.reachable_without(d[1].bb, cut): continue
            return False
        return True
    return False

def run(rep, tier): run_units(rep, unit, tier, 2)
