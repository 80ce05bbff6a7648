"""S01: endpoint guard."""
from common import *
from ir import *
RULE = ("In the whole-solve function of every solver and configuration (all helpers inlined), every point that does search work (enumerates neighbours, calls the heuristic) or gives the "
        "result an element is reached only through branches that establish, for both endpoints: maze.contains(endpoint) - by coordinate on grids, where a flattened index can alias - and "
        "is_active() of that very cell; the cell is only read after its membership test; search work happens only when the endpoints differ, and when they are equal the result is exactly that cell.")
TECH = "dominating branch facts over inlined SSA"
MIN_OB = 700
ASSUME = ["the caller's size parameter is the size of the maze"]

def guards(S, b, i, r, what):
    k = S.sem.known(b); ok = True
    for e in ("start", "end"):
        idx = ("idx", S.idx(e)); co = ("coord", ("ld", ("a", 1), S.off[e]))
        inn = k.get(("contains", co)) is True or (not S.grid and k.get(("contains", idx)) is True)
        act = not S.grid or k.get(("active", idx)) is True or k.get(("active", co)) is True
        if not inn: r.bad(f"{S.solver}:{what}:{e}-in-range", i.where(), f"{S.name}: {what} is reachable although {e} was not found to be a cell of the maze"); ok = False
        elif not act: r.bad(f"{S.solver}:{what}:{e}-active", i.where(), f"{S.name}: {what} is reachable although {e} was not found traversable"); ok = False
        else: r.ok(f"{S.name}: {what} guarded by contains({e})" + (" and is_active" if S.grid else ""), i.where())
    return ok

def unit(S, r):
    fn = S.fn; sem = S.sem
    ne = ("eq", *sorted((S.idx("start"), S.idx("end")), key=repr))
    for i in S.expansions():
        guards(S, i.bb, i, r, "neighbour enumeration")
        if sem.known(i.bb).get(ne) is False: r.ok(f"{S.name}: search only when the endpoints differ", i.where())
        else: r.bad(f"{S.solver}:search-same-cell", i.where(), f"{S.name}: searches although start and end may be the same cell")
        # paths from same-cell
    for i in S.heuristics(): guards(S, i.bb, i, r, "heuristic call")
    single = 0
    for i, m in S.grows():
        guards(S, i.bb, i, r, "non-empty result")
        if sem.known(i.bb).get(ne) is True:
            single += 1
            arr, n = i.ops[1], cval(i.ops[2]) if len(i.ops) > 2 else None
            if m == "vector" and "initializer_list" in S.dem(i):
                c = sem.coord(arr, i)
                if n == 1 and c in (("ld", ("a", 1), S.off["start"]), ("ld", ("a", 1), S.off["end"])): r.ok(f"{S.name}: equal endpoints give just that cell", i.where())
                else: r.bad(f"{S.solver}:same-cell-result", i.where(), f"{S.name}: for equal endpoints the result is not just that cell")
    if not single:
        # the single-cell result may be shared with the searched case; look for a one-element result with an endpoint not guarded by inequality
        if not any(sem.known(i.bb).get(ne) is None for i, m in S.grows()): r.bad(f"{S.solver}:same-cell-missing", fn.sp_where(), f"{S.name}: no result is built for equal endpoints")
    # reads of cells
    for i in fn.calls():
        t = sem.t(i.id) if i.d.get("fn") and fn.callee(i).startswith("chdr::mazes::") and fn.callee(i).rpartition("::")[2] in ("operator[]", "at") else None
        if t and t[0] == "cell":
            k = sem.known(i.bb); a = t[1]
            co = [("coord", ("ld", ("a", 1), S.off[e])) for e in ("start", "end") if a == ("idx", S.idx(e))]
            if not co: continue
            if k.get(("contains", a)) is True or any(k.get(("contains", c)) is True for c in co): r.ok(f"{S.name}: cell read after its membership test", i.where())
            else: r.bad(f"{S.solver}:read-before-test", i.where(), f"{S.name}: an endpoint's cell is read before it was found to be in the maze")

def run(rep, tier): run_units(rep, unit, tier, 6)
