"""S05: only neighbours reported traversable enter the frontier."""
from search import *
RULE = ("Every insertion of a cell into a search container, in the inlined solve() of every solver and configuration, names (on each alternative of its index) an endpoint, a cell that is already in a search container, or the "
        "index of a neighbour record - one produced by get_neighbours of the maze or by a jump - whose own activity flag is known to be true on every path to the insertion. Jumps: every jump starts at a record whose flag "
        "is known true (or at the cell its caller was given) and returns that cell or the result of another jump. Depth-first states hold the neighbours of the very cell they are built for.")
TECH = "value origin of frontier indices and dominating branch facts over inlined SSA"
MIN_OB = 300
ASSUME = ["get_neighbours flags exactly the traversable in-range cells (G02-G04)"]
KEYED = ("find", "emplace", "operator[]", "at", "try_emplace", "insert")

def classify(S, a, b):
    """'end' | 'elem' | 'neigh' | ('inactive'|'unknown', why)"""
    if a in (S.idx("start"), S.idx("end")): return "end"
    rec = S.record(a)
    if rec is not None and rec[0][0][0] != "a" and rec[0] is not None:
        R = rec[0][0] if rec[0][0] != "gep" else rec[0][1]
        if S.sem.known(b).get(rec[1]) is True: return "neigh"
        t = S.sem.at(b)
        return ("inactive", "its activity flag is not known to be true there")
    if a[0] in ("ld", "ldx", "wide"):
        R = a[1]
        if a[0] == "wide": return classify(S, R, b)
        while R[0] == "gep": R = R[1]
        if R[0] == "call": v = R[2]
        elif R[0] == "v": v = R[1]
        else: return ("unknown", str(a)[:120])
        og = S.origin(v)
        if og == {"neigh"} and not S.grid: return "neigh"
        ok = bool(og)
        for o in og:
            if isinstance(o, tuple) and o[0] == "elem":
                cls, e = S.elem_class(o[2])
                if S.nodeish(e): continue
                if cls in ("unordered_map", "map", "_Hashtable") or o[1] in ("find", "emplace") and cls != "vector": continue
                if not S.grid and "pair" in e or "tuple" in e or "id" in e: continue
            ok = False
        if ok: return "elem"
        return ("unknown", f"{str(a)[:100]} from {sorted(map(str, og))[:3]}")
    if a[0] == "mem" and a[1] in S.fn.inst:
        i = S.fn.inst[a[1]]; n = S.fn.callee(i)
        if n.rpartition("::")[2] in ("get_neighbours",): return "neigh" if not S.grid else ("inactive", "unchecked record")
        if n.rpartition("::")[2] in ("value", "extract", "top", "front", "back"): return "elem"
    if a[0] == "c": return ("unknown", f"the constant {a[1]}")
    return ("unknown", str(a)[:140])

def unit(S, r):
    fn = S.fn; sem = S.sem
    for i, cls, m, o in S.inserts():
        q = qual(S.dem(i)); e = split_targs(q[-2][1])[0]
        if e.rstrip().endswith("*"): continue
        at = sem.at(i.bb)
        for a in alts(at.content(o, IDX, i) if at.isptr(o) else at.t(o)):
            c = classify(S, a, i.bb)
            if isinstance(c, str): r.ok(f"{S.name}: {cls}::{m} of " + {"end": "an endpoint", "elem": "a cell already held", "neigh": "a neighbour flagged active"}[c], i.where())
            else: r.bad(f"{S.solver}:{cls}::{m}:{c[0]}", i.where(), f"{S.name}: {cls}::{m} puts a cell into the search that is not a neighbour found traversable ({c[1]})")
    if S.solver in ("jps", "gjps"):
        for k, f in S.mod.functions.items():
            if f.base != fn.base and not f.base.endswith("::jump"): continue
            sm = sem if f is fn else SSem(f, S.cfg)
            cur = None
            if f is not fn:
                sret = 1 if f.d["args"][0].get("sret") else 0
                cur = ("a", sret + 1)
                for b in f.order:
                    t = f.term(b)
                    if t.op == "ret" and t.ops:
                        for v in S.leaves(t.ops[0], f):
                            j = f.inst.get(v) if isinstance(v, int) else None
                            if j is not None and j.op in ("call", "invoke") and f.callee(j).endswith("::jump"): r.ok(f"{S.name}: a jump returns another jump's result", j.where())
                            elif j is not None and j.op == "load" and sm.addr(j.ops[0])[0] == cur: r.ok(f"{S.name}: a jump returns the cell it stands on", j.where())
                            else: r.bad(f"{S.solver}:jump-result", t.where(), f"{S.name}: a jump returns a cell that is neither the one it stands on nor another jump's result")
            for i in f.calls():
                if not f.callee(i).endswith("::jump"): continue
                k0 = 1 if i.d.get("sret") else 0
                c = i.ops[k0 + 1]
                if c == cur: r.ok(f"{S.name}: a jump continues from the cell it stands on", i.where()); continue
                ps = [c]
                if isinstance(c, int) and f.inst[c].op == "phi": ps = [tup(x[1]) for x in f.inst[c].d["in"]]
                good = True
                for p in ps:
                    R, o2 = sm.addr(p)
                    if o2 is not None: t = sm.mem_term(R, o2 - 4, 1, i, 0)
                    else:
                        g = sm.t(p); t = ("ldx", ("gep", g[1], g[2] - 4, g[3])) if g[0] == "gep" else None
                    good = good and t is not None and sm.known(i.bb).get(t) is True
                if good: r.ok(f"{S.name}: a jump starts at a neighbour flagged active", i.where())
                else: r.bad(f"{S.solver}:jump-start", i.where(), f"{S.name}: a jump starts at a neighbour that was not found traversable")
    # the states of the depth-first solvers
    if any(cls == "chdr::stack" and "::state" in S.dem(i) for i, cls, m, o in S.inserts()):
        M = S.aux([r"::state::state$"])
        n = 0
        for f in M.functions.values():
            for i in f.calls():
                if not f.callee(i).endswith("::get_neighbours"): continue
                n += 1; k0 = 1 if i.d.get("sret") else 0
                sm = SSem(f, S.cfg); op = i.ops[k0 + 1]; t = sm.content(op, IDX, i) if sm.isptr(op) else sm.t(op)
                if t == ("ld", ("a", 1), 0): r.ok(f"{S.name}: a state holds the neighbours of its own cell", i.where())
                else: r.bad(f"{S.solver}:state-neighbours", i.where(), f"{S.name}: a state is built with the neighbours of another cell")
        if not n: raise CheckError(f"{S.name}: no state constructor found")
    # expansions in the main function concern the cell that was taken from the frontier
def run(rep, tier): run_units(rep, unit, tier, 2)
