"""X02: solving reads the maze only."""
from search import *
from effects import *
RULE = ("In every inlined solve(), every pointer that derives from the maze reference of the parameters (fields, elements, iterators, results of its member functions, copies kept in locals) is followed: nothing is stored through it, it is no "
        "destination of a block copy, and it is passed on only to functions that do not write through it (their bodies are analysed in turn; standard-library functions by their const-qualified signatures). Likewise no member function of a maze or of its "
        "cells that a solve calls writes to its own object.")
TECH = "interprocedural may-write analysis over pointers derived from the maze"
MIN_OB = 500

def unit(S, r):
    fn = S.fn; E = Effects(S.mod); sem = S.sem
    seeds = [i.id for i in fn.insts() if i.op == "load" and i.ty == "ptr" and sem.addr(i.ops[0]) == (("a", 1), 0)]
    if not seeds: raise CheckError(f"{S.name}: the maze reference is never read")
    T, slots, tin = E.taint(fn, seeds)
    bad = {i.id: y for i, y in E.writes(fn, seeds)}
    for i in fn.insts():
        if i.id in bad: r.bad(f"{S.solver}:maze-write:{fn.callee(i) if i.op in ('call', 'invoke') else i.op}", i.where(), f"{S.name}: the search has a pointer into the maze and {bad[i.id]}")
        elif i.op in ("call", "invoke") and not fn.callee(i).startswith("llvm.") and any(tin(o) for o in i.ops): r.ok(f"{S.name}: {fn.callee(i) or 'an indirect call'} only reads the maze", i.where())
    for f in S.mod.functions.where(r"^chdr::mazes::"):
        dem = S.mod.dem(f.name); m = f.base.rpartition("::")[2]
        if not reached(S, f.name): continue
        k = 1 if f.d["args"] and f.d["args"][0].get("sret") else 0
        if "::" in f.base and m not in (f.base.split("::")[-2], "~" + f.base.split("::")[-2]):
            w = E.writes(f, [("a", k)]) if len(f.d["args"]) > k and f.d["args"][k]["ty"] == "ptr" else []
            if w: r.bad(f"maze:{f.base}:{m}", w[0][0].where(), f"{f.base}, which solves call, changes the maze: {w[0][1]}")
            else: r.ok(f"{S.name}: {f.base} leaves its object unchanged", f.sp_where())
    for i in fn.calls():
        n = fn.callee(i)
        if n.startswith("chdr::mazes::") and i.d.get("fn") not in S.mod.functions and not is_const_member(S.dem(i)): r.bad(f"maze:{n}", i.where(), f"{S.name}: calls {n}, which is not const")

def reached(S, name):
    if not hasattr(S, "_reach"):
        S._reach = set(); w = [S.fn.name]
        while w:
            x = w.pop(); f = S.mod.functions.get(x)
            if f is None: continue
            for i in f.calls():
                y = i.d.get("fn")
                if y and y not in S._reach: S._reach.add(y); w.append(y)
    return name in S._reach

def run(rep, tier): run_units(rep, unit, tier, 3)
