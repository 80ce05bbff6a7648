"""S04: a refused allocation never ends in std::terminate."""
from search import *
RULE = ("Over the whole program of every solver and configuration, before any inlining: a function raises if an allocation failure (operator new, memory_resource::allocate, do_allocate of any resource, the library's own bad_alloc) can leave it. In every function that a solve can run - the pools' "
        "do_allocate, do_deallocate and reset included - no call of a raising function sits in a function, destructor or handler that terminates on exceptions. Exempt is only the assignment from an object that was just default-constructed in the same expression, which moves no element.")
TECH = "interprocedural exception-effect analysis (raises-relation) against noexcept boundaries"
MIN_OB = 3000
EXTRA = [("bfs", "PE"), ("astar", "PE"), ("idastar", "PE")]

def one(a):
    src, defs, root, label = a
    bc, err = compile_bc(src, defs)
    return label, (json.load(open(dump(bc, root, raises=True))) if bc else None), err

def where(x, s):
    for l in s.get("loc") or []:
        if "/repo/" in l[0] or l[0].startswith("include") or REPO in l[0]: return f"{l[0]}:{l[1]}"
    return f"{x.get('file', '?')}:{x.get('line', 0)}"

def judge(rep, label, key, fns):
    n = 0
    for x in fns:
        n += x["calls"]
        for s in x["dies"]:
            if s.get("fresh"): rep.ok(f"{label}: {x['base']} is only used to assign freshly constructed objects", where(x, s)); continue
            rep.bad(f"{x['base']}->{s['cbase']}", where(x, s), f"{label}: an allocation refused inside {s['cbase']} terminates the process, because {x['base']} promises not to throw")
        if x["raises"]: rep.ok(f"{label}: an allocation failure can leave {x['base']}", f"{x.get('file', '?')}:{x.get('line', 0)}")
    if not n: raise CheckError(f"{label}: no allocation found")
    rep.count("raising_calls", n)

def run(rep, tier):
    build_tool()
    us = list(solver_units()) + EXTRA
    res = pmap(one, [("solver.cpp", (f"SOLVER={s}", f"CFG={c}"), ["^root_"], f"{s}/{c}") for s, c in us] + [("lib.cpp", (), [r"_pool::(do_allocate|do_deallocate|do_is_equal|reset)$"], "pools")])
    for label, d, err in res:
        if d is None: raise CheckError(f"{label} does not compile: " + (err or "")[:600])
        judge(rep, label, label, d)
