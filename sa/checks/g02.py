"""G02: neighbour enumeration reads cells inside the grid only."""
from grids import *
RULE = ("For grids of 1 to 5 dimensions with bool and integral cells, each neighbour enumeration (axis and diagonal, by coordinate and by index, and for one direction) is inlined and unrolled. Every read of a cell has an index polynomial, whose distance from "
        "the cell's own index gives the direction, and a reach condition as a boolean function of the bounds comparisons on the way; the condition must imply that the neighbour lies in the grid in every dimension. The same holds for each entry reported traversable.")
TECH = "value numbering of index expressions, predicate abstraction of the bounds tests, implication between boolean functions (decision diagrams)"
MIN_OB = 700

def kinds(g):
    yield "axis", g.alg("axis", "cell"), 3 ** g.N - 1, 2, 3
    yield "diag", g.alg("diag", "cell"), 3 ** g.N - 1, 2, 3
    if g.fn("axisid", False): yield "axisid", g.alg("axisid", "cell", index=1), 3 ** g.N - 1, 2, 3
    if g.fn("diagid", False): yield "diagid", g.alg("diagid", "cell", index=1), 3 ** g.N - 1, 2, 3
    yield "check", g.alg("check", "cell", direction=2), 1, 3, 4

def part(q):
    r = Report("G02")
    for g in grids([q]):
        for what, A, n, c, f in kinds(g):
            B = A.B; legal = g.legal(B); name = f"{g.N}-dimensional grid of {g.W}, {what}"
            k = 0
            for i, cond, idx in g.accesses(A):
                k += 1; d = g.delta(idx); w = g.inrange(B, d) if d is not None else None
                if d is None or w is None: r.bad(f"{what}:{g.N}:{g.W}:index", i.where(), f"{name}: reads the cell at {pshow(idx)}, which is not a neighbour's index")
                elif B.implies(B.an(cond, legal), w): r.ok(f"{name}: the cell at distance ({', '.join(pshow(x) for x in d)}) is read only when it is in the grid", i.where())
                else: r.bad(f"{what}:{g.N}:{g.W}", i.where(), f"{name}: the cell at distance ({', '.join(pshow(x) for x in d)}) is read although it may lie outside the grid")
            if not k: raise CheckError(f"{name}: no read of a cell was found")
            for e, (fl, cs) in enumerate(g.entries(A, n, c, f)):
                if fl == 0: continue
                for combo in [cs] if all(len(x) == 1 for x in cs) else []:
                    d = [padd(x[0], atom(f"c{j}"), -1) for j, x in enumerate(combo)]; w = g.inrange(B, d)
                    if w is None or not B.implies(B.an(fl, legal), w): r.bad(f"{what}:{g.N}:{g.W}:flag", A.fn.sp_where(), f"{name}: entry {e} may be reported traversable although it lies outside the grid")
                    else: r.ok(f"{name}: entry {e} is reported traversable only in the grid", A.fn.sp_where())
            r.count("enumerations"); r.count("reads", k)
    return r.part()

def run(rep, tier):
    prepare(list(PARTS))
    for p in ppmap(part, list(PARTS)): rep.merge(p)
