"""G03: the reported neighbours are exactly the adjacent cells."""
from grids import *
import itertools
from checks.g02 import kinds
RULE = ("For grids of 1 to 5 dimensions with bool and integral cells, each neighbour enumeration is inlined and unrolled; the entries it reports are compared, in normal form, with the definition: the coordinates of the entries that can be traversable are the cell's own plus "
        "each unit step (axis) or each non-zero combination of steps (diagonal), every one exactly once, and the flag of an entry is the boolean function 'the neighbour is in the grid and its cell - the one at the coordinate reported beside it - is not a wall'.")
TECH = "value numbering of coordinates and index expressions, predicate abstraction, equivalence of boolean functions (decision diagrams)"
MIN_OB = 700

def part(q):
    r = Report("G03")
    for g in grids([q]):
        for what, A, n, c, f in kinds(g):
            B = A.B; legal = g.legal(B); name = f"{g.N}-dimensional grid of {g.W}, {what}"; key = f"{what}:{g.N}:{g.W}"
            if what.startswith("axis"): want = {tuple((1 if s else -1) if j == k else 0 for j in range(g.N)) for k in range(g.N) for s in (0, 1)}
            elif what.startswith("diag"): want = {d for d in itertools.product((-1, 0, 1), repeat=g.N) if any(d)}
            else: want = None
            seen = {}
            for e, (fl, cs) in enumerate(g.entries(A, n, c, f)):
                if fl == 0: continue
                if any(len(x) != 1 for x in cs): r.bad(key + ":coord", A.fn.sp_where(), f"{name}: the coordinate of entry {e} is not determined: {[[pshow(y) for y in x] for x in cs]}"); continue
                d = [padd(x[0], atom(f"c{j}"), -1) for j, x in enumerate(cs)]
                w = g.inrange(B, d)
                if w is None: r.bad(key + ":coord", A.fn.sp_where(), f"{name}: entry {e} has the coordinate ({', '.join(pshow(x[0]) for x in cs)}), which is not adjacent to the cell"); continue
                exp = B.an(w, B.nt(g.wall(B, flat(g.N, d))))
                if B.an(legal, fl) != B.an(legal, exp): r.bad(key + ":flag", A.fn.sp_where(), f"{name}: the flag of entry {e} at distance ({', '.join(pshow(x) for x in d)}) is not 'in the grid and not a wall' of that cell: {B.show(fl)}"); continue
                if want is None: r.ok(f"{name}: the flag describes the coordinate", A.fn.sp_where()); seen[()] = e; continue
                t = tuple(pconst(x) for x in d)
                if t not in want: r.bad(key + ":coord", A.fn.sp_where(), f"{name}: entry {e} at distance {t} is not one of the neighbourhood")
                elif t in seen: r.bad(key + ":twice", A.fn.sp_where(), f"{name}: the neighbour at distance {t} is reported twice (entries {seen[t]} and {e})")
                else: seen[t] = e; r.ok(f"{name}: the neighbour at distance {t} with its own flag", A.fn.sp_where())
            if want is not None:
                for t in sorted(want - set(seen)): r.bad(key + ":missing", A.fn.sp_where(), f"{name}: the neighbour at distance {t} is never reported traversable")
            elif not seen: r.bad(key + ":missing", A.fn.sp_where(), f"{name}: nothing is reported")
            r.count("enumerations")
    return r.part()

def run(rep, tier):
    prepare(list(PARTS))
    for p in ppmap(part, list(PARTS)): rep.merge(p)
