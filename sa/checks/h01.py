"""H01: distance heuristics depend only on the magnitude of per-dimension differences."""
from grids import *
RULE = ("Every distance heuristic is inlined and unrolled for coordinates of 1 to 5 dimensions (32-bit unsigned; 2 and 3 of 32-bit signed and 64-bit unsigned, 2 of 16-bit) and the scalars uint32_t, int32_t, float and double. In each dimension the two components are written as x and x + m with m > 0, in either order, or both as x, and the result is brought to a normal form for every combination of signs (in 5 dimensions: all equal, all larger, all smaller, and each single exception); an unsigned conversion of a negative difference stays visible. "
        "For the Euclidean, squared Euclidean, octile, Manhattan and Chebyshev distances the result must mention only the m, every m that is not zero, and be the same for all combinations with the same zeros; for these and the Canberra distance it must be zero when all are zero; Canberra and cosine must not change when the coordinates are exchanged, and mention every dimension.")
TECH = "algebraic value numbering (polynomial normal forms by sign of each difference, guards as decision diagrams) of the inlined, unrolled heuristics"
ASSUME = ["differences of coordinates are below 2^31 (mazes with larger extents in one dimension do not fit in memory)", "floating-point addition and multiplication commute; integers below 2^24 convert to floating point exactly"]
MIN_OB = 500
DIFF = ("euclidean", "sqr_euclidean", "octile", "manhattan", "chebyshev"); OTHER = ("canberra", "cosine")
BYTES = {"uint32_t": 4, "int32_t": 4, "uint64_t": 8, "uint16_t": 2}

def form(f, N, T, sg, bdd, swap=False):
    """normal form with a_k = x_k, b_k = x_k + m_k where sg_k is 1, the other way round where it is -1, equal where it is 0 (or with a and b exchanged)"""
    def rename(a):
        if a[0] == "ld" and isinstance(a[1], tuple) and a[1][0] == "a" and a[1][1] in (0, 1) and a[3] == BYTES[T]:
            o = pconst(a[2])
            if o is None: return None
            k = o // a[3]; x = atom(f"x{k}")
            return padd(x, atom(f"m{k}")) if sg[k] and ((a[1][1] == 1) != swap) == (sg[k] > 0) else x
    A = Alg(f, bdd, rename=rename, minw=min(32, 8 * BYTES[T])); A.signs = True; A.positive = {f"m{k}" for k in range(N)}; A.atleast = {f"x{k}" for k in range(N)} if T[0] == "u" else ()
    v = A.stores(2).get(0, (0, []))[1]
    return A, sorted(((g, pshow(p), p) for g, p in v), key=lambda x: (x[1], x[0]))
def atoms(p):
    for m, c in p:
        for x in m:
            if isinstance(x, str): yield x
            elif isinstance(x, tuple):
                for y in x[1:]:
                    if isinstance(y, frozenset): yield from atoms(y)
def patterns(N):
    import itertools
    if N < 5: return list(itertools.product((1, 0, -1), repeat=N))
    out = {(1,) * N, (-1,) * N, (0,) * N}
    for a in (1, 0, -1):
        for k in range(N):
            for b in (1, 0, -1): out.add(tuple(b if j == k else a for j in range(N)))
    return sorted(out, reverse=True)

def check(rep, M, f, what, T, N, S):
    tag = f"{what}_distance<{S}>, {N} x {T}"; at = where(M, what + "_distance"); key = f"{what}:{T}:{N}:{S}"
    B = Bdd()
    def show(v): return " or ".join(f"{s}" + ("" if g == 1 else f" if {B.show(g)}") for g, s, p in v)[:300]
    def rel(sg): return ", ".join({1: f"b{k} = a{k} + m{k}", 0: f"b{k} = a{k}", -1: f"a{k} = b{k} + m{k}"}[sg[k]] for k in range(N))
    sym = lambda v: [(g, s) for g, s, p in v]
    first = {}; met = set()
    for sg in patterns(N):
        A, v = form(f, N, T, sg, B)
        if not v: raise CheckError(f"{tag}: no result found")
        seen = {x for g, s, p in v for x in atoms(p)} | {x for g, s, p in v for n in B.support(g) for x in re.findall(r"\b[xm]\d+\b", str(n))}
        if not any(sg) and what != "cosine":
            if all(not p or A.fconst(p) == 0 for g, s, p in v): rep.ok(f"{tag}: zero for equal coordinates", at)
            else: rep.bad(f"zero:{key}", at, f"{tag} of a coordinate and itself is {show(v)}, not zero"); return
        if what in OTHER:
            w = form(f, N, T, sg, B, True)[1]
            if sym(w) == sym(v): rep.ok(f"{tag}, signs {sg}: the same with the coordinates exchanged", at)
            else: rep.bad(f"sym:{key}", at, f"{tag} changes when the two coordinates are exchanged: with {rel(sg)}, {show(v)} becomes {show(w)}"); return
            met |= {int(x[1:]) for x in seen if sg[int(x[1:])] and x[0] == "m"}; continue
        z = tuple(map(bool, sg))
        if z not in first: first[z] = (sg, v)
        elif sym(first[z][1]) != sym(v):
            rep.bad(f"sym:{key}", at, f"{tag} depends on the signs of the differences: {show(first[z][1])} if {rel(first[z][0])}, but {show(v)} if {rel(sg)}"); return
        if any(re.search(r"(?<!fp)trunc\(", str(s)) for g, s, p in v) or any(re.search(r"(?<!fp)trunc\(", str(k)) for g, s, p in v for k in B.support(g)):
            rep.bad(f"narrow:{key}", at, f"{tag} wraps around where a difference is narrowed: {show(v)} if {rel(sg)}"); return
        x = sorted(y for y in seen if y[0] == "x")
        if x: rep.bad(f"raw:{key}", at, f"{tag} depends on more than the magnitude of the differences: {show(v)} if {rel(sg)}"); return
        miss = [k for k in range(N) if sg[k] and f"m{k}" not in seen]
        if miss: rep.bad(f"dim:{key}:{miss[0]}", at, f"{tag} does not depend on the difference in dimension {miss[0]}: {show(v)} if {rel(sg)}"); return
        rep.ok(f"{tag}, signs {sg}: determined by the magnitudes of all differences", at)
    if what in OTHER:
        for k in range(N):
            if k in met: rep.ok(f"{tag}: dimension {k} contributes", at)
            else: rep.bad(f"dim:{key}:{k}", at, f"{tag} does not depend on the difference in dimension {k}")

def run(rep, tier):
    M = module(9); n = 0
    for name in sorted(M.functions):
        m = re.match(r"root_(\w+?)_(uint\d+_t|int\d+_t)_(\d)_(\w+)$", M.functions[name].base)
        if not m: continue
        n += 1; check(rep, M, M.functions[name], m[1], m[2], int(m[3]), m[4])
    rep.count("instantiations", n)
    if n < 200: raise CheckError(f"only {n} heuristic instantiations found")
