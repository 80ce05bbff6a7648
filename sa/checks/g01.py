"""G01: coordinate <-> index conversions."""
from grids import *
RULE = ("to_1d and to_nd are inlined and unrolled for coordinates of 1 to 6 dimensions of 32- and 64-bit components; each result is brought to the normal form of a polynomial, quotient or remainder in the components and sizes. "
        "The index must be sum c_k * (s_0 ... s_(k-1)), and component k of the inverse floor(i / (s_0 ... s_(k-1))) mod s_k (the last one without the remainder), which are inverse to each other for all coordinates within the sizes. "
        "In addition every conversion that a search performs is given the size of the searched maze.")
TECH = "algebraic value numbering (normal forms of index expressions) of the inlined, unrolled conversions; argument check at every call site of the searches"
MIN_OB = 60

def run(rep, tier):
    M = module(0)
    for T, w in (("uint32_t", 32), ("uint64_t", 64)):
        for N in range(1, 7):
            f = root(M, f"root_to1d_{T}_{N}", False)
            if f is None: continue
            A = Alg(f, rename=arrays({0: "c", 1: "s"}, w // 8)); o = A.stores(2)
            v = o.get(0, (0, []))[1]
            if [p for _, p in v] == [flat(N)]: rep.ok(f"to_1d, {N} x {T}: row-major index", where(M, "to_1d"))
            else: rep.bad(f"to_1d:{N}:{T}", where(M, "to_1d"), f"to_1d of {N} components computes {show(A, v)} instead of {pshow(flat(N))}")
            f = root(M, f"root_tond_{T}_{N}")
            A = Alg(f, rename=arrays({0: "i", 1: "s"}, w // 8)); o = A.stores(2)
            for k in range(N):
                v = o.get(k * (w // 8), (0, []))[1]
                if [p for _, p in v] in [[x] for x in component(A, k, N)]: rep.ok(f"to_nd, {N} x {T}, component {k}: inverse of the row-major index", where(M, "to_nd"))
                else: rep.bad(f"to_nd:{N}:{T}:{k}", where(M, "to_nd"), f"to_nd of {N} components computes component {k} as {show(A, v)} instead of {pshow(component(A, k, N)[0])}")
    from common import run_units
    import s_conv
    run_units(rep, s_conv.unit, tier, 1)
