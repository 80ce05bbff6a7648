"""G04: membership and traversability."""
from grids import *
RULE = ("For grids of 1 to 5 dimensions with bool and integral cells, each question (contains by coordinate, by index and by size_t; is_active and value of the cell at a coordinate and at an index; the constructors) is inlined and unrolled and its answer brought to normal form: "
        "contains(index) is index < count, contains(coordinate) the conjunction of c_k < s_k, the cell read is the element of the cell vector at the index or the row-major index of the coordinate, it is active exactly if it differs from the largest value of its type, "
        "and every constructor stores the sizes it was given and the product of all sizes as count, and creates or takes over as many cells.")
TECH = "value numbering, predicate abstraction, equivalence of boolean functions (decision diagrams)"
MIN_OB = 120

def part(q):
    r = Report("G04")
    for g in grids([q]):
        name = f"{g.N}-dimensional grid of {g.W}"
        def flag(A):
            v = A.stores(2)[0][1]
            return A.B.any([A.B.an(x, 1 if pconst(p) else 0 if pconst(p) == 0 else A.bit(p)) for x, p in v])
        def judge(A, what, got, exp):
            if got == exp: r.ok(f"{name}: {what}", A.fn.sp_where())
            else: r.bad(f"{what}:{g.N}:{g.W}", A.fn.sp_where(), f"{name}: {what} does not hold, the answer is {A.B.show(got)}")
        A = g.alg("hascoord", "any"); judge(A, "contains(coordinate) is c_k < s_k for all k", flag(A), A.B.all([A.B.var(("below", str(k))) for k in range(g.N)]))
        for w in ("hasindex", "hassize"):
            A = g.alg(w, "any", index=1); judge(A, "contains(index) is index < count" + (" (size_t)" if w == "hassize" else ""), flag(A), A.B.var(("below", "")))
        A = g.alg("opencoord", "any"); judge(A, "a coordinate is active if the cell at its row-major index is not a wall", flag(A), A.B.nt(g.wall(A.B, flat(g.N))))
        for w in ("openindex", "opensize"):
            A = g.alg(w, "any", index=1); judge(A, "an index is active if the cell there is not a wall" + (" (size_t)" if w == "opensize" else ""), flag(A), A.B.nt(g.wall(A.B, atom("i"))))
        A = g.alg("value", "any", index=1); v = A.stores(2)[0][1]
        if g.W == "bool": judge(A, "the value of a cell is the element there", flag(A), g.wall(A.B, atom("i")))
        elif [p for _, p in v] == [atom(("cell", atom("i"), g.vec))]: r.ok(f"{name}: the value of a cell is the element there", A.fn.sp_where())
        else: r.bad(f"value:{g.N}:{g.W}", A.fn.sp_where(), f"{name}: the value of the cell at i is {show(A, v)}")
        for w in ("make", "makecopy", "makemove"): make(g, r, w, name)
    return r.part()

def make(g, r, w, name):
    """what a constructor leaves behind"""
    f = g.fn(w)
    def rename(a):
        if a[0] == "ld" and a[1] == ("a", 1) and pconst(a[2]) is not None and a[3] == 4: return atom(f"c{pconst(a[2]) // 4}")
        if a in g.sizes: return atom("c" + g.sizes[a][1:])
        if a[0] == "ld" and a[1] == ("a", 0) and a == g.count: return atom("n")
        return None
    def compare(op, p, q, wd): return g.compare(op, p, q, wd, "any")
    A = Alg(f, rename=rename, compare=compare)
    total = P({tuple(f"c{k}" for k in range(g.N)): 1})
    st = {}
    for b in A.topo:
        for i in f.blocks[b].insts:
            if i.op == "store":
                R, o = A.addr(i.ops[1])
                if R == ("a", 0) and pconst(o) is not None: st[pconst(o)] = (int(i.d["bytes"]), A.val(i.ops[0]))
            elif i.op == "call" and f.callee(i).startswith(("llvm.memcpy", "llvm.memmove")):
                R, o = A.addr(i.ops[0]); S, o2 = A.addr(i.ops[1]); n = cval(i.ops[2])
                if R == ("a", 0) and S == ("a", 1) and n:
                    for k in range(0, n, 4): st[pconst(o) + k] = (4, [(1, A.mk(("ld", S, padd(o2, const(k)), 4)))])
    cnt = pconst(g.count[2]); v = st.get(cnt, (0, []))[1]
    if [p for _, p in v] == [total]: r.ok(f"{name}: {w}: count is the product of the sizes", f.sp_where())
    else: r.bad(f"{w}:count:{g.N}:{g.W}", f.sp_where(), f"{name}: {w}: the count of cells is {show(A, v)} instead of {pshow(total)}")
    bad = []
    for a, s in g.sizes.items():
        o = pconst(a[2]); k = int(s[1:]); v = st.get(o, (0, []))
        if v[0] == 8: v = (4, A.lift(lambda p: P({m: c for m, c in p if up(m) < 4}), v[1]))
        elif o not in st and st.get(o - 4, (0,))[0] == 8: v = (4, A.lift(lambda p: P({tuple(x for x in m if x != UP): c for m, c in p if up(m) == 4}), st[o - 4][1]))
        if [p for _, p in v[1]] != [atom(f"c{k}")]: bad.append(f"s{k} = {show(A, v[1])}")
    if bad: r.bad(f"{w}:size:{g.N}:{g.W}", f.sp_where(), f"{name}: {w}: the sizes stored are {'; '.join(bad)}")
    else: r.ok(f"{name}: {w}: the sizes are those given", f.sp_where())
    ctor = [i for i in f.calls() if re.match(r"std::vector::(vector|assign|resize|operator=)$", f.callee(i)) and any(A.addr(o) == (("a", 0), vecoff(g)) for o in i.ops[:1])]
    if not ctor: r.bad(f"{w}:cells:{g.N}:{g.W}", f.sp_where(), f"{name}: {w} does not set up the cells"); return
    i = ctor[0]; x = i.ops[1] if len(i.ops) > 1 else None
    if w == "make":
        v = A.val(x) if x is not None else []
        if [p for _, p in v] in ([total], [atom("n")]): r.ok(f"{name}: {w}: as many cells as counted", i.where())
        else: r.bad(f"{w}:cells:{g.N}:{g.W}", i.where(), f"{name}: {w} creates {show(A, v)} cells")
    elif x is not None and A.addr(x)[0] == ("a", 2): r.ok(f"{name}: {w}: takes the cells it was given", i.where())
    else: r.bad(f"{w}:cells:{g.N}:{g.W}", i.where(), f"{name}: {w} does not take the cells it was given")
def vecoff(g):
    m = pmono(g.vec)
    return m[0][0][2] if m and m[0][0][0] == "ptr" else None

def run(rep, tier):
    prepare(list(PARTS))
    for p in ppmap(part, list(PARTS)): rep.merge(p)
