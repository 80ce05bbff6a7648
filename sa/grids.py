"""Shared by the checks of grids and conversions: loading the driver functions, names of coordinate components and sizes, index polynomials."""
import re
from common import *
from ir import *
from alg import *
U = "loop-simplify,lcssa,loop-mssa(loop-rotate),loop(indvars,loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg"
PASSES = "function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instsimplify," + ",".join([U] * 3) + ",gvn,instsimplify,simplifycfg,adce)"
KEEP = ["^std::vector::"]
_mods = {}
def module(part):
    """driver part: 0 conversions, 1..5 grids of that rank, 9 heuristics"""
    if part not in _mods: _mods[part] = Module(_prep(part))
    return _mods[part]
def _prep(part):
    build_tool()
    bc, err = compile_bc("grid.cpp", (f"PART={part}",))
    if bc is None: raise CheckError("grid.cpp does not compile: " + err[:600])
    return dump(bc, ["^root_"], KEEP, (), PASSES)
def prepare(parts): pmap(_prep, parts)
def root(M, name, need=True):
    f = M.functions.where("^" + name + "$")
    if not f and need: raise CheckError(f"{name} is missing")
    return f[0] if f else None
def where(M, name=None):
    if name is None: return ""
    for k, v in M.functions.items():
        for i in v.insts():
            for l in i.d.get("loc") or []:
                if l[2].split("<")[0] == name: return f"{short(l[0])}:{l[1]} ({name})"
    return ""
def arrays(m, size):
    """names for what is read through the arguments: {argument: letter}; 'i' is a scalar"""
    def f(a):
        if a[0] == "ld" and isinstance(a[1], tuple) and a[1][0] == "a" and a[1][1] in m:
            o = pconst(a[2]); l = m[a[1][1]]
            if o is None or a[3] != size: return None
            return atom("i") if l == "i" else atom(f"{l}{o // size}")
        return None
    return f
def stride(k): return P({tuple(f"s{j}" for j in range(k)): 1})
def flat(N, d=None): 
    out = frozenset()
    for k in range(N):
        c = atom(f"c{k}")
        if d and d[k]: c = padd(c, d[k] if isinstance(d[k], frozenset) else const(d[k]))
        out = padd(out, pmul(c, stride(k)))
    return out
def component(A, k, N):
    """the accepted forms of component k of the inverse"""
    q = A.div(atom("i"), stride(k)); r = A.rem(q, atom(f"s{k}"))
    return [r, q] if k == N - 1 else [r]
def show(A, v): return " or ".join(pshow(p) + ("" if g == 1 else f" if {A.B.show(g)}") for g, p in v) or "nothing"

# ---------------------------------------------------------------- grids
PARTS = {1: (1, 1, ("char", "bool")), 2: (2, 2, ("char", "bool", "uint16_t")), 3: (3, 3, ("char", "bool")), 4: (4, 4, ("char",)), 5: (5, 4, ("bool",)), 6: (6, 5, ("char",)), 7: (7, 5, ("bool",))}
MAXV = {"char": 127, "bool": 1, "uint16_t": 65535}
CB = {"char": 1, "bool": 1, "uint16_t": 2}
class Grid:
    """one instantiation: the places of its sizes, its number of cells and its cells"""
    def __init__(self, M, N, W):
        self.M = M; self.N = N; self.W = W; self.suffix = f"uint32_t_{N}_{W}"; self.sizes = {}; self.count = None
        A = Alg(self.fn("size")); o = A.stores(1)
        for k in range(N):
            v = o.get(4 * k, (0, []))[1]; m = pmono(v[0][1]) if len(v) == 1 else None
            if not m or not (isinstance(m[0][0], tuple) and m[0][0][0] == "ld"): raise CheckError(f"{self.suffix}: size() does not return a member")
            self.sizes[m[0][0]] = f"s{k}"
        A = Alg(self.fn("count")); v = A.stores(1)[0][1]; self.count = pmono(v[0][1])[0][0] if len(v) == 1 and pmono(v[0][1]) else None
        A = Alg(self.fn("nodes")); v = A.stores(1)[0][1]; self.vec = v[0][1]
        a = Alg(self.fn("size")); self.comp = {}
        for k in range(N):
            for p in component(a, k, N): self.comp.setdefault(p, f"c{k}")
            if k < N - 1: self.comp.pop(component(a, N - 1, N)[1], None) if False else None
    def fn(self, what, need=True): return root(self.M, f"root_{what}_{self.suffix}", need)
    def alg(self, what, mode, coord=1, direction=None, index=None):
        """mode 'cell': the coordinate (or index) is that of a cell of the grid; 'any': nothing is known of it"""
        f = self.fn(what); self.access = {}
        def rename(a):
            if a in self.sizes: return atom(self.sizes[a])
            if a == self.count: return atom("n")
            if a[0] == "ld" and isinstance(a[1], tuple) and a[1] and a[1][0] == "a":
                o = pconst(a[2])
                if a[1][1] == coord and o is not None and a[3] == 4 and index is None: return atom(f"c{o // 4}")
                if a[1][1] == direction and o is not None and a[3] == 4: return atom(f"d{o // 4}")
            if a == ("a", index) and index is not None: return self.comp.get(atom("i"), None) and atom(self.comp[atom("i")]) if mode == "cell" and atom("i") in self.comp else atom("i")
            if a[0] == "ld" and isinstance(a[1], frozenset):
                m = pmono(a[1])
                if m and len(m[0]) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "cellref":
                    x = m[0][0]; q = a[2]
                    if CB[self.W] > 1: q = P({t: c // CB[self.W] for t, c in q}) if all(c % CB[self.W] == 0 for t, c in q) else atom(("byte", q))
                    return atom(("cell", padd(x[2], q), x[1]))
            if a[0] in ("urem", "udiv") and index is not None and mode == "cell" and atom(a) in self.comp: return atom(self.comp[atom(a)])
            return None
        def pure(A, i):
            n = A.fn.callee(i); m = n.rpartition("::")[2]
            if n == "std::vector::size" and A.one(i.ops[0]) == self.vec: return [(1, atom("n"))]
            if n.startswith("std::vector::") and m in ("operator[]", "at", "data", "begin", "cbegin", "front"):
                if A.fn.inst[i.id].ty not in ("ptr", "i1"): return None
                idx = A.val(i.ops[1]) if m in ("operator[]", "at") else [(1, frozenset())]
                vec = A.one(i.ops[0])
                kind = "cellref" if i.ty == "ptr" else "cell"
                return A.norm([(g, atom((kind, vec, p)) if kind == "cellref" else atom(("cell", p, vec))) for g, p in idx])
            return None
        def compare(op, p, q, w): return self.compare(op, p, q, w, mode)
        A = Alg(f, rename=rename, compare=compare, pure=pure)
        return A
    # ---- predicate abstraction of the comparisons
    def compare(self, op, p, q, w, mode):
        at = {x for y in (p, q) if y is not None for m, c in y for x in m}
        cells = [x for x in at if isinstance(x, tuple) and x[0] == "cell"]
        if cells:
            if len(cells) > 1 or len(at) > 1: return None
            wall = lambda B: B.var(("wall", cells[0]))
            if op == "bit": return wall if self.W == "bool" else None
            u, v = (p, q) if pconst(q) is not None else (q, p)
            if pmono(u) != ((cells[0],), 1) or pconst(v) is None: return None
            bits = 8 * CB[self.W]; c = pconst(v)
            if (c - MAXV[self.W]) % (1 << bits) == 0 and op == "eq": return wall
            if self.W == "bool" and op == "eq" and c == 0: return lambda B: B.nt(wall(B))
            if op in ("ult", "slt") and u is p and c == MAXV[self.W]: return lambda B: B.nt(wall(B))
            if op in ("ult", "slt") and u is q and c == MAXV[self.W] - 1 and (op == "slt") == (self.W == "char"): return wall
            return None
        if op == "bit": return None
        over = [x for x in at if isinstance(x, tuple) and x[0] == "udiv" and pconst(x[1]) == -1]
        if over and op == "ult" and p == atom(over[0]): return 0          # more cells than can be counted: assumed not to happen
        if not all(isinstance(x, str) for x in at) or not all(len(m) <= 1 for y in (p, q) for m, c in y): return None
        ks = {x[1:] for x in at}
        if len(ks) != 1: return None
        k = ks.pop()
        if k == "": 
            if at <= {"i", "n"}: return self.table(op, p, q, w, "i", "n", None, "any", f"")
            return None
        return self.table(op, p, q, w, f"c{k}", f"s{k}", f"d{k}" if f"d{k}" in at else None, mode, k)
    def table(self, op, p, q, w, c, s, d, mode, k):
        """a comparison of c, s (and d) as a boolean function of: c >= 1, c + 1 < s (of a cell), d = 0, d = 2; or of c < s"""
        big = (1 << 31) - 2; M = (1 << w) - 1
        def ev(poly, env): return sum(cf * (env[m[0]] if m else 1) for m, cf in poly) & M
        def sg(x): return x - (1 << w) if x >> (w - 1) else x
        res = {}
        sizes = list(range(1, 7)) + [big]
        for S in sizes + ([0] if mode == "any" else []):
            cs = set(list(range(0, 8)) + [S - 3, S - 2, S - 1, S, S + 1, big + 1, big - 1])
            for C in cs:
                if C < 0 or (mode == "cell" and C >= S): continue
                for D in ((0, 1, 2) if d else (1,)):
                    env = {c: C, s: S, d: D}
                    x, y = ev(p, env), ev(q, env)
                    r = x == y if op == "eq" else x < y if op == "ult" else sg(x) < sg(y)
                    cl = (C >= 1, C + 1 < S, D) if mode == "cell" else (C < S,)
                    res.setdefault(cl, set()).add(r)
        if any(len(v) > 1 for v in res.values()): return None
        def make(B):
            out = 0
            for cl, v in res.items():
                if True in v: out = B.orr(out, self.cls(B, cl, k, d is not None, mode))
            return out
        return make
    def cls(self, B, cl, k, d, mode):
        if mode != "cell": x = B.var(("below", k)); return x if cl[0] else B.nt(x)
        lo, hi = B.var(("lo", k)), B.var(("hi", k))
        r = B.an(lo if cl[0] else B.nt(lo), hi if cl[1] else B.nt(hi))
        if d:
            z, t = B.var(("d0", k)), B.var(("d2", k))
            r = B.all([r, z if cl[2] == 0 else B.nt(z), t if cl[2] == 2 else B.nt(t)])
        return r
    def delta(self, idx):
        """per dimension how far an index is from the cell's own; None if it is no such index"""
        diff = padd(idx, flat(self.N), -1); out = [frozenset()] * self.N
        for m, c in diff:
            s = tuple(x for x in m if isinstance(x, str) and x[0] == "s"); r = tuple(x for x in m if x not in s)
            k = next((k for k in range(self.N) if stride(k) == P({s: 1})), None)
            if k is None: return None
            out[k] = padd(out[k], P({r: c}))
        return out
    def inrange(self, B, delta):
        """the boolean function 'the cell at this distance is in the grid'"""
        r = 1
        for k, d in enumerate(delta):
            c = pconst(d)
            if c is not None:
                if c == 0: continue
                if c not in (1, -1): return None
                r = B.an(r, B.var(("lo" if c < 0 else "hi", str(k))))
            elif d == padd(atom(f"d{k}"), const(-1)):
                z, t = B.var(("d0", str(k))), B.var(("d2", str(k)))
                r = B.an(r, B.ite(z, B.var(("lo", str(k))), B.ite(t, B.var(("hi", str(k))), 1)))
            else: return None
        return r
    def legal(self, B):
        """directions are 0, 1 or 2"""
        return B.all([B.nt(B.an(B.var(("d0", str(k))), B.var(("d2", str(k))))) for k in range(self.N)])
    def wall(self, B, idx): return B.var(("wall", ("cell", idx, self.vec)))
    def accesses(self, A):
        """(instruction, condition, index polynomial) of every read of a cell"""
        for b in A.topo:
            for i in A.fn.blocks[b].insts:
                if i.op in ("call", "invoke"):
                    n = A.fn.callee(i)
                    if n in ("std::vector::operator[]", "std::vector::at"):
                        for g, p in A.val(i.id):
                            g = A.B.an(g, A.reach(b)); x = pmono(p)[0][0]
                            if g: yield i, g, x[2] if x[0] == "cellref" else x[1]
                elif i.op == "load":
                    v = i.ops[0]
                    if isinstance(v, int) and A.fn.inst[v].op in ("call", "invoke") and A.fn.callee(A.fn.inst[v]) in ("std::vector::operator[]", "std::vector::at"): continue
                    for g, p in A.val(i.id):
                        m = pmono(p)
                        if m and len(m[0]) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "cell": yield i, A.B.an(g, A.reach(b)), m[0][0][1]
    def entries(self, A, n, coords=2, flags=3):
        """[(flag, [coordinate alternatives])] of the reported neighbours"""
        C, F = A.stores(coords), A.stores(flags); out = []
        for e in range(n):
            if e not in F: raise CheckError(f"{A.fn.base}: entry {e} is not reported")
            fl = A.B.any([A.B.an(g, 1 if pconst(p) else 0 if pconst(p) == 0 else A.bit(p)) for g, p in F[e][1]])
            cs = []
            for k in range(self.N):
                o = 4 * (e * self.N + k)
                if o not in C: raise CheckError(f"{A.fn.base}: entry {e} has no coordinate")
                cs.append([p for g, p in C[o][1] if A.B.an(g, fl)])
            out.append((fl, cs))
        return out
def grids(parts):
    prepare(parts)
    for q in parts:
        p, N, Ws = PARTS[q]
        for W in Ws: yield Grid(module(p), N, W)
