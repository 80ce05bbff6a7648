"""S09: cost bookkeeping."""
from nodes import *
from checks.s06 import key, lookups, edges_where, result_field
RULE = ("In every inlined solve() of a cost-based search, for each insertion of a neighbour: exactly one field of the new node is the same field of the cell being expanded plus the distance of the neighbour record the node's index comes from (1 on unit grids, "
        "the octile distance between the two coordinates for jump points), and - except in uniform-cost search - exactly one field is that sum plus the heuristic scaled by the weight; at the root the cost is zero and the priority is the scaled heuristic. "
        "No other field depends on a cost. Where a known cell is replaced, the replacement is reached only over a comparison in which the new cost (or total) is below the stored one, and it is the new cost that is stored.")
TECH = "constructor summaries and arithmetic normal forms over inlined SSA"
MIN_OB = 130
COST = ("astar", "gstar", "mgstar", "jps", "gjps", "fringe", "idastar", "eidastar", "smastar", "osmastar", "dijkstra")

def plus(t): return list(t[2:]) if t[0] == "op" and t[1] == "add" else [t]
def neigh(S, idx):
    """(kind, terms of its distance) of the neighbour whose index term this is"""
    idx = arith(idx)
    rec = S.record(idx)
    if rec is not None: return "grid", {("c", 1)}
    if idx[0] == "ld": return "graph", {("ld", idx[1], idx[2] + 4)}
    if idx[0] == "ldx": return "graph", {("ldx", *((idx[1],) if len(idx) == 2 else (idx[1], idx[2] + 4)))}
    if idx[0] == "xv": return "graph", set()
    return None, set()
def octile(S, t, idx):
    """is t the octile distance between the coordinate of the new node and another one"""
    if t[0] != "call" or not t[1].endswith("heuristics::octile_distance"): return False
    i = S.fn.inst[t[2]]; at = S.sem.at(i.bb)
    cs = [arith(at.coord(o, i)) for o in i.ops]; idx = arith(idx)
    mine = [c for c in cs if idx == ("to1d", c, True)]; rest = [c for c in cs if idx != ("to1d", c, True)]
    if len(mine) != 1 or len(rest) != 1: return False
    c = rest[0]
    return c[0] == "tond" and c[2] is True and taken(S, c[1], None)
def taken(S, t, off):
    """is t (the field at `off` of) a cell taken from a search container or its copy in pool memory"""
    for a in alts(t):
        if a[0] == "rec": continue
        if a[0] not in ("ld", "ldx"): return False
        if not holder(S, a): return False
    return True
def holder(S, a):
    R = a[1]
    while R[0] == "gep": R = R[1]
    if R[0] in ("call", "xv", "v", "any"): return True
    return False
def cell_of(t):
    """{(root, offset)} a term reads"""
    return {(a[1], a[2] if len(a) > 2 else 0) for a in alts(t) if a[0] in ("ld", "ldx")}

def unit(S, r):
    if S.solver not in COST: return "skip"
    fn = S.fn; N = Nodes(S); n = 0
    w = ("ld", ("a", 1), S.off["weight"]); roots = S.roots()
    news = []; keys = set(); looks = list(lookups(S))
    # where the expanded cell's index is read from
    for I, cls, m, o in S.inserts():
        f = N.fields(I, cls, m, o)
        tn = split_targs(qual(S.dem(I))[-2][1])[0]
        if f is None or re.search(r"::state(<.*>)?$", tn): continue
        off0 = min(f); idx = f[off0][2]
        root = any(arith(idx) == S.idx(e) for e in ("start", "end"))
        rest = {off: (mm, arith(t)) for off, (mm, sz, t) in f.items() if off != off0}
        if root: judge_root(S, r, I, m, cls, rest, w); n += 1; continue
        # a cell found in the table of known cells: the edge is the one to the neighbour looked up
        src = next((L for L, k, R in looks if k == "table" and result_field(S, idx, L) and fn.dominates(L.bb, I.bb)), None)
        ix = S.sem.at(src.bb).content(src.ops[1], IDX, src) if src is not None else idx
        kind, dist = neigh(S, ix); keys.add(arith(ix))
        if kind is None or not scorey(S, rest):
            # a cell that is already known returns to the frontier
            if known_cell(S, idx): r.ok(f"{S.name}: a known cell returns to the frontier as it is stored", I.where()); continue
            r.bad(f"{S.solver}:{cls}::{m}:unrecognised", I.where(), f"{S.name}: cannot relate the node put in to a neighbour and its distance"); continue
        cost = {}; prio = {}; other = {}
        for off, (mm, t) in rest.items():
            ps = plus(t)
            h = [p for p in ps if p[0] == "op" and p[1] == "mul" and any(x[0] == "icall" for x in p[2:]) and w in p[2:]]
            if any(heurish(x) for x in subterms(t)): prio[off] = (mm, t, ps, h)
            elif isinstance(t, tuple) and t and t[0] == "op" and t[1] == "add" or any(p in dist for p in ps) : cost[off] = (mm, t, ps)
            else: other[off] = (mm, t)
        ok = {}
        for off, (mm, t, ps) in cost.items():
            d = [p for p in ps if p in dist or octile(S, p, ix)]
            g = [p for p in ps if p not in d]
            if len(d) != 1 or len(g) != 1 and not (len(g) == 0): r.bad(f"{S.solver}:cost:{mm}", I.where(), f"{S.name}: {mm} of a neighbour is not the expanded cell's cost plus the distance of the edge"); continue
            if not g or not field_of_taken(S, g[0], off, N, tn): r.bad(f"{S.solver}:cost-base:{mm}", I.where(), f"{S.name}: {mm} of a neighbour does not build on {mm} of the cell being expanded"); continue
            ok[off] = t; r.ok(f"{S.name}: {mm} = {mm} of the expanded cell + distance", I.where())
        if not ok and not any(not x[2] for x in r.ob if x[1] == I.where()): r.bad(f"{S.solver}:no-cost", I.where(), f"{S.name}: no field of a neighbour accumulates the distance")
        if S.solver != "dijkstra":
            good = 0
            for off, (mm, t, ps, h) in prio.items():
                if len(h) == 1 and any(arith(comm_("op", "add", [c, h[0]])) == t for c in ok.values()): good += 1; r.ok(f"{S.name}: {mm} = cost + weight * heuristic", I.where())
                else: r.bad(f"{S.solver}:priority:{mm}", I.where(), f"{S.name}: {mm} of a neighbour is not its cost plus the scaled heuristic")
            if not prio: r.bad(f"{S.solver}:no-priority", I.where(), f"{S.name}: no field of a neighbour estimates the total")
        news += [(I, off, t) for off, t in ok.items()]
        news += [(I, off, t) for off, (mm, t, ps, h) in prio.items()]
        n += 1
        # where cells that are known are looked up in a table, they only return at a lower cost
        for L, k, R in looks:
            if k != "table" or not fn.dominates(L.bb, I.bb) or not (src is L or arith(key(S, L, 1, S.sem.at(I.bb))) == arith(idx)): continue
            lc = ("call", fn.callee(L), L.id); MT = mapped_type(S, L)
            E = edges_where(S, lambda c, tr: tr and c[0] == "eq" and lc in c[1:] and any(x[0] == "call" and x[1].rpartition("::")[2] in ("end", "cend") for x in c[1:])
                            or c[0] == "lt" and (tr and result_field(S, c[2], L) and not result_field(S, c[1], L) or not tr and result_field(S, c[1], L) and not result_field(S, c[2], L)))
            if S.reachable_without(I.bb, E, begin=L.bb, stop={L.bb}): r.bad(f"{S.solver}:{cls}::{m}:not-cheaper", I.where(), f"{S.name}: a known cell is replaced by a route that is not known to be cheaper")
            else: r.ok(f"{S.name}: a known cell is replaced by a cheaper route only", I.where())
    # comparisons with stored costs that let a known cell in again
    vals = {}
    for _, off, t in news: vals.setdefault(t, set()).add(off)
    def member(t):      # which field of the new nodes a value is
        out = set(vals.get(t, ()))
        for u in alts(t): out |= vals.get(u, set())
        return out
    ins = {I.bb for I, _, _ in news}; compared = {}
    for L, kind, R in looks:
        if kind != "table": continue
        E = edges_where(S, lambda c, tr: c[0] == "lt" and (result_field(S, c[1], L) != result_field(S, c[2], L)))
        for b, s in E:
            if not any(fn.dominates(s, x) for x in ins): continue
            for v, tr in fn.edge_fact(b, s):
                c = S.sem.cond(v) if not isinstance(v, tuple) else None
                if c is None or c[0][0] != "lt": continue
                x, y = arith(c[0][1]), arith(c[0][2]); sx, sy = result_field(S, c[0][1], L), result_field(S, c[0][2], L)
                if sx == sy: continue
                new, old = (y, x) if sx else (x, y); role = member(new); w_ = fn.term(b).where()
                if not role: r.bad(f"{S.solver}:stale-comparison", w_, f"{S.name}: the value compared with the stored cost is not the cost of the new route"); continue
                r.ok(f"{S.name}: the new cost is compared with the stored one", w_)
                tn = mapped_type(S, L)
                if tn in CWIDTH: compared.setdefault(R, []).append((role, w_)); continue
                sh = shift(S, N, L)
                if sh is None: continue
                if any(u[0] == "ld" and u[2] - sh in role for u in alts(old)): r.ok(f"{S.name}: like is compared with like", w_)
                else: r.bad(f"{S.solver}:unlike-comparison", w_, f"{S.name}: the new value and the stored value it is compared with are different fields of the node")
    stored_values(S, r, member, keys, compared)
    if not n: raise CheckError(f"{S.name}: no insertion of search nodes recognised")

def heurish(x): return isinstance(x, tuple) and bool(x) and x[0] == "icall"
def scorey(S, rest): return True
def known_cell(S, idx):
    return idx[0] in ("ld", "ldx", "xv", "phi", "wide")
def field_of_taken(S, g, off, N, tn):
    """g: the same field of the expanded cell, which was taken from a search container (or moved to the pool), on every alternative"""
    base = {n_ for n_ in (0,)}
    for a in alts(g):
        if a[0] == "rec": continue
        if a[0] not in ("ld", "ldx"): return False
        o = a[2] if len(a) > 2 else 0
        if a[1][0] == "gep": o += a[1][2]
        if (o - off) not in shifts(S): return False
    return True
def shifts(S):
    """where in a container's element the node starts: at its beginning, or behind the key in a table, or behind the links of a tree node"""
    return (0, 8, 16, 32, 40)
def judge_root(S, r, I, m, cls, rest, w):
    z = [mm for off, (mm, t) in rest.items() if t == ("c", 0)]
    if not z: r.bad(f"{S.solver}:root-cost", I.where(), f"{S.name}: the root's cost is not zero")
    else: r.ok(f"{S.name}: the root's cost is zero", I.where())
    if S.solver == "dijkstra": return
    p = [mm for off, (mm, t) in rest.items() if t[0] == "op" and t[1] == "mul" and len(t) == 4 and w in t[2:] and any(heurish(x) for x in t[2:])]
    if len(p) == 1: r.ok(f"{S.name}: the root's {p[0]} is the scaled heuristic", I.where())
    else: r.bad(f"{S.solver}:root-priority", I.where(), f"{S.name}: the root's priority is not the scaled heuristic")
def mapped_type(S, L):
    a = split_targs(qual(S.dem(L))[-2][1])
    return a[1].strip() if len(a) > 1 else None
def shift(S, N, L):
    """where the mapped value starts in the table element an iterator points at (libstdc++ layout)"""
    cls = S.fn.callee(L).rpartition("::")[0]; a = split_targs(qual(S.dem(L))[-2][1])
    kt, mt = norm(a[0].strip()), norm(a[1].strip())
    lay = list(N.layout(mt))
    if not lay or kt not in CWIDTH: return None
    al = max(min(8, sz if sz in (1, 2, 4, 8) else 8) for _, _, sz, _ in lay); k = CWIDTH[kt]
    return {"std::unordered_map": 8, "std::map": 32}.get(cls, 8) + -(-k // al) * al
def stored_values(S, r, member, keys, compared):
    """costs kept in a table beside the nodes: what is stored is what later routes are compared with"""
    for i in S.fn.insts():
        if i.op != "store": continue
        R, o = S.sem.addr(i.ops[1])
        if R[0] != "v" or R[1] not in S.fn.inst: continue
        c = S.fn.inst[R[1]]
        if c.op not in ("call", "invoke"): continue
        cls, _, m = S.fn.callee(c).rpartition("::")
        if cls not in ("std::unordered_map", "std::map") or not m.startswith("operator"): continue
        if mapped_type(S, c) not in CWIDTH: continue
        kx = S.sem.at(c.bb).content(c.ops[1], IDX, c) if S.sem.isptr(c.ops[1]) else S.sem.at(c.bb).t(c.ops[1])
        if not any(arith(kx) == k for k in keys): continue
        role = member(arith(S.sem.at(i.bb).t(i.ops[0])))
        if not role: r.bad(f"{S.solver}:table-value", i.where(), f"{S.name}: the table is given a value that is not the cost of the new route"); continue
        r.ok(f"{S.name}: the table keeps the cost of the new route", i.where())
        for cr, w_ in compared.get(S.container(c), ()):
            if cr & role: r.ok(f"{S.name}: the value kept is the one later routes are compared with", i.where())
            else: r.bad(f"{S.solver}:mixed-table", i.where(), f"{S.name}: the table keeps a different field of the node than the one new routes are compared with ({w_})")

def run(rep, tier): run_units(rep, unit, tier, 2)
