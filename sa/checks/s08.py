"""S08: heuristics are measured towards the goal."""
from nodes import *
RULE = ("In every inlined solve(): each call of the caller's heuristic takes as one argument the coordinate of the endpoint the search did not start from (the one whose index the search's goal test compares with) and as the other the coordinate of the cell it is "
        "computed for; wherever its value enters a search node, that node's index is the index of the very coordinate the heuristic was given; the cost-based searches multiply it by the weight of the parameters before use.")
TECH = "value flow of heuristic arguments and results over inlined SSA (term equality)"
MIN_OB = 250
UNINFORMED = ("bfs", "dfs", "dijkstra", "eiddfs", "iddfs", "flood", "gbfs", "gdfs")
GREEDY = ("best_first", "gbest_first", "eidbest_first", "idbest_first")

def heur_in(t):
    """the heuristic calls whose results a term uses"""
    return {x for x in subterms(t) if isinstance(x, tuple) and x and x[0] == "icall"}
def of_index(S, c, idx):
    """is index term idx the index of the cell with coordinate term c"""
    c, idx = arith(c), arith(idx)
    return idx == ("to1d", c, True) or c == ("tond", idx, True) or idx[0] == "to1d" and idx[1] == c

def unit(S, r):
    fn = S.fn; hs = list(S.heuristics())
    if S.solver in UNINFORMED and not hs: return "skip"
    roots = S.roots()
    if len(roots) != 1: raise CheckError(f"{S.name}: roots of the search not recognised: {roots}")
    root = next(iter(roots)); goal = "end" if root == "start" else "start"
    gc = ("ld", ("a", 1), S.off[goal])
    cell = {}; ind = indirect(S)
    for i in hs:
        at = S.sem.at(i.bb)
        cs = [at.coord(o, i) for o in i.ops]
        k = [x for x in cs if x == gc]
        if not k: r.bad(f"{S.solver}:heuristic-not-to-goal", i.where(), f"{S.name}: the heuristic is not measured towards the {goal}, which is where the search stops"); continue
        if len(k) == len(cs): r.bad(f"{S.solver}:heuristic-goal-goal", i.where(), f"{S.name}: the heuristic is measured from the goal to itself"); continue
        cell[("icall", i.id)] = [x for x in cs if x != gc][0]
        r.ok(f"{S.name}: heuristic measured towards the {goal}", i.where())
    N = Nodes(S); seen = set()
    for I, cls, m, o in S.inserts():
        f = N.fields(I, cls, m, o)
        if not f: continue
        idx = [t for off, (mm, sz, t) in sorted(f.items()) if sz == IDX and (arith(t)[0] == "to1d" or t == S.idx(root) or S.record(t) is not None)]
        for off, (mm, sz, t) in f.items():
            t = arith(t)
            for h in heur_in(t):
                if h not in cell: continue
                seen.add(h)
                at = S.sem.at(I.bb); ix = f[min(f)][2]
                if of_index(S, cell[h], ix): r.ok(f"{S.name}: the heuristic in {mm} belongs to the node's own cell", I.where())
                else: r.bad(f"{S.solver}:heuristic-of-other-cell:{mm}", I.where(), f"{S.name}: {mm} of the node put in uses the heuristic of a cell other than the node's")
                if S.solver in GREEDY: continue
                w = ("ld", ("a", 1), S.off["weight"])
                if weighted(t, h, w): r.ok(f"{S.name}: the heuristic in {mm} is scaled by the weight", I.where())
                else: r.bad(f"{S.solver}:heuristic-unscaled:{mm}", I.where(), f"{S.name}: {mm} of the node put in uses the heuristic without scaling it by the weight exactly once")
    if not seen and not r.viol: raise CheckError(f"{S.name}: no heuristic value was seen entering a search node")

def indirect(S):
    """other indirect calls: a heuristic taken from elsewhere would escape the rule"""
    return [i for i in S.fn.calls() if i.d.get("fn") is None]
def weighted(t, h, w):
    """every occurrence of h in t stands in a product with exactly one w"""
    if t == h: return False
    if isinstance(t, frozenset): return all(weighted(x, h, w) for x in t)
    if not isinstance(t, tuple): return True
    if t and t[0] == "op" and t[1] == "mul" and h in t[2:]:
        return list(t[2:]).count(h) == 1 and list(t[2:]).count(w) == 1 and len(t) == 4
    return all(weighted(x, h, w) for x in t if isinstance(x, (tuple, frozenset)))

def run(rep, tier): run_units(rep, unit, tier, 2)
