"""S06: visited-set discipline."""
from search import *
RULE = ("In every inlined solve(), each insertion of a neighbour into the search is reached from a lookup of that very index only over control-flow edges on which the lookup failed (visited set: contains() is false; table: find() is end(), or the new "
        "value is below the stored one; depth-first path: a scan of the whole path finds no cell with that index), and the same index is recorded in the same set on that way; the search's root is recorded before neighbours are looked up; nothing removes "
        "entries while the search goes on, except together with the cell dropped from the path (and the cells MG* forgets to save memory).")
TECH = "edge cuts of the control-flow graph by lookup results over inlined SSA"
MIN_OB = 220
NOTE = "every neighbour insertion of every solver in the analysed configurations is decided; for the table-based and memory-bounded searches, which may legitimately revisit a cell at lower cost, the rule is absence or improvement"
MAPS = ("std::unordered_map", "std::map")

def key(S, i, k, at): return at.content(i.ops[k], IDX, i) if at.isptr(i.ops[k]) else at.t(i.ops[k])

def edges_where(S, test, sem=None):
    """control-flow edges on which a comparison or call result is known such that test(term, truth)"""
    fn = S.fn; out = set()
    for b in fn.order:
        for s in fn.blocks[b].succs:
            for v, tr in fn.edge_fact(b, s):
                # conditions merged from && and || imply their parts
                for v2, tr2 in expand(fn, v, tr):
                    c = (sem or S.sem).cond(v2) if not isinstance(v2, tuple) else None
                    if c is not None and test(c[0], c[1] == tr2): out.add((b, s))
    return out
def expand(fn, v, tr):
    if isinstance(v, tuple): return [(v, tr)]
    out = []; fn._expand(v, tr, out, 0)
    return out

def lookups(S):
    for i in S.fn.calls():
        n = S.fn.callee(i); cls, _, m = n.rpartition("::")
        if cls == "chdr::existence_set" and m == "contains": yield i, "set", S.container(i)
        elif cls in MAPS and m in ("find", "contains", "count"): yield i, "table", S.container(i)
        elif n in ("std::find_if", "std::find_if_not", "std::find"): yield i, "scan", None

def result_field(S, t, i):
    """is t a value stored in the entry that lookup i found"""
    return t[0] in ("ld", "ldx") and any(x == ("v", i.id) or x == ("call", S.fn.callee(i), i.id) for x in subterms(t))

def records(S, kind, R, T, at):
    for i in S.fn.calls():
        n = S.fn.callee(i); cls, _, m = n.rpartition("::"); m = re.sub(r"\[.*", "", m)
        if kind == "set" and cls == "chdr::existence_set" and m in ("emplace", "push") and S.container(i) == R: pass
        elif kind == "table" and cls in MAPS and m in ("operator", "emplace", "try_emplace", "insert", "insert_or_assign") and S.container(i) == R: pass
        else: continue
        k = 1 + (1 if i.d.get("sret") else 0)
        if len(i.ops) > k and T is None or key(S, i, k, at) == T: yield i

def scan_covers(S, i, T, at):
    """find_if over the whole path with 'has index T' as its predicate; returns the container"""
    fn = S.fn
    a, b = (at.t(x) for x in i.ops[:2])
    if not (a[0] == b[0] == "call" and a[1].rpartition("::")[2] in ("begin", "cbegin") and b[1].rpartition("::")[2] in ("end", "cend")): return None
    A, B = fn.inst[a[2]], fn.inst[b[2]]
    if S.container(A) != S.container(B): return None
    f = S.mod.functions.get(i.d["fn"])
    if f is None: return None
    sm = Sem(f); found = False
    stride = max([j.d["off"] or 0 for j in f.insts() if j.op == "getelementptr"] + [IDX])
    def isit(t): return all(u[0] == "ld" and u[2] % stride == 0 and (u[1] == ("a", 0) or u[1][0] == "v") for u in alts(t))
    def caller(t):
        if t[0] == "a": return ("op", i.ops[t[1]])
        if t[0] == "ld" and t[1][0] == "a":
            R, o = S.sem.addr(i.ops[t[1][1]])
            return ("mem", R, (o or 0) + t[2])
        return None
    for j in f.insts():
        if j.op != "icmp" or j.d["pred"] not in ("eq", "ne"): continue
        x, y = sm.t(j.ops[0]), sm.t(j.ops[1])
        if any(z == ("a", 2) for z in subterms(x)): x, y = y, x
        if not any(z == ("a", 2) for z in subterms(y)): continue
        c = caller(y)
        if c is None or not isit(x): return None
        v = at.t(c[1]) if c[0] == "op" and not at.isptr(c[1]) else at.content(c[1], IDX, i) if c[0] == "op" else at.mem_term(c[1], c[2], IDX, i, 0)
        if v != T: return None
        # the branch on equality ends the scan
        for blk in f.order:
            t = f.term(blk)
            if t.op == "br" and len(t.d["succ"]) == 2:
                for s in t.d["succ"]:
                    for u, tr in expand(f, t.ops[0], s == t.d["succ"][0]):
                        if u == j.id:
                            eq = (j.d["pred"] == "eq") == tr
                            more = any(q.op == "icmp" and any(z == ("a", 2) for o in q.ops for z in subterms(sm.t(o))) for bb in f.reach([s]) for q in f.blocks[bb].insts)
                            if eq and not more: found = True
                            if eq and more: return None
    return S.container(A) if found else None

def scan_loop(S, T, I, at):
    """a hand-written scan of a vector for the index T before insertion I: (equal edges, common loop header) or None"""
    fn = S.fn; loops = fn.loops()
    for h, body in loops.items():
        if I.bb in body: continue
        eqs = {e for e in edges_where(S, lambda c, tr: tr and c[0] == "eq" and T in c[1:] and any(elem_of(S, x) for x in c[1:] if x != T), at) if e[0] in body}
        if not eqs:
            # a flag that stays set once an equal cell was seen
            for v, tr in fn.facts(I.bb):
                p = fn.inst.get(v) if isinstance(v, int) else None
                if p is None or p.op != "phi" or p.bb != h or tr: continue
                good = True
                for b, x in p.d["in"]:
                    x = tup(x)
                    if b not in body: good = good and isinstance(x, tuple) and cval(x) == 0
                    else: good = good and any((c := at.cond(u)) is not None and c[0][0] == "eq" and (c[1] == tr2) is False and T in c[0][1:] and any(elem_of(S, y) for y in c[0][1:] if y != T) for u, tr2 in expand(fn, x, False) if not isinstance(u, tuple))
                if good and exits(S, body, set()): return True
            continue
        outer = [(len(bd), h2) for h2, bd in loops.items() if I.bb in bd and h in bd]
        if not outer or not fn.dominates(h, I.bb): continue
        stop = {min(outer)[1]}
        if any(S.reachable_without(I.bb, set(), begin=e[1], stop=stop | ({e[1]} & stop)) or e[1] == I.bb for e in eqs): continue
        if exits(S, body, eqs): return True
    return None
def exits(S, body, eqs):
    """every other way out of the scan compares with the end of what is scanned"""
    fn = S.fn
    for b in body:
        for s in fn.blocks[b].succs:
            if s in body or (b, s) in eqs or fn.blocks[s].insts[0].op == "landingpad": continue
            fs = [S.sem.cond(v) for v, tr in fn.edge_fact(b, s) if not isinstance(v, tuple)]
            if not any(c is not None and any(z[0] == "call" and z[1].rpartition("::")[2] in ("end", "cend", "size", "rend", "crend") for x in c[0][1:] for z in subterms(x) if isinstance(z, tuple) and z) for c in fs): return False
    return True
def elem_of(S, x):
    """is x the index field of an element of a container of search nodes"""
    if x[0] == "mem": return x[1] in S.fn.inst and S.nodeish(S.elem_class(x[1])[1])
    if x[0] not in ("ld", "ldx"): return False
    for z in subterms(x):
        if z[0] == "v" and len(z) == 2 and isinstance(z[1], int) and z[1] in S.fn.inst:
            og = S.origin(z[1])
            if any(isinstance(o, tuple) and o[0] == "elem" and S.nodeish(S.elem_class(o[2])[1]) for o in og): return True
        if z[0] == "call" and len(z) == 3 and z[2] in S.fn.inst and S.nodeish(S.elem_class(z[2])[1]): return True
    return False

def unit(S, r):
    fn = S.fn; sem = S.sem; looks = list(lookups(S)); used = {}; took = []
    roots = S.roots()
    ex = [i.bb for i in S.expansions()]
    for I, cls, m, o in S.inserts():
        a = split_targs(qual(S.dem(I))[-2][1])[0]
        if a.rstrip().endswith("*"): continue
        if a.endswith("::state") or re.search(r"::state(<.*>)?$", a): continue
        at = sem.at(I.bb)
        T = at.content(o, IDX, I) if at.isptr(o) else at.t(o)
        if any(T == S.idx(e) for e in ("start", "end")): continue
        ev = None; why = "no lookup of the inserted index comes before it"
        for L, kind, R in looks:
            if not fn.dominates(L.bb, I.bb): continue
            if kind == "scan":
                if scan_covers(S, L, T, at) is None: why = "the scan before it does not compare the inserted index with all cells of the path"; continue
                lc = ("call", fn.callee(L), L.id)
                E = edges_where(S, lambda c, tr: tr and c[0] == "eq" and lc in c[1:] and any(x[0] == "call" and x[1].rpartition("::")[2] in ("end", "cend") for x in c[1:]))
            else:
                k = 1
                T2 = T
                if key(S, L, k, at) != T:
                    # a cell taken back from its entry in the table
                    if not (kind == "table" and result_field(S, T, L)): continue
                lc = ("call", fn.callee(L), L.id)
                if kind == "set": E = edges_where(S, lambda c, tr: c == lc and not tr)
                else:
                    E = edges_where(S, lambda c, tr: (tr and c[0] == "eq" and lc in c[1:] and any(x[0] == "call" and x[1].rpartition("::")[2] in ("end", "cend") for x in c[1:]))
                                    or (tr and c[0] == "lt" and result_field(S, c[2], L) and not result_field(S, c[1], L)))
            if not E: why = "the result of the lookup is not tested"; continue
            if S.reachable_without(I.bb, E, begin=L.bb, stop={L.bb}): why = "it is also reached when the lookup found the cell"; continue
            ev = (L, kind, R, E); break
        if ev is None and scan_loop(S, T, I, at):
            r.ok(f"{S.name}: {cls}::{m} only of a cell not on the path (scanned)", I.where()); continue
        if ev is None:
            r.bad(f"{S.solver}:{cls}::{m}:no-lookup", I.where(), f"{S.name}: {cls}::{m} can put a cell into the search that is there already ({why})"); continue
        L, kind, R, E = ev
        r.ok(f"{S.name}: {cls}::{m} only after a failed {kind} lookup", I.where())
        for I2, L2 in took:
            if L2 is L and (I2.bb in fn.reach(fn.blocks[I.bb].succs, avoid={L.bb}) or I.bb in fn.reach(fn.blocks[I2.bb].succs, avoid={L.bb})) or I2 is not I and I2.bb == I.bb and L2 is L: r.bad(f"{S.solver}:{cls}::{m}:twice", I2.where(), f"{S.name}: one lookup lets the cell into the search twice")
        took.append((I, L))
        if kind == "scan": continue
        used.setdefault(R, []).append((L, I, kind))
        if kind == "table" and result_field(S, T, L): r.ok(f"{S.name}: a settled cell returns at lower cost", I.where()); continue
        good = None
        for M in records(S, kind, R, T, at):
            if S.reachable_without(M.bb, E, begin=L.bb, stop={L.bb}) and not fn.dominates(L.bb, M.bb): continue
            if fn.idominates(M, I) and fn.dominates(L.bb, M.bb): good = M
            elif not reach_back(fn, I, M, L): good = M
        if good is None and kind == "table" and settles(S, R): good = True
        if good is None: r.bad(f"{S.solver}:{cls}::{m}:not-recorded", I.where(), f"{S.name}: the cell put into the search is not recorded as visited on that way")
        else: r.ok(f"{S.name}: the cell is recorded", good.where() if good is not True else I.where())
    # roots
    for R, l in used.items():
        L, I, kind = l[0]
        ok = False
        for M in records(S, kind, R, None, sem):
            k = 1 + (1 if M.d.get("sret") else 0)
            T = key(S, M, k, sem)
            root = any(T == S.idx(e) for e in roots) or T[0] in ("ld", "mem") and lastelem(S, T)
            if root and fn.dominates(M.bb, L.bb): ok = True
        if not ok and kind == "table" and settles(S, R): ok = True
        if ok: r.ok(f"{S.name}: the root is recorded", fn.sp_where())
        else: r.bad(f"{S.solver}:root-not-recorded", L.where(), f"{S.name}: the search's root is not recorded as visited before its neighbours are looked up")
        if kind != "set": continue
        for c in fn.calls():
            n = fn.callee(c); q = n.rpartition("::")
            if q[0] != "chdr::existence_set" or S.container(c) != R: continue
            if q[2] in ("clear", "trim", "operator=", "swap", "prune"):
                back = any(x.bb in fn.reach(fn.blocks[c.bb].succs) for x, _, _ in l) and not any(fn.dominates(M.bb, l[0][0].bb) and fn.dominates(c.bb, M.bb) for M in records(S, kind, R, None, sem))
                if back: r.bad(f"{S.solver}:visited-emptied", c.where(), f"{S.name}: the visited set is emptied while the search goes on")
            elif q[2] == "erase" and S.solver != "mgstar":
                T = key(S, c, 1, sem)
                if lastelem(S, T) and any(fn.callee(d).endswith("::pop_back") and fn.dominates(c.bb, d.bb) for d in fn.calls()): r.ok(f"{S.name}: only the cell dropped from the path is unmarked", c.where())
                else: r.bad(f"{S.solver}:unmarked", c.where(), f"{S.name}: a cell that stays in the search is removed from the visited set")
    if not used and not any(o[2] for o in r.ob): return

def lastelem(S, T):
    for z in subterms(T):
        v = z[1] if z[0] == "v" and len(z) == 2 else z[2] if z[0] == "call" and len(z) == 3 else z[1] if z[0] == "mem" else None
        if isinstance(v, int) and v in S.fn.inst:
            i = S.fn.inst[v]
            if i.op in ("call", "invoke") and S.fn.callee(i).rpartition("::")[2] in ("back", "rbegin", "crbegin") and S.nodeish(S.elem_class(v)[1]): return True
    return False
def settles(S, R):
    """is every cell taken from the frontier entered into the table before it is expanded"""
    fn = S.fn
    for i in fn.calls():
        n = fn.callee(i); cls, _, m = n.rpartition("::")
        if cls in MAPS and m in ("emplace", "try_emplace", "insert") and S.container(i) == R:
            k = 1 + (1 if i.d.get("sret") else 0)
            t = key(S, i, k, S.sem)
            taken = any(z[0] == "call" and z[1].rpartition("::")[2] in ("top", "front", "begin", "extract") or z[0] == "v" and len(z) == 2 and isinstance(z[1], int) and z[1] in fn.inst and
                        fn.callee(fn.inst[z[1]]).rpartition("::")[2] in ("top", "front") for z in subterms(t) if isinstance(z, tuple) and z) or S.cell_kind(t, (i.bb, i.bb)) == "taken"
            if taken and all(fn.dominates(i.bb, e.bb) for e in S.expansions()): return True
    return False
def reach_back(fn, I, M, L):
    """can control get from I back to L (or to a normal return) without passing M"""
    seen = set(); w = list(fn.blocks[I.bb].succs) if not (M.bb == I.bb and M.pos > I.pos) else []
    while w:
        b = w.pop()
        if b in seen or b == M.bb: continue
        seen.add(b)
        if b == L.bb: return True
        w.extend(fn.blocks[b].succs)
    return False

def run(rep, tier): run_units(rep, unit, tier, 1)
