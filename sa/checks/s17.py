"""S17: growth of the memory-bounded searches."""
from nodes import *
RULE = ("In a memory-bounded search every cell put into the frontier that is not the root takes one unit of room: each path from an earlier insertion (or from the start) to it passes an edge on which (usage) < (limit of the caller) was just established, "
        "or the removal of a stored cell. The usage compared is a sum that contains the size of the frontier, the size of every table of cells that grows along with it (one for a visited set) and, where cells are built in pool memory, a counter that at that point equals the number of blocks taken and not given back "
        "(tracked with every allocation and deallocation on every path); sizes are read after the last insertion. When the limit is reached (no later than that), something is removed from the working set before the cell is given up.")
TECH = "path-sensitive typestate (room / no room) with linear facts on inlined SSA"
MIN_OB = 30
BOUNDED = ("smastar", "osmastar", "mgstar")
SIZED = ("std::multiset", "std::set", "std::unordered_map", "std::map", "std::unordered_set", "chdr::heap", "std::vector", "std::deque", "chdr::queue", "chdr::stack", "chdr::existence_set")
def short(n): return n.rpartition("::")[2].split("[abi")[0]
def linear(t, k=1, out=None):
    """{leaf: coefficient} of a sum"""
    out = {} if out is None else out
    if t[0] == "op" and t[1] == "add":
        for x in t[2:]: linear(x, k, out)
    elif t[0] == "op" and t[1] == "sub": linear(t[2], k, out); linear(t[3], -k, out)
    elif t[0] == "c": out["1"] = out.get("1", 0) + k * t[1]
    else: out[t] = out.get(t, 0) + k
    return out

class Room:
    def __init__(self, S, r):
        self.S, self.r, self.fn, self.sem = S, r, S.fn, S.sem
        self.limit = ("ld", ("a", 1), S.off["limit"])
        # a visited set that is not measured counts as one unit
        self.fixed = len({self.root_of(i) for i in self.fn.calls() if self.fn.callee(i) == "chdr::existence_set::emplace"})
        self.tests = {}; self.full = {}; self.odd = []
        for b in self.fn.order:
            for s in self.fn.blocks[b].succs:
                for v, tr in self.fn.edge_fact(b, s):
                    if isinstance(v, tuple): continue
                    x = self.compare(v, tr)
                    if x == "odd": self.odd.append(b)
                    elif x: (self.tests if x[0] == "room" else self.full).setdefault((b, s), []).append(x[1])
    def compare(self, v, tr):
        """what a branch on v tells about usage and limit: ('room'|'full', leaves) or None"""
        c = self.sem.cond(v)
        if c is None or c[0][0] != "lt" or self.limit not in subterms(c[0]): return None
        truth_ = c[1] == tr
        a, b = linear(c[0][1]), linear(c[0][2])
        if b.get(self.limit) == 1: lim, use, strict, room = b, a, True, truth_             # use < lim
        elif a.get(self.limit) == 1: lim, use, strict, room = a, b, False, not truth_        # lim < use is false: use <= lim
        else: return "odd"
        d = lim.pop("1", 0); c0 = use.pop("1", 0); lim.pop(self.limit)
        if lim or not use or any(k != 1 for k in use.values()): return "odd"
        leaves = (tuple(sorted(use, key=repr)), c0)
        if room:   # usage + c0 < limit + d (or <=); the limit's side cannot wrap below zero
            return ("room", leaves) if d >= 0 and c0 - d >= self.fixed + (0 if strict else 1) else None
        return ("full", (leaves, d))
    # -------------------------------------------------------------- pool blocks
    def pool(self):
        """calls that take (+1) or give back (-1) a block for a cell"""
        out = {}
        for i in self.fn.calls():
            n = self.fn.callee(i)
            if n.endswith("memory_resource::allocate") or n.startswith("chdr::") and short(n) in ("allocate", "do_allocate") and "pool" in n: out[i.id] = 1
            elif n.endswith("memory_resource::deallocate") or n.startswith("chdr::") and short(n) in ("deallocate", "do_deallocate") and "pool" in n: out[i.id] = -1
        return out
    def web(self, v):
        """the values a counter goes through: (phis and sums of constants), or None"""
        out, w = set(), [v]
        while w:
            x = w.pop()
            if isinstance(x, tuple):
                if cval(x) is None: return None
                continue
            if x in out: continue
            i = self.fn.inst[x]; out.add(x)
            if i.op == "phi": w += [tup(y) for _, y in i.d["in"]]
            elif i.op in ("add", "sub") and cval(i.ops[1]) is not None: w.append(i.ops[0])
            elif i.op in ("freeze",): w.append(i.ops[0])
            elif i.op == "select": w += [i.ops[1], i.ops[2]]
            else: return None
        # the other values computed from it
        grow = True
        while grow:
            grow = False
            for b in self.fn.order:
                for i in self.fn.blocks[b].insts:
                    if i.id in out: continue
                    if i.op in ("add", "sub") and i.ops[0] in out and cval(i.ops[1]) is not None and i.ty == self.fn.inst[v].ty: out.add(i.id); grow = True
        return out
    def account(self, v, at):
        """does v, where block `at` compares it, equal the number of blocks taken and not given back; returns None or a reason"""
        fn = self.fn; pool = self.pool(); web = self.web(v)
        if web is None: return "is not a running count"
        # offsets: value of each web member relative to the phis it is built from
        def rel(x):
            k = 0
            while isinstance(x, int) and fn.inst[x].op in ("add", "sub", "freeze"):
                i = fn.inst[x]
                if i.op != "freeze": c = cval(i.ops[1]); k += c if i.op == "add" else -c
                x = i.ops[0]
            return (("c",), k + cval(x)) if isinstance(x, tuple) else (x, k)
        # state: {phi or constant zero: count - blocks} for the web's phis that are current
        phis = {x for x in web if fn.inst[x].op == "phi"}
        state = {fn.entry: frozenset({(("c",), 0)})}; w = [fn.entry]; rounds = 0
        while w:
            rounds += 1
            if rounds > 40 * len(fn.order): return "could not be followed"
            b = w.pop(); st = dict(state[b])
            for i in fn.blocks[b].insts:
                if i.id in pool: st = {k: d + pool[i.id] for k, d in st.items()}      # blocks minus value
            t = fn.term(b)
            for s in fn.blocks[b].succs:
                out = dict(st)
                if t.op == "invoke" and t.id in pool and t.d.get("unwind") == s: out = {k: d - pool[t.id] for k, d in out.items()}
                new = {}
                for i in fn.blocks[s].insts:
                    if i.op != "phi": break
                    if i.id in phis:
                        x = [tup(y) for k, y in i.d["in"] if k == b][0]
                        base, k = rel(x)
                        if base in out: new[i.id] = out[base] - k
                for p in phis:
                    if fn.inst[p].bb == s: out.pop(p, None)
                out.update(new)
                f = frozenset(out.items())
                old = state.get(s)
                m = f if old is None else old & f
                if m != old: state[s] = m; w.append(s)
        base, k = rel(v); d = dict(state.get(at, ()))
        here = 0
        if base not in d: return "does not keep step with the blocks taken and given back"
        # blocks taken in the comparing block before the comparison
        for i in fn.blocks[at].insts:
            if i.id in pool and i.op != "invoke": here += pool[i.id]
        if d[base] + here != k: return f"differs from the number of blocks in use by {k - d[base] - here}"
        return None
    # -------------------------------------------------------------- events
    def root_of(self, i): 
        k = 1 if i.d.get("sret") else 0
        return self.sem.addr(i.ops[k])[0]

def unit(S, r):
    if S.solver not in BOUNDED: return "skip"
    R = Room(S, r); fn, sem = S.fn, S.sem
    if not R.tests: r.bad(f"{S.solver}: no test of the limit", S.name, "no branch establishes that the memory in use is below the limit given by the caller"); return
    ins = {}
    for i, cls, m, o in S.inserts():
        if split_targs(qual(S.dem(i))[-2][1])[0].rstrip().endswith("*"): continue
        ins[i.id] = (i, R.root_of(i), sem.at(i.bb).content(o, IDX, i) if sem.isptr(o) else sem.at(i.bb).t(o))
    rootkeys = {S.idx("start"), S.idx("end")}
    new = {k: x for k, x in ins.items() if not set(alts(x[2])) <= rootkeys}
    if not new: raise CheckError(f"{S.name}: no cell enters the frontier")
    fronts = {x[1] for x in new.values()}
    erased = {}
    for i in fn.calls():
        n = fn.callee(i)
        if short(n) in ("erase", "pop", "pop_back") and i.ops and R.root_of(i) in fronts: erased[i.id] = i
        if short(n) == "extract" and len(i.ops) > 1 and i.d.get("sret") and R.root_of(i) in fronts:
            h = sem.addr(i.ops[0])[0]      # taken out and dropped, not taken up as the current cell
            if not any(short(fn.callee(j)) in ("value", "operator=", "_Node_handle", "key", "mapped") and any(sem.addr(o)[0] == h for o in j.ops if sem.isptr(o)) for j in fn.calls()): erased[i.id] = i
    pool = R.pool()
    given = {k for k, d in pool.items() if d < 0}; taken = {k for k, d in pool.items() if d > 0}
    # ---- tables that grow with the frontier
    tables = {}
    for i in fn.calls():
        n = fn.callee(i); cls, _, m = n.rpartition("::")
        if cls in ("std::unordered_map", "std::map") and short(m) in ("operator[]", "emplace", "try_emplace", "insert", "insert_or_assign"):
            tables.setdefault(R.root_of(i), []).append(i)
    # ---- what the tests compare
    sized = set()
    good = {}
    def judge(edge, leaves):
        """what is wrong with a measure of the memory in use, and the size calls it reads"""
        cont, calls, counters = set(), set(), []
        for l in leaves:
            if l[0] == "call" and short(l[1]) == "size" and l[2] in fn.inst: cont.add(R.root_of(fn.inst[l[2]])); calls.add(l[2])
            else: counters.append(l)
        src = edge[0]; vals = R_values(S, fn, src, edge[1])
        if fronts - cont: return "leaves out the size of the frontier", calls
        for T, grows in tables.items():
            if T not in cont and any(g.bb in fn.reach([edge[1]]) for g in grows): return "leaves out the size of the table of cells", calls
        if taken and not counters: return "leaves out the cells in pool memory", calls
        for l in counters:
            vs = [v for v in vals if sem.t(v) == l]
            if not taken: return f"contains {l}", calls
            x = R.account(vs[0], src) if vs else "could not be resolved"
            if x: return "uses a count of pool cells that " + x, calls
        return None, calls
    for edge, uses in list(R.tests.items()):
        for leaves, c0 in uses:
            why, calls = judge(edge, leaves); src = edge[0]
            key = f"{S.solver}: the usage compared in {fn.term(src).where().rpartition('(')[2].rstrip(')')}"
            if why: r.bad(key, fn.term(src).where(), "the usage that is compared with the limit " + why)
            else:
                r.ok(f"{S.name}: usage is {' + '.join(sorted([short(l[1]) + '()' if l[0] == 'call' else 'count' for l in leaves]))}", fn.term(src).where())
                good[edge] = calls
    for e, xs in list(R.full.items()):
        xs[:] = [x for x in xs if judge(e, x[0][0])[0] is None]
        if not xs: del R.full[e]
    # ---- typestate
    bp_init(S)
    bad = {}
    seen = set(); start = (fn.entry, frozenset(), False, frozenset()); w = [start]; seen.add(start); reached = set()
    sizecalls = set().union(*good.values()) if good else set()
    while w:
        b, env, room, fresh = w.pop()
        t = fn.term(b)
        for i in fn.blocks[b].insts:
            if i.op not in ("call", "invoke"): continue
            if i.id in sizecalls: fresh = fresh | {i.id}
            if i.id in ins:
                if i.id in new:
                    reached.add(i.id)
                    if not room: bad.setdefault(i.id, "room")
                room = False; fresh = frozenset()
            elif i.id in erased or i.id in given: room = True
        succ = fn.blocks[b].succs
        if b in S._bp:
            p, pol = S._bp[b]; d = dict(env)
            if p in d: succ = [t.d["succ"][0 if d[p] == pol else 1]]
        for s in succ:
            r2 = room
            if (b, s) in good and good[b, s] <= fresh: r2 = True
            e2 = env
            for i in fn.blocks[s].insts:
                if i.op != "phi": break
                if i.id in S._tr:
                    x = [tup(y) for k, y in i.d["in"] if k == b]
                    e2 = frozenset(q for q in e2 if q[0] != i.id)
                    if x and isinstance(x[0], tuple) and cval(x[0]) is not None: e2 = e2 | {(i.id, cval(x[0]) != 0)}
                    elif x and isinstance(x[0], int) and x[0] in dict(env): e2 = e2 | {(i.id, dict(env)[x[0]])}
            n = (s, e2, r2, fresh)
            if n not in seen: seen.add(n); w.append(n)
            if len(seen) > 200000: raise CheckError(f"{S.name}: too many states")
    for k, (i, root, key) in sorted(new.items()):
        what = f"{S.solver}: cell added in {i.where().rpartition('(')[2].rstrip(')')}"
        if k in bad: r.bad(what, i.where(), "a cell enters the frontier on a path that has not established, since the last cell was added, that the memory in use is below the limit")
        else: r.ok(f"{S.name}: room is established before a cell is added", i.where())
    # ---- table entries of cells that are not stored yet
    for T, grows in tables.items():
        for g in grows:
            fresh_key = [tm for tm, tr in sem.known(g.bb).items() if tr and tm[0] == "eq" and {x[0] for x in tm[1:]} == {"call"} and any(short(x[1]) == "find" and R.root_of(fn.inst[x[2]]) == T for x in tm[1:]) and any(short(x[1]) in ("end", "cend") for x in tm[1:])]
            if not fresh_key: continue
            if any(fn.dominates(e[1], g.bb) and len(fn.blocks[e[1]].preds) == 1 for e in good) or not S.reachable_without(g.bb, set(good), begin=max((fn.inst[x[2]].bb for tm in fresh_key for x in tm[1:]), key=lambda q: fn.order.index(q))): r.ok(f"{S.name}: a new entry of the table of cells is below the limit", g.where())
            else: r.bad(f"{S.solver}: table entry in {g.where().rpartition('(')[2].rstrip(')')}", g.where(), "the table of cells gets an entry for a new cell before the memory in use is known to be below the limit")
    # ---- something is freed when the limit is reached
    fullb = {}
    for (a, s), xs in R.full.items():
        for (leaves, c0), d in xs:
            # usage + c0 >= limit + d  holds as soon as usage reaches the limit
            if d - (c0 - R.fixed) <= 0: fullb.setdefault(s, []).append((a, s))
    exp = {i.bb for i in S.expansions() if "solve_internal" in i.where() or True}
    for k, (i, root, key) in sorted(new.items()):
        if not any(fn.dominates(e[1], i.bb) for e in good) and not any(True for e in good if i.bb in fn.reach([e[1]])): continue
        if sem_replaced(S, R, i, erased): continue
        ok = False
        for e in list(erased.values()) + [fn.inst[g] for g in given]:
            if not any(S.reachable_without(e.bb, (), begin=s) and not S.reachable_without(e.bb, {(a, s)}, begin=fn.idom.get(a, a) if a != fn.entry else a) or fn.dominates(s, e.bb) for s, es in fullb.items() for a, _ in es): continue
            if any(tm[0] == "lt" and not any(tm == R.sem.cond(v)[0] for e2 in R.full for v, _ in fn.edge_fact(*e2) if isinstance(v, int)) and any(x == R.limit or x[:1] == ("call",) and short(x[1]) == "size" for x in subterms(tm) if isinstance(x, tuple)) for tm in sem.known(e.bb)): continue
            if i.bb in fn.reach([e.bb]): ok = True
        if ok: r.ok(f"{S.name}: a stored cell is removed when the limit is reached", i.where())
        else: r.bad(f"{S.solver}: nothing is removed for {i.where().rpartition('(')[2].rstrip(')')}", i.where(), "when the memory in use has reached the limit nothing is removed from the working set to make room for the cell")
def sem_replaced(S, R, i, erased):
    return any(S.fn.idominates(e, i) and R.root_of(e) == R.root_of(i) for e in erased.values())
def R_values(S, fn, src, dst):
    """every value an edge's condition is computed from"""
    out, w = set(), [v for v, _ in fn.edge_fact(src, dst) if isinstance(v, int)]
    while w:
        v = w.pop()
        if not isinstance(v, int) or v in out: continue
        out.add(v); i = fn.inst[v]
        if i.op in ("phi", "call", "invoke", "load"): continue
        w += [x for x in i.ops if isinstance(x, int)]
    return out
def bp_init(S): S.reachable_without(S.fn.entry, ())
def run(rep, tier): run_units(rep, unit, tier, 4)
