"""S16: the bound of the iterative-deepening searches."""
from search import *
from paths import Flags
RULE = ("In the iterative-deepening searches with a bound on the priority, the cell on top of the stack is compared with the bound; it is expanded only on the branch on which its priority does not exceed the bound (equality included), and there it leaves the stack only after all its neighbours were looked at. "
        "On every path from the other branch to the next cell the accumulated minimum becomes the smaller of itself and the priority of that very cell (read before the cell is removed), and the cell leaves the stack; on every path of the first branch the minimum stays as it is. "
        "The minimum is the greatest value of its type when an iteration starts, the bound changes only between iterations and only to the minimum, an iteration ends only when the stack is used up, a new one starts only if a cell was pruned, from an empty record of visited cells, and the search gives up only if none was. The first bound is the priority the start has.")
TECH = "value flow along paths (symbolic minimum), flag-sensitive typestate"
MIN_OB = 90
DEEP = ("idastar", "eidastar", "idbest_first", "eidbest_first")
NOTE = "a pruned priority equal to the greatest value of its type is taken to be impossible; the goal is accepted when it is generated, whatever its priority (as in the source)"
def short(n): return n.rpartition("::")[2].split("[abi")[0]
REMOVE = ("pop", "pop_back", "pop_front")
PUSH = ("emplace", "push", "emplace_back", "push_back")
SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
NEG = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
def pred(i):
    p = i.d["pred"]
    return p if p in ("eq", "ne") else p[1:] if p[0] in "usou" and p[1:] in SWAP else None
def isstate(S, i):
    q = qual(S.dem(i))
    return len(q) >= 2 and re.search(r"::state\b(<.*>)?$", split_targs(q[-2][1])[0] if q[-2][1] else "") is not None

class Deep:
    def __init__(self, S):
        self.S, self.fn, self.sem = S, S.fn, S.sem
        fn, sem = self.fn, self.sem
        self.tops = [i for i in fn.calls() if short(fn.callee(i)) in ("top", "back") and isstate(S, i)]
        if not self.tops: raise CheckError(f"{S.name}: where the depth-first stack is looked at was not found")
        self.stack = {S.container(i) for i in self.tops}
        self.topids = {i.id for i in self.tops}; self.topb = {i.bb for i in self.tops}
        loops = fn.loops()
        inner = [(len(b), h, b) for h, b in loops.items() if self.topb & b]
        if not inner: raise CheckError(f"{S.name}: no loop around the depth-first stack")
        _, self.head, self.body = min(inner, key=lambda x: x[0])
        outer = [(len(b), h, b) for h, b in loops.items() if self.body < b]
        self.ohead, self.obody = min(outer, key=lambda x: x[0])[1:] if outer else (None, set())
        self.pops = {i.id for i in fn.calls() if short(fn.callee(i)) in REMOVE and isstate(S, i) and S.container(i) in self.stack}
        self.push = {i.id for i in fn.calls() if short(fn.callee(i)) in PUSH and isstate(S, i) and S.container(i) in self.stack}
        # comparisons of a value of the top cell with something that comes from a heuristic
        self.cmp = []
        for b in self.body:
            for i in fn.blocks[b].insts:
                if i.op not in ("icmp", "fcmp") or not pred(i) or pred(i) in ("eq", "ne"): continue
                for k in (0, 1):
                    F = self.field(i.ops[k])
                    if F is None: continue
                    w = self.leaves(i.ops[1 - k])
                    if any(self.heur(x) for x in w): self.cmp.append((i, k, F, w)); break
        self.odd = None
        if not self.cmp:
            for b in self.body:
                for i in fn.blocks[b].insts:
                    if i.op in ("icmp", "fcmp") and pred(i) not in (None, "eq", "ne"):
                        for k in (0, 1):
                            if self.near(i.ops[k], lambda v: self.field(v) is not None) and self.near(i.ops[1 - k], lambda v: any(self.near(x, self.heur) for x in self.leaves(v))): self.odd = i
        if not self.cmp and self.odd is None: raise CheckError(f"{S.name}: the comparison with the bound was not found")
    def near(self, v, f, depth=0):
        """does f hold for a value that v is computed from by arithmetic"""
        if not isinstance(v, int) or depth > 6: return False
        if f(v): return True
        i = self.fn.inst[v]
        return i.op in ("add", "sub", "mul", "shl", "fadd", "fsub", "fmul", "zext", "sext", "trunc", "freeze", "select", "udiv", "fdiv", "lshr") and any(self.near(o, f, depth + 1) for o in i.ops)
    def field(self, v):
        """offset of the field if v is read from the top cell"""
        if not isinstance(v, int): return None
        i = self.fn.inst[v]
        if i.op in ("freeze",): return self.field(i.ops[0])
        if i.op != "load": return None
        R, o = self.sem.addr(i.ops[0])
        if R[0] == "v" and R[1] in self.topids: return o
        if self.sem.alloca(R) and self.fn.inst[R[1]].d.get("size") == i.d["bytes"]:     # a local copy
            ds = self.sem.defs(R, o, i.d["bytes"], i)
            fs = {self.field(d[1].ops[0]) if d[0] == "store" else None for d in ds}
            if len(fs) == 1: return fs.pop()
        return None
    def leaves(self, v, seen=None):
        """values something holds, through merges and stack slots"""
        seen = set() if seen is None else seen
        if isinstance(v, tuple): return {v}
        if v in seen: return set()
        seen.add(v); i = self.fn.inst[v]; out = set()
        if i.op == "phi":
            for _, x in i.d["in"]: out |= self.leaves(tup(x), seen)
            return out
        if i.op == "select": return self.leaves(i.ops[1], seen) | self.leaves(i.ops[2], seen)
        if i.op in ("freeze",): return self.leaves(i.ops[0], seen)
        if i.op == "load":
            if self.field(v) is not None: return {v}
            ls = self.sem.locs(i.ops[0])
            for R, o in ls:
                if not self.sem.alloca(R):
                    out.add(v); continue
                for d in self.sem.defs(R, o, i.d["bytes"], i):
                    if d[0] == "store": out |= self.leaves(d[1].ops[0], seen)
                    elif d[0] != "undef": out.add(v)
            return out
        return {v}
    def heur(self, v, depth=0):
        if not isinstance(v, int) or depth > 6: return False
        if not hasattr(self, "_h"): self._h = {i.id for i in self.S.heuristics()}
        if v in self._h: return True
        i = self.fn.inst[v]
        if self.rootfield(v) is not None: return True
        return i.op in ("mul", "fmul", "zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc") and any(self.heur(o, depth + 1) for o in i.ops)
    def rootfield(self, v):
        """offset if v is read from the start's cell before the iterations begin"""
        i = self.fn.inst[v]
        if i.op != "load" or i.bb in self.obody or i.bb in self.body: return None
        R, o = self.sem.addr(i.ops[0])
        if R[0] != "v" or R[1] in self.topids: return None
        c = self.fn.inst[R[1]]
        return o if c.op in ("call", "invoke") and short(self.fn.callee(c)) in ("back", "front", "emplace_back", "top") and self.S.cellish(qual(self.S.dem(c))[-2][1]) else None
    def edges(self):
        """(edges within the bound, edges beyond it, [(comparison, field)], strict)"""
        fn = self.fn; inn, out, bad = set(), set(), []
        for c, k, F, w in self.cmp:
            p = pred(c) if k == 0 else SWAP[pred(c)]      # field p bound
            for b in fn.order:
                for s in fn.blocks[b].succs:
                    for v, tr in fn.edge_fact(b, s):
                        x, t = v, tr
                        while isinstance(x, int):
                            i = fn.inst[x]
                            if i.op == "xor" and any(isc(o, 1) for o in i.ops if isinstance(o, tuple)): t = not t; x = [o for o in i.ops if isinstance(o, int)][0]
                            elif i.op in ("zext", "trunc", "freeze") or i.op == "call" and fn.callee(i).startswith("llvm.expect"): x = i.ops[0]
                            elif i.op == "icmp" and i.d["pred"] in ("eq", "ne") and cval(i.ops[1]) in (0, 1) and fn.is_boolish(i.ops[0]): t = t if (i.d["pred"] == "eq") == (cval(i.ops[1]) == 1) else not t; x = i.ops[0]
                            else: break
                        if x != c.id: continue
                        q = p if t else NEG[p]
                        if q == "le": inn.add((b, s))
                        elif q == "gt": out.add((b, s))
                        else: bad.append((c, "a cell whose priority equals the bound is " + ("pruned" if q in ("lt", "ge") else "not told apart")))
        return inn, out, bad

def bits(i): return i.d.get("bytes", 4) * 8
def ismax(v, ty=None):
    if not isinstance(v, tuple): return False
    if v[0] == "f": return float(v[1]) in (float("inf"), 1.7976931348623157e308, 3.4028234663852886e38)
    c = cval(v)
    if c is None: return False
    n = v[2] if len(v) > 2 and isinstance(v[2], int) else 32
    m = (1 << n) - 1
    return (c & m) in (m, m >> 1)

def accumulator(D, r):
    """('phi', id) or ('slot', root): the running minimum, found as what the bound is set to between iterations"""
    fn, sem, S = D.fn, D.sem, D.S
    c, k, F, w = D.cmp[0]; bv = c.ops[1 - k]
    b = fn.inst[bv] if isinstance(bv, int) else None
    while b is not None and b.op in ("freeze", "zext", "trunc", "sext") and isinstance(b.ops[0], int): b = fn.inst[b.ops[0]]
    vals = []           # (value, block it comes from, where)
    slot = None
    if b is not None and b.op == "load":
        ls = sem.locs(b.ops[0])
        if len(ls) == 1 and sem.alloca(ls[0][0]):
            slot = ls[0]
            for bb in fn.order:
                for i in fn.blocks[bb].insts:
                    if i.op == "store" and sem.addr(i.ops[1]) == tuple(slot): vals.append((i.ops[0], bb, i))
                    elif i.op in ("call", "invoke") and fn.callee(i).startswith("llvm.mem") and sem.addr(i.ops[0])[0] == slot[0]: vals.append((None, bb, i))
    elif b is not None and b.op == "phi":
        seen, wl = set(), [b]
        while wl:
            p = wl.pop()
            if p.id in seen: continue
            seen.add(p.id)
            for pb, x in p.d["in"]:
                x = tup(x)
                if isinstance(x, int) and fn.inst[x].op == "phi" and pb not in D.body and fn.inst[x].bb not in D.body: wl.append(fn.inst[x])
                elif isinstance(x, int) and fn.inst[x].op == "phi" and fn.inst[x].bb == p.bb and x == p.id: continue
                else: vals.append((x, pb, p))
    if not vals: raise CheckError(f"{S.name}: the bound was not found")
    return slot, vals

def unit(S, r):
    if S.solver not in DEEP: return "skip"
    D = Deep(S); fn, sem = D.fn, D.sem
    bad = lambda k, i, why: r.bad(f"{S.solver}: {k}", i.where() if hasattr(i, "where") else str(i), why)
    if D.odd is not None: bad("comparison with the bound", D.odd, "what is compared is not the cell's priority and the bound as they are"); return
    inn, out, odd = D.edges()
    for c, why in odd: bad("comparison with the bound", c, why)
    if odd: return
    if not inn or not out: raise CheckError(f"{S.name}: the branches of the comparison with the bound were not found")
    cmp0 = D.cmp[0][0]
    F = D.cmp[0][2]
    # ---- what the bound becomes
    slot, vals = accumulator(D, r)
    first = [(v, b, i) for v, b, i in vals if b not in D.obody]
    later = [(v, b, i) for v, b, i in vals if b in D.obody]
    for v, b, i in later:
        if b in D.body and slot is not None: bad("bound changed", i, "the bound changes while an iteration is under way"); return
    if not later: bad("next bound", cmp0, "the bound is never raised"); return
    accs = set()
    for v, b, i in later:
        a = acc_of(D, v)
        if a is None: bad("next bound", i, "the next bound is not the smallest value that was pruned"); return
        accs.add(a)
    if len(accs) != 1: raise CheckError(f"{S.name}: several running minima")
    acc = accs.pop()
    for v, b, i in first:
        if not D.heur(v): bad("first bound", i, "the first bound is not the priority of the start"); return
    # ---- the start's own priority is the first bound
    root = [(I, m) for I, cls, m, o in S.inserts() if I.bb not in D.obody]
    ft = set()
    for v, b, i in first: ft.add(repr(sem.t(v)))
    for I, m in root:
        ts = set()
        for o in I.ops[1:]:
            for R, off in sem.locs(o):
                if sem.alloca(R):
                    for d in sem.defs(R, off, fn.inst[R[1]].d.get("size") or 4, I):
                        if d[0] == "store": ts.add(repr(sem.t(d[1].ops[0])))
            ts.add(repr(sem.t(o)))
        if ft & ts or first and all(isinstance(v, int) and D.rootfield(v) == F for v, b, i in first): r.ok(f"{S.name}: the first bound is the priority of the start", I.where())
        else: bad("first bound", I, "the first bound is not the priority the start has")
    # ---- paths of one step
    n = paths(D, acc, F, inn, out, bad)
    r.count("paths of a step", n)
    if not r.viol:
        r.ok(f"{S.name}: the minimum covers exactly the pruned cells", cmp0.where())
    # ---- the start of an iteration
    init = starts(D, acc)
    if init is None: bad("start of an iteration", cmp0, "the minimum is not set to the greatest value when an iteration starts")
    else: r.ok(f"{S.name}: the minimum starts at the greatest value", init.where() if hasattr(init, "where") else "")
    # ---- expansions only within the bound
    for I, cls, m, o in S.inserts():
        if I.bb not in D.body: continue
        free = [t for t in D.topb if S.reachable_without(I.bb, inn, begin=t, stop=D.topb - {t}) and t != I.bb]
        if free: bad("cell beyond the bound", I, "a cell enters the search from one whose priority was not found to be within the bound")
        else: r.ok(f"{S.name}: expanded only within the bound", I.where())
    # ---- a cell within the bound leaves only when its neighbours are used up
    ex = exhausted(D)
    for b in {fn.inst[p].bb for p in D.pops}:
        for (a, s) in inn:
            if s == b or S.reachable_without(b, ex | out, begin=s, stop=D.topb): bad("cell within the bound", fn.blocks[b].insts[0], "a cell within the bound leaves the stack before all its neighbours were looked at"); break
        else: continue
        break
    else: r.ok(f"{S.name}: within the bound every neighbour is looked at", cmp0.where())
    # ---- an iteration ends only when the stack is used up
    goal = set(S.goal_edges()); early = None; ends = 0
    for a in D.body:
        for b in fn.blocks[a].succs:
            t = fn.term(a)
            if b in D.body or t.op == "invoke" and b == t.d.get("unwind"): continue
            if not (a == D.head or S.reachable_without(a, goal, begin=D.head)) or (a, b) in goal: continue
            if drained(D, a, b): ends += 1
            else: early = fn.term(a)
    if early is not None: bad("end of an iteration", early, "an iteration may end while cells are left on the stack")
    elif ends: r.ok(f"{S.name}: an iteration ends only when the stack is used up", fn.term(D.head).where())
    # ---- iterations
    iterations(D, acc, slot, out, bad, r)

def drained(D, a, b):
    """does the edge say that the stack is empty"""
    fn, S = D.fn, D.S
    facts = list(fn.edge_fact(a, b)) + list(fn.facts(a))
    for v, tr in facts:
        if not isinstance(v, int): continue
        i = fn.inst[v]
        while True:
            if i.op == "xor" and any(isc(o, 1) for o in i.ops if isinstance(o, tuple)): tr = not tr
            elif not (i.op in ("freeze", "zext", "trunc") or i.op == "call" and fn.callee(i).startswith("llvm.expect")): break
            i = fn.inst[[o for o in i.ops if isinstance(o, int)][0]]
        if i.op in ("call", "invoke") and short(fn.callee(i)) == "empty" and tr and S.container(i) in D.stack: return True
        if i.op == "icmp" and isinstance(i.ops[0], int):
            c = fn.inst[i.ops[0]]; p = pred(i) if tr else NEG.get(pred(i)); k = cval(i.ops[1])
            if c.op in ("call", "invoke") and short(fn.callee(c)) == "size" and S.container(c) in D.stack and (p in ("eq", "le") and k == 0 or p == "lt" and k == 1): return True
            if c.op in ("call", "invoke", "zext") and short(fn.callee(c) if c.op != "zext" else "") == "empty" and S.container(c) in D.stack and (p == "ne" and k == 0 or p == "eq" and k == 1): return True
    return False
def acc_of(D, v, depth=0):
    fn, sem = D.fn, D.sem
    if not isinstance(v, int) or depth > 8: return None
    i = fn.inst[v]
    if i.op == "phi":
        if i.bb == D.head: return ("phi", v)
        if i.bb in D.body: return None
        xs = {acc_of(D, tup(x), depth + 1) for _, x in i.d["in"]}
        return xs.pop() if len(xs) == 1 else None
    if i.op in ("freeze",): return acc_of(D, i.ops[0], depth + 1)
    if i.op == "load" and i.bb not in D.body:
        ls = sem.locs(i.ops[0])
        if len(ls) == 1 and sem.alloca(ls[0][0]):
            R, o = ls[0]
            # a copy of the minimum?
            st = [j for b in D.obody for j in fn.blocks[b].insts if j.op == "store" and sem.addr(j.ops[1]) == (R, o)]
            if any(j.bb in D.body for j in st) or not st: return ("slot", R, o)
            xs = {acc_of(D, j.ops[0], depth + 1) for j in st}
            return xs.pop() if len(xs) == 1 else None
    if i.op == "load" and i.bb in D.body: return None
    return None

def paths(D, acc, F, inn, out, bad):
    """symbolic value of the minimum along every path from a branch of the comparison to the next cell"""
    fn, sem, S = D.fn, D.sem, D.S; count = 0
    def mem_of(i): 
        ls = sem.locs(i)
        return ls[0] if len(ls) == 1 else None
    for kind, edges in (("in", inn), ("out", out)):
        for (a0, s0) in edges:
            # state: (block, prev, env, popped, facts)
            start = (s0, a0, (), acc, frozenset())
            w = [(s0, a0, {}, 0, frozenset())]; seen = set(); rep = False
            while w and not rep:
                b, prev, env, popped, facts = w.pop()
                key = (b, prev, tuple(sorted(env.items(), key=repr)), popped, facts)
                if key in seen: continue
                seen.add(key)
                if len(seen) > 20000: raise CheckError(f"{S.name}: too many paths in one step")
                def val(v, depth=0):
                    if isinstance(v, tuple): return "MAX" if ismax(v) else None
                    if v in env: return env[v]
                    i = fn.inst[v]
                    if acc[0] == "phi" and v == acc[1]: return "A"
                    if depth > 10: return None
                    if i.op in ("freeze", "zext", "trunc"): return val(i.ops[0], depth + 1)
                    if i.op == "load" and D.field(v) == F and not fn.inst[v].bb in () : return "F"
                    if i.op == "alloca" and acc[0] == "slot" and acc[1] == ("v", v): return "&A"
                    if i.op == "getelementptr":
                        R, o = sem.addr(v)
                        if R[0] == "v" and R[1] in D.topids and o == F: return "&F"
                    return None
                e2 = dict(env)
                # merges
                new = {}
                for i in fn.blocks[b].insts:
                    if i.op != "phi": break
                    xs = [tup(x) for pb, x in i.d["in"] if pb == prev]
                    if xs: new[i.id] = val(xs[0])
                if b == D.head or b in D.topb and b != s0:
                    # next cell
                    count += 1
                    end = new.get(acc[1]) if acc[0] == "phi" and b == D.head else env.get("slot", "A") if acc[0] == "slot" else (val(acc[1]) if b != D.head else None)
                    A, Fs = "A", "F"
                    if kind == "in":
                        if end != "A": bad("minimum", fn.term(prev), "a cell within the bound changes the smallest pruned value"); rep = True
                    else:
                        okv = end == "MIN" or end == "F" and ("F<A" in facts or "F<=A" in facts) or end == "A" and ("A<F" in facts or "A<=F" in facts)
                        if not okv: bad("minimum", D.cmp[0][0], "on some path a pruned cell does not lower the minimum to its own priority" if end in ("A", None) else "on some path the minimum grows"); rep = True
                        if not popped: bad("pruned cell", D.cmp[0][0], "a pruned cell stays on the stack"); rep = True
                    continue
                if b not in D.body: continue
                for k, x in new.items():
                    if x is None: e2.pop(k, None)
                    else: e2[k] = x
                env = e2
                gone = popped
                for i in fn.blocks[b].insts:
                    if i.op == "phi": continue
                    if i.id in D.pops: popped = 1; continue
                    if i.op == "load":
                        x = None; p = i.ops[0]; pv = val(p) if isinstance(p, int) else None
                        if pv == "MIN&" : x = "MIN"
                        elif pv == "&A": x = env.get("slot", "A") if acc[0] == "slot" else None
                        elif pv == "&F": x = None if popped else "F"
                        elif acc[0] == "slot" and mem_of(p) == (acc[1], acc[2]): x = env.get("slot", "A")
                        elif D.field(i.id) == F: x = "?" if popped else "F"
                        if x is not None: env[i.id] = x
                    elif i.op == "store":
                        if acc[0] == "slot" and sem.addr(i.ops[1]) == (acc[1], acc[2]): env["slot"] = val(i.ops[0]) or "?"
                    elif i.op in ("call", "invoke"):
                        n = fn.callee(i); sh = short(n)
                        if n.startswith(("llvm.umin", "llvm.smin", "llvm.minnum")) or sh == "min" and ("utils" in n or "std" in n):
                            vs = {val(o) for o in i.ops[:2]}
                            if vs == {"A", "F"}: env[i.id] = "MIN"
                            elif vs == {"&A", "&F"} or vs == {"&A", "&F"}: env[i.id] = "MIN&"
                    elif i.op in ("select",):
                        c = fact(D, val, i.ops[0]); x, y = val(i.ops[1]), val(i.ops[2])
                        base = lambda z: z[1:] if z and z[0] == "&" else z
                        if c and {base(x), base(y)} == {"A", "F"}:
                            lo = {"F<A": "F", "F<=A": "F", "A<F": "A", "A<=F": "A"}[c]
                            if base(x) == lo: env[i.id] = "MIN" if x[0] != "&" else "MIN&"
                    elif i.op in ("freeze", "zext", "trunc"):
                        x = val(i.ops[0])
                        if x: env[i.id] = x
                t = fn.term(b)
                for s in fn.blocks[b].succs:
                    if t.op == "invoke" and s == t.d.get("unwind"): continue
                    f2 = facts
                    for v, tr in fn.edge_fact(b, s):
                        if isinstance(v, int):
                            c = fact(D, val, v)
                            if c:
                                if not tr: c = {"F<A": "A<=F", "F<=A": "A<F", "A<F": "F<=A", "A<=F": "F<A"}[c]
                                f2 = f2 | {c}
                    w.append((s, b, dict(env), popped, f2))
    return count

def fact(D, val, v, depth=0):
    """'F<A', ... if v compares the minimum with the priority"""
    if not isinstance(v, int) or depth > 4: return None
    i = D.fn.inst[v]
    if i.op in ("freeze", "zext", "trunc") or i.op == "call" and D.fn.callee(i).startswith("llvm.expect"): return fact(D, val, i.ops[0], depth + 1)
    if i.op == "xor" and any(isc(o, 1) for o in i.ops if isinstance(o, tuple)):
        c = fact(D, val, [o for o in i.ops if isinstance(o, int)][0], depth + 1)
        return {"F<A": "A<=F", "F<=A": "A<F", "A<F": "F<=A", "A<=F": "F<A"}.get(c)
    if i.op not in ("icmp", "fcmp"): return None
    p = pred(i); x, y = val(i.ops[0]), val(i.ops[1])
    if p not in ("lt", "le", "gt", "ge") or {x, y} != {"A", "F"}: return None
    if p in ("gt", "ge"): x, y, p = y, x, SWAP[p]
    return f"{x}<{'=' if p == 'le' else ''}{y}"

def starts(D, acc):
    """the value the minimum has when the loop over the stack is entered is the greatest of its type"""
    fn, sem = D.fn, D.sem
    pre = [b for b in fn.order if D.head in fn.blocks[b].succs and b not in D.body]
    if acc[0] == "phi":
        i = fn.inst[acc[1]]
        xs = [tup(x) for pb, x in i.d["in"] if pb in pre]
        w = set()
        for x in xs: w |= D.leaves(x) if isinstance(x, int) else {x}
        return i if xs and all(ismax(x) for x in w) else None
    good = None
    for b in pre:
        cur = b; hit = None; seen = set()
        # nearest store that dominates
        while cur is not None and cur not in seen and cur in D.obody:
            seen.add(cur)
            for i in reversed(fn.blocks[cur].insts):
                if i.op == "store" and sem.addr(i.ops[1]) == (acc[1], acc[2]): hit = i; break
            if hit: break
            cur = fn.idom.get(cur) if isinstance(fn.idom, dict) else fn.idom()[cur]
        if hit is None or not all(ismax(x) for x in D.leaves(hit.ops[0])): return None
        good = hit
    return good

def exhausted(D):
    """edges on which the cell's counter was found to have reached the number of its neighbours"""
    fn, sem = D.fn, D.sem; out = set()
    # fields of the top cell that are counted up
    cnt = set()
    for b in D.body:
        for i in fn.blocks[b].insts:
            if i.op == "store":
                R, o = sem.addr(i.ops[1])
                if R[0] == "v" and R[1] in D.topids and isinstance(i.ops[0], int) and fn.inst[i.ops[0]].op in ("add", "sub", "trunc"): cnt.add(o)
    def size(v):
        if isinstance(v, tuple): return cval(v) is not None and cval(v) > 0
        i = fn.inst[v]
        if i.op in ("zext", "trunc"): return size(i.ops[0])
        return i.op in ("call", "invoke") and short(fn.callee(i)) == "size"
    def counter(v):
        if not isinstance(v, int): return False
        i = fn.inst[v]
        if i.op in ("zext", "trunc", "freeze"): return counter(i.ops[0])
        f = D.field(v)
        return f is not None and f in cnt
    for b in fn.order:
        for s in fn.blocks[b].succs:
            for v, tr in fn.edge_fact(b, s):
                if not isinstance(v, int): continue
                while fn.inst[v].op == "xor" and any(isc(o, 1) for o in fn.inst[v].ops if isinstance(o, tuple)): v = [o for o in fn.inst[v].ops if isinstance(o, int)][0]; tr = not tr
                i = fn.inst[v]
                if i.op != "icmp" or not pred(i): continue
                p = pred(i) if tr else NEG[pred(i)]; x, y = i.ops
                if counter(y) and size(x): x, y, p = y, x, SWAP[p]
                if counter(x) and size(y) and p in ("eq", "ge"): out.add((b, s))
    return out

def iterations(D, acc, slot, out, bad, r):
    """a new iteration exactly if something was pruned; visited records emptied in between"""
    fn, sem, S = D.fn, D.sem, D.S
    fl = Flags(S)
    # every container in which cells are looked up, other than the path itself
    tabs = {}
    for b in D.body:
        for i in fn.blocks[b].insts:
            if i.op in ("call", "invoke") and short(fn.callee(i)) in ("find", "contains", "count", "lower_bound") and re.match(r"std::(unordered_)?(map|set|multimap)|chdr::existence_set", fn.callee(i)): tabs[S.container(i)] = i
    def accval(v, depth=0):
        if not isinstance(v, int) or depth > 8: return False
        i = fn.inst[v]
        if acc[0] == "phi" and v == acc[1]: return True
        if i.op == "phi": return i.bb not in D.body and all(accval(tup(x), depth + 1) for _, x in i.d["in"])
        if i.op == "load" and i.bb not in D.body:
            ls = sem.locs(i.ops[0])
            if len(ls) != 1: return False
            if acc[0] == "slot" and ls[0] == (acc[1], acc[2]): return True
            if slot is not None and ls[0] == tuple(slot): return i.bb in D.obody
        return False
    def told(b, s):
        """True: something was pruned; False: nothing was"""
        for v, tr in fn.edge_fact(b, s):
            if not isinstance(v, int): continue
            i = fn.inst[v]
            while i.op in ("freeze", "zext") or i.op == "xor" and any(isc(o, 1) for o in i.ops if isinstance(o, tuple)):
                if i.op == "xor": tr = not tr
                i = fn.inst[[o for o in i.ops if isinstance(o, int)][0]]
            if i.op not in ("icmp", "fcmp"): continue
            x, y = i.ops; p = pred(i)
            if p is None: continue
            if ismax(x): x, y, p = y, x, SWAP[p]
            if ismax(y) and accval(x):
                p = p if tr else NEG[p]
                if p == "eq" or p == "ge": return False
                if p == "ne" or p == "lt": return True
        return None
    viol = {}
    pushes = D.push
    def event(i, st):
        ph, done = st
        if i.id in pushes and i.bb not in D.body and i.bb in D.obody:
            if ph == "none": viol.setdefault("goes on", i)
            if ph in ("none", "pruned"):
                miss = [c for c in tabs if c not in done]
                if miss: viol.setdefault("record", i)
            return ("new", frozenset())
        if ph in ("none", "pruned", "new") and i.op in ("call", "invoke") and i.bb not in D.body:
            sh = short(fn.callee(i))
            if sh in ("clear", "operator=") or sh == "swap" or "::" in fn.callee(i) and fn.callee(i).split("::")[-1] == fn.callee(i).split("::")[-2]:
                try: c = S.container(i)
                except Exception: c = None
                if c in tabs: return (ph, done | {c})
        if i.op == "ret": return st
        return st
    def edge(a, b, st):
        ph, done = st
        if (a, b) in out and ph in ("new", "none", "pruned"): ph = "pruned"
        if b == D.head and a not in D.body and ph == "new": ph = "none"
        k = told(a, b)
        if k is True and ph == "none" or k is False and ph == "pruned": return None
        if a in D.obody and b not in D.obody and ph in ("none", "pruned", "new"):
            t = fn.term(a)
            if t.op == "invoke" and b == t.d.get("unwind"): return None
            if a not in D.body and not fn.blocks[b].insts[0].op == "landingpad" and ph == "pruned": viol.setdefault("gives up", fn.term(a))
            ph = "left"
        return (ph, done)
    states = fl.explore(("start", frozenset()), event, edge, unwind=False)
    r.count("path states", len(states))
    why = {"goes on": "a new iteration may start although nothing was pruned", "gives up": "the search may give up although a cell was pruned", "record": "a new iteration starts with the record of visited cells of the one before"}
    for k, i in viol.items(): bad({"record": "record of visited cells"}.get(k, "end of an iteration"), i, why[k])
    if not viol: r.ok(f"{S.name}: a new iteration starts exactly if something was pruned", D.cmp[0][0].where())
    for c, i in tabs.items():
        if "record" not in viol: r.ok(f"{S.name}: the record of visited cells is emptied between iterations", i.where())
def run(rep, tier): run_units(rep, unit, tier, 4)
