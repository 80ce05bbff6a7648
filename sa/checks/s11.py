"""S11: no access to an empty frontier."""
from search import *
RULE = ("In every inlined solve(), for each container of search nodes, states, cells or node pointers a lower bound of its size is carried along all paths (insertions add one, removals subtract one, clearing or replacing gives none, swapping exchanges, "
        "and branches on empty() or size() raise it while nothing changed in between); every call that reads or removes an end of the container, or steps back from its end, is reached only with a bound of at least one.")
TECH = "forward dataflow of size lower bounds (typestate)"
MIN_OB = 250
CONT = {"chdr::heap", "chdr::queue", "chdr::stack", "std::vector", "std::multiset", "std::set", "std::deque", "std::priority_queue", "std::list"}
ADD = {"emplace", "emplace_nosort", "push", "emplace_back", "push_back", "insert", "emplace_hint", "emplace_front", "push_front"}
NEED = {"top": 0, "front": 0, "back": 0, "pop": 1, "pop_back": 1, "pop_front": 1, "remove": 1}
KEEP = {"empty", "size", "capacity", "begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "find", "contains", "count", "reserve", "operator[]", "at", "data", "top", "front", "back", "reheapify", "heapify", "get_allocator", "max_size", "lower_bound", "upper_bound", "equal_range", "sort", "shrink_to_fit", "trim", "reprioritise"}
CAP = 3

class Flow:
    def __init__(self, S):
        self.S = S; self.fn = S.fn; self.roots = {}
        for i in self.fn.calls():
            c = self.cont(i)
            if c: self.roots.setdefault(c[0], c[1])
        self.report = None
    def cont(self, i):
        """(container object, class, method, first operand behind it)"""
        n = self.fn.callee(i); cls, _, m = n.rpartition("::"); m = re.sub(r"\[.*", "", m)
        if cls not in CONT: return None
        q = qual(self.S.dem(i))
        if len(q) < 2 or not self.S.cellish(q[-2][1]): return None
        k = 1 if i.d.get("sret") else 0
        if len(i.ops) <= k: return None
        if not hasattr(self, "_cc"): self._cc = {}
        if i.id not in self._cc: self._cc[i.id] = self.S.container(i)
        return self._cc[i.id], cls, m, k
    def amount(self, i, m):
        """how many elements a removal takes away: 1, or None for any number"""
        return 1
    def step(self, i, st):
        """st: {root: (lower bound, {size token: delta})}"""
        if i.op not in ("call", "invoke"): return
        n = self.fn.callee(i)
        if n.endswith("::swap") or n.startswith("std::swap") or n == "std::swap":
            rs = [r for o in i.ops for r in [self.obj(o)] if r is not None]
            if len(rs) == 2: st[rs[0]], st[rs[1]] = st.get(rs[1], (0, ())), st.get(rs[0], (0, ())); return
            for r in rs: st.pop(r, None)
            return
        c = self.cont(i)
        if c is None:
            # handed to something that is not one of its own members
            if n.startswith("llvm.") or n.startswith("std::") and not n.rpartition("::")[2].startswith(("swap", "iter_swap", "exchange", "move")): return
            if i.d.get("fn") is None: return
            for k in self.S.sem.written_args(i, n):
                r = self.obj(i.ops[k])
                if r in st: st.pop(r)
            return
        R, cls, m, k = c
        lb, tok = st.get(R, (0, ()))
        short = cls.rpartition("::")[2]
        if m in ("empty", "size"): st[R] = (lb, tuple([t for t in tok if t[0] != i.id] + [(i.id, 0)])); return
        if self.report is not None:
            need = None
            if m in NEED: need = "reads" if NEED[m] == 0 else "removes from"
            elif m == "extract" or m == "erase" and self.iterator_arg(i, k): need = self.iterator_need(i, k)
            if need and i.id not in self.report: self.report[i.id] = (i, lb >= 1, need, cls, m)
            elif need: self.report[i.id] = (i, self.report[i.id][1] and lb >= 1, need, cls, m)
        if m in ADD: st[R] = (min(CAP, lb + 1), tuple((a, d + 1) for a, d in tok) if m not in ("emplace_hint",) and short not in ("set",) else ()); return
        if m in NEED and NEED[m] == 1 or m == "extract": st[R] = (max(0, lb - 1), tuple((a, d - 1) for a, d in tok)); return
        if m == "erase":
            if self.iterator_arg(i, k): st[R] = (max(0, lb - 1), tuple((a, d - 1) for a, d in tok))
            else: st[R] = (0, ())
            return
        if m == "resize":
            n = cval(i.ops[k + 1]) if len(i.ops) > k + 1 else None
            st[R] = (min(CAP, n or 0), ()); return
        if m in KEEP or short == m or m.startswith("~"):
            if short == m: st[R] = (0, ())
            return
        st[R] = (0, ())
    def obj(self, o):
        if not isinstance(o, (int, tuple)) or not self.S.sem.isptr(o): return None
        ls = self.S.sem.locs(o); r = ls[0] if len(ls) == 1 else tuple(ls)
        return r if r in self.roots else None
    def iterator_arg(self, i, k):
        d = self.S.dem(i); p = d[d.rfind("erase"):] if "erase" in d else d
        return "iterator" in p[p.find("("):]
    def iterator_need(self, i, k):
        """removal at an iterator: at the beginning, or before the end, of the container"""
        sem = self.S.sem.at(i.bb); o = i.ops[k + 1]
        for z in list(subterms(sem.t(o))) + (list(subterms(sem.content(o, 8, i))) if sem.isptr(o) else []):
            if isinstance(z, tuple) and z and z[0] == "call" and z[1].rpartition("::")[2] in ("begin", "cbegin"): return "removes the first of"
        return None
    def refine(self, b, s, st):
        for v, tr in self.fn.edge_fact(b, s):
            if isinstance(v, tuple): continue
            c = self.S.sem.cond(v)
            if c is None: continue
            t, truth_ = c[0], c[1] == tr
            self.learn(t, truth_, st)
        return st
    def learn(self, t, truth_, st):
        def upd(cid, least):
            for R, (lb, tok) in list(st.items()):
                for a, d in tok:
                    if a == cid: st[R] = (max(lb, min(CAP, max(0, least + d))), tok)
        if t[0] == "call":
            m = t[1].rpartition("::")[2]
            if m == "empty" and not truth_: upd(t[2], 1)
            if m == "size" and truth_: upd(t[2], 1)
        elif t[0] in ("lt", "eq"):
            x, y = t[1], t[2]
            def size(z): return z[2] if z[0] == "call" and z[1].rpartition("::")[2] == "size" else None
            def num(z): return z[1] if z[0] == "c" and isinstance(z[1], int) else None
            if t[0] == "lt":
                if size(y) is not None and num(x) is not None and truth_: upd(size(y), num(x) + 1)
                if size(y) is not None and num(x) is None and truth_: upd(size(y), 1)
                if size(x) is not None and num(y) is not None and not truth_: upd(size(x), num(y))
            else:
                for p, q in ((x, y), (y, x)):
                    if size(p) is not None and num(q) is not None:
                        if truth_: upd(size(p), num(q))
                        elif num(q) == 0: upd(size(p), 1)
    def run(self):
        fn = self.fn; inn = {fn.entry: {}}; w = [fn.entry]
        def join(a, b):
            out = {}
            for R in a:
                if R in b: out[R] = (min(a[R][0], b[R][0]), tuple(t for t in a[R][1] if t in b[R][1]))
            return out
        def transfer(b):
            st = dict(inn[b])
            for i in fn.blocks[b].insts: self.step(i, st)
            return st
        n = 0
        while w:
            b = w.pop(); n += 1
            if n > 20000: raise CheckError(f"{self.S.name}: no fixpoint")
            st = transfer(b)
            for s in fn.blocks[b].succs:
                e = self.refine(b, s, dict(st))
                if s not in inn: inn[s] = e; w.append(s)
                else:
                    j = join(inn[s], e)
                    if j != inn[s]: inn[s] = j; w.append(s)
        self.report = {}
        for b in inn: transfer(b)
        self.inn = inn
        return self.report

def unit(S, r):
    F = Flow(S); rep = F.run()
    if not rep and not any(re.search(r"iterator.*::operator--$", S.fn.callee(i)) or S.fn.callee(i) == "std::prev" for i in S.fn.calls()): return "skip"      # walks its containers with loops only
    for i, ok, what, cls, m in rep.values():
        if ok: r.ok(f"{S.name}: {cls}::{m} only while there is an element", i.where())
        else: r.bad(f"{S.solver}:{cls}::{m}", i.where(), f"{S.name}: {cls}::{m} {what} a container that may be empty")
    # steps back from the end
    for i in S.fn.calls():
        if re.search(r"iterator.*::operator--$", S.fn.callee(i)) or S.fn.callee(i) == "std::prev":
            step_back(S, F, r, i)
def step_back(S, F, r, i):
    """an iterator moved towards the beginning: it is not there yet, or it is the end of a container with an element"""
    sem = S.sem; R, o = sem.addr(i.ops[0])
    at = sem.at(i.bb)
    val = at.mem_term(R, o or 0, 8, i, 0) if sem.alloca(R) else at.t(i.ops[0])
    raw = sem.mem_term(R, o or 0, 8, i, 0) if sem.alloca(R) else sem.t(i.ops[0])
    calls = [z for z in subterms(raw) if isinstance(z, tuple) and z and z[0] == "call" and z[1].rpartition("::")[2] in ("end", "cend", "rbegin", "begin")]
    cont = next((S.container(S.fn.inst[z[2]]) for z in calls if S.fn.inst[z[2]].ops), None)
    if cont is None or cont not in F.roots: return
    # facts: not at the beginning
    ok = False
    for t, tr in S.sem.known(i.bb).items():
        if t[0] == "eq" and not tr and any(x in (val, raw) and y[0] == "call" and y[1].rpartition("::")[2] in ("begin", "cbegin") for x, y in ((t[1], t[2]), (t[2], t[1]))): ok = True
    if not ok and val[0] == "call" and val[1].rpartition("::")[2] in ("end", "cend"):
        st = dict(F.inn[i.bb]); rep, F.report = F.report, None
        for j in S.fn.blocks[i.bb].insts:
            if j is i: break
            F.step(j, st)
        F.report = rep
        ok = st.get(cont, (0, ()))[0] >= 1
    if not ok:
        k = trips(S.fn, i.bb)
        others = [a for a in alts(raw) if not (a[0] == "mem" and a[1] == i.id) and a[0] != "rec"]
        if k is not None and len(others) == 1 and others[0][0] == "call" and others[0][1].rpartition("::")[2] in ("end", "cend"):
            ok = F.inn[i.bb].get(cont, (0, ()))[0] >= k      # std::prev: as many steps as the loop has rounds
    if ok: r.ok(f"{S.name}: a step back from the end only while there is an element", i.where())
    else: r.bad(f"{S.solver}:step-back", i.where(), f"{S.name}: an iterator can be moved in front of the first element")

def trips(fn, bb):
    """rounds of the innermost counted loop around a block: a counter from -k or k to 0 in steps of one"""
    L = sorted((len(body), h) for h, body in fn.loops().items() if bb in body)
    if not L: return None
    h = L[0][1]; body = fn.loops()[h]
    for p in fn.blocks[h].insts:
        if p.op != "phi": break
        n = [cval(tup(x)) for b, x in p.d["in"] if b not in body]; back = [tup(x) for b, x in p.d["in"] if b in body]
        if len(n) != 1 or n[0] is None or len(back) != 1: continue
        a = fn.inst.get(back[0]) if isinstance(back[0], int) else None
        if a is None or a.op != "add" or p.id not in a.ops or cval([o for o in a.ops if o != p.id][0]) != (1 if n[0] < 0 else -1): continue
        for b in body:
            for s in fn.blocks[b].succs:
                if s in body: continue
                for v, tr in fn.edge_fact(b, s):
                    c = fn.inst.get(v) if isinstance(v, int) else None
                    if c is not None and c.op == "icmp" and p.id in c.ops and any(isc(o, 0) for o in c.ops if isinstance(o, tuple)) and (c.d["pred"] == "eq") == tr: return abs(n[0])
    return None

def run(rep, tier): run_units(rep, unit, tier, 1)
