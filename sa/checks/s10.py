"""S10: predecessors outlive the search."""
from nodes import *
from checks.s06 import lookups, edges_where, result_field
from checks.s09 import mapped_type, shift
RULE = ("In every inlined solve() whose nodes record a predecessor: at each insertion of a neighbour the predecessor is - on every path, by a typestate over null / fresh / stale / other pointers - a block allocated from one of the caller's memory resources (or an element of a node-based table that is never erased) "
        "since the cell being expanded was taken from the frontier, and every field of that block is still what the taken cell held; it is never null, left over from an earlier cell, the address of a local, or an element of a container that relocates. "
        "Where predecessors are indices, they are the index of the cell being expanded, and an entry of the table they refer to is only erased after a scan of the erased cell's neighbours found none whose entry names it, and never that of the cell being expanded. Blocks that hold predecessors are not deallocated by solvers whose nodes do not count their successors.")
TECH = "pointer typestate over inlined SSA with memory, constructor summaries"
MIN_OB = 60
NODEBASED = ("std::unordered_map", "std::map", "std::list", "std::set", "std::multiset", "std::unordered_set")
ALLOC = ("std::pmr::memory_resource::allocate", "operator new", "malloc")

def basic(fn, v): return fn.inst.get(v) if isinstance(v, int) else None
class Walk:
    """states of the pointers that can become the operand `op` of instruction I: 'null', ('fresh', allocation), ('stale', allocation), 'other'; taking a new cell makes fresh ones stale"""
    def __init__(self, S, I, op, takes):
        self.S = S; self.fn = S.fn; self.I = I; self.op = op; self.takes = takes
        self.slots = {}; self.vals = set(); w = [op]
        R, o = S.sem.addr(op) if S.sem.isptr(op) else (None, None)
        # by reference: the slot it refers to
        self.byref = None
        if isinstance(op, int) and R is not None and S.sem.alloca(R) and S.fn.inst[R[1]].d.get("size") == 8:
            self.byref = (R, o); self.slot((R, o), w)
        while w:
            v = w.pop()
            if not isinstance(v, int) or v in self.vals: continue
            i = self.fn.inst.get(v)
            if i is None: continue
            self.vals.add(v)
            if i.op in ("phi", "select"): w += [tup(x[1]) for x in i.d["in"]] if i.op == "phi" else list(i.ops)
            elif i.op == "load":
                R2, o2 = S.sem.addr(i.ops[0])
                if S.sem.alloca(R2) and S.fn.inst[R2[1]].d.get("size") == 8: self.slot((R2, o2), w)
            elif i.op in ("freeze", "bitcast", "icmp"): w += [o for o in i.ops if isinstance(o, int)]
    def slot(self, k, w):
        if k in self.slots: return
        self.slots[k] = True
        for i in self.fn.insts():
            if i.op == "store" and self.S.sem.addr(i.ops[1]) == k: w.append(i.ops[0])
            elif i.op == "load" and self.S.sem.addr(i.ops[0]) == k: w.append(i.id)
    def ev(self, v, env):
        if isinstance(v, tuple): return "null" if v[0] == "null" or cval(v) == 0 else "other"
        i = self.fn.inst.get(v)
        if i is not None and i.op in ("call", "invoke") and self.fn.callee(i) in ALLOC: return env.get(v, ("fresh", v))
        if i is not None and i.op == "getelementptr" and not i.d.get("var") and i.d.get("off") == 0: return self.ev(tup(i.d["base"]), env)
        return env.get(v, "other")
    def branch(self, b, s, env):
        """the environment after the edge, or None if it cannot be taken"""
        for v, tr in self.fn.edge_fact(b, s):
            if isinstance(v, tuple): continue
            i = self.fn.inst.get(v)
            if i is None: continue
            if i.op == "call" and self.fn.callee(i).startswith("llvm.expect"): i = self.fn.inst.get(i.ops[0]) or i
            if i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
                for a, c in ((0, 1), (1, 0)):
                    if i.ops[c] == ("null",) or isinstance(i.ops[c], tuple) and i.ops[c][0] == "null":
                        st = self.ev(i.ops[a], env)
                        if st == "null" and (i.d["pred"] == "eq") != tr: return None
                        if isinstance(st, tuple) and (i.d["pred"] == "eq") == tr: return None
        return env
    def states(self):
        """{states of the pointer when control is at I}"""
        fn = self.fn; out = set(); start = (fn.entry, None, ()); seen = set(); w = [start]
        tk = {i.id: i for i in self.takes}
        while w:
            b, pb, fe = w.pop()
            if (b, pb if any(i.op == "phi" and i.id in self.vals for i in fn.blocks[b].insts) else None, fe) in seen: continue
            seen.add((b, pb if any(i.op == "phi" and i.id in self.vals for i in fn.blocks[b].insts) else None, fe))
            if len(seen) > 20000: raise CheckError(f"{self.S.name}: too many states")
            env = dict(fe)
            new = {}
            for i in fn.blocks[b].insts:
                if i.op == "phi" and i.id in self.vals:
                    x = [tup(y) for k, y in i.d["in"] if k == pb]
                    new[i.id] = self.ev(x[0], env) if x else "other"
                elif i.op != "phi": break
            env.update(new)
            for i in fn.blocks[b].insts:
                if i is self.I or i.id == self.I.id:
                    out.add(env.get(self.byref, "other") if self.byref else self.ev(self.op, env))
                if i.id in tk:
                    for k, v in list(env.items()):
                        if isinstance(v, tuple) and v[0] == "fresh": env[k] = ("stale", v[1])
                if i.op == "load" and i.id in self.vals:
                    k = self.S.sem.addr(i.ops[0]); env[i.id] = env.get(k, "other")
                elif i.op == "store":
                    k = self.S.sem.addr(i.ops[1])
                    if k in self.slots: env[k] = self.ev(i.ops[0], env)
                elif i.op == "select" and i.id in self.vals:
                    c = self.ev(i.ops[1], env), self.ev(i.ops[2], env); env[i.id] = c[0] if c[0] == c[1] else "other"
                elif i.op in ("call", "invoke") and i.id in self.vals and fn.callee(i) in ALLOC: env[i.id] = ("fresh", i.id)
            for s in fn.blocks[b].succs:
                e2 = self.branch(b, s, env)
                if e2 is not None: w.append((s, b, tuple(sorted(e2.items(), key=repr))))
        return out

def written(t, R):
    """a block's content without the alternative that it was not written since the function began"""
    A = [a for a in alts(t) if not (a[0] == "ld" and a[1] == R)]
    return mkphi(A) if A else ("undef",)
def canon(S, t):
    """reads through an iterator by what the iterator holds, not by which access it is"""
    if t[0] == "ld" and t[1][0] == "v" and t[1][1] in S.fn.inst:
        i = S.fn.inst[t[1][1]]
        if i.op in ("call", "invoke") and re.search(r"iterator.*::operator(\*|->)$", S.fn.callee(i)):
            R, o = S.sem.addr(i.ops[0])
            return ("ld", ("at", S.sem.mem_term(R, o or 0, 8, i, 0) if S.sem.alloca(R) else S.sem.t(i.ops[0])), t[2])
    return t
def root_inst(S, t):
    """the instruction that took the cell a term reads a field of"""
    if t[0] not in ("ld", "ldx"): return None
    R = t[1]
    while R[0] in ("gep", "xv"): R = R[1] if R[0] == "gep" else R[2]
    if R[0] == "v" and R[1] in S.fn.inst:
        i = S.fn.inst[R[1]]
        # the aggregate a reference was extracted from
        while i.op == "extractvalue" and isinstance(i.ops[0], int): i = S.fn.inst[i.ops[0]]
        return i
    if R[0] == "call": return S.fn.inst[R[2]]
    return None
def expanded(S):
    """index terms of the cells whose neighbours are enumerated to be put in"""
    out = {}
    for e in S.expansions():
        at = S.sem.at(e.bb); o = e.ops[-1]
        if S.sem.isptr(o):
            c = arith(at.coord(o, e))
            if c[0] == "tond" and c[2] is True: out.setdefault(c[1], []).append(e)
            else: out.setdefault(arith(at.content(o, IDX, e)), []).append(e)
        else: out.setdefault(arith(at.t(o)), []).append(e)
    return out
def operand(S, N, I, tn):
    """which argument of an inserting call is the predecessor pointer, for direct construction"""
    par = N.plist(S.dem(I)); k0 = len(I.ops) - len(par)
    for k, p in enumerate(par):
        p = re.sub(r"\b(const|restrict)\b|__restrict", "", p)
        if re.search(r"node(<.*>)?\s*\*\s*&*\s*$", p.rstrip()) : yield I.ops[k0 + k] if k0 + k < len(I.ops) else None

def unit(S, r):
    fn = S.fn; N = Nodes(S); exp = expanded(S); n = 0; used = set(); idxparents = {}
    counted = False
    for I, cls, m, o in S.inserts():
        tn = split_targs(qual(S.dem(I))[-2][1])[0]
        if re.search(r"::state(<.*>)?$", tn) or tn.rstrip().endswith("*"): continue
        lay = list(N.layout(tn)); pf = [(off, mm) for mm, off, sz, ty in lay if ty.rstrip().rstrip("restrict").rstrip().endswith("*") or "*" in ty]
        f = N.fields(I, cls, m, o)
        if f is None: continue
        counted = counted or any(mm == "m_successors" for mm, _, _, _ in lay) or "managed_node" in str(N.types.get(norm(tn)))
        off0 = min(f); idx = arith(f[off0][2])
        if any(idx == S.idx(e) for e in ("start", "end")):
            for off, (mm, sz, t) in f.items():
                if off != off0 and sz == IDX and t == ("c", -1): idxparents[norm(tn)] = (off, mm)
            continue
        for off, mm in pf:
            t = f[off][2]; n += 1; key = f"{S.solver}:{cls}::{m}"
            A = alts(t)
            allocs = [fn.inst[a[2]] for a in A if a[0] == "call" and a[1] in ALLOC]
            elems = [a for a in A if a[0] in ("gep", "xv", "call") and not (a[0] == "call" and a[1] in ALLOC)]
            if elems and len(elems) == len(A): element(S, r, I, key, mm, elems, exp); continue
            if any(a != ("null",) and not (a[0] == "call" and a[1] in ALLOC) for a in A):
                r.bad(f"{key}:{mm}:not-kept", I.where(), f"{S.name}: the predecessor is {describe(S, A)}, not memory that outlives the expansion"); continue
            if not allocs:
                r.bad(f"{key}:{mm}:none", I.where(), f"{S.name}: a neighbour is put in without a predecessor"); continue
            takes = {}
            good = True
            for a in allocs:
                # what the block holds when the neighbour is put in
                at = S.sem
                c = {off2: written(arith(at.mem_term(("v", a.id), off2, sz2, I, 0)), ("v", a.id)) for m2, off2, sz2, ty2 in N.layout(tn) if off2 <= max(f)}
                ix = c[off0]
                if ix not in exp: r.bad(f"{key}:{mm}:wrong-cell", I.where(), f"{S.name}: the block the predecessor points to does not hold the cell being expanded"); good = False; continue
                T = root_inst(S, ix)
                if T is None: raise CheckError(f"{S.name}: cannot tell where the expanded cell was taken")
                takes[T.id] = T
                for m2, off2, sz2, ty2 in N.layout(tn):
                    if off2 not in c or off2 in (off0,) or sz2 == 1: continue
                    u = c[off2]
                    if u[0] in ("ld", "ldx") and u[1] == ix[1] and u[2] - ix[2] == off2 - off0: continue
                    r.bad(f"{key}:{mm}:{m2}-lost", a.where(), f"{S.name}: {m2} of the cell being expanded is not what the kept copy holds"); good = False
                res = S.sem.t(a.ops[0]) if fn.callee(a) == ALLOC[0] else None
                if res is not None and res not in [("ld", ("a", 1), S.off[k]) for k in ("mono", "het", "hom")]:
                    r.bad(f"{key}:{mm}:resource", a.where(), f"{S.name}: predecessors are kept in memory that is not the caller's"); good = False
                used.add(a.id)
            if not good: continue
            op = next(operand(S, N, I, tn), None)
            if op is None: op = carrier(S, I, o, off)
            if op is None: raise CheckError(f"{S.name}: predecessor argument of {cls}::{m} not found")
            st = Walk(S, I, op, takes.values()).states()
            why = {"null": "can be put in without a predecessor", "other": "may get a predecessor that is not known to be kept"}
            bad = [why.get(x, "can get the predecessor of an earlier neighbour as its own") for x in st if not (isinstance(x, tuple) and x[0] == "fresh")]
            if bad or not st: r.bad(f"{key}:{mm}:typestate", I.where(), f"{S.name}: a neighbour {bad[0] if bad else 'is never put in'}")
            else: r.ok(f"{S.name}: {mm} is the copy of the expanded cell kept in the caller's memory", I.where())
        # predecessors by index
        if norm(tn) in idxparents:
            off, mm = idxparents[norm(tn)]; t = arith(f[off][2]); n += 1
            key = f"{S.solver}:{cls}::{m}"
            if t == ("c", -1): r.bad(f"{key}:{mm}:none", I.where(), f"{S.name}: a neighbour is put in without a predecessor")
            elif t in exp and t != idx: r.ok(f"{S.name}: {mm} is the index of the expanded cell", I.where())
            elif t[0] == "ld" and idx[0] == "ld" and t[1] == idx[1]: r.ok(f"{S.name}: a known cell keeps its predecessor", I.where())
            else: r.bad(f"{key}:{mm}:wrong-cell", I.where(), f"{S.name}: the predecessor recorded is not the cell being expanded")
    if not n: return "skip"
    if idxparents: erasures(S, r, exp, N, idxparents)
    if used:
        for i in fn.calls():
            if fn.callee(i) in ("std::pmr::memory_resource::deallocate", "operator delete", "free"):
                if counted: continue      # S14
                a = S.sem.t(i.ops[1] if "resource" in fn.callee(i) else i.ops[0])
                r.bad(f"{S.solver}:deallocate", i.where(), f"{S.name}: a block is deallocated although its successors are not counted")
def describe(S, A):
    for a in sorted(A, key=repr):
        if a[0] == "v" and a[1] in S.fn.inst and S.fn.inst[a[1]].op == "alloca": return f"the address of the local {S.alloca_name(a)}"
        if a[0] in ("ld", "ldx"): return "a pointer read from another cell"
    return "not recognised"
def carrier(S, I, o, off):
    """the operand behind the predecessor field of a node built before it is handed over: the value stored into it"""
    R, b = S.sem.addr(o)
    # follow the node back to where it was constructed
    for x in I.ops:
        if not isinstance(x, int): continue
        R, b = S.sem.addr(x)
        if S.sem.alloca(R):
            for d in S.sem.defs(R, (b or 0) + off, 8, I):
                if d[0] == "store": return d[1].ops[0]
                if d[0] == "call" and d[1].ops:
                    par = [k for k, p in enumerate(Nodes.plist(S.mod.dem(d[1].d["fn"]))) if re.search(r"node(<.*>)?\s*(const)?\s*\*", p)]
                    if par: return d[1].ops[par[-1] + 1]
    return None
def element(S, r, I, key, mm, elems, exp):
    fn = S.fn
    for a in elems:
        g = a; off = 0
        if g[0] == "gep": off = g[2]; g = g[1]
        c = g
        while c[0] == "xv": c = c[2]
        if c[0] != "call": r.bad(f"{key}:{mm}:not-kept", I.where(), f"{S.name}: the predecessor is not memory that outlives the expansion"); continue
        i = fn.inst[c[2]]; cls = fn.callee(i).rpartition("::")[0]
        if cls not in NODEBASED: r.bad(f"{key}:{mm}:relocates", I.where(), f"{S.name}: the predecessor is an element of {cls}, which may relocate its elements"); continue
        cell = [e for e in exp if e[0] == "ld" and e[2] == off and (e[1] == g or S.sem.t(e[1][1]) == g if e[1][0] == "v" else e[1] == g)]
        if not cell: r.bad(f"{key}:{mm}:wrong-cell", I.where(), f"{S.name}: the predecessor is not the element of the cell being expanded"); continue
        R = S.container(i); drop = None
        for j in fn.calls():
            q = fn.callee(j).rpartition("::")
            if q[0] == cls and q[2] in ("erase", "clear", "extract", "operator=", "swap", "merge") and j.ops and S.container(j) == R and fn.callee(j).rpartition("::")[2]: drop = j
        if drop is not None: r.bad(f"{S.solver}:{mm}:erased", drop.where(), f"{S.name}: elements that predecessors point to are dropped from {cls}"); continue
        r.ok(f"{S.name}: {mm} is the expanded cell's element of a table that only grows", I.where())

def erasures(S, r, exp, N, idxparents):
    """no entry another names as its predecessor is erased"""
    fn = S.fn
    poff = {k: v[0] for k, v in idxparents.items()}
    tabs = set(); seen = 0
    for i in fn.calls():
        cls, _, m = fn.callee(i).rpartition("::"); m = m.split("[")[0]
        if cls not in ("std::unordered_map", "std::map"): continue
        mt = mapped_type(S, i)
        if mt is None or norm(mt) not in poff: continue
        tabs.add(S.container(i))
        if m in ("clear", "operator=", "swap", "extract", "merge"):
            r.bad(f"{S.solver}:table-{m}", i.where(), f"{S.name}: {m} drops the entries predecessors refer to"); continue
        if m != "erase": continue
        seen += 1
        raw = canon(S, S.sem.content(i.ops[1], IDX, i) if S.sem.isptr(i.ops[1]) else S.sem.t(i.ops[1])); k = raw
        ok = False; why = "without a look at the cells that may name it as their predecessor"
        for G in S.expansions():
            if not fn.dominates(G.bb, i.bb): continue
            o = G.ops[-1]; T = canon(S, S.sem.content(o, IDX, G) if S.sem.isptr(o) else S.sem.t(o))
            if T != raw: continue
            for L, kind, R in lookups(S):
                if kind != "table" or R != S.container(i) or mapped_type(S, L) != mt: continue
                off = poff[norm(mt)] + (shift(S, N, L) or 0)
                E = edges_where(S, lambda c, tr: tr and c[0] == "eq" and any(x[0] == "ld" and x[2] == off and result_field(S, x, L) and canon(S, y) == raw for x, y in ((c[1], c[2]), (c[2], c[1]))))
                if not E: continue
                body = innermost(fn, L.bb)
                if body is None or any(S.reachable_without(i.bb, set(), begin=e[1], stop={G.bb}) or e[1] == i.bb for e in E): why = "although the scan found a cell that names it as its predecessor"; continue
                if not complete(S, body, E): why = "although the scan for cells that name it as their predecessor may end early"; continue
                ok = True
        # not the cell being expanded
        cur = edges_where(S, lambda c, tr: not tr and c[0] == "eq" and any(canon(S, x) == raw and arith(y) in exp and canon(S, y) != raw for x, y in ((c[1], c[2]), (c[2], c[1]))))
        notcur = any(fn.dominates(e[1], i.bb) and len(fn.blocks[e[1]].preds) == 1 for e in cur) or bool(cur) and not S.reachable_without(i.bb, cur)
        if not ok: r.bad(f"{S.solver}:erase", i.where(), f"{S.name}: an entry is erased {why}")
        elif not notcur: r.bad(f"{S.solver}:erase-expanded", i.where(), f"{S.name}: the entry of the cell being expanded can be erased")
        else: r.ok(f"{S.name}: only entries no other cell names as its predecessor are erased", i.where())
    if not tabs: raise CheckError(f"{S.name}: the table predecessors refer to was not found")
    r.ok(f"{S.name}: {seen} erasures examined", fn.sp_where())
def complete(S, body, eqs):
    """every other way out of a scan of neighbours compares with their end (or is an exception)"""
    fn = S.fn
    def is_end(x):
        if any(isinstance(z, tuple) and z and z[0] == "call" and z[1].rpartition("::")[2] in ("end", "cend", "size") for z in subterms(x)): return True
        return x[0] == "gep" and x[1][0] == "v" and x[1][1] in S.neigh_slots() and not x[3] and x[2] == fn.inst[x[1][1]].d.get("size")
    for b in body:
        for s in fn.blocks[b].succs:
            if s in body or (b, s) in eqs or fn.blocks[s].insts[0].op == "landingpad": continue
            fs = [S.sem.cond(v) for v, tr in fn.edge_fact(b, s) if not isinstance(v, tuple)]
            if not any(c is not None and c[0][0] in ("eq", "lt") and any(is_end(x) for x in c[0][1:]) for c in fs): return False
    return True
def innermost(fn, b):
    L = [(len(body), body) for h, body in fn.loops().items() if b in body]
    return min(L, key=lambda x: x[0])[1] if L else None

def run(rep, tier): run_units(rep, unit, tier, 1)
