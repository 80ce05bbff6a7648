"""The search core of a solver as seen in its inlined solve(): which cells enter the frontier, where they come from and under which conditions."""
import re
from common import *
from ir import *
from mem import Sem, alts, subterms, mkphi, INTCAST
import solverir

COORD = {"PA": 8, "PB": 12, "PC": 8, "PD": 8, "PE": 8, "PF": 8, "PG": 8}
SCALAR = {"PA": 4, "PB": 4, "PC": 4, "PD": 8, "PE": 4, "PF": 4, "PG": 4}
GRID = {"PE": True, "PA": True, "PB": True, "PC": False, "PD": True, "PF": False, "PG": True}
REV = {"PE": True, "PA": True, "PB": False, "PC": True, "PD": False, "PF": False, "PG": False}
IDX = 4
COORDNAME = {"PE": "std::array<unsigned int, 2ul>", "PA": "std::array<unsigned int, 2ul>", "PB": "std::array<unsigned int, 3ul>", "PC": "std::array<unsigned int, 2ul>", "PD": "std::array<unsigned int, 2ul>", "PF": "std::array<unsigned int, 2ul>", "PG": "std::array<unsigned int, 2ul>"}
O_MAZE, O_START, O_MEM = 0, {}, {}
def offsets(cfg):
    """offsets in the parameter record (see drv/params.hpp)"""
    c = COORD[cfg]; s = SCALAR[cfg]
    o = {}; p = 8
    for k in ("start", "end", "size"): o[k] = p; p += c
    p = (p + 7) & ~7
    for k in ("h", "mono", "het", "hom"): o[k] = p; p += 8
    o["weight"] = p; p = (p + s + 7) & ~7
    o["capacity"] = p; o["limit"] = p + 8
    return o

class SSem(Sem):
    """Sem that knows the library's pure functions, and resolves phis under the facts of a program point"""
    def __init__(self, fn, cfg, share=None, ctx=None):
        super().__init__(fn)
        self.cfg = cfg; self.off = offsets(cfg); self.ctx = ctx or frozenset(); self.base = share
        if share is not None: self._byroot = share._effects(); self.addr_cache = share.addr_cache; self._defs = share._defs
        self._at = {}
    def at(self, block):
        """a view in which phis and memory are resolved with what is known when control is in `block`"""
        b = self.base or self
        if block not in b._at:
            b._at[block] = SSem(self.fn, self.cfg, b, frozenset(self.known(block).items()))
        return b._at[block]
    def cond(self, v):
        """(term, polarity) of a branch condition"""
        pol = True
        while isinstance(v, int):
            i = self.fn.inst.get(v)
            if i is None: return None
            if i.op == "xor" and any(cval(o) in (1, -1) for o in i.ops if isinstance(o, tuple)):
                v = [o for o in i.ops if cval(o) not in (1, -1)][0]; pol = not pol; continue
            if i.op in ("zext", "sext", "trunc", "freeze"): v = i.ops[0]; continue
            if i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
                k = None
                for a, c in ((0, 1), (1, 0)):
                    if isc(i.ops[c], 0) and self.fn.is_boolish(i.ops[a]): k = (i.ops[a], i.d["pred"] == "ne")
                if k: v = k[0]; pol = pol == k[1]; continue
                a, c = sorted((self.t(i.ops[0]), self.t(i.ops[1])), key=repr)
                return (("eq", a, c), pol == (i.d["pred"] == "eq"))
            if i.op in ("icmp", "fcmp"):
                p = i.d["pred"]; a, c = self.t(i.ops[0]), self.t(i.ops[1])
                p2 = p[1:] if p[0] in "uso" and len(p) == 3 else p
                if p2 == "gt": return (("lt", c, a), pol)
                if p2 == "lt": return (("lt", a, c), pol)
                if p2 == "ge": return (("lt", a, c), not pol)
                if p2 == "le": return (("lt", c, a), not pol)
                if p2 in ("eq", "ne"):
                    a, c = sorted((a, c), key=repr); return (("eq", a, c), pol == (p2 == "eq"))
                return None
            if i.op == "call" and self.fn.callee(i).startswith("llvm.expect"): v = i.ops[0]; continue
            break
        return (self.t(v), pol)
    def _contradicts(self, src, dst):
        if not self.ctx: return False
        b = self.base
        for v, tr in self.fn.edge_fact(src, dst):
            c = b.cond(v) if not (isinstance(v, tuple) and v and v[0] == "icmpc") else None
            if c is not None:
                for t, truth_ in self.ctx:
                    if t == c[0] and truth_ != (c[1] == tr): return True
        return False
    def _term(self, v):
        i = self.fn.inst.get(v)
        if i is not None and i.op == "phi" and self.ctx:
            ins = [x for x in i.d["in"] if not self._contradicts(x[0], i.bb) and not any(self._blockdead(x[0]) for _ in (0,))]
            return mkphi([self.t(tup(x[1])) for x in ins]) if ins else super()._term(v)
        if i is not None and i.op in ("call", "invoke") and i.d.get("fn") is not None:
            n = self.fn.callee(i)
            if n == "chdr::utils::to_1d":
                return ("to1d", self.coord(i.ops[0], i), self.is_size(i.ops[1], i))
            if n == "chdr::utils::to_nd":
                k = 1 if 0 in (i.d.get("sret") or []) else 0
                return ("tond", self.content(i.ops[k], IDX, i), self.is_size(i.ops[k + 1], i))
            if n.endswith("::count") and "mazes" in n: return ("count",)
            q = self.query(i, n)
            if q is not None: return q
        return super()._term(v)
    def is_maze(self, v): return self.t(v) == ("ld", ("a", 1), 0)
    def query(self, i, n):
        """the library's side-effect free questions about the maze, as terms"""
        if n in ("chdr::mazes::id_node::is_active",): return ("c", 1)
        if n.endswith("::is_active") and len(i.ops) == 1:
            t = self.t(i.ops[0])
            if t[0] == "cell": return ("active", t[1])
            c = self.content(i.ops[0], 1, i)
            return ("active", c[1] if c[0] == "cell" else c)
        if n.startswith("chdr::mazes::") and i.ops and n.rpartition("::")[2] in ("contains", "operator[]", "at") and len(i.ops) == 2 and self.is_maze(i.ops[0]):
            return ("cell" if not n.endswith("contains") else "contains", self.place(i.ops[1], i))
        return None
    def place(self, op, i):
        """a cell named by an argument: an index (by value or by reference) or a coordinate, told apart by the declared parameter"""
        d = self.fn.mod.dem(i.d["fn"]); par = d[d.rfind("("):] if "(" in d else ""
        if not self.isptr(op): return ("idx", self.t(op))
        if "std::array" in par or "coord" in par: return ("coord", self.coord(op, i))
        return ("idx", self.content(op, IDX, i))
    def isptr(self, v):
        if isinstance(v, int): return self.fn.inst[v].ty == "ptr"
        return v[0] in ("null", "g", "goff") or v[0] == "a" and self.fn.d["args"][v[1]]["ty"] == "ptr"
    def known(self, b):
        """{term: truth} of what is known whenever control is in block b"""
        s = self.base or self
        if not hasattr(s, "_known"): s._known = {}
        if b not in s._known:
            out = {}
            for v, tr in self.fn.facts(b):
                if isinstance(v, tuple) and v and v[0] == "icmpc":
                    out[("eq", *sorted((s.t(v[2]), ("c", v[3])), key=repr))] = tr; continue
                t = s.cond(v)
                if t is not None: out[t[0]] = t[1] == tr
            s._known[b] = out
        return s._known[b]
    def _blockdead(self, b):
        """is the block only entered through an edge that contradicts the context"""
        B = self.fn.blocks[b]
        return bool(B.preds) and len(B.preds) == 1 and self._contradicts(B.preds[0], b)
    def is_size(self, ptr, at): return self.coord(ptr, at) == ("ld", ("a", 1), self.off["size"])
    def coord(self, ptr, at):
        """the coordinate a pointer refers to"""
        n = COORD[self.cfg]
        out = []
        for R, o in self.locs(ptr):
            if o is None: out.append(("ldx", self.t(ptr) if isinstance(ptr, int) else ptr)); continue
            out.append(self.mem_term(R, o, n, at, 0) if n == 8 else self.coord12(R, o, at))
        return mkphi(out) if out else ("any", at.id)
    def coord12(self, R, o, at, depth=0):
        if R[0] == "a": return ("ld", R, o)
        ds = self.defs(R, o, 12, at)
        res = []
        for d in ds:
            if d[0] == "copy" and depth < 10:
                for R2, o2 in self.locs(d[2]):
                    res.append(("ldx", self.t(d[2]), d[3]) if o2 is None else self.coord12(R2, o2 + d[3], d[1], depth + 1))
            elif d[0] == "live": res.append(("ld", R, o))
            elif d[0] == "undef": continue
            else:
                a = self.mem_term(R, o, 8, at, 0); b = self.mem_term(R, o + 8, 4, at, 0)
                if a[0] == "xv" and b[0] == "xv" and a[2] == b[2]: return a[2]
                if a[0] == "ld" and b[0] == "ld" and a[1] == b[1] and b[2] == a[2] + 8: return a
                return ("tup", a, b)
        return mkphi(res) if res else ("undef",)
    # results of {i64, i32} pairs (12-byte coordinates)
    def locs(self, v, depth=0):
        ls = super().locs(v, depth)
        if not self.ctx: return ls
        return ls

FRONT = {"chdr::heap": {"emplace", "emplace_nosort", "push", "insert"}, "chdr::queue": {"emplace", "push"}, "chdr::stack": {"emplace", "push"},
         "std::vector": {"emplace_back", "push_back", "insert", "emplace"}, "std::multiset": {"emplace", "insert", "emplace_hint"},
         "std::deque": {"emplace_back", "push_back", "emplace_front", "push_front"}, "std::set": {"emplace", "insert"}, "std::priority_queue": {"emplace", "push"}}

class Search:
    def __init__(self, solver, cfg, path):
        self.solver, self.cfg = solver, cfg
        self.mod = Module(path)
        fs = self.mod.functions.where("^root_")
        if len(fs) != 1: raise CheckError(f"{solver}/{cfg}: no single root function")
        self.fn = fs[0]; self.sem = SSem(self.fn, cfg)
        self.off = self.sem.off; self.grid = GRID[cfg]
        self.name = f"{solver}/{cfg}"
    def aux(self, rx, keep=(), inlines=()):
        """the functions of this unit that match rx, each with everything but the kept library calls inlined"""
        bc, err = compile_bc("solver.cpp", (f"SOLVER={self.solver}", f"CFG={self.cfg}"))
        if bc is None: raise CheckError(err[:400])
        return Module(dump(bc, list(rx), solverir.KEEP + list(keep), inlines))
    def dem(self, i): return self.mod.dem(i.d["fn"]) if i.d.get("fn") else ""
    def idx(self, which): return ("to1d", ("ld", ("a", 1), self.off[which]), True)
    def inserts(self):
        """(instruction, container class, operand that holds the cell)"""
        for i in self.fn.calls():
            n = self.fn.callee(i); cls, _, m = n.rpartition("::")
            m = re.sub(r"\[.*", "", m)
            if m in FRONT.get(cls, ()):
                d = self.dem(i)
                q = qual(d)
                if len(q) < 2 or not self.cellish(q[-2][1]): continue
                k = 1 + (1 if i.d.get("sret") else 0)
                if cls == "std::vector" and m in ("insert", "emplace"): k += 1
                if len(i.ops) <= k: continue
                yield i, cls, m, i.ops[k]
    def grows(self):
        """calls that can give a path (a vector of coordinates) elements"""
        for i in self.fn.calls():
            if not self.fn.callee(i).startswith("std::vector::"): continue
            q = qual(self.dem(i))
            if len(q) < 2 or not q[-2][1].startswith(COORDNAME[self.cfg] + ","): continue
            m = q[-1][0].split("[")[0]
            if m in ("emplace_back", "push_back", "resize", "insert", "emplace", "assign") or m == "vector" and ("initializer_list" in self.dem(i) or "(unsigned long" in self.dem(i)): yield i, m
    def expansions(self):
        for i in self.fn.calls():
            if self.fn.callee(i).startswith("chdr::mazes::") and self.fn.callee(i).endswith("get_neighbours"): yield i
    def heuristics(self):
        for i in self.fn.calls():
            if i.d.get("fn") is None and isinstance(i.d.get("callee"), int) and self.sem.t(i.d["callee"]) == ("ld", ("a", 1), self.off["h"]): yield i
    def origin(self, v, seen=()):
        """where the object at pointer v lives: subset of {'neigh', 'local', ('elem', method, instruction), 'param', 'any'}"""
        fn = self.fn
        if isinstance(v, tuple) and v and v[0] == "v": v = v[1]
        if isinstance(v, tuple): return {"param"} if v[0] == "a" else {"any"}
        if v in seen: return set()
        seen = seen + (v,)
        i = fn.inst.get(v)
        if i is None: return {"any"}
        if i.op == "getelementptr": return self.origin(tup(i.d["base"]), seen)
        if i.op == "alloca":
            if v in self.neigh_slots(): return {"neigh"}
            return {("local", v)}
        if i.op in ("phi", "select"):
            out = set()
            for x in ([tup(x[1]) for x in i.d["in"]] if i.op == "phi" else i.ops[1:]):
                if isinstance(x, tuple) and x[0] == "null": continue
                out |= self.origin(x, seen)
            return out
        if i.op in ("call", "invoke"):
            n = fn.callee(i); m = n.rpartition("::")[2]
            if m == "get_neighbours" or m == "jump" and i.d.get("sret"): return {"neigh"}
            if m in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "operator[]", "at", "data", "operator*", "operator->", "front", "back", "operator++", "operator--", "base") and i.ops:
                o = self.origin(i.ops[1 if i.d.get("sret") else 0], seen)
                if o == {"neigh"}: return o
            return {("elem", m, v)}
        if i.op == "load":
            R, o = self.sem.addr(i.ops[0])
            if self.sem.alloca(R):
                out = set()
                for R2, o2 in self.sem.locs(v):
                    out |= self.origin(R2, seen)
                return out or {"any"}
            return {("field", R, o)}
        return {"any"}
    def neigh_slots(self):
        """stack slots that hold the result of get_neighbours (directly, copied, or filled from jump results)"""
        if hasattr(self, "_ns"): return self._ns
        out = set()
        for i in self.fn.calls():
            if self.fn.callee(i).rpartition("::")[2] in ("get_neighbours", "go_find_jump_points") and i.d.get("sret"):
                R, _ = self.sem.addr(i.ops[i.d["sret"][0]])
                if R[0] == "v": out.add(R[1])
        grew = True
        while grew:
            grew = False
            for i in self.fn.calls():
                if self.fn.callee(i).startswith(("llvm.memcpy", "llvm.memmove")):
                    a, _ = self.sem.addr(i.ops[0]); b, _ = self.sem.addr(i.ops[1])
                    if b[0] == "v" and b[1] in out and self.sem.alloca(a) and a[1] not in out:
                        sz = self.fn.inst[a[1]].d.get("size"); 
                        if cval(i.ops[2]) == sz: out.add(a[1]); grew = True
        self._ns = out
        return out
    def elem_class(self, v):
        """(class, first template argument) of the container a call that yields an element works on"""
        i = self.fn.inst[v]; q = qual(self.dem(i))
        return (q[-2][0], split_targs(q[-2][1])[0] if q[-2][1] else "") if len(q) >= 2 else ("", "")
    def leaves(self, v, fn=None, seen=None):
        """instructions and operands a value is put together from, through casts, phis, shifts and aggregates"""
        fn = fn or self.fn; seen = set() if seen is None else seen
        if isinstance(v, tuple): return set() if v[0] in ("c", "undef", "k") or cval(v) is not None else {v}
        if v in seen: return set()
        seen.add(v); i = fn.inst[v]; out = set()
        if i.op == "phi":
            for _, x in i.d["in"]: out |= self.leaves(tup(x), fn, seen)
        elif i.op in INTCAST or i.op in ("shl", "lshr", "or", "and", "insertvalue", "extractvalue", "select"):
            for x in i.ops[1 if i.op == "select" else 0:]: out |= self.leaves(x, fn, seen)
        else: out.add(v)
        return out
    def record(self, t):
        """(address of the neighbour record, its activity flag) behind the term of a neighbour's index; None if it is no such term"""
        if t[0] == "to1d" and t[2] is True:
            c = t[1]
            if c[0] == "ld": return ((c[1], c[2] - 4), ("ld", c[1], c[2] - 4))
            if c[0] == "ldx" and c[1][0] == "gep":
                off = c[1][2] + (c[2] if len(c) > 2 else 0); g = ("gep", c[1][1], off - 4, c[1][3])
                return (g, ("ldx", g))
        return None
    def cellish(self, targs):
        """is a container's first template argument a search node, a state of the depth-first solvers, or (flood) a plain index"""
        a = split_targs(targs)[0] if targs else ""
        return self.nodeish(a) or a == "unsigned int"
    @staticmethod
    def nodeish(a): return bool(re.search(r"::(\w*node\w*|state)\b(<.*>)?\s*\*?$", a))
    def container(self, i):
        """root object a container call works on"""
        k = 1 if i.d.get("sret") else 0
        ls = self.sem.locs(i.ops[k])
        return ls[0] if len(ls) == 1 else tuple(ls)
    def alloca_name(self, R):
        if R[0] == "v" and R[1] in self.fn.inst:
            v = self.fn.d["vars"].get(str(R[1]))
            return v[0] if v else f"%{R[1]}"
        return str(R)
def split_targs(s):
    out = []; d = 0; cur = ""
    for c in s:
        if c in "<([{": d += 1
        elif c in ">)]}": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    out.append(cur.strip())
    return out
def load(unit):
    s, c, p, e = unit
    if p is None: raise CheckError(f"{s}/{c} does not compile: {e[:400]}")
    return Search(s, c, p)

# ---- goal tests -------------------------------------------------------------------------------------------------------------------------------
def _roots(self):
    """endpoint indices that are inserted as such"""
    if not hasattr(self, "_rt"):
        self._rt = set()
        for i, cls, m, o in self.inserts():
            if split_targs(qual(self.dem(i))[-2][1])[0].rstrip().endswith("*"): continue
            at = self.sem.at(i.bb)
            for a in alts(at.content(o, IDX, i) if at.isptr(o) else at.t(o)):
                for e in ("start", "end"):
                    if a == self.idx(e): self._rt.add(e)
    return self._rt
Search.roots = _roots
def _cell_kind(self, t, edge):
    """does term t name a cell just taken from a search container, or one that was just inserted, on this edge: returns a description or None"""
    src = edge[0]
    ats = set()
    sem = self.sem.at(edge[1])
    for a in alts(t):
        # a constant alternative of a merged value (the inactive branch) is ruled out by what is known here
        ats.add(a)
    for i, cls, m, o in self.inserts():
        if self.fn.dominates(i.bb, src):
            T = self.sem.at(i.bb).content(o, IDX, i) if self.sem.isptr(o) else self.sem.at(i.bb).t(o)
            if T in ats or T == t: return "appended"
    good = 0
    for a in ats:
        if a[0] in ("ld", "ldx"):
            R = a[1]
            while R[0] == "gep": R = R[1]
            v = R[2] if R[0] == "call" else (R[1] if R[0] == "v" else None)
            og = self.origin(v) if v is not None else set()
            if og and all(isinstance(o, tuple) and o[0] == "elem" and (self.nodeish(self.elem_class(o[2])[1]) or self.elem_class(o[2])[1] == "unsigned int") for o in og): good += 1; continue
        if a[0] == "mem" and a[1] in self.fn.inst and self.nodeish(self.elem_class(a[1])[1]): good += 1; continue
        return None
    return "taken" if good else None
Search.cell_kind = _cell_kind
def _goal_edges(self):
    """{(src, dst): (endpoint, how)}: control-flow edges taken only when a cell of the search turned out to be that endpoint"""
    if hasattr(self, "_ge"): return self._ge
    out = {}; fn = self.fn
    for b in fn.order:
        for s in fn.blocks[b].succs:
            for v, tr in fn.edge_fact(b, s):
                if isinstance(v, tuple): continue
                c = self.sem.cond(v)
                if c is None or c[0][0] != "eq": continue
                truth_ = c[1] == tr
                x, y = c[0][1], c[0][2]
                for e in ("start", "end"):
                    for p, q in ((x, y), (y, x)):
                        if p == self.idx(e) and q not in (self.idx("start"), self.idx("end")) and truth_:
                            k = self.cell_kind(q, (b, s))
                            if k: out[(b, s)] = (e, k, q)
                if not truth_ and {x[0], y[0]} == {"call"}:
                    for p, q in ((x, y), (y, x)):
                        if p[1].endswith("::find") and q[1].rpartition("::")[2] in ("end", "cend"):
                            i = fn.inst[p[2]]; key = self.sem.content(i.ops[1], IDX, i)
                            for e in ("start", "end"):
                                if key == self.idx(e): out[(b, s)] = (e, "found", p)
    self._ge = out
    return out
Search.goal_edges = _goal_edges
def _boolphi(self, v, depth=0):
    """(phi, polarity) behind a branch condition that is a two-valued phi, through negations and widenings"""
    fn = self.fn; pol = True
    while isinstance(v, int):
        i = fn.inst.get(v)
        if i is None: return None
        if i.op == "phi": return (v, pol) if i.ty in ("i1", "i8") else None
        if i.op in ("zext", "sext", "trunc", "freeze"): v = i.ops[0]
        elif i.op == "xor" and any(isc(o, 1) for o in i.ops if isinstance(o, tuple)): v = [o for o in i.ops if not isinstance(o, tuple)][0]; pol = not pol
        elif i.op == "icmp" and i.d["pred"] in ("eq", "ne") and isc(i.ops[1], 0): v = i.ops[0]; pol = pol == (i.d["pred"] == "ne")
        elif i.op == "call" and fn.callee(i).startswith("llvm.expect"): v = i.ops[0]
        else: return None
    return None
def _cut(self, block, edges, begin=None, stop=()):
    """is block reachable from the entry (or from the given block) without taking one of the edges or entering a stop block (branches on merged constants follow the constant)"""
    fn = self.fn
    if not hasattr(self, "_bp"):
        self._bp = {}
        for b in fn.order:
            t = fn.term(b)
            if t.op == "br" and len(t.d["succ"]) == 2:
                p = _boolphi(self, t.ops[0])
                if p and any(isinstance(tup(x), tuple) for _, x in fn.inst[p[0]].d["in"]): self._bp[b] = p
        self._tr = {p for p, _ in self._bp.values()}
    start = (fn.entry if begin is None else begin, frozenset()); seen = {start}; w = [start]; first = begin is not None
    while w:
        b, env = w.pop()
        if b == block and not first: return True
        first = False
        t = fn.term(b); succ = fn.blocks[b].succs
        if b in self._bp:
            p, pol = self._bp[b]; d = dict(env)
            if p in d: succ = [t.d["succ"][0 if d[p] == pol else 1]]
        for s in succ:
            if (b, s) in edges or s in stop: continue
            e2 = env
            for i in fn.blocks[s].insts:
                if i.op != "phi": break
                if i.id in self._tr:
                    x = [tup(y) for k, y in i.d["in"] if k == b]
                    e2 = frozenset(q for q in e2 if q[0] != i.id)
                    if x and isinstance(x[0], tuple) and cval(x[0]) is not None: e2 = e2 | {(i.id, cval(x[0]) != 0)}
                    elif x and isinstance(x[0], int) and x[0] in dict(env): e2 = e2 | {(i.id, dict(env)[x[0]])}
            n = (s, e2)
            if n not in seen: seen.add(n); w.append(n)
    return False
Search.reachable_without = _cut
