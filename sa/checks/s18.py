"""S18: reading the path back."""
from nodes import *
from checks.s09 import shift
RULE = ("Every loop that produces path elements is read as a walk: the cell it looks at is tracked as a position on the predecessor chain (start + number of iterations), through the links, the cells looked up by index, and the stack slots or phis that carry them. "
        "The walk starts at the cell that passed the goal test, follows the link once per iteration, is left only where the chain ends, and in every iteration produces exactly one element, the coordinate of the cell at its position; the positions visited are the whole chain that is read back. "
        "Where the result is sized first, that size is the number of iterations of a counting walk over the same chain, or (unit edges) the cost of the goal cell, it equals the number of elements written, and the slots written are each one once, counted from an end. "
        "Loops over the current path of a depth-first search run from one end of the container to the other, one element each. The vector written is the one returned, and nothing else changes it.")
TECH = "affine loop abstraction over predecessor-chain positions on inlined SSA"
MIN_OB = 160
GROW = {"emplace_back", "push_back", "resize", "insert", "emplace", "assign", "operator[]", "at"}
ALLOWED = GROW | {"size", "reserve", "begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "data", "empty", "front", "back", "operator=", "vector", "~vector", "capacity", "get_allocator", "max_size", "swap", "shrink_to_fit"}
REV = {"PA": True, "PB": False, "PC": True, "PD": False, "PE": True, "PF": False, "PG": False}
ROOTFIRST = ("best_first", "dfs", "gbest_first", "gdfs", "osmastar", "smastar")
class No(Exception): pass
def short(n): return n.rpartition("::")[2].split("[abi")[0]

class Walks:
    def __init__(self, S, N):
        self.S, self.N, self.fn, self.sem = S, N, S.fn, S.sem
        self.loops = S.fn.loops(); self.inner = {}
        for h, body in sorted(self.loops.items(), key=lambda x: -len(x[1])):
            for b in body: self.inner[b] = h
        self.sizeof = {}
        self.link = self.links()
    def links(self):
        """{'ptr': offset, 'idx': offset} of the member of a node that leads to its predecessor"""
        out = {}
        for I, cls, m, o in self.S.inserts():
            f = self.N.fields(I, cls, m, o)
            if not f: continue
            off0 = min(f); rec = self.keys()
            for off, (mm, sz, t) in f.items():
                if off == off0: continue
                ty = next((ty for m2, o2, s2, ty in self.lay(I) if o2 == off), "")
                if "*" in ty: out.setdefault("ptr", set()).add(off)
                elif any(a in rec for a in alts(t)): out.setdefault("idx", set()).add(off)
        return out
    def lay(self, I):
        a = split_targs(qual(self.S.dem(I))[-2][1])[0]
        return list(self.N.layout(a.rstrip("* ")))
    def keys(self):
        """the indices of the cells that are expanded"""
        if not hasattr(self, "_keys"):
            self._keys = set()
            for x in self.S.expansions():
                for o in x.ops[1 + (1 if x.d.get("sret") else 0):]:
                    t = self.sem.content(o, IDX, x) if self.sem.isptr(o) else self.sem.t(o)
                    if t[0] != "c": self._keys |= set(alts(t)) | {t}
        return self._keys
    # ---- loop-carried values: phis of the header, and slots that are stored to once per iteration ----
    def carried(self, h, v):
        """(initial value, next value) of a phi of header h; slots as ('slot', alloca)"""
        body = self.loops[h]
        if isinstance(v, tuple) and v[0] == "slot":
            st = [i for i in self.fn.insts() if i.op == "store" and self.sem.addr(i.ops[1]) == (("v", v[1]), 0)]
            ins = [i for i in st if i.bb in body]; outs = [i for i in st if i.bb not in body and self.fn.dominates(i.bb, h)]
            init = outs[-1].ops[0] if outs else None
            if init is None:
                cs = [c for c in self.fn.calls() if c.d.get("sret") and self.sem.addr(c.ops[c.d["sret"][0]]) == (("v", v[1]), 0) and self.fn.dominates(c.bb, h) and c.bb not in body]
                if cs: init = ("of", cs[-1].id) if writes(self.S, v[1], cs[-1], body) else None
                else:
                    cp = [c for c in self.fn.calls() if self.fn.callee(c).startswith(("llvm.memcpy", "llvm.memmove")) and self.sem.addr(c.ops[0]) == (("v", v[1]), 0) and self.fn.dominates(c.bb, h) and c.bb not in body]
                    if cp: init = ("slotinit", self.sem.addr(cp[-1].ops[1])[0])
            if len(ins) != 1 or init is None or not self.each(h, ins[0].bb): return None
            return tup(init), ins[0]
        i = self.fn.inst[v]
        if i.op != "phi" or i.bb != h: return None
        a = {tup(x) for b, x in i.d["in"] if b not in body}; c = {tup(x) for b, x in i.d["in"] if b in body}
        if len(a) == 1 and len(c) == 1: return a.pop(), c.pop()
        return None
    def latches(self, h): return [b for b in self.fn.blocks[h].preds if b in self.loops[h]]
    def each(self, h, b):
        """block b of the loop is passed exactly once in every complete iteration"""
        return self.inner.get(b) == h and all(self.fn.dominates(b, l) for l in self.latches(h))
    # ---- positions on the chain ----
    def pos(self, h, v, seen=()):
        """('cell'|'idx'|'link', start, a, j): the cell (its address, its index, the address of its link) at position a + j * iteration of the chain that starts at `start`; with h None, outside any loop"""
        v = tup(v)
        key = (h, v)
        if not hasattr(self, "_pc"): self._pc = {}
        if key in self._pc: return self._pc[key]
        if key in seen: raise No("value carried around a loop")
        r = self._pos(h, v, seen + (key,)); self._pc[key] = r
        return r
    def _pos(self, h, v, seen):
        fn = self.fn
        if isinstance(v, tuple):
            if v[0] == "slot": return self.phi(h, v, seen)
            raise No(f"operand {v}")
        i = fn.inst[v]
        if h is not None and i.op == "phi" and i.bb == h: return self.phi(h, v, seen)
        if i.op == "phi" and i.ty == "ptr" and h is None and len({tup(x) for _, x in i.d["in"]}) > 1: return ("cell", ("elem", v), 0, 0)
        if i.op in ("freeze", "bitcast", "zext", "trunc", "sext"): return self.pos(h, i.ops[0], seen)
        if i.op == "phi" and len({tup(x) for _, x in i.d["in"]}) == 1: return self.pos(h, i.d["in"][0][1], seen)
        if i.op == "getelementptr":
            if i.d.get("var"): raise No("computed address")
            b = tup(i.d["base"])
            try: x = self.pos(h, b, seen)
            except No: return self.root(v)
            o = i.d["off"]; k, s, a, j = x[:4]
            if k == "cell": return (("cell", s, a, j) if o == 0 else ("field", s, a, j, o))
            if k == "field": raise No("nested field")
            if k == "found":
                o0 = shift(self.S, self.N, fn.inst[x[4]])
                if o == o0: return ("cell", s, a, j)
                if o0 is None: raise No("table layout")
                if o0 is not None and o > o0: return ("field", s, a, j, o - o0)
                return ("part", s, a, j, x[4], o)
            if k == "part":
                o0 = shift(self.S, self.N, fn.inst[x[4]]); o += x[5]
                if o0 is None or o < o0: return ("part", s, a, j, x[4], o)
                return ("cell", s, a, j) if o == o0 else ("field", s, a, j, o - o0)
            raise No("arithmetic on an index")
        if i.op == "load":
            p = tup(i.ops[0])
            R, o = self.sem.addr(p)
            # a slot that carries the position
            if self.sem.alloca(R) and o == 0 and fn.inst[R[1]].d.get("size") in (4, 8) and not self.is_cell(R):
                return self.slot(h, R[1], i, seen)
            for x in fn.insts():
                # the link of a local copy of the cell, by the value it was given
                if x.op == "store" and x.ops[0] == v:
                    R2, o2 = self.sem.addr(x.ops[1])
                    if self.sem.alloca(R2) and self.is_cell(R2) and o2 in self.link.get("ptr", ()): return ("cell", ("local", R2[1]), 1, 0)
            q = self.field(h, p, seen)
            s, a, j, off, kind = q
            if off == 0: return ("idx", s, a, j)
            if kind == "idx" and off in self.link.get("idx", ()): return ("idx", s, a + 1, j)
            if off in self.link.get("ptr", ()): return ("cell", s, a + 1, j)
            raise No("another field of the cell")
        if i.op in ("call", "invoke"):
            n = fn.callee(i); m = n.rpartition("::")[2].split("[abi")[0]
            if m == "find" and n.startswith("std::"):
                try: k = self.argpos(h, i.ops[1 + (1 if i.d.get("sret") else 0)], i, seen)
                except No: return ("found", ("found", i.id), 0, 0, i.id)      # a lookup by some other key: the chain starts here
                return ("found", k[1], k[2], k[3], i.id) if k[0] == "idx" else ("found", ("found", i.id), 0, 0, i.id)
            return self.root(v)
        if i.op == "alloca": return self.root(v)
        raise No(f"{i.op} at {i.where()}")
    def is_cell(self, R): return self.fn.inst[R[1]].d.get("size", 0) > 8
    def slot(self, h, s, at, seen):
        """what a small stack slot holds at an instruction"""
        st = [i for i in self.fn.insts() if i.op == "store" and self.sem.addr(i.ops[1]) == (("v", s), 0)]
        dom = [i for i in st if self.fn.idominates(i, at) and (h is None or i.bb in self.loops[h])]
        if dom: return self.pos(h, dom[-1].ops[0], seen)
        if h is not None and any(i.bb in self.loops[h] for i in st): return self.pos(h, ("slot", s), seen)
        dom = [i for i in st if self.fn.idominates(i, at)]
        if dom: return self.pos(None, dom[-1].ops[0], seen)
        raise No("slot")
    def argpos(self, h, o, at, seen=()):
        """the position of an index given by value or by reference"""
        if self.sem.isptr(o):
            R, off = self.sem.addr(o)
            if self.sem.alloca(R) and off == 0 and not self.is_cell(R): return self.slot(h, R[1], at, seen)
            k = self.pos(h, o, seen)
            if k[0] == "cell": return ("idx",) + tuple(k[1:4])     # the index comes first in a cell
            s, a, j, off, kind = self.field(h, o, seen)
            if off == 0: return ("idx", s, a, j)
            raise No("argument")
        return self.pos(h, o, seen)
    def field(self, h, p, seen):
        """(start, a, j, offset, kind) of an address within a cell"""
        if isinstance(p, tuple): raise No("address")
        off = 0; v = p
        while True:
            i = self.fn.inst[v] if isinstance(v, int) else None
            if i is not None and i.op == "getelementptr" and not i.d.get("var"):
                # a cursor that is itself an address of a field
                off += i.d["off"]; v = tup(i.d["base"]); continue
            break
        if not isinstance(v, int): raise No("address")
        if self.fn.inst[v].op == "phi" and h is not None and self.fn.inst[v].bb == h:
            c = self.carried(h, v)
            if c:
                x = self.fieldbase(c[0]); y = self.fieldbase(c[1])
                if x and y and x[1] == y[1] and x[1]:
                    # the address of a field of the cursor, carried beside it
                    for w in self.fn.blocks[h].insts:
                        if w.op != "phi": break
                        cc = self.carried(h, w.id)
                        if cc and cc[0] == x[0] and cc[1] == y[0]: v = w.id; off += x[1]; break
                    else:
                        a = self.pos(None, x[0], seen); b = self.pos_next(h, v, y[0], x[1], a, seen); return b[1], b[2], b[3], off + x[1], "ptr"
        k = self.pos(h, v, seen)
        if k[0] == "cell": return k[1], k[2], k[3], off, "ptr" if self.link.get("ptr") else "idx"
        if k[0] == "found":
            o0 = shift(self.S, self.N, self.fn.inst[k[4]])
            if o0 is None: raise No("table layout")
            return k[1], k[2], k[3], off - o0, "idx" if self.link.get("idx") else "ptr"
        raise No("address")
    def pos_next(self, h, v, nxt, k, a, seen): raise No("field cursor")
    def fieldbase(self, v):
        if not isinstance(v, int): return None
        i = self.fn.inst[v]
        if i.op == "getelementptr" and not i.d.get("var"): return tup(i.d["base"]), i.d["off"]
        return None
    def root(self, v):
        """a cell the chain can start from: a local, an element, the content of an optional"""
        i = self.fn.inst[v]
        R, o = self.sem.addr(v)
        if o is None: raise No("address")
        if R[0] == "v" and R[1] in self.fn.inst:
            c = self.fn.inst[R[1]]
            if c.op in ("call", "invoke"):
                n = self.fn.callee(c); m = n.rpartition("::")[2].split("[abi")[0]
                if n.startswith("std::optional::") and m in ("value", "operator*", "operator->"): 
                    return ("cell" if o == 0 else "field", ("opt", self.sem.addr(c.ops[0])[0]), 0, 0, o)[:4] if o == 0 else ("field", ("opt", self.sem.addr(c.ops[0])[0]), 0, 0, o)
                if m == "find":
                    o0 = shift(self.S, self.N, c)
                    if o == o0: return ("cell", ("found", c.id), 0, 0)
                    if o0 is not None and o > o0: return ("field", ("found", c.id), 0, 0, o - o0)
                    if o < (o0 or 0): raise No("table element")
                return ("cell", ("elem", c.id), 0, 0) if o == 0 else ("field", ("elem", c.id), 0, 0, o)
            if c.op == "alloca": return ("cell", ("local", R[1]), 0, 0) if o == 0 else ("field", ("local", R[1]), 0, 0, o)
        raise No("start of the walk")
    def phi(self, h, v, seen):
        c = self.carried(h, v)
        if c is None: raise No("value carried around the loop in more than one way")
        init, nxt = c
        if isinstance(nxt, Inst): nxt = nxt.ops[0]
        a = self.pos(None, init, ()) 
        if a[0] not in ("cell", "idx") or a[3] != 0: raise No("start of the walk")
        # assume it moves one on per iteration, and confirm
        self._pc[(h, v)] = (a[0], a[1], a[2], 1)
        def forget():
            for k in [k for k in self._pc if k[0] == h]: del self._pc[k]
        try: b = self.pos(h, nxt, ())
        except No: forget(); raise
        if b[:4] != (a[0], a[1], a[2] + 1, 1): forget(); raise No("the walk does not move to the predecessor in each iteration")
        return (a[0], a[1], a[2], 1)
    # ---- counters ----
    def count(self, h, v, at=None):
        """(j coefficient, constant) of an integer within the loop; the exit value of a counting loop: ('N', start, constant)"""
        v = tup(v); fn = self.fn
        if isinstance(v, tuple):
            c = cval(v)
            if c is None: raise No("count")
            return (0, c)
        i = fn.inst[v]
        if i.op == "phi":
            c = self.carried(i.bb, v) if i.bb in self.loops else None
            if c and h == i.bb:
                a = self.count(None, c[0]); y = fn.inst.get(c[1]) if isinstance(c[1], int) else None
                if y is not None and y.op in ("add", "sub") and any(o == v for o in y.ops):
                    k = next((cval(o) for o in y.ops if isinstance(o, tuple)), None)
                    if k is not None:
                        k = k if y.op == "add" else -k
                        k = k - 2 ** 64 if k >= 2 ** 63 else k
                        if a[0] == 0: return (k, a[1])
                        if a[0] == "size" and a[2] == 0: return ("size", a[1], k, a[3])
                raise No("counter")
            if len({tup(x) for _, x in i.d["in"]}) == 1: return self.count(h, i.d["in"][0][1])
            raise No("count")
        if i.op in ("zext", "sext", "trunc", "freeze"): return self.count(h, i.ops[0])
        if i.op in ("add", "sub"):
            a, b = self.count(h, i.ops[0]), self.count(h, i.ops[1])
            s = 1 if i.op == "add" else -1
            if len(a) == 2 and len(b) == 2:
                r = (a[0] + s * b[0], a[1] + s * (b[1] - 2 ** 64 if b[1] >= 2 ** 63 else b[1])); return r
            if a[0] == "size" and len(b) == 2: return ("size", a[1], a[2] + s * b[0], a[3] + s * b[1])
            raise No("count")
        if i.op in ("call", "invoke") and fn.callee(i) == "std::vector::size": return ("size", self.S.container(i), 0, 0)
        raise No("count")
    def exits(self, h):
        """edges that leave the loop other than by an exception"""
        out = []
        for b in self.loops[h]:
            t = self.fn.term(b)
            for s in self.fn.blocks[b].succs:
                if s in self.loops[h] or t.op == "invoke" and s == t.d.get("unwind"): continue
                if self.fn.term(s).op == "unreachable" and not any(x.op in ("call", "invoke") and not x.d.get("intr") for x in self.fn.blocks[s].insts[:0]): continue
                out.append((b, s))
        return out
    def ended(self, h):
        """(start, position whose absence is established when the loop is left, block): one exit only"""
        ex = self.exits(h)
        if len(ex) != 1: raise No("left in more than one way")
        (b, s), = ex
        for v, tr in self.fn.edge_fact(b, s):
            if isinstance(v, tuple):
                if v and v[0] == "icmpc" and tr: 
                    p = self.pos(h, v[2])
                    if p[0] == "idx" and v[3] in (-1, 2 ** 32 - 1, 2 ** 64 - 1, 2 ** 16 - 1): return p[1], p[2], p[3], b
                continue
            i = self.fn.inst.get(v)
            while i is not None and (i.op == "xor" or i.op == "call" and self.fn.callee(i).startswith("llvm.expect")):
                if i.op == "xor":
                    k = [o for o in i.ops if not isinstance(o, tuple)]
                    if len(k) != 1: break
                    i = self.fn.inst.get(k[0]); tr = not tr
                else: i = self.fn.inst.get(i.ops[0])
            if i is None or i.op != "icmp" or i.d["pred"] not in ("eq", "ne"): continue
            if (i.d["pred"] == "eq") != tr: continue
            for x, y in (i.ops, i.ops[::-1]):
                if isinstance(y, tuple) and (y[0] == "null" or cval(y) is not None):
                    p = self.pos(h, x)
                    if p[0] == "cell" and (y[0] == "null" or cval(y) == 0): return p[1], p[2], p[3], b
                    if p[0] == "idx" and cval(y) in (-1, 2 ** 32 - 1, 2 ** 64 - 1, 2 ** 16 - 1): return p[1], p[2], p[3], b
        raise No("not left where the chain ends")
    def visited(self, h, wb):
        """(start, c): the number of times block wb is passed is (cells of the chain) + c"""
        s, a, j, b = self.ended(h)
        if j != 1: raise No("the test does not move along the chain")
        after = self.fn.dominates(wb, b)
        return s, -a + (1 if after else 0)
    def number(self, v, cost):
        """(start, c): an integer that is the number of cells of the chain + c"""
        v = tup(v); fn = self.fn
        if isinstance(v, tuple): raise No("a constant number of elements")
        i = fn.inst[v]
        if i.op in ("zext", "freeze", "fptoui", "sext", "trunc", "fptosi"):
            return self.number(i.ops[0], cost)
        if i.op == "phi":
            if i.bb in self.loops:
                h = i.bb; (k, a) = self.count(h, v); s, c = self.visited(h, h)      # the header is passed once more than iterations complete
                if k != 1: raise No("counter")
                # value of the phi on leaving: number of completed iterations + a
                st, p, j, b = self.ended(h); return st, -p + a
            if len({tup(x) for _, x in i.d["in"]}) == 1: return self.number(i.d["in"][0][1], cost)
        if i.op == "add" and any(isinstance(o, tuple) for o in i.ops):
            k = next(cval(o) for o in i.ops if isinstance(o, tuple)); x = next(o for o in i.ops if not isinstance(o, tuple))
            for h, body in self.loops.items():
                if i.bb in body and isinstance(x, int) and fn.inst[x].op == "phi" and fn.inst[x].bb == h:
                    s, c = self.number(x, cost); return s, c + k
            s, c = self.number(x, cost); return s, c + (k - 2 ** 64 if k >= 2 ** 63 else k)
        if i.op == "load":
            try: s, a, j, off, kind = self.field(None, tup(i.ops[0]), ())
            except No:
                k = self.pos(None, i.ops[0]); s, a, off = k[1], k[2], k[4] if len(k) > 4 else 0
            if a == 0 and off in cost:
                if not self.S.grid: raise No("the cost of the goal is not the number of cells where edges have lengths")
                return s, -1
        raise No("size of the result")

def unit(S, r):
    fn, sem = S.fn, S.sem; N = Nodes(S); W = Walks(S, N)
    vec = lambda i: fn.callee(i).startswith("std::vector::") and (lambda q: len(q) >= 2 and q[-2][1].startswith(COORDNAME[S.cfg] + ","))(qual(S.dem(i)))
    ops = [i for i in fn.calls() if vec(i)]
    meth = lambda i: short(fn.callee(i))
    # costs that count edges
    cost = set()
    for I, cls, m, o in S.inserts():
        for off, (mm, sz, t) in (N.fields(I, cls, m, o) or {}).items():
            t = arith(t)
            if isinstance(t, tuple) and t and t[0] == "op" and t[1] == "add" and not any(isinstance(x, tuple) and x and x[0] == "icall" for x in subterms(t)): cost.add(off)
    for i in ops:
        if meth(i) not in ALLOWED: r.bad(f"{S.solver}:alters:{meth(i)}", i.where(), f"{S.name}: the path is altered by {meth(i)}()")
    goal = {}
    ge = S.goal_edges(); roots = S.roots(); want = {"start": "end", "end": "start"}.get(next(iter(roots)) if len(roots) == 1 else "")
    written = {}; found = 0
    for h, body in W.loops.items():
        ws = [i for i in ops if W.inner.get(i.bb) == h and meth(i) in GROW]
        if not ws: continue
        found += 1; w = ws[0].where()
        def bad(key, why): r.bad(f"{S.solver}:{key}", w, f"{S.name}: {why}")
        if len(ws) > 1: bad("writes", f"{len(ws)} elements are produced in one iteration"); continue
        I = ws[0]; V = S.container(I)
        if not W.each(h, I.bb): bad("skips", "an iteration can go by without producing an element"); continue
        r.ok(f"{S.name}: every iteration produces one element", w)
        tn = [i for i in fn.calls() if fn.callee(i) == "chdr::utils::to_nd" and i.bb in body]
        if len(tn) != 1 or not produced(S, I, meth(I), tn[0], body): bad("value", "the element is not the coordinate computed in this iteration"); continue
        if not sizeok(S, tn[0]): bad("dimensions", "the coordinate is not computed with the maze's size"); continue
        k0 = 1 if tn[0].d.get("sret") else 0
        try: fw = frontier(S, N, W, h, I, tn[0], k0)
        except No as e: bad("frontier", f"the current path is not read from one end to the other: {e}"); continue
        if fw is not None: r.ok(f"{S.name}: the current path is read from one end to the other", w)
        else:
            try:
                p = W.argpos(h, tn[0].ops[k0], tn[0])
                if p[0] != "idx" or p[3] != 1: raise No("it does not move along the chain")
                s, n = W.visited(h, I.bb)
                if s != p[1]: raise No("the end of another chain is looked for")
            except No as e: bad("walk", f"the loop is no walk along the predecessors of one cell: {e}"); continue
            r.ok(f"{S.name}: the loop follows the predecessors of one cell to the end of the chain", w)
            first, count = p[2], n
            # one element ahead of the walk
            pre = [i for i in ops if meth(i) in ("emplace_back", "push_back") and S.container(i) == V and i.bb not in body and fn.dominates(i.bb, h)]
            if pre:
                if len(pre) == 1 and first == 1 and own(S, W, pre[0], s): first, count = 0, count + 1; r.ok(f"{S.name}: the element ahead of the walk is the cell it starts from", pre[0].where())
                else: bad("ahead", "elements are produced ahead of the walk that are not the cell it starts from"); continue
            span = (0, 0) if S.solver == "dijkstra" else (1, -1) if W.link.get("idx") else (0, -1)
            if (first, count) != span: bad("span", f"{'the first cell' if first != span[0] else 'the chain'} is not the one to read: begins at predecessor {first}, {'all' if count == 0 else count} cells"); continue
            r.ok(f"{S.name}: the cells read are the chain of predecessors", w)
            pre_at = next(iter(fn.blocks[h].insts))
            if not goalcell(S, W, s, h, ge, want): bad("start", "the walk does not start at the cell that passed the goal test"); continue
            r.ok(f"{S.name}: the walk starts at the cell that passed the goal test", w)
        order = "appended" if fw is None else fw[1]
        # the slots
        W.sizeof = {}
        sized = [i for i in ops if S.container(i) == V and (meth(i) in ("resize", "assign") or meth(i) == "vector" and "(unsigned long" in S.dem(i))]
        if meth(I) in ("operator[]", "at"):
            if len(sized) != 1 or not fn.dominates(sized[0].bb, h) or W.inner.get(sized[0].bb) == h: bad("sized", "the result is not sized once, ahead of the loop"); continue
            W.sizeof = {tup(sized[0].ops[1]): V}
            try:
                if fw is not None: 
                    n = fn.inst.get(sized[0].ops[1]) if isinstance(sized[0].ops[1], int) else None
                    if n is None or fn.callee(n) not in ("std::vector::size", "chdr::stack::size") or S.container(n) != fw[0]: raise No("size of the current path")
                else:
                    s2, n2 = W.number(sized[0].ops[1], cost)
                    if s2 != s: raise No("it belongs to another chain")
                    if n2 != count: raise No(f"{'too many' if n2 > count else 'too few'} elements by {abs(n2 - count)}")
            except No as e: bad("size", f"the size of the result is not the number of cells read: {e}"); continue
            r.ok(f"{S.name}: the result has as many elements as cells are read", sized[0].where())
            try:
                q = W.count(h, I.ops[1])
                good = q == (1, 0) or q[0] == "size" and q[1] == V and (q[2], q[3]) == (-1, -1)
                if not good: raise No(f"slot {q}")
                if q != (1, 0): order = {"appended": "reversed", "begin": "rbegin", "rbegin": "begin"}[order]
            except No as e: bad("slot", f"the slots written are not each one once, counted from an end: {e}"); continue
            r.ok(f"{S.name}: each slot is written once", w)
        elif sized and any(fn.reach([fn.blocks[x.bb].succs[0] if fn.blocks[x.bb].succs else x.bb]) & {h} for x in sized): bad("presized", "elements are appended to a result that already has some"); continue
        elif meth(I) in ("insert", "emplace") and not endpoint(S, I): bad("slot", "elements are not inserted at an end"); continue
        else: r.ok(f"{S.name}: elements are appended to an empty result", w)
        rest = [i for i in ops if S.container(i) == V and i is not I and i not in sized and meth(i) in ("emplace_back", "push_back", "insert", "emplace", "assign", "resize") and (fw is not None or i not in pre)]
        rest += [i for i in ops if S.container(i) == V and i is not I and meth(i) in ("operator[]", "at", "front", "back", "data")]
        its = {i.id for i in ops if S.container(i) == V and meth(i) in ("begin", "end", "rbegin", "rend")}
        rest += [c for c in fn.calls() if c not in ops and not c.d.get("intr") and any(isinstance(o, int) and o in its for o in c.ops) and short(fn.callee(c)) not in ("reverse", "distance")]
        if rest: r.bad(f"{S.solver}:extra", rest[0].where(), f"{S.name}: elements of the result are added or changed outside the walk"); continue
        if any(short(fn.callee(c)) == "reverse" and any(isinstance(o, int) and o in its for o in c.ops) for c in fn.calls()): order = {"appended": "reversed", "reversed": "appended", "begin": "rbegin", "rbegin": "begin"}[order]
        want_o = (("rbegin" if REV[S.cfg] or S.solver != "eidastar" else "begin") if fw is not None else "appended" if S.solver == "dijkstra" else "reversed" if REV[S.cfg] or S.solver in ROOTFIRST else "appended")
        if order != want_o: bad("order", f"the path is read back in the opposite order ({order})"); continue
        r.ok(f"{S.name}: the path has the order the solver gives its paths", w)
        if not returned(S, V, ops, meth): bad("returned", "the result is not what the search returns"); continue
        r.ok(f"{S.name}: the result is what the search returns", w)
    if S.solver == "flood": return "skip"
    if not found: r.bad(f"{S.solver}:none", fn.sp_where(), f"{S.name}: no loop that reads a path back")

def produced(S, I, m, T, body):
    """does the element written come from the coordinate computed by T"""
    fn, sem = S.fn, S.sem
    def roots(v, seen):
        if isinstance(v, tuple) or v in seen: return set()
        seen.add(v); i = fn.inst[v]
        if i is T: return {T.id}
        if i.op in ("extractvalue", "insertvalue", "freeze", "bitcast", "zext", "trunc", "lshr", "shl", "or", "and", "phi"):
            out = set()
            for o in ([tup(x) for _, x in i.d["in"]] if i.op == "phi" else i.ops): out |= roots(o, seen)
            return out
        if i.op == "load":
            R, o = sem.addr(i.ops[0])
            if sem.alloca(R): return mem(R)
        return {("other", v)}
    def mem(R, depth=0):
        out = set()
        if depth > 4: return {("other",)}
        for i in fn.insts():
            if i.bb not in body: continue
            if i.op == "store" and sem.addr(i.ops[1])[0] == R: out |= roots(i.ops[0], set())
            elif i.op in ("call", "invoke") and fn.callee(i).startswith(("llvm.memcpy", "llvm.memmove")) and sem.addr(i.ops[0])[0] == R:
                R2 = sem.addr(i.ops[1])[0]; out |= mem(R2, depth + 1) if sem.alloca(R2) else {("other",)}
            elif i is T and i.d.get("sret") and sem.addr(i.ops[0])[0] == R: out.add(T.id)
        return out
    if m in ("operator[]", "at"):
        out = mem(("v", I.id)) if False else set()
        for i in fn.insts():
            if i.bb not in body: continue
            if i.op == "store" and sem.addr(i.ops[1])[0][:2] in (("v", I.id), ("call", fn.callee(I), I.id)): out |= roots(i.ops[0], set())
            elif i.op in ("call", "invoke") and fn.callee(i).startswith(("llvm.memcpy", "llvm.memmove")) and sem.addr(i.ops[0])[0] == ("v", I.id):
                R2 = sem.addr(i.ops[1])[0]; out |= mem(R2) if sem.alloca(R2) else {("other",)}
            elif i is T and i.d.get("sret") and sem.addr(i.ops[0])[0] == ("v", I.id): out.add(T.id)
        return out == {T.id}
    o = I.ops[-1]
    if not sem.isptr(o): return roots(o, set()) == {T.id}
    return mem(sem.addr(o)[0]) == {T.id}
def sizeok(S, T):
    o = T.ops[-1]
    return S.sem.isptr(o) and (S.sem.is_size(o, T) or S.sem.addr(o)[0] == ("a", 1) or derived_size(S, o))
def derived_size(S, o):
    """a copy of the size made for the search's result object"""
    R, off = S.sem.addr(o)
    if not S.sem.alloca(R): return False
    for i in S.fn.insts():
        if i.op == "store" and S.sem.addr(i.ops[1]) == (R, off):
            t = S.sem.t(i.ops[0])
            if t != ("ld", ("a", 1), S.off["size"]): return False
            return True
        if i.op in ("call", "invoke") and S.fn.callee(i).startswith(("llvm.memcpy", "llvm.memmove")) and S.sem.addr(i.ops[0]) == (R, off): return S.sem.addr(i.ops[1]) == (("a", 1), S.off["size"])
    return False
def own(S, W, I, s):
    """does an element added ahead of the walk hold the coordinate the start of the chain was looked up with"""
    if s[0] != "found": return False
    c = S.fn.inst[s[1]]; key = S.sem.content(c.ops[1], IDX, c)
    if key[0] != "to1d": return False
    t = S.sem.coord(I.ops[1], I)
    return t == key[1] or key == ("to1d", t, True)
def goalcell(S, W, s, h, ge, want):
    fn, sem = S.fn, S.sem
    if s[0] == "opt":
        for c in fn.calls():
            n = fn.callee(c)
            if n.startswith("std::optional::") and n.rpartition("::")[2].split("[abi")[0] in ("emplace", "operator=") and sem.addr(c.ops[0])[0] == s[1]:
                T = sem.content(c.ops[1], IDX, c)
                if not any(w == want and q == T and not S.reachable_without(c.bb, {e}) for e, (w, k, q) in ge.items()): return False
        return True
    if s[0] == "found":
        return any(w == want and k == "found" and q[2] == s[1] and not S.reachable_without(h, {e}) for e, (w, k, q) in ge.items())
    if s[0] == "local":
        pre = [b for b in fn.blocks[h].preds if b not in W.loops[h]]
        T = sem.content(s[1], IDX, fn.term(pre[0])) if pre else None
        return any(w == want and (q == T or q == ("ld", ("v", s[1]), 0)) and not S.reachable_without(h, {e}) for e, (w, k, q) in ge.items())
    if s[0] == "elem":
        return any(w == want and q in (("ld", ("v", s[1]), 0), ("ld", ("call", fn.callee(fn.inst[s[1]]), s[1]), 0)) and not S.reachable_without(h, {e}) for e, (w, k, q) in ge.items())
    return False
def frontier(S, N, W, h, I, T, k0):
    """the container a loop reads from one end to the other, None if it is no such loop"""
    fn, sem = S.fn, S.sem; body = W.loops[h]
    # the index comes from a load within the loop (or an element of the container)
    src = T.ops[k0]
    if sem.isptr(src):
        R, o = sem.addr(src)
        if sem.alloca(R) and fn.inst[R[1]].d.get("size", 0) <= 8:
            st = [i for i in fn.insts() if i.op == "store" and sem.addr(i.ops[1]) == (R, 0) and i.bb in body]
            if len(st) != 1: return None
            src = st[0].ops[0]
            while isinstance(src, int) and fn.inst[src].op in ("zext", "trunc", "sext", "freeze"): src = fn.inst[src].ops[0]
            if not isinstance(src, int) or fn.inst[src].op != "load": return None
            src = tup(fn.inst[src].ops[0])
    # address of the element: cursor + offset
    off = 0
    while isinstance(src, int) and fn.inst[src].op == "getelementptr" and not fn.inst[src].d.get("var"): off += fn.inst[src].d["off"]; src = tup(fn.inst[src].d["base"])
    if not isinstance(src, int): return None
    i = fn.inst[src]; cur = None
    if i.op in ("call", "invoke") and fn.callee(i).rpartition("::")[2].split("[abi")[0] in ("operator[]", "at") and S.nodeish(S.elem_class(i.id)[1]):
        q = W.count(h, i.ops[1]); V = S.container(i)
        ok = q == (1, 0) or q[0] == "size" and q[1] == V and (q[2], q[3]) == (-1, -1)
        if not ok: raise No("elements are skipped")
        ex = W.exits(h)
        if len(ex) != 1: raise No("left early")
        for v, tr in fn.edge_fact(*ex[0]):
            j = fn.inst.get(v) if isinstance(v, int) else None
            if j is not None and j.op == "icmp":
                a, b = W.count(h, j.ops[0]), W.count(h, j.ops[1])
                if b[0] != "size": a, b = b, a
                if q != (1, 0) and a == ("size", V, -1, 0): a, b = b, a
                if q != (1, 0) and b == ("size", V, -1, 0) and a == (0, 0): return V, "rbegin"
                if a == (1, 0) and b == ("size", V, 0, 0) and j.d["pred"] in ("eq", "ne", "ult", "ugt", "uge", "ule"): return V, "begin" if q == (1, 0) else "rbegin"
        raise No("its end")
    if i.op == "phi" and i.bb == h: cur = i.id
    elif i.op == "load":
        R, o = sem.addr(i.ops[0])
        if sem.alloca(R) and o == 0: cur = ("slot", R[1])
    if cur is None: return None
    c = W.carried(h, cur)
    if c is None: return None
    a = iterend(S, c[0])
    if a is None: return None
    V, end, call = a
    nx = c[1].ops[0] if isinstance(c[1], Inst) else c[1]
    n = fn.inst.get(nx) if isinstance(nx, int) else None
    if n is None or n.op != "getelementptr" or n.d.get("var"): raise No("the step")
    b = tup(n.d["base"])
    same = b == cur or isinstance(cur, tuple) and isinstance(b, int) and fn.inst[b].op == "load" and sem.addr(fn.inst[b].ops[0]) == (("v", cur[1]), 0)
    if not same: raise No("the step")
    q = qual(S.dem(call)); elem = split_targs(q[-2][1])[0]
    esz = esize(N, elem); step = n.d["off"]
    if esz is None: raise No("the element's size")
    if end == "begin" and (step, off) != (esz, 0): raise No("it does not move one element at a time" if step != esz else "the element read is not the current one")
    if end == "rbegin" and (step, off) != (-esz, -esz): raise No("it does not move one element at a time" if step != -esz else "the element read is not the current one")
    if end not in ("begin", "rbegin"): raise No("it does not begin at an end")
    ex = W.exits(h)
    if len(ex) != 1: raise No("left in more than one way")
    for v, tr in fn.edge_fact(*ex[0]):
        j = fn.inst.get(v) if isinstance(v, int) else None
        while j is not None and (j.op == "xor" or j.op == "call" and fn.callee(j).startswith("llvm.expect")):
            if j.op == "xor": tr = not tr; j = fn.inst.get(next(o for o in j.ops if not isinstance(o, tuple)))
            else: j = fn.inst.get(j.ops[0])
        if j is None or j.op != "icmp" or j.d["pred"] not in ("eq", "ne") or (j.d["pred"] == "eq") != tr: continue
        for x, y in (j.ops, j.ops[::-1]):
            iscur = x == cur or isinstance(cur, tuple) and isinstance(x, int) and fn.inst[x].op == "load" and sem.addr(fn.inst[x].ops[0]) == (("v", cur[1]), 0)
            if not iscur: continue
            e = iterend(S, tup(y))
            if e is None and isinstance(y, int) and fn.inst[y].op == "load":
                R, o = sem.addr(fn.inst[y].ops[0])
                cs = [k for k in fn.calls() if k.d.get("sret") and sem.addr(k.ops[k.d["sret"][0]]) == (R, 0)]
                if len(cs) == 1 and writes(S, R[1], cs[0], ()): e = iterend(S, ("of", cs[0].id))
            if e and e[0] == V and e[1] == {"begin": "end", "rbegin": "rend"}[end] and fn.dominates(ex[0][0], I.bb): return V, end
    raise No("its end")
def writes(S, slot, c, body):
    """is call c the only thing outside the given blocks that writes the slot"""
    for i in S.fn.insts():
        if i is c or i.bb in body: continue
        if i.op == "store" and S.sem.addr(i.ops[1])[0] == ("v", slot): return False
        if i.op in ("call", "invoke") and not S.fn.callee(i).startswith("llvm.lifetime"):
            for k, o in enumerate(i.ops):
                if isinstance(o, int) and S.sem.isptr(o) and S.sem.addr(o)[0] == ("v", slot) and not (S.fn.callee(i).startswith(("llvm.memcpy", "llvm.memmove")) and k == 1): return False
    return True
def esize(N, elem):
    L = list(N.layout(elem))
    t = N.types.get(norm(elem))
    if t and t.get("size"): return t["size"]
    if not L: return None
    al = max(s if s in (1, 2, 4, 8) else 8 for m, o, s, ty in L)
    return -(-max(o + s for m, o, s, ty in L) // al) * al
def iterend(S, v):
    fn = S.fn
    v = v[1] if isinstance(v, tuple) and v[0] == "of" else v
    i = fn.inst.get(v) if isinstance(v, int) else None
    if i is not None and i.op in ("phi",) and len({tup(x) for _, x in i.d["in"]}) == 1: return iterend(S, tup(i.d["in"][0][1]))
    if i is None or i.op not in ("call", "invoke"): return None
    m = fn.callee(i).rpartition("::")[2].split("[abi")[0].replace("crb", "rb").replace("cre", "re").replace("cb", "b").replace("ce", "e")
    if m not in ("begin", "end", "rbegin", "rend"): return None
    q = qual(S.dem(i))
    if len(q) < 2 or not S.nodeish(split_targs(q[-2][1])[0] if q[-2][1] else ""): return None
    k = 1 if i.d.get("sret") else 0
    return S.container(i), m, i
def endpoint(S, I):
    k = I.ops[1 + (1 if I.d.get("sret") else 0)]
    ns = [i for i in S.fn.calls() if i.id == k]
    return bool(ns) and S.fn.callee(ns[0]).rpartition("::")[2].split("[abi")[0] in ("begin", "end", "cbegin", "cend")
def returned(S, V, ops, meth):
    """is the vector moved on, unchanged, to what the root function returns"""
    fn, sem = S.fn, S.sem; cur = {V}; grew = True
    while grew:
        grew = False
        for i in ops:
            if meth(i) in ("vector", "operator=") and len(i.ops) >= 2 and sem.isptr(i.ops[1]):
                R = sem.addr(i.ops[1])[0]; D = sem.addr(i.ops[0])[0]
                if any(R == c or isinstance(c, tuple) and c and c[0] == R for c in cur) and D not in cur: cur.add(D); grew = True
            if meth(i) == "swap" and len(i.ops) == 2 and all(map(sem.isptr, i.ops)):
                for x, y in (i.ops, i.ops[::-1]):
                    R = sem.addr(x)[0]; D = sem.addr(y)[0]
                    if any(R == c or isinstance(c, tuple) and c and c[0] == R for c in cur) and D not in cur: cur.add(D); grew = True
    return any(c == ("a", 0) or isinstance(c, tuple) and c[:1] == (("a", 0),) for c in cur)

def run(rep, tier): run_units(rep, unit, tier, 1)
