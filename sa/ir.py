"""Loads what irdump wrote: functions in SSA form, with the control-flow graph, dominators and branch facts."""
import json, functools, os

class Inst:
    __slots__ = ("id", "op", "ty", "ops", "d", "bb", "pos", "fn")
    def __init__(self, d, bb, pos, fn):
        self.id = d["i"]; self.op = d["op"]; self.ty = d["ty"]; self.ops = [tup(x) for x in d.get("ops", [])]
        self.d = d; self.bb = bb; self.pos = pos; self.fn = fn
    @property
    def loc(self):
        l = self.d.get("loc")
        return l
    def where(self):
        l = self.d.get("loc")
        if not l: return self.fn.sp_where()
        f, n, s = l[0]
        for f2, n2, s2 in l:
            if short(f2) != f2: f, n, s = f2, n2, s2; break
        return f"{short(f)}:{n} ({s.split('<')[0]})"
    def __repr__(self): return f"%{self.id}={self.op}"

def short(f):
    R = os.environ.get("SA_REPO", "/repo")
    return os.path.normpath(f[len(R) + 1:]) if f.startswith(R + "/") else f

def tup(x):
    if isinstance(x, list): return tuple(tup(y) for y in x)
    return x

class Block:
    def __init__(self, id): self.id = id; self.insts = []; self.preds = []; self.succs = []

class Fn:
    def __init__(self, d, mod):
        self.mod = mod; self.name = d["name"]; self.dem = d["dem"]; self.base = d["base"]; self.d = d
        self.blocks = {}; self.inst = {}; self.order = []
        for b in d["blocks"]:
            B = Block(b["id"]); self.blocks[b["id"]] = B; self.order.append(b["id"])
            for k, i in enumerate(b["is"]):
                I = Inst(i, B.id, k, self); B.insts.append(I); self.inst[I.id] = I
        for B in self.blocks.values():
            t = B.insts[-1]
            s = []
            if t.op == "br": s = t.d["succ"]
            elif t.op == "switch": s = [c[1] for c in t.d["cases"]] + [t.d["default"]]
            elif t.op == "invoke": s = [t.d["normal"], t.d["unwind"]]
            B.succs = list(dict.fromkeys(s))
            for x in B.succs: self.blocks[x].preds.append(B.id)
        self.entry = self.order[0]
        self._dom = None; self._pdom = None
        self._facts = {}; self._fbusy = set(); self._ftrunc = False
        self._prune()
    def sp_where(self):
        f = self.d.get("file")
        return f"{short(f)}:{self.d.get('line')} ({self.base})" if f else self.base
    def _prune(self):
        seen = {self.entry}; w = [self.entry]
        while w:
            for s in self.blocks[w.pop()].succs:
                if s not in seen: seen.add(s); w.append(s)
        for b in list(self.blocks):
            if b not in seen:
                for i in self.blocks[b].insts: self.inst.pop(i.id, None)
                del self.blocks[b]
        for B in self.blocks.values():
            B.preds = [p for p in B.preds if p in seen]
            for i in B.insts:
                if i.op == "phi": i.d["in"] = [x for x in i.d["in"] if x[0] in seen]
        self.order = [b for b in self.order if b in seen]
    def insts(self):
        for b in self.order: yield from self.blocks[b].insts
    def calls(self, rx=None):
        for i in self.insts():
            if i.op in ("call", "invoke"):
                if rx is None or rx(self.callee(i)): yield i
    def callee(self, i):
        """qualified name of the callee without template arguments; '' for indirect calls"""
        f = i.d.get("fn")
        if f is None: return ""
        return self.mod.base(f)
    def term(self, b): return self.blocks[b].insts[-1]

    # ---- dominators (Cooper, Harvey, Kennedy) ----
    @staticmethod
    def _domtree(entry, succs, preds):
        order = []; seen = set()
        st = [(entry, iter(succs(entry)))]; seen.add(entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succs(s)))); break
            else:
                order.append(n); st.pop()
        num = {n: k for k, n in enumerate(order)}
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for n in reversed(order):
                if n == entry: continue
                new = None
                for p in preds(n):
                    if p in idom and p in num:
                        if new is None: new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] < num[b]: a = idom[a]
                                while num[b] < num[a]: b = idom[b]
                            new = a
                if new is not None and idom.get(n) != new: idom[n] = new; changed = True
        return idom
    @property
    def idom(self):
        if self._dom is None: self._dom = self._domtree(self.entry, lambda n: self.blocks[n].succs, lambda n: self.blocks[n].preds)
        return self._dom
    def dominates(self, a, b):
        i = self.idom
        while True:
            if a == b: return True
            if b not in i or i[b] == b: return False
            b = i[b]
    def idominates(self, x, y):
        """instruction x is executed on every path from the entry to y"""
        if x.bb == y.bb: return x.pos < y.pos
        if x.op == "invoke" and not self.edge_dominates(x.bb, x.d["normal"], y.bb): return False
        return self.dominates(x.bb, y.bb)
    def edge_dominates(self, src, dst, b):
        """every path from the entry to b takes the edge src->dst"""
        if not self.dominates(dst, b): return False
        for p in self.blocks[dst].preds:
            if p == src: continue
            if not self.dominates(dst, p): return False
        t = self.term(src)
        if t.op == "br" and len(t.d["succ"]) == 2 and t.d["succ"][0] == t.d["succ"][1]: return False
        return True
    def reach(self, src, avoid=frozenset()):
        seen = set(); w = list(src)
        while w:
            b = w.pop()
            if b in seen or b in avoid: continue
            seen.add(b); w.extend(self.blocks[b].succs)
        return seen
    # ---- branch facts ----
    @functools.lru_cache(maxsize=None)
    def edge_fact(self, src, dst):
        t = self.term(src)
        if t.op == "br" and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
            return ((t.ops[0], t.d["succ"][0] == dst),)
        if t.op == "switch":
            vals = [c[0] for c in t.d["cases"] if c[1] == dst]
            if len(vals) == 1 and t.d["default"] != dst: return ((("icmpc", "eq", t.ops[0], vals[0]), True),)
        return ()
    def facts(self, b):
        """((value, truth), ...) that hold whenever control enters block b"""
        if b in self._facts: return self._facts[b]
        if ("f", b) in self._fbusy: self._ftrunc = True; return ()
        self._fbusy.add(("f", b)); old, self._ftrunc = self._ftrunc, False
        r = self._mkfacts(b)
        self._fbusy.discard(("f", b))
        if not self._ftrunc or not self._fbusy: self._facts[b] = r
        self._ftrunc = (self._ftrunc and bool(self._fbusy)) or old
        return r
    def _mkfacts(self, b):
        out = []
        cur = b
        chain = []
        while True:
            chain.append(cur)
            if self.idom.get(cur, cur) == cur: break
            cur = self.idom[cur]
        for x in chain:
            for p in self.blocks[x].preds:
                if self.edge_dominates(p, x, b):
                    for v, tr in self.edge_fact(p, x): self._expand(v, tr, out, 0)
        return tuple(dict.fromkeys(out))
    def _expand(self, v, tr, out, depth):
        out.append((v, tr))
        if not isinstance(v, int): return
        i = self.inst.get(v)
        if i is None or depth > 16: return
        if ("e", v, tr) in self._fbusy: self._ftrunc = True; return
        self._fbusy.add(("e", v, tr))
        try: self._expand1(v, i, tr, out, depth)
        finally: self._fbusy.discard(("e", v, tr))
    def _expand1(self, v, i, tr, out, depth):
        if i.op == "xor" and len(i.ops) == 2:
            for a, c in ((0, 1), (1, 0)):
                if isinstance(i.ops[c], tuple) and i.ops[c][0] == "c" and i.ops[c][1] in ("1", "true", "-1"): self._expand(i.ops[a], not tr, out, depth + 1)
        elif i.op == "and" and tr and i.ty == "i1":
            for o in i.ops: self._expand(o, True, out, depth + 1)
        elif i.op == "or" and not tr and i.ty == "i1":
            for o in i.ops: self._expand(o, False, out, depth + 1)
        elif i.op == "select" and i.ty == "i1":
            c, a, b2 = i.ops
            if tr and isc(b2, 0): self._expand(c, True, out, depth + 1); self._expand(a, True, out, depth + 1)
            if not tr and isc(a, 1): self._expand(c, False, out, depth + 1); self._expand(b2, False, out, depth + 1)
            if tr and isc(a, 0): self._expand(c, False, out, depth + 1); self._expand(b2, True, out, depth + 1)
            if not tr and isc(b2, 1): self._expand(c, True, out, depth + 1); self._expand(a, False, out, depth + 1)
        elif i.op in ("zext", "sext", "trunc", "freeze"):
            self._expand(i.ops[0], tr, out, depth + 1)
        elif i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
            eq = (i.d["pred"] == "eq") == tr
            for a, c in ((0, 1), (1, 0)):
                if isc(i.ops[c], 0) and self.is_boolish(i.ops[a]): self._expand(i.ops[a], not eq, out, depth + 1)
                if isc(i.ops[c], 1) and self.is_boolish(i.ops[a]): self._expand(i.ops[a], eq, out, depth + 1)
        elif i.op == "phi":
            # possible incoming edges given the required truth
            poss = []
            for blk, val in i.d["in"]:
                val = tup(val)
                if isinstance(val, tuple) and val[0] == "c":
                    if truth(val) != tr: continue
                    poss.append((blk, None))
                else: poss.append((blk, val))
            if len(poss) == 1:
                blk, val = poss[0]
                if val is not None: self._expand(val, tr, out, depth + 1)
                for f in self.edge_fact(blk, i.bb): self._expand(f[0], f[1], out, depth + 1)
                for f in self.facts(blk): out.append(f)
            elif len(poss) > 1:
                sets = []
                for blk, val in poss:
                    o = []
                    if val is not None: self._expand(val, tr, o, depth + 1)
                    for f in self.edge_fact(blk, i.bb): self._expand(f[0], f[1], o, depth + 1)
                    o.extend(self.facts(blk)); sets.append(set(o))
                out.extend(set.intersection(*sets))
        elif i.op == "call" and self.callee(i).startswith("llvm.expect"):
            self._expand(i.ops[0], tr, out, depth + 1)
    def is_boolish(self, v):
        """value is 0 or 1"""
        if not isinstance(v, int): return isinstance(v, tuple) and v[0] == "c" and v[1] in ("0", "1", "true", "false")
        i = self.inst.get(v)
        if i is None: return False
        if i.ty == "i1": return True
        if i.op == "zext": return self.inst.get(i.ops[0]) is not None and self.inst[i.ops[0]].ty == "i1" or self.is_boolish(i.ops[0])
        if i.op == "load" and i.ty == "i8": return True
        if i.op in ("and", "or", "xor"): return all(self.is_boolish(o) for o in i.ops)
        if i.op == "call" and self.callee(i).startswith("llvm.expect"): return self.is_boolish(i.ops[0])
        if i.op == "phi": return all(self.is_boolish(tup(v2)) for _, v2 in i.d["in"] if v2 != v)
        return False
    # ---- loops ----
    @functools.lru_cache(maxsize=None)
    def loops(self):
        """header -> set of blocks (natural loops, merged per header)"""
        out = {}
        for b in self.order:
            for s in self.blocks[b].succs:
                if self.dominates(s, b):
                    body = out.setdefault(s, {s}); w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w.extend(self.blocks[x].preds)
        return out
    def text(self):
        o = [f"fn {self.dem}"]
        for b in self.order:
            o.append(f"b{b}:  preds {self.blocks[b].preds}")
            for i in self.blocks[b].insts:
                x = {k: v for k, v in i.d.items() if k not in ("i", "op", "ty", "loc")}
                if "fn" in x: x["fn"] = self.mod.base(x["fn"])
                o.append(f"   %{i.id} = {i.op} {i.ty} {json.dumps(x)}   ; {self.d['vars'].get(str(i.id), '')} {i.loc[0][1:] if i.loc else ''}")
        return "\n".join(o)

def qual(dem):
    """[(name, template arguments)] of the qualified name in a demangled signature, without return type and parameters"""
    depth = 0; segs = []; cur = ""; targ = ""; i = 0; n = len(dem)
    while i < n:
        c = dem[i]
        if depth == 0 and dem.startswith("operator", i) and (i == 0 or not (dem[i - 1].isalnum() or dem[i - 1] == "_")):
            j = dem.find("(", i + 8)
            if dem.startswith("operator()", i): j = i + 10
            if j < 0: j = n
            cur += dem[i:j]; i = j; break
        if depth == 0 and dem.startswith("(anonymous namespace)", i): cur += "(anon)"; i += 21; continue
        if c in "<([{":
            if depth == 0 and c == "(": break
            depth += 1
            if c == "<" and depth == 1: targ = ""; i += 1; continue
        elif c in ">)]}":
            depth -= 1
            if c == ">" and depth == 0: i += 1; continue
        if depth == 0:
            if c == " ": segs = []; cur = ""; targ = ""
            elif dem.startswith("::", i): segs.append((cur, targ)); cur = ""; targ = ""; i += 2; continue
            else: cur += c
        else: targ += c
        i += 1
    segs.append((cur, targ))
    return segs
def isc(o, n): return isinstance(o, tuple) and o[0] == "c" and (int(o[1]) if o[1] not in ("true", "false") else int(o[1] == "true")) in ((n,) if n != 1 else (1, -1))
def cval(o):
    if isinstance(o, tuple) and o[0] == "c": return int(o[1]) if o[1] not in ("true", "false") else int(o[1] == "true")
    return None
def truth(o): return cval(o) != 0

class Fns:
    """the dumped functions by mangled name, built on first use"""
    def __init__(self, raw, mod): self.raw = raw; self.mod = mod; self.made = {}
    def __contains__(self, k): return k in self.raw
    def __len__(self): return len(self.raw)
    def __iter__(self): return iter(self.raw)
    def __getitem__(self, k):
        if k not in self.made: self.made[k] = Fn(self.raw[k], self.mod)
        return self.made[k]
    def get(self, k): return self[k] if k in self.raw else None
    def values(self): return [self[k] for k in self.raw]
    def items(self): return [(k, self[k]) for k in self.raw]
    def where(self, rx):
        """the functions whose qualified name matches"""
        import re
        r = re.compile(rx)
        return [self[k] for k, v in self.raw.items() if r.search(v["base"])]

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d; self.names = d["names"]; self.types = d["types"]; self.globals = d["globals"]
        self.functions = Fns(d["functions"], self)
    def base(self, f):
        n = self.names.get(f)
        if n: return n["base"]
        if f in self.functions: return self.functions[f].base
        return f
    def dem(self, f):
        n = self.names.get(f)
        return n["dem"] if n else f
