"""Memory resources over linear inequalities: blocks and free pieces are regions that are owned, taken, split and given away."""
import re
from solverir import lib
from num import *
THIS, OTHER = ("obj", "this"), ("obj", "other")
class Pool:
    """what the analysis knows of a class: where its containers are, and how a block is laid out"""
    def __init__(self, M, cls):
        self.M = M; self.cls = cls; self.short = cls.split("<")[0].split("::")[-1]; self.fs = []; called = set(); self.vec = {}; self.maps = set(); offs = set(); stores = {}
        own = [f for f in M.functions.values() if f.dem.replace("virtual ", "").split("(")[0].split(" ")[-1].startswith(cls.split("<")[0]) and cls + "::" in f.dem and f.base.startswith("chdr::" + self.short + "::") and f.base.count("::") == 2 and "lambda" not in f.dem]
        own = [f for f in M.functions.values() if f.dem.startswith(cls + "::") and f.base.startswith(f"chdr::{self.short}::") and f.base.count("::") == 2 and "'lambda" not in f.dem and "$_" not in f.dem]
        allf = [f for f in M.functions.values() if f.dem.startswith(cls + "::")]
        self.block = None; self.bsize = 0
        for f in allf:
            if re.search(r"::(\w+)::\1$", f.base) and f.base.count("::") == 3:
                st = [i for i in f.insts() if i.op == "store"]; self.block = f
                for s in st:
                    g = f.inst.get(s.ops[1]) if isinstance(s.ops[1], int) else None
                    self.bsize = max(self.bsize, (g.d["off"] if g is not None and g.op == "getelementptr" else 0) + 8)
        for f in own:
            for i in f.insts():
                if i.op in ("call", "invoke") and i.d.get("fn") in M.functions: called.add(i.d["fn"])
                if i.op in ("call", "invoke") and i.d.get("fn"):
                    o = next((x for x in ([i.ops[1]] if i.d.get("sret") else [i.ops[0]] if i.ops else [])), None); d = M.dem(i.d["fn"]); n = f.callee(i)
                    g = f.inst.get(o) if isinstance(o, int) else None
                    if g is not None and g.op == "getelementptr" and tuple(g.d["base"] if isinstance(g.d["base"], list) else [g.d["base"]]) in (("a", 0), ("a", 1)) and not g.d.get("var"):
                        if n.startswith("std::vector::"): self.vec[g.d["off"]] = "blocks" if "::block, " in d.split("std::vector<")[1][:len(cls) + 40] or d.split("std::vector<")[1].startswith("chdr") else "free"
                        elif n.startswith(("std::multimap::", "std::map::")): self.maps.add(g.d["off"])
                if i.op == "getelementptr" and not i.d.get("var") and i.d.get("base") == ["a", 0]: offs.add(i.d["off"])
                if i.op == "getelementptr" and not i.d.get("var") and i.d.get("base") == ("a", 0): offs.add(i.d["off"])
        self.fields = set()
        for f in own:
            for i in f.insts():
                if i.op in ("load", "store"):
                    o = i.ops[0] if i.op == "load" else i.ops[1]; g = f.inst.get(o) if isinstance(o, int) else None; ty = i.ty if i.op == "load" else None
                    if g is not None and g.op == "getelementptr" and not g.d.get("var") and tuple(g.d["base"]) if g is not None and g.op == "getelementptr" and isinstance(g.d["base"], (list, tuple)) else False:
                        if tuple(g.d["base"]) in (("a", 0), ("a", 1)):
                            self.fields.add(g.d["off"])
                            if i.op == "store" and tuple(g.d["base"]) == ("a", 0): stores.setdefault(g.d["off"], set()).add(f.base.split("::")[-1])
        self.inline = 16; nxt = [o for o in self.fields | set(self.vec) | self.maps if o > 16]
        if not nxt or not self.vec: raise CheckError(f"{cls}: the layout is not recognised")
        self.ss = min(nxt) - 16; self.fields -= set(self.vec) | self.maps | {0}
        self.stable = {o for o in self.fields if stores.get(o, set()) <= {self.short, "operator="}}
        self.recycles = bool(self.maps) or "free" in self.vec.values()
        self.uniform = "free" in self.vec.values()                     # a list of raw pointers only works for requests of one size and alignment
        for f in own:
            nm = f.base.split("::")[-1]
            if nm.startswith("~") and any(f.callee(i).startswith("operator delete") for i in f.insts() if i.op in ("call", "invoke")) and any(i.ops and i.ops[0] == ("a", 0) for i in f.insts() if i.op in ("call", "invoke") and f.callee(i).startswith("operator delete")): continue
            if nm in (self.short, "operator=", "~" + self.short, "do_allocate", "do_deallocate", "reset", "release") or f.name not in called: self.fs.append(f)
        self.fs = [f for f in self.fs if not f.base.endswith("do_is_equal")]
        self.roles = None; self.cursorfields = set(); self.blockcursor = set()
        self.fs.sort(key=lambda f: (not f.base.endswith("do_allocate"), f.dem))
def kind(p, r):
    """('blocks'|'free'|'map', object) of a container region"""
    if r[0][0] != "obj": return p.loc.get(r)
    k = r[1].const()
    if k in p.pool.vec: return p.pool.vec[k]
    if k in p.pool.maps: return "map"
    return None
class PN(Num):
    def elemsize(self, st, r):
        k = kind(self.c, r); return self.c.pool.bsize if k == "blocks" else 8 if k == "free" else None
    def cmp(self, st, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r != b.r and pred in ("eq", "ne") and "new" in (a.r[0], b.r[0]): return [] if pred == "eq" else [st]
        return Num.cmp(self, st, pred, a, b)
    def keeps(self, fn, fr, st, body, k):
        if k[0][0] == "elem" and kind(self.c, k[0][1]) == "blocks":
            for b in body:
                for i in fn.blocks[b].insts:
                    if i.op == "store":
                        o = i.ops[1]
                        while isinstance(o, int) and fn.inst[o].op == "getelementptr":
                            g = fn.inst[o]; g = g.d.get("base", g.ops[0] if g.ops else None); o = tuple(g) if isinstance(g, list) else g
                        c = fn.inst[o] if isinstance(o, int) else None
                        if c is not None and (c.op == "alloca" or c.op in ("call", "invoke") and "std::vector<unsigned char*" in self.c.pool.M.dem(c.d.get("fn") or "")): continue
                        return False
                    if i.op in ("call", "invoke") and not i.d.get("intr"):
                        d = self.c.pool.M.dem(i.d.get("fn") or "")
                        if "::block, std::alloc" in d and fn.callee(i).startswith("std::vector::") and i.ops:
                            q = self.resolve(fn, fr, st, i.ops[0])
                            if q is not None and (q.r, q.off) != k[0][1] and (len(i.ops) < 2 or not fn.callee(i).endswith("swap")): continue
                        if fn.callee(i).startswith(("operator delete", "operator new", "__cxa", "__clang")): continue
                        if not fn.callee(i).startswith(("std::", "__gnu_cxx::")) or "::block, std::alloc" in d and not re.search(r"::(size|empty|begin|end|cbegin|cend|back|front|data|operator\[\]|operator\*|operator->|operator\+\+|operator!=|operator==)", d): 
                            ps = self.stored(i.d["fn"]) if i.d.get("fn") in self.mod.functions else None
                            if ps is None or any(getattr(self.resolve(fn, fr, st, i.ops[j]), "r", ("elem",))[0] == "elem" for j in ps): return False
            return True
        return Num.keeps(self, fn, fr, st, body, k)
    def step(self, fn, fr, i, st, depth):
        if i.op == "extractvalue" and len(i.d["idx"]) == 1:
            v = self.ev(st, fr, i.ops[0])
            if isinstance(v, tuple) and v and v[0] == "pair": return [(st, "ok", v[1 + i.d["idx"][0]])]
        return Num.step(self, fn, fr, i, st, depth)
class C(Client):
    def __init__(self, pool, invs): self.pool = pool; self.invs = invs; self.loc = {}; self.found = []; self.oks = []; self.reset()
    def reset(self): self.bad = {}; self.good = {}; self.backs = {}; self.later = []; self.loopgives = []; self.fn = None; self.rec = []
    def say(self, props, key, i, why):
        self.bad.setdefault((key, i.where() if hasattr(i, "where") else i), (props, why))
    def ok(self, props, what, where): self.good[(what, where)] = props
    def ali(self, st, num, r, al):
        a = next(iter(num.addr(st, r).atoms())); st.ali[("mult", a)] = st.ali.get(("mult", a), ()) + (al,)
    def roles(self): return self.pool.roles or {"size": 0, "data": self.pool.bsize - 8, "align": 8 if self.pool.bsize > 16 else None}
    def newsize(self, st, r, v): st.add(v, cst(1 << 56) - v)
    def fresh(self, st, region, off, v):
        R = self.roles(); num = self.num
        if region[0] == "elem":
            k = kind(self, region[1])
            if k == "blocks":
                if off == R["data"]:
                    p = Ptr(("blk", show(region[1]), region[2])); st.mem[(region, off)] = p
                    if self.pool.uniform: self.ali(st, num, p.r, "G")
                if off == R["size"]:
                    st.add(v - 1, cst(1 << 62) - v)
                    if self.pool.uniform: st.add(v - atom("bytes"))
            elif k == "free":
                p = Ptr(("free", num.new("p"))); st.mem[(region, off)] = p; self.ali(st, num, p.r, "G"); st.x[("flen", p.r)] = atom("bytes")
        if region[0] == "fnode":
            if off == 0: st.add(v - 1, cst(1 << 62) - v)
            if off == 8 + R["size"]: st.mem[(region, off)] = num.load(st, Ptr(region, 0), "i64")
            elif off == 8 + R["data"]: st.mem[(region, off)] = Ptr(("free", region[1])); st.x[("flen", ("free", region[1]))] = num.load(st, Ptr(region, 0), "i64")
        if region[0] == "obj" and off in self.pool.fields and isinstance(v, P): pass
    # ---- loops ----
    def head(self, num, fn, fr, st, b, inis):
        lid = num.new("loop"); phis = {}
        for k, ini in inis.items():
            v = st.val.get((fr, k))
            if isinstance(ini, Ptr) and ini.r[0] == "elem" and isinstance(v, Ptr) and v.r[0] == "elem": phis[k] = (ini.r[1], ini.r[2], v.r[2])
            elif isinstance(ini, P) and isinstance(v, P): phis[k] = (None, ini, v)
        st.log += (("head", lid, fn.name, b, fr, tuple(sorted(phis.items(), key=lambda t: t[0]))),)
        st.x[("at", fr, b)] = lid
    def back(self, num, fn, fr, st, b, prev):
        lid = st.x.get(("at", fr, b)); nx = {}
        for i in fn.blocks[b].insts:
            if i.op != "phi": break
            v = next((num.ev(st, fr, x) for blk, x in i.d["in"] if blk == prev), None)
            nx[i.id] = v.r[2] if isinstance(v, Ptr) and v.r[0] == "elem" else v
        self.backs.setdefault(lid, []).append((st, nx))
    def since(self, st, lid):
        k = next((n for n, e in enumerate(st.log) if e[0] == "head" and e[1] == lid), None)
        return st.log[k + 1:] if k is not None else ()
    # ---- ownership ----
    def piece(self, num, st, p, ln): return (num.addr(st, p.r) + p.off, ln, p)
    def take(self, num, st, p, ln, i): st.log += (("take", p, ln, i),)
    def give(self, num, st, p, ln, i):
        if not isinstance(p, Ptr): self.say({"M01", "M04"}, "free list", i, "puts something that is not a block on the free list"); return
        st.log += (("give", p, ln, i),); self.rec.append((st.fork(), len(st.log) - 1))
    def store(self, num, st, i, p, v):
        if isinstance(p, Ptr) and p.r[0] == "elem" and kind(self, p.r[1]) == "free" and p.r[1][0] == THIS:
            st.log += (("slot", p.r[1], p.r[2]),); self.give(num, st, v, atom("bytes"), i)
    def content(self, st, r): return st.x.get(("content", r), ("of", r[0]) if r[0][0] == "obj" and r[0] in st.x.get("alive", ()) else "none")
    def lost(self, num, st, r, i, how):
        """the record of the blocks goes away"""
        k = kind(self, r); c = self.content(st, r)
        if k != "blocks" or c == "none": return
        n = num.sizeof(st, r)
        if st.entails(-n): return
        self.later.append((st.fork(), r, n, c, i, how)); st.x["freed"] = st.x.get("freed", ()) + (c,)
    def cleaned(self, num, st, r, n):
        """a loop of this path gave every block of the container back"""
        return self.cleaned1(num, st, r, n) or st.x.get(("orig", r), r) != r and self.cleaned1(num, st, st.x[("orig", r)], n)
    def cleaned1(self, num, st, r, n):
        for e in st.log:
            if e[0] != "head": continue
            for k, (cont, ini, v) in e[5]:
                up = st.entails(ini) and st.entails(-ini) and st.entails(v - n)
                down = st.entails(ini - n) and st.entails(n - ini) and st.entails(-v)
                if cont not in (None, r) or not (up or down): continue
                dels = [(s, nx) for s, nx in self.backs.get(e[1], ())]; good = bool(dels) or st.entails(-n)
                for s, nx in dels:
                    d = [x for x in self.since(s, e[1]) if x[0] == "del" and isinstance(x[1], Ptr) and x[1].r[0] == "blk" and x[1].r[1] == show(r) and x[1].r[2] in ((v, v - 1) if down and not up else (v,))]
                    if len(d) != 1: good = False
                    elif not (isinstance(nx.get(k), P) and (s.entails(nx[k] - v - 1) and s.entails(v + 1 - nx[k]) if up else s.entails(nx[k] - v + 1) and s.entails(v - 1 - nx[k]) and d[0][1].r[2] == v - 1)): good = False
                if good: return True
        return False
    # ---- calls ----
    def call(self, num, st, fn, i, name, a):
        self.num = num; name = re.sub(r"\[abi:\w+\]", "", name); parts = name.split("::"); last = parts[-1]; cls = parts[-2] if len(parts) > 1 else ""; R = self.roles()
        def ok(v=None): return [(st, "ok", v)]
        def fails(): s = st.fork(); s.log += (("fail",),); return (s, "throw", None)
        if name == "operator new" or name == "operator new[]":
            n = num.num(st, a[0]); al = num.num(st, a[1]) if len(a) > 1 else cst(16)
            bad = fails(); r = ("new", num.new("b")); st.add(cst(1 << 62) - n)
            for nm in [x for x in ("align", "G") if al == atom(x)]: self.ali(st, num, r, "align"); self.ali(st, num, r, "G")
            st.log += (("new", r, n, al, i),); self.take(num, st, Ptr(r), n, i); return [(st, "ok", Ptr(r)), bad]
        if name in ("operator delete", "operator delete[]"):
            al = num.num(st, a[-1]) if "align_val_t" in self.pool.M.dem(i.d["fn"]) else None
            p = a[0]
            if isinstance(p, P) and p.const() == 0: return ok()
            if isinstance(p, Ptr) and p.r[0] == "blk":
                cell = next((q for q in st.mem if q[0][0] == "elem" and show(q[0][1]) == p.r[1] and q[0][2] == p.r[2] and kind(self, q[0][1]) == "blocks"), None)
                want = atom("G") if self.pool.uniform else num.load(st, Ptr(cell[0], R["align"]), "i64") if cell and R["align"] is not None else None
                if p.off != cst(0): self.say({"M02"}, "given back", i, f"gives back a pointer into a block ({p.off} bytes from its start)")
                if want is not None and not (al is not None and st.entails(al - want) and st.entails(want - al)): self.say({"M02"}, "alignment", i, "gives a block back with another alignment than it was obtained with")
            elif not (isinstance(p, Ptr) and p.r[0] == "new"): self.say({"M02"}, "given back", i, "gives back memory that was not obtained from the system")
            st.log += (("del", p, al, i),); return ok()
        if name == "std::align":
            A, n = num.num(st, a[0]), num.num(st, a[1]); p = num.load(st, a[2], "ptr"); sp = num.num(st, num.load(st, a[3], "i64"))
            if isinstance(p, Ptr) and A is not None and n is not None and sp is not None:
                null = st.fork(); ad = num.addr(st, p.r) + p.off
                m = num.mod_(st, ad, "align" if A == atom("align") else repr(A), A) if A == atom("align") else atom(num.new("m"))
                pad = num.mod_(st, A - m, "align", A) if A == atom("align") else atom(num.new("pad"))
                st.add(pad, sp - pad - n); q = Ptr(p.r, p.off + pad); st.mem[(a[2].r, 0)] = q; st.mem[(a[3].r, 0)] = sp - pad
                return [(st, "ok", q)] * bool(st.possible()) + [(null, "ok", cst(0))]
        if cls in ("less", "greater", "less_equal", "greater_equal", "equal_to", "not_equal_to") and last == "operator()" and len(a) == 3:
            x, y = num.num(st, a[1]), num.num(st, a[2])
            if x is not None and y is not None: return ok(("cmp", {"less": "ult", "greater": "ugt", "less_equal": "ule", "greater_equal": "uge", "equal_to": "eq", "not_equal_to": "ne"}[cls], x, y))
        if cls == "vector":
            a0 = a[0]
            if isinstance(a0, Ptr):
                r = (a0.r, a0.off); d = self.pool.M.dem(i.d["fn"])
                k = "blocks" if "::block, std::alloc" in d else "free" if "std::vector<unsigned char*" in d else None
                if k and a0.r[0] != "obj": self.loc[r] = k
                if k: return self.vec(num, st, fn, i, last, r, a, k, d)
        if name == "std::remove_if" and len(a) >= 3 and isinstance(a[0], Ptr) and a[0].r[0] == "elem" and kind(self, a[0].r[1]) == "free":
            lam = [f for f in self.pool.M.functions.values() if f.dem.startswith(self.pool.cls) and "'lambda" in f.dem and "::operator()(" in f.dem and fn.dem.split("(")[0] in f.dem]
            if len(lam) != 1: raise GiveUp("predicate of remove_if")
            cap = num.new("cap"); s = st.fork(); p = Ptr(("free", num.new("p"))); 
            for n, x in enumerate(a[2:]): s.mem[(("loc", cap), 8 * n)] = x
            for s2, how, v in num.run(lam[0], [Ptr(("loc", cap)), p], s, 8):
                for s3 in num.assume(s2.fork(), v if isinstance(v, (P, tuple)) else ("named", "pred"), False):
                    if how == "ret" and s3.possible(): self.keptpiece(num, s3, p, i)
            st.log += (("discard", a[0].r[1]),)
            v = atom(num.new("kept")); st.add(v, num.sizeof(st, a[0].r[1]) - v)
            return [(st, "ok", Ptr(("elem", a[0].r[1], v)))]
        m = self.map(num, st, fn, i, name, parts, last, cls, a) if ("multimap" in name or "map::" in name or "_Rb_tree" in name or "_Node_handle" in name or name in ("std::__detail::operator!=", "std::operator!=", "std::operator==", "std::next", "std::prev") or last in ("operator!=", "operator==")) else None
        return m
    def keptpiece(self, num, st, p, i):
        """an entry that stays on the free list when the inline storage of the other resource is left behind"""
        lo = num.addr(st, OTHER) + self.pool.inline; x = num.addr(st, p.r) + p.off
        if not (st.entails(lo - x - 1) or st.entails(x - lo - self.pool.ss)): self.say({"M02"}, "inline", i, "keeps a free entry that can lie in the other resource's inline storage")
        else: self.ok({"M02"}, "a free entry that is kept does not lie in the other resource's inline storage", i.where())
    def vec(self, num, st, fn, i, last, r, a, k, d):
        def ok(v=None): return [(st, "ok", v)]
        R = self.roles(); n = num.sizeof(st, r) if last not in ("vector", "~vector") else None
        if k == "blocks":
            if last in ("push_back", "emplace_back"):
                s = st.fork(); s.log += (("fail",),); e = ("elem", r, n); st.size[r] = n + 1
                for q in [q for q in st.mem if q[0] == e]: num.kill(st, q)
                if len(a) == 2 and isinstance(a[1], Ptr):
                    for o in range(0, self.pool.bsize, 8): st.mem[(e, o)] = num.load(st, Ptr(a[1].r, a[1].off + o), "i64")
                else:
                    ps = [num.load(st, x, "ptr" if "char*" in d and j == len(a) - 2 else "i64") if isinstance(x, Ptr) else x for j, x in enumerate(a[1:])]
                    if self.pool.block is None: raise GiveUp("constructor of a block")
                    o = [t for t in num.run(self.pool.block, [Ptr(e)] + ps, st, 8) if t[1] == "ret"]
                    if len(o) != 1: raise GiveUp("constructor of a block")
                    st = o[0][0]
                self.record(num, st, e, i); return [(st, "ok", Ptr(e)), (s, "throw", None)]
            if last in ("clear", "~vector", "assign", "operator=", "resize", "erase", "insert", "swap", "vector", "emplace"):
                src = a[1] if len(a) > 1 and isinstance(a[1], Ptr) else None
                if last == "vector":
                    if src is None: st.size[r] = cst(0); st.x[("content", r)] = "none"; return ok()
                elif last in ("clear", "~vector", "operator=", "assign"): self.lost(num, st, r, i, last)
                elif last == "erase" or last == "resize" or last in ("insert", "emplace"): self.say({"M02"}, "record", i, f"{last} on the record of the blocks"); return None
                if last in ("clear", "~vector"): st.x[("content", r)] = "none"
                if last in ("operator=", "vector") and src is not None:
                    o = (src.r, src.off)
                    if "&&" not in d.split("vector(" if last == "vector" else "operator=(")[-1]:
                        self.say({"M02"}, "copied", i, "copies the record of the blocks, so that two resources give them back"); return None
                    c, z = self.content(st, o), num.sizeof(st, o); st.x[("orig", r)] = st.x.get(("orig", o), o); st.x[("content", r)] = c; st.x[("content", o)] = "none"; st.size[r] = z; st.size[o] = cst(0)
                    moved = {q: v for q, v in st.mem.items() if q[0][0] == "elem" and q[0][1] == o}
                    for q in [q for q in st.mem if q[0][0] == "elem" and q[0][1] in (r, o)]: num.kill(st, q)
                    for q, v in moved.items(): st.mem[(("elem", r, q[0][2]), q[1])] = Ptr(("blk", show(r), v.r[2]), v.off) if isinstance(v, Ptr) and v.r[0] == "blk" else v
                    return ok(Ptr(r[0], r[1]) if i.ty == "ptr" else None)
                if last == "operator=" and len(a) == 3: st.size[r] = cst(0); st.x[("content", r)] = "none"; return ok(Ptr(r[0], r[1]) if i.ty == "ptr" else None)
                if last == "swap" and src is not None:
                    o = (src.r, src.off); c, c2 = self.content(st, r), self.content(st, o); st.x[("content", r)], st.x[("content", o)] = c2, c
                    st.x[("orig", r)], st.x[("orig", o)] = st.x.get(("orig", o), o), st.x.get(("orig", r), r)
                    z, z2 = num.sizeof(st, r), num.sizeof(st, o); st.size[r], st.size[o] = z2, z
                    cells = {q: v for q, v in st.mem.items() if q[0][0] == "elem" and q[0][1] in (r, o)}
                    for q in cells: num.kill(st, q)
                    for q, v in cells.items():
                        t, w = q[0][1], o if q[0][1] == r else r
                        st.mem[(("elem", w, q[0][2]), q[1])] = Ptr(("blk", show(w), v.r[2]), v.off) if isinstance(v, Ptr) and v.r[0] == "blk" and v.r[1] == show(t) else v
                    return ok()
            if last == "pop_back":
                e = ("elem", r, n - 1); p = num.load(st, Ptr(e, R["data"]), "ptr"); st.log += (("unrecord", p, i),)
            return None
        if k == "free":
            if last in ("insert", "emplace") and len(a) == 3 and r[0] == THIS:
                at = a[1] if isinstance(a[1], Ptr) and a[1].r[0] == "elem" else st.mem.get((a[1].r, a[1].off.const())) if isinstance(a[1], Ptr) else None
                if not (isinstance(at, Ptr) and at.r[0] == "elem" and st.entails(at.r[2] - n) and st.entails(n - at.r[2])): raise GiveUp(f"{last} on the free list at {i.where()}")
                a = [a[0], a[2]]; last = "push_back"
            if last == "resize" and r[0] == THIS and len(a) > 1:
                m = num.num(st, a[1])
                if m is not None and st.entails(-m): st.size[r] = cst(0); st.x[("content", r)] = "none"; st.log += (("cleared", r),); return ok()
                if m is not None and st.entails(n - 1 - m) and st.entails(m + 1 - n):
                    p = num.load(st, Ptr(("elem", r, m)), "ptr"); st.size[r] = m
                    if isinstance(p, Ptr): self.take(num, st, p, atom("bytes"), i); num.kill(st, (("elem", r, m), 0))
                    return ok()
            if last in ("push_back", "emplace_back"):
                v = num.load(st, a[1], "ptr") if isinstance(a[1], Ptr) and a[1].r[0] == "loc" else a[1]
                s = st.fork(); s.log += (("fail",),)
                st.size[r] = n + 1; e = ("elem", r, n); st.mem[(e, 0)] = v
                if r[0] == THIS: self.give(num, st, v, atom("bytes"), i)
                return [(st, "ok", Ptr(e) if i.ty == "ptr" else None), (s, "throw", None)]
            if last == "pop_back" and r[0] == THIS:
                if not st.entails(n - 1): self.say({"M01", "M04"}, "empty", i, "takes from an empty free list")
                p = num.load(st, Ptr(("elem", r, n - 1)), "ptr")
                if isinstance(p, Ptr): self.take(num, st, p, atom("bytes"), i); num.kill(st, (("elem", r, n - 1), 0))
                return None
            if last in ("clear", "~vector") or last == "operator=" and len(a) == 3:
                st.x[("content", r)] = "none"; st.log += (("cleared", r),)
                if last == "operator=": st.size[r] = cst(0); return ok(Ptr(r[0], r[1]) if i.ty == "ptr" else None)
            if last == "resize" and r[0] == THIS:
                s = st.fork(); s.log += (("fail",),); m = num.num(st, a[1]); st.log += (("grown", r, n, m, i),); st.size[r] = m; st.add(cst(1 << 56) - m); return [(st, "ok", None)] * bool(st.possible()) + [(s, "throw", None)]
            if last in ("operator=", "vector") and len(a) > 1 and isinstance(a[1], Ptr):
                o = (a[1].r, a[1].off); st.x[("content", r)] = self.content(st, o)
                if "&&" in d.split("vector(" if last == "vector" else "operator=(")[-1]:
                    st.x[("content", o)] = "none"; st.size[r] = num.sizeof(st, o); st.size[o] = cst(0)
                    return ok(Ptr(r[0], r[1]) if i.ty == "ptr" else None)
            if last == "vector" and len(a) == 1: st.x[("content", r)] = "none"
            if last == "swap" and len(a) > 1 and isinstance(a[1], Ptr):
                o = (a[1].r, a[1].off); c, c2 = self.content(st, r), self.content(st, o); st.x[("content", r)], st.x[("content", o)] = c2, c
        return None
    def record(self, num, st, e, i):
        """a block is recorded"""
        cells = {o: num.load(st, Ptr(e, o), "i64") for o in range(0, self.pool.bsize, 8)}
        if self.pool.roles is None:
            news = [x for x in st.log if x[0] == "new"]; R = {"size": None, "data": None, "align": None}
            for o, v in cells.items():
                if isinstance(v, Ptr): R["data"] = o
            for o, v in cells.items():
                if news and o != R["data"] and v == news[-1][2] and R["size"] is None: R["size"] = o
                elif news and o != R["data"] and v == news[-1][3] and R["align"] is None: R["align"] = o
            left = [o for o in cells if o not in R.values()]
            for k in ("size", "align"):
                if R[k] is None and left: R[k] = left.pop(0)
            if R["data"] is None or R["size"] is None: raise CheckError(f"{self.pool.cls}: how a block is recorded is not recognised")
            self.pool.roles = R
        R = self.pool.roles; p = cells[R["data"]]
        if not (isinstance(p, Ptr) and p.r[0] == "new" and p.off == cst(0)): self.say({"M02"}, "record", i, "records a block that was not obtained from the system"); return
        new = next(x for x in st.log if x[0] == "new" and x[1] == p.r); sz = num.num(st, cells[R["size"]])
        if sz is None or not st.entails(new[2] - sz): self.say({"M01"}, "record", i, f"records a block of {new[2]} bytes as {sz} bytes")
        else: self.ok({"M01"}, "a block is recorded with a size it has", i.where())
        if sz is not None and not st.entails(sz - 1): self.say({"M01"}, "record", i, "records a block that may be empty")
        if self.pool.uniform and sz is not None and not st.entails(sz - atom("bytes")): self.say({"M01", "M03"}, "record", i, "records a block that may be too small for a request")
        al = atom("G") if self.pool.uniform else num.num(st, cells[R["align"]])
        if al is None or not (st.entails(al - new[3]) and st.entails(new[3] - al)): self.say({"M02"}, "alignment", i, f"a block aligned to {new[3]} is recorded as aligned to {al}")
        else: self.ok({"M02"}, "a block is recorded with the alignment it was obtained with", i.where())
        st.log += (("record", p.r, e, i),)
    # ---- the map of free pieces ----
    def node(self, num, st): return Ptr(("fnode", num.new("n")))
    def iter(self, num, st, p):
        """the node an iterator (in memory, or passed by value) leads to"""
        if isinstance(p, Ptr) and p.r[0] == "fnode": return p
        if isinstance(p, Ptr) and p.r[0] == "loc":
            v = st.mem.get((p.r, p.off.const()))
            if not (isinstance(v, Ptr) and v.r[0] == "fnode"): v = self.node(num, st); st.mem[(p.r, p.off.const())] = v
            return v
        if isinstance(p, U): return self.node(num, st)
        return None
    def block_at(self, num, st, p):
        R = self.roles(); return num.num(st, num.load(st, Ptr(p.r, p.off + R["size"]), "i64")), num.load(st, Ptr(p.r, p.off + R["data"]), "ptr")
    def map(self, num, st, fn, i, name, parts, last, cls, a):
        def ok(v=None): return [(st, "ok", v)]
        R = self.roles()
        def notend(n):
            if st.x.get(("named", ("end", n.r))) is not False:
                self.say({"M01", "M04"}, "end", i, "uses an entry of the free list that may not exist"); st.x[("named", ("end", n.r))] = False
        def gone(n):
            notend(n)
            if any(e[0] == "gone" and e[1] == n.r for e in st.log): self.say({"M01", "M04"}, "stale", i, "uses an entry that was taken off the free list")
        if cls in ("multimap", "map") and isinstance(a[1 if i.d.get("sret") else 0], Ptr):
            if i.d.get("sret"): dst, a = a[0], a[1:]
            r = (a[0].r, a[0].off); mine = r[0] == THIS
            if last in ("lower_bound", "upper_bound", "find"):
                n = self.node(num, st); k = num.num(st, num.load(st, a[1], "i64")) if isinstance(a[1], Ptr) else num.num(st, a[1])
                e = st.fork(); e.x[("named", ("end", n.r))] = True; e.x[("named", ("begin", n.r))] = e.x.get(("named", ("begin", n.r)))
                if e.x[("named", ("begin", n.r))] is None: del e.x[("named", ("begin", n.r))]
                st.x[("named", ("end", n.r))] = False; key = num.load(st, Ptr(n.r, 0), "i64"); st.add(key - k - (1 if last == "upper_bound" else 0))
                if last == "find": st.add(k - key)
                return [(st, "ok", n), (e, "ok", n)]
            if last in ("end", "cend"): return ok(("end",))
            if last in ("begin", "cbegin"):
                b = self.node(num, st); st.x[("named", ("begin", b.r))] = True; return ok(b)
            if last in ("size", "empty", "count"): return ok(U(num.new("free")))
            if last in ("emplace", "insert", "emplace_hint") and mine:
                args = a[2:] if last == "emplace_hint" else a[1:]; s = st.fork(); s.log += (("fail",),); nh = None
                if isinstance(args[0], Ptr) and isinstance(st.mem.get((args[0].r, 0)), tuple) and st.mem[(args[0].r, 0)][0] == "nh":
                    nh = st.mem[(args[0].r, 0)][1]; key, (sz, p) = num.num(st, num.load(st, Ptr(nh.r, 0), "i64")), self.block_at(num, st, Ptr(nh.r, 8)); st.log += (("gone", nh.r),) if False else (); st.mem[(args[0].r, 0)] = U("consumed")
                elif len(args) == 2:
                    key = num.num(st, num.load(st, args[0], "i64")) if isinstance(args[0], Ptr) else num.num(st, args[0])
                    if not isinstance(args[1], Ptr): raise GiveUp(f"entry of the free list at {i.where()}")
                    sz, p = self.block_at(num, st, args[1])
                elif isinstance(args[0], Ptr): key, (sz, p) = num.num(st, num.load(st, args[0], "i64")), self.block_at(num, st, Ptr(args[0].r, args[0].off + 8))
                else: raise GiveUp(f"entry of the free list at {i.where()}")
                res = self.node(num, st) if i.ty == "ptr" else U(num.new("r")) if i.ty != "void" else None
                outs = [] if nh is not None else [(s, "throw", None)]
                if cls == "map": d = st.fork(); d.log += (("duplicate", i),); outs.append((d, "ok", res))
                if sz is None or not (st.entails(key - sz) and st.entails(sz - key)): self.say({"M01", "M04"}, "key", i, f"puts a piece of {sz} bytes on the free list as one of {key}")
                self.give(num, st, p, sz, i); return [(st, "ok", res)] + outs
            if last in ("extract", "erase") and mine:
                if last == "erase" and len(a) == 2 or last == "extract":
                    n = self.iter(num, st, a[1])
                    if n is None: raise GiveUp(f"entry taken off the free list at {i.where()}")
                    gone(n); sz, p = self.block_at(num, st, Ptr(n.r, 8)); self.take(num, st, p, sz, i); st.log += (("gone", n.r),)
                    if last == "extract":
                        st.x[("handle", n.r)] = True
                        st.mem[(dst.r, 0)] = ("nh", n); return ok()
                    b = self.node(num, st)
                    if st.x.get(("named", ("begin", n.r))) is not None: st.x[("named", ("begin", b.r))] = st.x[("named", ("begin", n.r))]
                    return ok(b)
            if last in ("clear", "~multimap", "~map"): st.x[("content", r)] = "none"; st.log += (("cleared", r),); return ok()
            if last in ("operator=", "multimap", "map"):
                d = self.pool.M.dem(i.d["fn"])
                if len(a) > 1 and isinstance(a[1], Ptr) and "initializer" not in d.split("(")[-1]:
                    o = (a[1].r, a[1].off); st.x[("content", r)] = self.content(st, o); st.log += (("cleared", r),) if self.content(st, o) == "none" else ()
                    if "&&" in d.split(last + "(")[-1]: st.x[("content", o)] = "none"
                else: st.x[("content", r)] = "none"; st.log += (("cleared", r),)
                return ok(Ptr(r[0], r[1]) if i.ty == "ptr" else None)
            if last == "swap": 
                o = (a[1].r, a[1].off); c, c2 = self.content(st, r), self.content(st, o); st.x[("content", r)], st.x[("content", o)] = c2, c; return ok()
            if mine: raise GiveUp(f"{last} on the free list at {i.where()}")
        if cls in ("_Node_handle", "_Node_handle_common", "_Node_handle_base"):
            h = st.mem.get((a[0].r, 0)) if isinstance(a[0], Ptr) else None; n = h[1] if isinstance(h, tuple) and h[0] == "nh" else None
            if last in ("mapped", "key", "value") and n is not None: return ok(Ptr(n.r, 0 if last != "mapped" else 8))
            if last in ("empty", "operator bool"): return ok(U(num.new("nh")))
            return ok(U(num.new("nh")) if i.ty != "void" else None)
        if cls in ("_Rb_tree_iterator", "_Rb_tree_const_iterator"):
            if last == cls and len(a) == 2:
                n = self.iter(num, st, a[1]); st.mem[(a[0].r, 0)] = n if n is not None else U(num.new("it")); return ok()
            n = self.iter(num, st, a[0])
            if last in ("operator*", "operator->") and n is not None: gone(n); return ok(n)
            if last in ("operator++", "operator--") and n is not None:
                if last == "operator++": gone(n)
                elif st.x.get(("named", ("begin", n.r))) is not False: self.say({"M01", "M04"}, "begin", i, "steps before the first entry of the free list")
                m = self.node(num, st)
                if last == "operator--": st.x[("named", ("end", m.r))] = False
                else: st.x[("named", ("begin", m.r))] = False
                if isinstance(a[0], Ptr) and a[0].r[0] == "loc": st.mem[(a[0].r, a[0].off.const())] = m
                return ok(a[0] if len(a) == 1 else n)
        if last in ("next", "prev") and cls == "std" and isinstance(a[0], (Ptr, U)):
            n = self.iter(num, st, a[0])
            if n is not None and n.r[0] == "fnode":
                m = self.node(num, st)
                if last == "prev": st.x[("named", ("end", m.r))] = False
                return ok(m)
        if last in ("operator!=", "operator==") and len(a) == 2:
            def val(p): return st.mem.get((p.r, p.off.const())) if isinstance(p, Ptr) and p.r[0] == "loc" else p
            x, y = val(a[0]), val(a[1])
            if x == ("end",): x, y, a = y, x, [a[1], a[0]]
            if y == ("end",) or isinstance(y, Ptr) and y.r[0] == "fnode" or isinstance(x, Ptr) and x.r[0] == "fnode":
                n = self.iter(num, st, a[0]) if x != ("end",) else None
                if n is not None:
                    c = None
                    if y == ("end",): c = ("named", ("end", n.r))
                    else:
                        y = self.iter(num, st, a[1])
                        if y is not None and st.x.get(("named", ("begin", y.r))) is True: c = ("named", ("begin", n.r))
                    if c is not None: return ok(("not", c) if last == "operator!=" else c)
                    return ok(U(num.new("it")))
        return None
# ---------------------------------------------------------------- judging
def within(num, st, p, own):
    """the piece lies in owned pieces that follow each other"""
    s, n = num.addr(st, p[0].r) + p[0].off, p[1]
    for o in own:
        a, e = num.addr(st, o[0].r) + o[0].off, None; e = a + o[1]
        if not st.entails(s - a): continue
        chain = [o]
        for _ in range(4):
            if st.entails(e - s - n): return chain
            nx = next((q for q in own if q not in chain and st.entails(num.addr(st, q[0].r) + q[0].off - e) and st.entails(e - num.addr(st, q[0].r) - q[0].off)), None)
            if nx is None: break
            chain.append(nx); e = e + nx[1]
    return None
def apart(num, st, p, q, own):
    a, b = num.addr(st, p[0].r) + p[0].off, num.addr(st, q[0].r) + q[0].off
    if st.entails(b - a - p[1]) or st.entails(a - b - q[1]): return True
    x, y = within(num, st, p, own), within(num, st, q, own)
    return bool(x and y and not any(o in y for o in x))
def subst(p, v, q):
    d = P({})
    for k, x in p.d.items():
        t = P({tuple(a for a in k if a != v): x})
        for _ in range(k.count(v)): t = t * q
        d = d + t
    return d
def run_pool(M, cls, log=None):
    """{key: …} of everything found; obligations per property"""
    pool = Pool(M, cls); F = sorted(pool.fields); cand = [("ss", f) for f in F] + [("idx", f) for f in F] + [("last", f) for f in F] + [("in", g, h) for g in F for h in F if g != h] + ([("al", f) for f in F] if pool.uniform else [])
    blocks = cst(next(o for o, k in pool.vec.items() if k == "blocks")); bad, good = {}, {}
    for rnd in range(12):
        bad, good, drop = {}, {}, set(); nfun = 0; pool.cursorfields = set(); pool.blockcursor = set()
        for f in pool.fs:
            nm = f.base.split("::")[-1]; nfun += 1
            for empty in ((None,) if nm == pool.short and "&&" not in f.dem else [(x, y) for x in (True, False) for y in (True, False)] if nm == "operator=" else (True, False, "zero") if nm in ("do_allocate", "do_deallocate") else (True, False)):
                b, g, d = member(pool, f, nm, cand, blocks, empty)
                for k, v in b.items(): bad.setdefault(k, v)
                for k, v in g.items(): good[k] = good.get(k, set()) | v
                drop |= d
        if not drop: break
        cand = [x for x in cand if x not in drop]
    else: raise GiveUp(f"{cls}: invariants")
    return pool, bad, good, cand, nfun
def member(pool, f, nm, cand, blocks, empty):
    zero = empty == "zero"; empty = False if zero else empty; M = pool.M; ctor = nm == pool.short; move = "&&" in f.dem.split("(", 1)[1]; dtor = nm.startswith("~")
    na = set()
    for _ in range(60):
        c = C(pool, cand); num = PN(M, c, 20000); num.noassume = na; c.num = num; c.fn = nm; c.zero = zero; c.empty = empty is True; st = St(); al = atom("align"); st.add(al - 1, cst(1 << 62) - al, atom("bytes") - 1)
        st.ali[("pow", "align")] = True; st.ali[("mult", "align")] = ("align",)
        alive = []
        if not ctor: alive.append(THIS)
        if move: alive.append(OTHER)
        st.x["alive"] = tuple(alive)
        for o in (THIS, OTHER): c.ali(st, num, o, 16)
        if pool.uniform: st.add(atom("G") - 1, cst(1 << 62) - atom("G"), atom("bytes") - 1); st.ali[("pow", "G")] = True
        if pool.uniform and nm in ("do_allocate", "do_deallocate"): st.add(atom("G") - al, al - atom("G")); st.ali[("mult", "G")] = ("align", "G"); st.ali[("mult", "align")] = ("align", "G")
        for o in alive:
            n = num.sizeof(st, (o, blocks)); e = empty[alive.index(o)] if isinstance(empty, tuple) else empty
            if e is True: st.add(-n); st.size[(o, blocks)] = n = cst(0)
            elif e is False: st.add(n - 1)
            for fl in pool.fields:
                v = num.load(st, Ptr(o, fl), "i64")
                if ("al", fl) in cand and e is False: st.mem[(o, fl)] = v = atom("G")
                if ("ss", fl) in cand: st.add(cst(pool.ss) - v)
                if ("idx", fl) in cand:
                    if e is True: st.add(-v); st.mem[(o, fl)] = cst(0)
                    elif e is False: st.add(n - 1 - v)
                if ("last", fl) in cand: st.add(v + 1 - n)
                if pool.uniform and fl in pool.stable and nm in ("reset", "do_allocate", "release"): st.add(v - atom("bytes"))
            if e is False:
                for g in pool.fields:
                    for h in pool.fields:
                        if ("in", g, h) in cand:
                            k = num.num(st, st.mem[(o, g)]); st.add(num.num(st, num.load(st, Ptr(("elem", (o, blocks), k), c.roles()["size"]), "i64")) - num.num(st, st.mem[(o, h)]))
        old = {fl: num.num(st, st.mem[(THIS, fl)]) for fl in pool.fields if (THIS, fl) in st.mem}
        args = [Ptr(THIS)]
        if nm == "do_allocate": args += [cst(0) if zero else atom("bytes"), al]
        elif nm == "do_deallocate": st.add(cst(1 << 62) - atom("bytes")); args += [Ptr(("arg", "p")), cst(0) if zero else atom("bytes"), al]; c.ali(st, num, ("arg", "p"), "align"); c.ali(st, num, ("arg", "p"), "G")
        elif move: args += [Ptr(OTHER)]
        else:
            for k in range(1, len(f.d.get("params", [])) if hasattr(f, "d") else 1): args.append(atom(f"arg{k}"))
            if ctor: args += [atom("width"), atom("capacity")]; st.add(cst(W - 1) - atom("width"), cst(W - 1) - atom("capacity"))
        try: outs = num.run(f, args, st.fork()); break
        except Restart: pass
    else: raise GiveUp(f"{f.base}: loops")
    drop = set(); where = f.sp_where()
    # invariants
    for s, how, v in outs:
        if dtor: continue
        for o in [THIS] + ([OTHER] if move else []):
            if how == "throw" and ctor: continue
            n = num.sizeof(s, (o, blocks)); zero = s.entails(-n)
            for fl in pool.fields:
                x = num.num(s, num.load(s, Ptr(o, fl), "i64"))
                if ("ss", fl) in cand and (x is None or not s.entails(cst(pool.ss) - x)): drop.add(("ss", fl))
                if ("last", fl) in cand and (x is None or not s.entails(x + 1 - n)): drop.add(("last", fl))
                if ("idx", fl) in cand and (x is None or not (s.entails(-x) and (zero or s.entails(n - 1)) or s.entails(n - 1 - x) and s.entails(n - 1) or s.entails(-x))): drop.add(("idx", fl))
                if ("al", fl) in cand and not zero and (x is None or not (s.entails(x - atom("G")) and s.entails(atom("G") - x))): drop.add(("al", fl))
            for g in pool.fields:
                for h in pool.fields:
                    if ("in", g, h) in cand and not zero:
                        k, x = num.num(s, num.load(s, Ptr(o, g), "i64")), num.num(s, num.load(s, Ptr(o, h), "i64"))
                        t = s.fork(); z = num.num(t, num.load(t, Ptr(("elem", (o, blocks), k), c.roles()["size"]), "i64")) if k is not None else None
                        if x is None or z is None or not t.entails(z - x):
                            drop.add(("in", g, h))
    judge(c, num, f, nm, outs, old, blocks, where, ctor, move, dtor)
    return c.bad, c.good, drop
def judge(c, num, f, nm, outs, old, blocks, where, ctor, move, dtor):
    pool = c.pool; R = c.roles(); BY, A = atom("bytes"), atom("align")
    def field(s, o, fl): return num.num(s, num.load(s, Ptr(o, fl), "i64"))
    def base(s, upto):
        own = [(e[1], e[2]) for e in s.log[:upto] if e[0] == "take"]
        return own
    cands = None       # positions in the inline storage: fields that mark the end of what is in use there
    # give events, wherever they happen (in loops too)
    def deal(s, upto):
        own = base(s, upto)
        if nm == "do_deallocate": own.append((Ptr(("arg", "p")), cst(0) if c.zero else BY))
        return own
    for s, k in c.rec:
        e = s.log[k]; p, ln, i = e[1], e[2], e[3]; own = deal(s, k)
        if any(x[0] == "cleared" and x[1][0] == THIS and kind(c, x[1]) in ("free", "map") for x in s.log[:k]) and nm in ("reset", "release") and p.r[0] == "blk":
            cont = next((q[0] for q in s.mem if q[0][0] == "elem" and show(q[0][1]) == p.r[1] and q[0][2] == p.r[2]), ("elem", (THIS, blocks), p.r[2]))
            own.append((Ptr(p.r), num.num(s, num.load(s, Ptr(cont, R["size"]), "i64"))))
        P_ = {"M01", "M04"} if nm != "reset" else {"M01", "M03"}
        if p.r[0] == "free":      # a piece may be put back before what it was cut from is taken off
            ls = [[x for x in t.log[k + 1:] if x[0] == "take" and x[1].r == p.r] for t, _, _ in outs if t.log[:k + 1] == s.log[:k + 1]]
            if ls and all(ls): own.append((ls[0][0][1], ls[0][0][2]))
        if ln is None or not within(num, s, (p, ln), own): c.say(P_, "outside", i, f"{f.base.split('::')[-1]}: makes bytes available that are not the resource's to deal out ({p.off} and {ln} bytes on)")
        else: c.ok(P_, "what is put on the free list lies within what was taken", i.where())
        if pool.uniform and not s.divisible(num.addr(s, p.r) + p.off, "G") and not s.divisible(num.addr(s, p.r) + p.off, "align"): c.say({"M01"}, "unaligned", i, "puts a block on the free list that may not be aligned")
        for j, e2 in enumerate(s.log[:k]):
            if e2[0] == "give" and e2[2] is not None and ln is not None and not any(x[0] == "take" and x[1] == e2[1] for x in s.log[j:k]) and not any(x[0] == "cleared" for x in s.log[j:k]):
                if not apart(num, s, (e2[1], e2[2]), (p, ln), own): c.say({"M01", "M04"}, "overlap", i, "puts a piece on the free list that overlaps another that is on it")
        # the same statement in another round of its loop
        heads = [x for x in s.log[:k] if x[0] == "head"]
        for h in heads:
            if not any(lid == h[1] for lid in c.backs): continue
            inl = any(len(t.log) > k and t.log[:k + 1] == s.log[:k + 1] for t, nx in c.backs[h[1]])
            if not inl: continue
            vs = [v for q, (cont, ini, v) in h[5] if v.const() is None]; okk = False
            for t, nx in c.backs[h[1]]:
                for q, (cont, ini, v) in h[5]:
                    a = list(v.atoms())
                    if len(a) != 1 or not isinstance(nx.get(q), P): continue
                    if p.r[0] == "blk" and a[0] in p.r[2].atoms() and isinstance(nx[q], P) and t.entails(nx[q] - v - 1): okk = True
                    stepv = subst(p.off, a[0], nx[q]) - p.off
                    if ln is not None and (t.entails(stepv - ln) or t.entails(-stepv - ln)): okk = True
            if not okk and not p.r[0] == "free": c.say({"M01", "M04"}, "overlap", i, "puts overlapping pieces on the free list in different rounds of a loop")
            elif okk: c.ok({"M01"}, "pieces put on the free list in different rounds do not overlap", i.where())
    for s, how, v in outs:
        own = deal(s, len(s.log)); failed = any(e[0] == "fail" for e in s.log)
        gives = [e for e in s.log if e[0] == "give"]; takes = [e for e in s.log if e[0] == "take"]
        news = [e for e in s.log if e[0] == "new"]; dels = [e for e in s.log if e[0] == "del"]; recs = [e for e in s.log if e[0] == "record"]; unrec = [e for e in s.log if e[0] == "unrecord"]
        for e in news:
            d = [x for x in dels if isinstance(x[1], Ptr) and x[1].r == e[1]]; r = [x for x in recs if x[1] == e[1]]; u = [x for x in unrec if isinstance(x[1], Ptr) and x[1].r == e[1]]
            held = len(r) - len(u)
            if len(d) > 1: c.say({"M02"}, "twice", d[1][3], "gives a new block back twice")
            elif d and held: c.say({"M02"}, "kept", d[0][3], "gives a new block back although it stays recorded")
            elif not d and held != 1: c.say({"M02"}, "leak", e[4], "a new block is neither recorded nor given back" if not held else "a new block is recorded twice")
            else: c.ok({"M02"}, "a new block is recorded once, or given back once", e[4].where())
            for x in d:
                if x[2] is None or not (s.entails(x[2] - e[3]) and s.entails(e[3] - x[2])): c.say({"M02"}, "alignment", x[3], "gives a block back with another alignment than it was obtained with")
                if x[1].off != cst(0): c.say({"M02"}, "given back", x[3], "gives back a pointer into a block")
        for e in unrec:
            if not any(x[1] == e[1] for x in dels): c.say({"M02"}, "record", e[2], "forgets a block that is not given back")
        for e in gives:
            if e[1].r[0] == "new" and any(isinstance(x[1], Ptr) and x[1].r == e[1].r for x in dels): c.say({"M01"}, "dangling", e[3], "leaves pieces of a block on the free list that is given back")
        for k, g in enumerate(e for e in s.log if e[0] == "grown"):
            filled(c, num, s, g, how)
        if nm == "do_allocate" and how == "ret":
            zero = c.zero
            if isinstance(v, P) and v.const() == 0:
                if not zero: c.say({"M01"}, "null", where, "returns a null pointer for a request that is not empty")
                if zero and (gives or takes): c.say({"M04"}, "empty request", where, "changes the free list for an empty request")
                continue
            if not isinstance(v, Ptr): c.say({"M01"}, "result", where, "returns something that is not a block of the resource"); continue
            if zero: continue
            loc = f"result in {v.r[0]}"; pc = (v, BY); frm = next((e for e in takes if e[1].r == v.r), None)
            props = {"M01", "M04"} if v.r[0] == "free" else {"M01"}
            if v.r == THIS:
                F = [fl for fl in sorted(old) if old[fl] is not None]; beyond = {fl for fl in F if s.entails(v.off - pool.inline - old[fl])}
                past = {fl for fl in beyond for n in (field(s, THIS, fl),) if n is not None and s.entails(n + pool.inline - v.off - BY)}
                if not beyond: c.say({"M01"}, "overlap", where, "hands out bytes of the inline storage that are in use"); continue
                if not past: c.say({"M01"}, "overlap", where, "does not move past the bytes it hands out of the inline storage"); continue
                if not any(("ss", fl) in c.invs for fl in past): c.say({"M01"}, "inline", where, "the position in the inline storage can be beyond its end"); continue
                past = {fl for fl in past if ("ss", fl) in c.invs}; cands = past if cands is None else cands & past
                if not cands: c.say({"M01"}, "overlap", where, "does not keep one position in the inline storage"); continue
                if not (s.entails(v.off - pool.inline) and s.entails(cst(pool.inline + pool.ss) - v.off - BY)): c.say({"M01"}, "outside", where, "hands out bytes beyond the end of the inline storage"); continue
                c.ok({"M01"}, "a block in the inline storage lies within it, beyond what is in use", where)
            elif v.r[0] in ("new", "free"):
                if not within(num, s, pc, own): c.say(props, "undersized", where, f"hands out a block that may be smaller than requested, or lie outside what it owns ({loc})"); continue
                c.ok(props, f"a block that is handed out is large enough ({loc})", where)
            elif v.r[0] == "blk":
                x = cursor(c, num, s, v, BY, old, blocks)
                if x: c.say({"M01"}, "block", where, x); continue
                c.ok({"M01"}, "a block cut from the active block lies within it, beyond what is in use", where)
            else: c.say({"M01"}, "result", where, "returns something that is not a block of the resource"); continue
            if v.r[0] == "new" and not pool.recycles:
                x = cursor(c, num, s, v, BY, old, blocks)
                if x: c.say({"M01"}, "block", where, x)
            ad = num.addr(s, v.r) + v.off
            if not s.divisible(ad, "align") and not (pool.uniform and s.divisible(ad, "G")): c.say({"M01"}, "unaligned", where, f"hands out a block that may not be aligned as requested ({loc})")
            else: c.ok({"M01"}, f"a block that is handed out is aligned ({loc})", where)
            for e in gives:
                if e[2] is not None and not apart(num, s, (e[1], e[2]), pc, own): c.say({"M01", "M04"}, "overlap", e[3], "puts a piece on the free list that overlaps the block it hands out")
            for lid, bs in c.backs.items():
                if not any(e[0] == "head" and e[1] == lid for e in s.log): continue
                for t, nx in bs:
                    for e in c.since(t, lid):
                        if e[0] == "give" and e[2] is not None and not apart(num, t, (e[1], e[2]), pc, deal(t, len(t.log))): c.say({"M01", "M04"}, "overlap", e[3], "puts a piece on the free list that overlaps the block it hands out")
        if nm == "do_allocate" and how == "throw":
            for e in gives:
                if e[1].r[0] == "free" and not any(t[1].r == e[1].r and isinstance(t[1], Ptr) for t in takes): c.say({"M01", "M04"}, "overlap", e[3], "puts a piece on the free list that is still on it when it fails")
        if nm == "do_deallocate" and pool.recycles and how == "ret":
            zero = c.zero; p = num.addr(s, ("arg", "p"))
            if zero and (gives or takes): c.say({"M04"}, "empty", where, "changes the free list when an empty block is given back"); continue
            dup = next((e for e in s.log if e[0] == "duplicate"), None)
            cov = [e for e in gives if e[2] is not None and s.entails(p - num.addr(s, e[1].r) - e[1].off) and s.entails(num.addr(s, e[1].r) + e[1].off + e[2] - p - BY)]
            if dup is not None: c.say({"M04"}, "lost", dup[1], "loses a block that is given back when another of its size is free"); continue
            if not zero and not cov and not failed: c.say({"M04"}, "lost", where, "a block that is given back does not become available again"); continue
            if cov: c.ok({"M04"}, "a block that is given back is put on the free list", where)
            for t in takes:
                if not failed and t[2] is not None and not any(s.entails(num.addr(s, t[1].r) + t[1].off - num.addr(s, e[1].r) - e[1].off) and s.entails(num.addr(s, e[1].r) + e[1].off + e[2] - num.addr(s, t[1].r) - t[1].off - t[2]) for e in gives): c.say({"M04"}, "lost", t[3], "takes a piece off the free list that does not return to it")
        if nm == "do_allocate" and pool.recycles:
            for t in takes:          # what is left of a free piece returns to the list
                if t[1].r[0] != "free" or how != "ret" or pool.uniform or t[2] is None: continue
                tot = P({}); unk = False
                for e in gives:
                    if e[1].r == t[1].r: tot = tot + (e[2] if e[2] is not None else P({})); unk |= e[2] is None
                if isinstance(v, Ptr) and v.r == t[1].r: tot = tot + BY
                if not unk and not s.entails(tot - t[2]): c.say({"M04"}, "lost", t[3], "what is left of a free piece does not become available again")
                else: c.ok({"M04"}, "what is left of a free piece returns to the free list", t[3].where())
        if dtor and how == "ret": c.later.append((s, (THIS, blocks), num.sizeof(s, (THIS, blocks)), c.content(s, (THIS, blocks)), where, "destructor"))
        if not dtor and how == "ret": objects(c, num, s, blocks, where, move, nm)
        if nm == "reset" and how == "ret": resets(c, num, s, blocks, where)
    if cands: pool.cursorfields = pool.cursorfields & cands if pool.cursorfields else cands
    if nm not in ("reset", "release", "operator=") and not ctor and not dtor:
        for s, how, v in outs: kept(c, num, s, how, nm, old, blocks, where)
    for lid, bs in c.backs.items():
        for t, nx in bs:
            ev = c.since(t, lid)
            for e in ev:
                if e[0] == "unrecord" and not any(x[0] == "del" and x[1] == e[1] for x in ev): c.say({"M02"}, "record", e[2], "forgets a block that is not given back")
    for s, r, n, cont, i, how in c.later:
        if c.content(s, r) == "none" and how == "destructor": continue
        if s.entails(-n) or c.cleaned(num, s, r, n): c.ok({"M02"}, f"every block is given back before the record goes away ({how})", i.where() if hasattr(i, "where") else i)
        else: c.say({"M02"}, "leak", i, f"{f.base.split('::')[-1]}: the record of the blocks goes away ({how}) although they were not all given back, once each")
def kept(c, num, s, how, nm, old, blocks, where):
    """what is in use stays in use: the positions do not go back over it"""
    pool = c.pool; BY = atom("bytes")
    for fl in sorted(pool.cursorfields):
        x, o = num.num(s, num.load(s, Ptr(THIS, fl), "i64")), old.get(fl)
        if x is None or o is None: continue
        if s.entails(x - o): c.ok({"M01"}, f"{nm}: the position in the inline storage does not go back", where); continue
        p = num.addr(s, ("arg", "p")) - num.addr(s, THIS) - pool.inline
        if nm == "do_deallocate" and not c.zero and s.entails(x - p) and s.entails(p + BY - o): continue      # the last block
        c.say({"M01"}, "overlap", where, f"{nm}: the position in the inline storage goes back over bytes that may be in use")
    if pool.recycles or c.empty: return
    for g, h in sorted(pool.blockcursor):
        k, x = num.num(s, num.load(s, Ptr(THIS, g), "i64")), num.num(s, num.load(s, Ptr(THIS, h), "i64"))
        if old.get(g) is None or old.get(h) is None or k is None or x is None: continue
        if s.entails(k - old[g]) and (s.entails(k - old[g] - 1) or s.entails(x - old[h])): c.ok({"M01"}, f"{nm}: the position in the blocks does not go back", where)
        else: c.say({"M01"}, "overlap", where, f"{nm}: the position in the blocks goes back over bytes that may be in use")
def cursor(c, num, s, v, BY, old, blocks):
    """a block cut from the active block: within it, beyond what is in use, and the position moves past it"""
    pool = c.pool; R = c.roles(); F = sorted(pool.fields)
    for g in F:
        for h in F:
            if ("in", g, h) not in c.invs or ("idx", g) not in c.invs: continue
            k, x = num.num(s, num.load(s, Ptr(THIS, g), "i64")), num.num(s, num.load(s, Ptr(THIS, h), "i64"))
            if k is None or x is None: continue
            e = ("elem", (THIS, blocks), k); d = s.mem.get((e, R["data"])) or num.load(s, Ptr(e, R["data"]), "ptr")
            if not (isinstance(d, Ptr) and d.r == v.r): continue
            sz = num.num(s, num.load(s, Ptr(e, R["size"]), "i64")); o = v.off - d.off
            if not s.entails(x - o - BY): continue
            if not s.entails(sz - o - BY): return "hands out bytes beyond the end of the active block"
            same = old.get(g) is not None and s.entails(k - old[g]) and s.entails(old[g] - k) and v.r[0] == "blk"
            if same and not s.entails(o - old[h]): return "hands out bytes of the active block that are in use"
            if not same and v.r[0] == "blk" and not s.entails(k - old[g] - 1): return "hands out bytes of a block that is in use"
            pool.blockcursor.add((g, h)); return None
    return "does not move past the bytes it hands out of a block"
def filled(c, num, s, g, how):
    """entries a free list grows by are all given a block"""
    r, a, b, i = g[1], g[2], g[3], g[4]
    if how != "ret": return
    k = s.log.index(g); after = s.log[k + 1:]
    if any(e[0] == "cleared" and e[1] == r for e in after) or any(e[0] == "fail" for e in after): return
    if s.entails(a - b): return
    for e in after:
        if e[0] != "head": continue
        for q, (cont, ini, v) in e[5]:
            at = list(v.atoms())
            if len(at) != 1: continue
            for t, nx in c.backs.get(e[1], ()):
                for x in c.since(t, e[1]):
                    if x[0] == "slot" and x[1] == r and isinstance(nx.get(q), P) and t.entails(nx[q] - v - 1) and t.entails(v + 1 - nx[q]):
                        lo, co = subst(x[2], at[0], ini), x[2].d.get((at[0],), 0)
                        hi = subst(x[2], at[0], v - 1)
                        if co == 1 and s.entails(a - lo) and s.entails(hi - b + 1): c.ok({"M01", "M03"}, "every new entry of the free list gets a block", i.where()); return
                        if co == -1 and s.entails(lo - b + 1) and s.entails(a - hi): c.ok({"M01", "M03"}, "every new entry of the free list gets a block", i.where()); return
    c.say({"M01", "M03"}, "unfilled", i, "the free list grows by entries that are not given a block")
def objects(c, num, s, blocks, where, move, nm):
    """what each resource refers to is its own"""
    for o in [THIS] + ([OTHER] if move else []):
        r = (o, blocks); bt = c.content(s, r); n = num.sizeof(s, r); freed = s.x.get("freed", ())
        dels = [e for e in s.log if e[0] == "del" and isinstance(e[1], Ptr) and e[1].r[0] == "blk"]
        lists = [(o, cst(k)) for k, kd in c.pool.vec.items() if kd == "free"] + [(o, cst(k)) for k in c.pool.maps]
        gone = any(c.cleaned(num, s, r, n) for _ in (0,)) and bt != "none" and not s.entails(-n) and any(x[0] == "head" for x in s.log) and delloop(c, s)
        if bt != "none" and gone: c.say({"M02"}, "dangling", where, f"{nm}: still records blocks that were given back")
        for l in lists:
            ft = holds(c, s, l)
            if ft == "none": continue
            if ft[0] == "again":
                if bt == "none" or gone: c.say({"M02"}, "dangling", where, f"{nm}: keeps free entries of blocks that were given back")
                continue
            if bt != ft: c.say({"M02"}, "foreign", where, f"{nm}: keeps free entries of blocks it does not own")
            elif ft == ("of", OTHER) and o != OTHER:
                if any(e[0] == "discard" and e[1] == l for e in s.log) or discarded(c, num, s, l): c.ok({"M02"}, "free entries in the other resource's inline storage are left behind", where)
                else: c.say({"M02"}, "inline", where, f"{nm}: can keep free entries that lie in the other resource's inline storage")
            elif ft == ("of", o) and freed and bt not in (("of", o),): c.say({"M02"}, "dangling", where, f"{nm}: keeps free entries of blocks that were given back")
        if move:
            # positions in inline storage and in blocks of another resource
            pass
def holds(c, s, l):
    """what a free list refers to: entries put on it since it was cleared lead to the resource's own blocks"""
    ft = c.content(s, l)
    if ft != "none": return ft
    k = max([n for n, e in enumerate(s.log) if e[0] == "cleared" and e[1] == l], default=-1)
    def adds(ev, depth=0): return any(e[0] in ("give", "grown") or e[0] == "head" and depth < 4 and any(adds(c.since(t, e[1]), depth + 1) for t, nx in c.backs.get(e[1], ())) for e in ev)
    return ("again", l[0]) if adds(s.log[k + 1:]) else ft
def delloop(c, s):
    for e in s.log:
        if e[0] == "head":
            for t, nx in c.backs.get(e[1], ()):
                if any(x[0] == "del" for x in c.since(t, e[1])): return True
    return False
def discarded(c, num, s, l):
    """a loop over the whole map that leaves no entry in the other resource's inline storage"""
    for e in s.log:
        if e[0] != "head": continue
        bs = c.backs.get(e[1], ())
        if not bs: continue
        good = True; saw = False; lo = None
        for t, nx in bs:
            ev = c.since(t, e[1]); g = [x for x in ev if x[0] == "gone"]
            nodes = [r for (r, off) in t.mem if r[0] == "fnode" and off == 8 + c.roles()["data"]]
            if g: saw = True; continue
            for r in nodes[-1:]:
                x = num.addr(t, ("free", r[1])); lo = num.addr(t, OTHER) + c.pool.inline
                if not (t.entails(lo - x - 1) or t.entails(x - lo - c.pool.ss)): good = False
            if not nodes: good = False
        if good and saw: return True
    return False
def resets(c, num, s, blocks, where):
    pool = c.pool; R = c.roles(); r = (THIS, blocks); n = num.sizeof(s, r)
    # inline storage from the start: the fields that are positions in it
    for fl in sorted(pool.cursorfields):
        x = num.num(s, num.load(s, Ptr(THIS, fl), "i64"))
        if x is None or not s.entails(-x): c.say({"M03"}, "inline", where, "reset does not make the inline storage available from the start")
        else: c.ok({"M03"}, "reset makes the inline storage available from the start", where)
    lists = [(THIS, cst(k)) for k, kd in pool.vec.items() if kd == "free"] + [(THIS, cst(k)) for k in pool.maps]
    for l in lists:
        if c.content(s, l) != "none": c.say({"M03"}, "outstanding", where, "reset keeps entries of the free list, whose blocks may be dealt out twice")
    if s.entails(-n): c.ok({"M03"}, "reset keeps no block", where); return
    if not lists:
        for g in sorted(pool.fields):
            for h in sorted(pool.fields):
                if ("in", g, h) in c.invs and ("idx", g) in c.invs and g != h and s.entails(-num.num(s, num.load(s, Ptr(THIS, g), "i64"))) and s.entails(-num.num(s, num.load(s, Ptr(THIS, h), "i64"))): c.ok({"M03"}, "reset starts again with the first block", where); return
        c.say({"M03"}, "blocks", where, "reset keeps blocks that do not become available again"); return
    failed = any(e[0] == "fail" for e in s.log)
    for e in s.log:
        if e[0] != "head": continue
        for k, (cont, ini, v) in e[5]:
            if cont not in (None, r) or not (s.entails(ini) and s.entails(-ini)) or not s.entails(v - n): continue
            bs = c.backs.get(e[1], ()); good = bool(bs); why = ""
            for t, nx in bs:
                if not (isinstance(nx.get(k), P) and t.entails(nx[k] - v - 1) and t.entails(v + 1 - nx[k])): good = False; why = "skips blocks"; continue
                ev = c.since(t, e[1]); hit = False
                for x in ev:
                    if x[0] == "give" and x[1].r == ("blk", show(r), v): hit = True
                    if x[0] == "head":
                        for t2, nx2 in c.backs.get(x[1], ()):
                            if any(y[0] == "give" and y[1].r == ("blk", show(r), v) for y in c.since(t2, x[1])):
                                for k2, (c2, ini2, v2) in x[5]:
                                    if isinstance(nx2.get(k2), P) and t2.entails(nx2[k2] - v2 - 1):
                                        u = t.fork(); u.add(ini2 - v2)
                                        if not u.possible(): hit = True
                if not hit: good = False; why = "leaves out a block"
            if good: c.ok({"M03"}, "reset makes every block available again", where); return
            if bs and why: c.say({"M03"}, "blocks", where, f"reset {why} when it makes the blocks available again"); return
    c.say({"M03"}, "blocks", where, "reset keeps blocks without making them available again")

# ---------------------------------------------------------------- checks
NEED = {"monotonic_pool": 2, "homogeneous_pool": 2, "heterogeneous_pool": 2}
REV = [r"^std::reverse_iterator::", r"^std::vector::c?r(begin|end)$", r"^std::(pair::pair|make_pair)$", r"full:^(bool |auto )?std::(operator|make_reverse_iterator)[^(]*\((std::reverse_iterator<|__gnu_cxx::__normal_iterator<[^()]*\)$)"]
def poollib(): return lib([r"^chdr::(monotonic|homogeneous|heterogeneous)_pool", r"^chdr::"], inlines=REV)
def poolcheck(ID, rep, only=None):
    M = poollib(); seen = {}
    classes = sorted({m[1] for f in M.functions.values() for m in [re.match(r"(chdr::(?:monotonic|homogeneous|heterogeneous)_pool<[^:]*>)::", f.dem)] if m})
    for cls in classes:
        short = cls.split("<")[0].split("::")[-1]
        try: pool, bad, good, inv, nfun = run_pool(M, cls)
        except GiveUp as e: raise CheckError(f"{cls}: not followed: {e}")
        if not pool.recycles and only == "recycles": continue
        if not pool.cursorfields: raise CheckError(f"{cls}: no allocation from inline storage was recognised")
        names = {f.base.split("::")[-1] for f in pool.fs}; miss = {"do_allocate", "reset", "release", short, "~" + short, "operator="} | ({"do_deallocate"} if pool.recycles else set())
        if miss - names: raise CheckError(f"{cls}: members not found: {sorted(miss - names)}")
        seen[short] = seen.get(short, 0) + 1
        rep.count("classes analysed"); rep.count("members interpreted", nfun); rep.count("invariants established", len(inv))
        for (what, where), props in good.items():
            if ID in props: rep.ok(f"{short}: {what}", where)
        for (key, where), (props, why) in bad.items():
            if ID in props: rep.bad(f"{short}:{key}", where, f"{cls.split('::', 1)[1].replace('18446744073709551615ul', 'max').replace('ul', '')}: {why}")
    need = {k: v for k, v in NEED.items() if k != "monotonic_pool" or only != "recycles"}
    if any(seen.get(k, 0) < v for k, v in need.items()): raise CheckError(f"memory resources not found: {seen}")
