"""R02: pruning a graph never leaves an edge to a node it removed."""
from num import *
from solverir import lib
RULE = ("The pruning loop is interpreted on every path of a round over one node, with edges, lengths and lookups kept symbolic: where a node is recorded for removal it must have exactly two edges, to two different nodes other than itself that were both found in the graph, in each of which the edge back (this node, the same length) was found and erased, and an edge to the other neighbour with the sum of the two lengths was added or found to be there after the erasure; nothing else may have changed. On every path that does not record the node nothing may have changed. "
        "Everything recorded, and nothing else, is taken out of the graph before the record is forgotten or the function ends, and nodes are not added to or taken out of the graph while it is walked.")
TECH = "abstract interpretation over symbolic lookups (typestate per node: edges back found, erased, replaced), path-sensitive; completeness of the removal loop"
MIN_OB = 10
ASSUME = ["the graph is undirected: a node with an edge to another has exactly one edge back of the same length", "the members of std::unordered_map and std::vector do what the C++ standard says"]
SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4, "long": 8, "unsigned long": 8, "double": 8, "long long": 8, "unsigned long long": 8}
def targs(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()]
def tlist(dem, head):
    k = dem.index(head) + len(head); d = 1; j = k
    while d: d += {"<": 1, ">": -1}.get(dem[j], 0); j += 1
    return targs(dem[k:j - 1])
class N(Num):
    def elemsize(self, st, r):
        if r[0][0] == "loc": return self.isz
        return self.psz
    def step(self, fn, fr, i, st, depth):
        if i.op == "extractvalue" and "idx" in i.d:
            v = self.ev(st, fr, i.ops[0])
            if isinstance(v, tuple) and v[0] == "pair" and len(i.d["idx"]) == 1 and v[1 + i.d["idx"][0]] is not None: return [(st, "ok", v[1 + i.d["idx"][0]])]
        if i.op == "fadd":
            a, b = (self.num(st, self.ev(st, fr, o)) for o in i.ops)
            if a is not None and b is not None: return [(st, "ok", a + b)]
        return Num.step(self, fn, fr, i, st, depth)
    def cmp(self, st, pred, a, b):
        out = Num.cmp(self, st, pred, a, b)
        if pred in ("eq", "ne") and out:
            x, y = (v if isinstance(v, P) else self.num(st, v) if isinstance(v, U) else None for v in (a, b))
            if x is not None and y is not None:
                if pred == "eq" and unequal(st, x, y): return []
                if pred == "ne":
                    for s in out: s.x["ne"] = s.x.get("ne", ()) + (x - y,)
        return out
def unequal(st, x, y): return any(d == x - y or d == y - x for d in st.x.get("ne", ())) or st.entails(x - y - 1) or st.entails(y - x - 1)
class C(Client):
    def __init__(self): self.reset()
    def reset(self): self.bad = {}; self.rounds = []; self.drops = []
    def say(self, key, i, why): self.bad.setdefault((key, i.where()), why)
    def sec(self, ix, sc): return SIZES[sc] * ((SIZES[ix] + SIZES[sc] - 1) // SIZES[sc])
    # symbolic keys
    def node(self, num, st, key, known=False):
        for (k, r) in st.x.get("nodes", ()):
            if st.entails(k - key) and st.entails(key - k): return r
        r = ("node", num.new("n")); st.x["nodes"] = st.x.get("nodes", ()) + ((key, r),); st.mem[(r, 0)] = key
        if known: st.x[("named", ("in", r))] = True
        return r
    def keyof(self, st, r): return next(k for k, q in st.x.get("nodes", ()) if q == r)
    def fresh(self, st, region, off, v): pass
    def seg(self, st):
        l = list(st.log); k = max([n for n, e in enumerate(l) if e[0] in ("entry", "head")], default=-1)
        return (l[k] if k >= 0 else None), l[k + 1:]
    def head(self, num, fn, fr, st, b, inis):
        if self.seg(st)[1]: self.rounds.append((st.fork(), fn.blocks[b].insts[-1]))
        st.log += (("head", b, fn.name),)
    def back(self, num, fn, fr, st, b, prev): self.rounds.append((st, fn.blocks[b].insts[-1]))
    def pair(self, num, st, r, off, sec):
        v = st.mem.get((r, off.const()))
        if isinstance(v, tuple) and v and v[0] == "pair": return v[1], v[2]
        ty = "i64"
        a = num.num(st, num.load(st, Ptr(r, off), ty)); b = num.num(st, num.load(st, Ptr(r, off + sec), "float"))
        return a, b
    def bump(self, num, st, r):
        k = self.keyof(st, r)
        for k2, r2 in st.x.get("nodes", ()):
            if r2 == r or not unequal(st, k, k2):
                st.x[("ver", r2)] = st.x.get(("ver", r2), 0) + 1
                c = (r2, cst(8)); st.size.pop(c, None)
                for q in [q for q in st.mem if q[0][0] == "elem" and q[0][1][0] == r2]: num.kill(st, q)
    def bucket(self, p):
        """the node whose edges a container pointer is"""
        if isinstance(p, Ptr) and p.r[0] == "node" and p.off.const() == 8: return p.r
        if isinstance(p, Ptr) and p.r[0] == "elem" and p.r[1][0][0] == "node": return p.r[1][0]
        return None
    def need(self, st, r, i):
        if not st.x.get(("named", ("in", r))): self.say("deref", i, f"uses the node found for {self.keyof(st, r)} without having established that it exists"); st.x[("named", ("in", r))] = True
    def call(self, num, st, fn, i, name, a):
        parts = name.split("::"); last = parts[-1]; cls = parts[-2] if len(parts) > 1 else ""; dem = num.mod.dem(i.d["fn"]) if i.d.get("fn") else name
        def ok(v=None): return [(st, "ok", v)]
        def thr(): return [(st.fork(), "throw", None)]
        def key(p): 
            return num.num(st, num.load(st, p, "i64")) if isinstance(p, Ptr) else num.num(st, p)
        graphmap = cls == "unordered_map" and isinstance(a[0], Ptr) and a[0].r == ("obj", "this")
        if graphmap:
            if last in ("begin", "cbegin"): return ok(("it", num.new("walk")))
            if last in ("end", "cend"): return ok(("end",))
            if last == "size":
                v = atom(num.new("nodes")); st.add(v, cst(1 << 60) - v); return ok(v)
            if last in ("find", "count", "contains"):
                k = key(a[1])
                if k is None: raise GiveUp("key of a lookup")
                r = self.node(num, st, k)
                if last != "find": 
                    out = []
                    for tr in (True, False):
                        for s in num.assume(st.fork(), ("named", ("in", r)), tr): out.append((s, "ok", cst(int(tr))))
                    return out
                return ok(Ptr(r)) if True else None
            if last == "at":
                k = key(a[1]); r = self.node(num, st, k); s2 = st.fork(); st.x[("named", ("in", r))] = True
                return [(st, "ok", Ptr(r, 8)), (s2, "throw", None)]
            if last == "erase":
                w, _ = self.seg(st); p = a[1]
                if isinstance(p, Ptr) and p.r[0] == "elem" and p.r[1][0][0] == "loc": st.log += (("drop", p.r[1], p.r[2], i),)
                else:
                    k = key(p) if not (isinstance(p, Ptr) and p.r[0] == "node") else self.keyof(st, p.r)
                    if isinstance(p, tuple) and p[0] == "it": k = st.x.get(("walk", p))
                    st.log += (("dropkey", k, i),)
                return [(st, "ok", cst(1) if i.ty.startswith("i") else ("it", num.new("walk")))] + thr()
            if last in ("operator[]", "emplace", "insert", "try_emplace", "clear", "swap", "operator=", "insert_or_assign", "extract", "merge", "rehash"):
                self.say("mutate", i, f"calls {last} on the nodes of the graph while it is pruned"); return ok(U(num.new("m")) if i.ty != "void" else None)
            if last in ("empty", "max_size", "bucket_count"): return ok(U(num.new(last)))
        if cls in ("_Node_iterator", "_Node_const_iterator", "_Node_iterator_base"):
            p = a[0]; v = st.mem.get((p.r, 0)) if isinstance(p, Ptr) and p.r[0] == "loc" else p
            if last in ("operator*", "operator->"):
                if isinstance(v, Ptr) and v.r[0] == "node": self.need(st, v.r, i); return ok(v)
                if not (isinstance(v, tuple) and v[0] in ("it",)): v = ("it", num.new("walk")); st.mem[(p.r, 0)] = v
                if ("walk", v) not in st.x:
                    k = atom(num.new("key")); st.add(k, cst((1 << 56)) - k); st.x["nodes"] = (); 
                    for q in [q for q in st.mem if q[0][0] in ("node",) or q[0][0] == "elem" and q[0][1][0][0] == "node"]: num.kill(st, q)
                    r = self.node(num, st, k, True); st.x[("walk", v)] = k; st.x[("walkr", v)] = r; st.log += (("entry", k, i),)
                return ok(Ptr(st.x[("walkr", v)]))
            if last in ("operator++",):
                st.mem[(p.r, 0)] = ("it", num.new("walk")); return ok(p)
            if last == cls: 
                if len(a) > 1 and isinstance(a[1], Ptr): st.mem[(a[0].r, 0)] = st.mem.get((a[1].r, 0), a[1]) if a[1].r[0] == "loc" else a[1]
                return ok()
        if name in ("std::__detail::operator!=", "std::__detail::operator==") and len(a) == 2:
            x, y = (st.mem.get((p.r, 0)) if isinstance(p, Ptr) and p.r[0] == "loc" else p for p in a); ne = last == "operator!="
            if isinstance(y, Ptr) and y.r[0] == "node": x, y = y, x
            if isinstance(x, Ptr) and x.r[0] == "node" and y == ("end",): c = ("named", ("in", x.r)); return ok(c if ne else ("not", c))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r[0] == y.r[0] == "node":
                k1, k2 = self.keyof(st, x.r), self.keyof(st, y.r); return ok(("cmp", "ne" if ne else "eq", k1, k2))
            return ok(U(num.new("cmp")))
        if name == "std::get":
            m = re.search(r"std::get<(\d)ul", dem); t = tlist(dem, "std::get<")
            if m and len(t) == 3 and isinstance(a[0], Ptr):
                if m[1] == "0": return ok(a[0])
                b = t[2].replace(" const", ""); off = self.sec(t[1].replace(" const", ""), b) if b in SIZES else 8
                return ok(Ptr(a[0].r, a[0].off + off))
        if name == "std::make_pair" or name == "std::pair::pair" and len(a) == 3 or name == "std::pair::pair" and len(a) == 2:
            if name == "std::make_pair":
                t = tlist(dem, "std::make_pair<"); sret = i.d.get("sret"); x, y = a[-2], a[-1]
            else:
                t = tlist(dem, "std::pair<"); sret = True
                if len(a) == 2:
                    if not isinstance(a[1], Ptr): return None
                    s = self.sec(t[0], t[1]) if t[0] in SIZES and t[1] in SIZES else 8
                    st.mem[(a[0].r, a[0].off.const())] = ("pair",) + self.pair(num, st, a[1].r, a[1].off, s); return ok()
                x, y = a[1], a[2]
            v = ("pair", num.num(st, num.load(st, x, "i64")) if isinstance(x, Ptr) else num.num(st, x), num.num(st, num.load(st, y, "float")) if isinstance(y, Ptr) else num.num(st, y))
            if sret: st.mem[(a[0].r, a[0].off.const() or 0)] = v; return ok()
            return ok(v)
        if name == "std::find":
            b = self.bucket(a[0])
            if b is not None and self.bucket(a[1]) == b and a[0].r[2] == cst(0):
                num.isz = num.isz
                p, q = self.pair(num, st, a[2].r, a[2].off, num.sec)
                n = num.sizeof(st, (b, cst(8))); same_ = st.entails(a[1].r[2] - n) and st.entails(n - a[1].r[2])
                if not same_: raise GiveUp("std::find over a part of the edges")
                for (bb, ver, p2, q2, pos) in st.x.get("has", ()):
                    if bb == b and ver == st.x.get(("ver", b), 0) and p2 == p and q2 == q: return ok(Ptr(("elem", (b, cst(8)), pos)))
                out = []
                s = st.fork(); pos = atom(num.new("pos")); s.add(pos, n - pos - 1)
                s.x["has"] = s.x.get("has", ()) + ((b, s.x.get(("ver", b), 0), p, q, pos),); e = ("elem", (b, cst(8)), pos)
                s.mem[(e, 0)] = p; s.mem[(e, num.sec)] = q; out.append((s, "ok", Ptr(e)))
                s = st.fork(); s.x["has"] = s.x.get("has", ()) + ((b, s.x.get(("ver", b), 0), p, q, n),); out.append((s, "ok", Ptr(("elem", (b, cst(8)), n))))
                return out
            raise GiveUp(f"std::find at {i.where()}")
        if cls == "vector" and isinstance(a[0], Ptr):
            b = self.bucket(a[0])
            if b is not None and last in ("erase", "push_back", "emplace_back", "pop_back", "clear", "insert", "emplace", "resize", "assign", "operator=", "swap"):
                ver = st.x.get(("ver", b), 0)
                if last == "erase" and len(a) == 2 and isinstance(a[1], Ptr) and a[1].r[0] == "elem":
                    h = next(((p, q) for (bb, v, p, q, pos) in st.x.get("has", ()) if bb == b and v == ver and pos == a[1].r[2]), None)
                    if h is None: h = self.pair(num, st, a[1].r, cst(0), num.sec)
                    st.log += (("erase", b, h[0], h[1], i),)
                elif last in ("push_back", "emplace_back"):
                    if len(a) == 2: p, q = self.pair(num, st, a[1].r, a[1].off, num.sec)
                    else: p, q = (num.num(st, num.load(st, x, "i64")) if isinstance(x, Ptr) else num.num(st, x) for x in a[1:3])
                    st.log += (("add", b, p, q, i),)
                else: st.log += (("other", b, last, i),)
                e2 = st.fork(); self.bump(num, st, b)
                st.log += (("ver", b, st.x[("ver", b)]),)
                return [(st, "ok", U(num.new("r")) if i.ty != "void" else None), (e2, "throw", None)]
            if b is not None: self.need(st, b, i)
            if a[0].r[0] == "loc" and last in ("push_back", "emplace_back", "insert"):
                c = (a[0].r, a[0].off)
                if len(a) == 2 and isinstance(a[1], Ptr):
                    st.log += (("record", c, key(a[1]), i),)
            if a[0].r[0] == "loc" and last in ("pop_back", "erase", "resize", "swap"): self.say("record", i, f"{last} on the record of removed nodes")
        if last == "malloc_consolidate": return ok(cst(0) if i.ty.startswith("i") else None)
        return None
def judge(c, num, st, at, rep, name, obs):
    """one round over a node"""
    w, seg = c.seg(st)
    mut = [e for e in seg if e[0] in ("erase", "add", "other", "record", "dropkey")]
    if w is None or w[0] == "head":
        for e in mut: c.say("outside", e[-1], f"changes the graph ({e[0]}) outside a round over one of its nodes")
        return
    K = w[1]; self_ = c.node(num, st, K); drop = [e for e in seg if e[0] == "dropkey"]; rec = [e for e in seg if e[0] == "record"]
    same = lambda x, y: x is not None and y is not None and (x == y or st.entails(x - y) and st.entails(y - x))
    if not rec and not drop:
        for e in mut: c.say("kept", e[-1], f"changes the edges of a neighbour ({e[0]}) although the node it walks over is kept")
        if not mut: obs.add(("a node that is kept changes nothing", at.where()))
        return
    where = (rec + drop)[0][-1]
    for e in rec:
        if not same(e[2], K): c.say("record", e[-1], f"records {e[2]} for removal instead of the node the round is about")
    for e in drop:
        c.say("mutate", e[-1], "takes a node out of the graph while it is walked")
        if not same(e[1], K): c.say("record", e[-1], f"takes {e[1]} out of the graph instead of the node the round is about")
    n = st.size.get((self_, cst(8)))
    if n is None or not same(n, cst(2)): c.say("degree", where, f"removes a node without having established that it has exactly two edges"); return
    E = []
    for k in (0, 1):
        r = ("elem", (self_, cst(8)), cst(k)); E.append((num.num(st, num.load(st, Ptr(r), "i64")), num.num(st, num.load(st, Ptr(r, num.sec), "float"))))
    (n1, c1), (n2, c2) = E
    def differ(x, y):
        return unequal(st, x, y) or not num.assume(st.fork(), ("cmp", "eq", x, y), True)
    if not differ(n1, n2): c.say("parallel", where, "removes a node without having established that its two edges lead to different nodes"); return
    left = list(mut); fine = True
    for (a, ca), (b, cb) in ((E[0], E[1]), (E[1], E[0])):
        r = next((q for k, q in st.x["nodes"] if same(k, a)), None)
        if r is None or not st.x.get(("named", ("in", r))): c.say("neighbour", where, "removes a node although a neighbour was not found to be in the graph"); fine = False; continue
        if not differ(a, K): c.say("loop", where, "removes a node that can have an edge to itself"); fine = False; continue
        er = [e for e in left if e[0] == "erase" and e[1] == r]
        if len(er) != 1 or not same(er[0][2], K) or not same(er[0][3], ca):
            c.say("edge back", where, "removes a node although the edge back to it from a neighbour is not erased" if not er else f"erases the edge to {er[0][2]} of length {er[0][3]} where the edge back is to {K} of length {ca}"); fine = False
            left = [e for e in left if e not in er]; continue
        left.remove(er[0])
        ad = [e for e in left if e[0] == "add" and e[1] == r]; total = c1 + c2
        def tot(q): return q is not None and (same(q, total) or st.entails(total - q - (1 << 32)) and st.entails(q + (1 << 32) - total))
        if len(ad) == 1 and same(ad[0][2], b) and tot(ad[0][3]): left.remove(ad[0])
        elif not ad and any(bb == r and ver >= 1 and same(p, b) and tot(q) and not same(pos, st.size.get((r, cst(8)), pos + 1)) for (bb, ver, p, q, pos) in st.x.get("has", ()) if ver == st.x.get(("ver", r), 0)): pass
        else:
            c.say("replacement", where, "removes a node although its neighbours are not joined: " + ("no edge is added" if not ad else f"the edge added leads to {ad[0][2]} with length {ad[0][3]}, not to {b} with {total}")); fine = False
            left = [e for e in left if e not in ad]
    for e in left:
        if e[0] in ("erase", "add", "other"): c.say("extra", e[-1], f"changes other edges ({e[0]}) when it removes a node"); fine = False
    if fine: obs.add((f"both edges back are erased and replaced by an edge of the summed length when a node is removed", where.where()))
def succs(fn, b):
    t = fn.blocks[b].insts[-1]; out = list(t.d.get("succ") or [])
    if t.op == "invoke": out.append(t.d["normal"])
    if t.op == "switch": out += [d for _, d in t.d.get("cases", [])] + [t.d["default"]]
    return out
def removal(M, f, rep, name, st_):
    """the record is emptied into erasures before it is forgotten"""
    def tup(o): return tuple(o) if isinstance(o, list) else o
    recs = []
    for i in f.insts():
        if i.op in ("call", "invoke") and f.callee(i) in ("std::vector::emplace_back", "std::vector::push_back") and isinstance(i.ops[0], int) and f.inst[i.ops[0]].op == "alloca": recs.append(i)
    direct = [i for i in f.insts() if i.op in ("call", "invoke") and f.callee(i) == "std::unordered_map::erase"]
    if not recs and not direct: rep.bad("removal", f.sp_where(), "nothing is ever removed from the graph"); return
    if not recs: return
    V = recs[0].ops[0]; loops = f.loops(); full = set()
    for d in direct:
        inl = [h for h, b in loops.items() if d.bb in b]
        if not inl: continue
        h = min(inl, key=lambda h: len(loops[h])); body = loops[h]
        o = d.ops[1]; n = 0
        while isinstance(o, int) and n < 8 and f.inst[o].op in ("load",) or isinstance(o, int) and f.inst[o].op in ("call", "invoke") and f.callee(f.inst[o]).endswith(("operator*",)): o = tup(f.inst[o].ops[0]); n += 1
        if isinstance(o, int) and f.inst[o].op == "alloca":         # a copy of the element
            s = [j for j in f.insts() if j.op == "store" and j.ops[1] == o and j.bb in body]
            if len(s) == 1: o = s[0].ops[0]
            while isinstance(o, int) and f.inst[o].op == "load": o = tup(f.inst[o].ops[0])
        p = f.inst.get(o) if isinstance(o, int) else None; good = False; why = "does not go over all recorded nodes"
        latches = [b for b in body if h in succs(f, b)]
        if not all(f.dominates(d.bb, l) for l in latches): why = "does not erase every recorded node"
        exits = [(b, s) for b in body for s in succs(f, b) if s not in body]
        def call(o, suffix): 
            return isinstance(o, int) and f.inst[o].op in ("call", "invoke") and f.callee(f.inst[o]).startswith("std::vector::") and f.callee(f.inst[o]).split("::")[-1] in suffix and f.inst[o].ops[0] == V
        if p is not None and p.op == "phi" and p.bb == h:
            ini = [tup(v) for b, v in p.d["in"] if b not in body]; nx = [v for b, v in p.d["in"] if b in body]
            c = f.inst.get(f.blocks[h].insts[-1].ops[0]) if f.blocks[h].insts[-1].ops else None
            step = all(isinstance(v, int) and f.inst[v].op == "getelementptr" and tup(f.inst[v].d["base"]) == o and (f.inst[v].d.get("off") or 0) == st_ and not f.inst[v].d.get("var") for v in nx)
            good = all(call(v, ("begin", "cbegin", "data")) for v in ini) and step and c is not None and c.op == "icmp" and c.d["pred"] in ("ne", "eq") and o in c.ops and any(call(v, ("end", "cend")) for v in c.ops if v != o)
        elif p is not None and p.op in ("call", "invoke") and f.callee(p).split("::")[-1] in ("operator[]", "at") and p.ops[0] == V and isinstance(p.ops[1], int) and f.inst[p.ops[1]].op == "phi":
            q = f.inst[p.ops[1]]; ini = [tup(v) for b, v in q.d["in"] if b not in body]; nx = [v for b, v in q.d["in"] if b in body]
            c = f.inst.get(f.blocks[h].insts[-1].ops[0]) if f.blocks[h].insts[-1].ops else None
            good = q.bb == h and all(v[0] == "c" and str(v[1]) == "0" for v in ini if isinstance(v, tuple)) and all(isinstance(v, int) and f.inst[v].op == "add" and any(isinstance(x, tuple) and str(x[1]) == "1" for x in f.inst[v].ops) for v in nx) and c is not None and c.op == "icmp" and c.d["pred"] in ("ult", "ne") and c.ops[0] == q.id and call(c.ops[1], ("size",))
        if good and any(b != h for b, s in exits): good = False; why = "can be left before every recorded node is erased"
        if good and all(f.dominates(d.bb, l) for l in latches): full |= set(exits); rep.ok(f"{name}: every recorded node is taken out of the graph", d.where())
        else: rep.bad("removal", d.where(), f"{name}: the loop that takes nodes out of the graph {why}")
    # pending records
    pend = {f.entry: False}; work = [f.entry]; seen = set()
    while work:
        b = work.pop(); s = pend[b]
        for i in f.blocks[b].insts:
            if i in recs: s = True
            if s and i.op in ("call", "invoke") and f.callee(i).startswith("std::vector::") and f.callee(i).split("::")[-1] in ("clear", "~vector", "resize", "swap", "operator=") and i.ops[0] == V and i.id not in seen:
                seen.add(i.id); rep.bad("forgotten", i.where(), f"{name}: recorded nodes can be forgotten before they are taken out of the graph")
            if s and i.op == "ret": rep.bad("forgotten", i.where(), f"{name}: the function can end with recorded nodes still in the graph")
        for d in succs(f, b):
            v = s and (b, d) not in full
            if d not in pend or v and not pend[d]: pend[d] = pend.get(d, False) or v; work.append(d)
    if not seen: rep.ok(f"{name}: no record is forgotten before the node is taken out", f.sp_where())
def run(rep, tier):
    M = lib([r"^chdr::mazes::graph::", r"^chdr::"]); fs = [f for f in M.functions.values() if re.match(r"chdr::mazes::graph::prune(<.*>)?$", f.base) and "lambda" not in f.dem]
    if not fs: raise CheckError("graph::prune is gone")
    for f in fs:
        m = re.search(r"chdr::mazes::graph<([^<>]*)>::prune", f.dem); ix, sc = targs(m[1]); name = f"graph<{m[1]}>::prune"
        c = C(); num = N(M, c, 20000); num.isz = SIZES[ix]; num.sec = c.sec(ix, sc); al = max(SIZES[ix], SIZES[sc]); num.psz = (num.sec + SIZES[sc] + al - 1) // al * al
        st = St(); obs = set()
        try:
            for _ in range(60):
                c.reset()
                try: outs = num.run(f, [Ptr(("obj", "this"))], st.fork()); break
                except Restart: num.n = 0; num.cnt = {}; num.paths = 0
            else: raise GiveUp("loops")
        except GiveUp as e: raise CheckError(f"{name}: {e}")
        ends = [(s, at) for s, at in c.rounds] + [(s, f.blocks[f.order[-1]].insts[-1]) for s, how, v in outs if how == "ret"]
        for s, at in ends: judge(c, num, s, at, rep, name, obs)
        for (k, w), why in sorted(c.bad.items()): rep.bad(k, w, f"{name} {why}")
        for o, w in sorted(obs): rep.ok(f"{name}: {o}", w)
        if not any("erased and replaced" in o for o, w in obs) and not c.bad: raise CheckError(f"{name}: no path removes a node")
        removal(M, f, rep, name, SIZES[ix]); rep.count("rounds over a node, by path", len(ends))
