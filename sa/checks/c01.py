"""C01: the heap's parent and child positions are inverse, for every arity."""
from heaps import *
RULE = ("For arities 2, 4 and 5 and every size: the member that moves an element up only moves an element down into the gap from a position entailed to be the gap's parent (K(p-1)+2 <= gap <= K(p-1)+K+1), after the order said so, and only stops at the top or where the order says that the parent may stay; "
        "the member that moves an element down only lifts a child of the gap that was compared with every other child that exists, and only stops where no child exists or the best child may stay below. Insertion lifts the new last element; removal fills the gap with the last element and moves it in the direction the order demands; building a heap and removing a range sift down every position from the last parent or later to the first. The top is the first position.")
TECH = "abstract interpretation over linear inequalities with a moving-gap typestate (positions of the gap, comparisons made, children scanned), all paths, every size, per arity"
MIN_OB = 100
ASSUME = ["the comparison handed to the heap is a strict weak ordering (S13 decides that for the solvers' own)", "the members of std::vector do what the C++ standard says"]
class Order(HeapClient):
    """follows the gap an element leaves while it is moved"""
    def __init__(self, kd, name): super().__init__(name not in ("sort_up", "sort_down")); self.kd = kd; self.name = name; self.noscan = set(); self.nohole = set(); self.res = {}
    def done(self, key, where, good, why): 
        o = self.res.setdefault((key, where), [True, None])
        if not good: o[0] = False; o[1] = why
    # ---- positions ----
    def same(self, st, a, b): return a == b or st.entails(a - b) and st.entails(b - a)
    def isparent(self, st, p, c): return st.entails(p - 1) and st.entails(c - p * self.kd + self.kd - 2) and st.entails(p * self.kd + 1 - c)
    def what(self, st, w):
        """a compared object: an element's position, or the value that is being moved"""
        if w[0] == "elem":
            h = st.x.get("hole")
            return ("elem", w[1])
        h = st.x.get("hole")
        return ("moved",) if h and h[1] is not None and w[0] == "value" and w[1] == st.mem.get((h[1], "obj")) else ("other", w)
    def notless(self, st, x, y):
        """the order was found not to put y above x"""
        def eq(a, b): return a == b or a[0] == b[0] == "elem" and self.same(st, a[1], b[1])
        for a, b, n in st.x.get("cmps", ()):
            t = st.x.get(("named", n))
            if t is False and eq(a, x) and eq(b, y) or t is True and eq(a, y) and eq(b, x): return True
        return False
    def best(self, num, st, h, b):
        """b is a child of h, and no child of h that exists is above it"""
        n = num.sizeof(st, THIS); c0 = h * self.kd - self.kd + 2
        if not (self.isparent(st, h, b) and st.entails(n - b - 1)): return False
        for m in range(self.kd):
            c = c0 + m
            if self.same(st, c, b) or st.entails(c - n): continue
            if self.notless(st, ("elem", b), ("elem", c)): continue
            for bs, j, s0 in st.x.get("scans", ()):
                if not self.same(st, bs, b) or not st.entails(c - s0): continue
                t = st.fork(); t.add(c - j, n - 1 - c)
                if not t.possible(): break
            else: return False
        return True
    # ---- events ----
    def call(self, num, st, fn, i, name, a):
        r = super().call(num, st, fn, i, name, a)
        if r is not None and name.split("::")[-1] == "operator()" and st.log and st.log[-1][0] == "cmp":
            e = st.log[-1]; st.x["cmps"] = st.x.get("cmps", ()) + ((self.what(st, e[1]), self.what(st, e[2]), e[3]),)
        return r
    def moved(self, num, st, i, d, s, swap=False):
        """the element at s goes to the gap at d, and leaves a gap at s"""
        up = self.name == "sort_up"; v = ("elem", d) if swap else ("moved",); k = "lifted" if not up else "lowered"
        if up:
            self.done("only the gap's parent moves down", i.where(), self.isparent(st, s, d), f"position {s} is not shown to be the parent of {d}")
            self.done("an element only moves down below one the order does not put under it", i.where(), self.notless(st, v, ("elem", s)), f"nothing says that the element of position {s} may go below the one being moved")
        else:
            self.done("only the best of all existing children moves up", i.where(), self.best(num, st, d, s), f"position {s} is not shown to be the best of all children of {d} that exist")
            self.done("a child only moves up above one the order does not put over it", i.where(), self.notless(st, ("elem", s), v), f"nothing says that the element of position {s} may go above the one being moved")
    def stops(self, num, st, where, h, v):
        n = num.sizeof(st, THIS)
        if self.name == "sort_up":
            good = st.entails(cst(1) - h) or st.entails(cst(2) - n)
            if not good:
                for a, b, nm in st.x.get("cmps", ()):
                    for q in (a, b):
                        if q[0] == "elem" and self.isparent(st, q[1], h) and self.notless(st, q, v): good = True
            self.done("moving up ends at the top or below a parent that may stay", where, good, f"it ends at {h} without that")
        else:
            good = st.entails(h * self.kd - self.kd + 2 - n) or st.entails(cst(2) - n)
            if not good:
                for a, b, nm in st.x.get("cmps", ()):
                    for q in (a, b):
                        if q[0] == "elem" and self.notless(st, v, q) and self.best(num, st, h, q[1]): good = True
            self.done("moving down ends where no child exists or above the best child", where, good, f"it ends at {h} without that")
    def swap(self, num, st, i, a, b):
        if self.intercept: return
        h = st.x.get("pos", st.x.get("k")); x, y = a.r[2], b.r[2]
        if h is None: return
        if self.same(st, y, h): x, y = y, x
        if not self.same(st, x, h): self.done("only the element that is out of place is exchanged", i.where(), False, f"{x} and {y} are, with the element at {h}"); return
        self.moved(num, st, i, x, y, True); st.x["pos"] = y; st.x["cmps"] = (); st.x["scans"] = ()
    def copy(self, num, st, i, d, s, n):
        super().copy(num, st, i, d, s, n)
        if self.intercept: return
        D, S = self.at(num, st, d), self.at(num, st, s); h = st.x.get("hole")
        if D[0] != "elem":
            if S[0] == "elem" and h is None and d.r[0] == "loc":
                st.x["hole"] = (S[1], d.r, True); st.x["cmps"] = ()
                self.done("it is the given element that moves", i.where(), self.same(st, S[1], st.x["k"]), f"{S[1]} moves instead of {st.x['k']}")
            return
        if h is None or not h[2]: self.done("an element only changes after it was taken out", i.where(), False, f"position {D[1]} is overwritten"); return
        if not self.same(st, D[1], h[0]): self.done("only the gap is filled", i.where(), False, f"position {D[1]} is overwritten while the gap is at {h[0]}"); return
        if S[0] == "elem":
            self.moved(num, st, i, D[1], S[1]); st.x["hole"] = (S[1], h[1], True)
        elif S[1] == st.mem.get((h[1], "obj")):
            self.stops(num, st, i.where(), h[0], ("moved",)); st.x["hole"] = (h[0], h[1], False)
        else: self.done("the gap is filled with the element that moves", i.where(), False, "something else is stored")
        st.x["cmps"] = (); st.x["scans"] = ()
    # ---- loops ----
    def gap(self, st):
        h = st.x.get("hole")
        return h[0] if h else st.x.get("pos", st.x.get("k"))
    def setgap(self, st, v):
        h = st.x.get("hole")
        if h: st.x["hole"] = (v, h[1], h[2])
        else: st.x["pos"] = v
    def head(self, num, fn, fr, st, b, inis):
        if self.intercept: st.log += (("head", (fr, b), {k: (v, st.val.get((fr, k))) for k, v in inis.items()}),); return
        g = self.gap(st); st.x[("log", fr, b)] = len(st.log); cand = []
        for k, v in sorted(inis.items()):
            a = st.val.get((fr, k))
            if isinstance(v, P) and isinstance(a, P) and v == g and (fn.name, b, k) not in self.nohole: cand.append(k)
        if cand and (st.x.get("hole") is None or st.x["hole"][2]):
            st.x[("gap", fr, b)] = cand[0]; self.setgap(st, st.val[(fr, cand[0])])
        else: st.x[("gap", fr, b)] = None; st.x[("gap0", fr, b)] = g
        st.x["cmps"] = (); sc = []
        for kb, vb in sorted(inis.items()):
            for kj, vj in sorted(inis.items()):
                if kb == kj or not all(isinstance(v, P) for v in (vb, vj)) or (fn.name, b, kb, kj) in self.noscan: continue
                if vj == vb or vj == vb + 1: sc.append((kb, kj)); st.x["scans"] = st.x.get("scans", ()) + ((st.val[(fr, kb)], st.val[(fr, kj)], vb),)
        st.x[("scan", fr, b)] = tuple(sc)
    def templates(self, st, ini): return [] if self.intercept else [lambda v: ini + (self.kd - 1) - v]
    def back(self, num, fn, fr, st, b, prev):
        new = {i.id: next((num.ev(st, fr, v) for blk, v in i.d["in"] if blk == prev), None) for i in fn.blocks[b].insts if i.op == "phi"}
        if self.intercept: self.rounds.append((fn, fr, st, b, new)); return
        k = st.x[("gap", fr, b)]; g = self.gap(st)
        if k is not None:
            if not (isinstance(new[k], P) and self.same(st, new[k], g)): self.nohole.add((fn.name, b, k)); raise Restart()
        elif not self.same(st, g, st.x[("gap0", fr, b)]): self.done("the gap is followed from round to round", fn.blocks[b].insts[-1].where(), False, f"after a round it is at {g} instead of {st.x[('gap0', fr, b)]}")
        for kb, kj in st.x[("scan", fr, b)]:
            vb, vj = st.val[(fr, kb)], st.val[(fr, kj)]; nb, nj = new.get(kb), new.get(kj)
            good = isinstance(nb, P) and isinstance(nj, P) and self.same(st, nj, vj + 1) and (
                self.same(st, nb, vb) and self.notless(st, ("elem", vb), ("elem", vj)) or self.same(st, nb, vj) and self.notless(st, ("elem", vj), ("elem", vb)))
            if not good: self.noscan.add((fn.name, b, kb, kj)); raise Restart()
def run(rep, tier):
    M = lib([r"^chdr::heap::"]); seen = set()
    for f, name, kd, pl in members(M):
        what = f"heap<{kd}>::{name}({re.sub(r'<[^()]*>', '', pl)})"; nosort = name.endswith("_nosort")
        if name in ("sort_up", "sort_down") : pass
        elif nosort or name in ("operator=", "swap", "size", "empty", "capacity", "begin", "end", "cbegin", "cend", "reserve", "shrink_to_fit", "clear", "wipe", "contains", "lower_bounds", "upper_bounds", "back", "at", "operator[]", "pop_back"): continue
        c = Order(kd, name); num = Num(M, c); c.rounds = []
        st, args, info = setup(f, name, pl, num); n = info["n"]
        if "other" in info or name == "heap" and "source" not in info: continue
        if name in ("sort_up", "sort_down"): st.x["k"] = info["k"]
        first = num.load(st, Ptr(("elem", THIS, cst(1))), "i64") if name == "dequeue" else None
        sret = name == "dequeue" and not any(t.op == "ret" and t.ops for t in f.insts())
        if sret: args = [Ptr(("obj", "result"))] + args
        try:
            for _ in range(20):
                try: c.rounds = []; c.res = {}; outs = num.outcomes(f, args, st); break
                except Restart: num = Num(M, c)
        except GiveUp as e: raise CheckError(f"{what}: not followed: {e}")
        rep.count("members interpreted"); rep.count("paths", len(outs)); seen.add(name); F = f.sp_where()
        def good(ok, rule, where, why):
            if ok: rep.ok(f"{what}: {rule}", where)
            else: rep.bad(f"{name}:{rule.split(' ')[0]}-{rule.split(' ')[-1]}", where, f"{what}: {rule} - but {why}")
        if name in ("sort_up", "sort_down"):
            for s, how, ret in outs:
                if how != "ret": good(False, "moving an element never fails", F, "it may throw"); continue
                h = s.x.get("hole")
                if h and h[2]: good(False, "the element that moves is put back", F, f"the gap at {h[0]} stays open"); continue
                if not h: c.name = name; c.stops(num, s, F, c.gap(s), ("elem", c.gap(s)))
                if name == "sort_up": good(isinstance(ret, P) and c.same(s, ret, c.gap(s)), "it tells where the element went", F, f"it answers {ret} for {c.gap(s)}")
            for (rule, where), (ok, why) in sorted(c.res.items()): good(ok, rule, where, why)
            continue
        if name in ("top", "front"):
            for s, how, ret in outs: good(how == "ret" and isinstance(ret, Ptr) and ret.r[:2] == ("elem", THIS) and c.same(s, ret.r[2], cst(1)), "the top is the first position", F, f"it is {ret}")
            continue
        loop_only = name == "insert" and "k" not in info
        if not loop_only and not [1 for s, how, r in outs if how == "ret"]: raise CheckError(f"{what}: no path returns")
        ev = lambda log: [e for e in log if e[0] in ("sort_up", "sort_down", "copy", "swap")]
        def last_lifted(s, e, where):
            e = [x for x in e if x[0] != "cmp"]
            good(bool(e) and e[-1][0] == "sort_up" and e[-1][1] is not None and c.same(s, e[-1][1], num.sizeof(s, THIS) - 1) and not any(x[0] in ("copy", "swap") for x in e), "the new last element is moved up", where, f"it is not ({[x[:2] for x in e]})")
        loops = {}
        for fn, fr, s, b, new in c.rounds:
            k = max(j for j, e in enumerate(s.log) if e[0] == "head" and e[1] == (fr, b)); loops.setdefault(b, []).append((s, s.log[k], ev(s.log[k + 1:]), new, fn))
        if name in ADD or name == "insert" and "k" in info:
            for s, how, ret in outs:
                if how == "ret": last_lifted(s, ev(s.log), F)
            if name == "insert":
                for s, how, ret in outs:
                    if how == "ret": up = [k for k in s.cons]; good(isinstance(ret, Ptr) and ret.r[0] == "elem", "it tells where the element went", F, f"it answers {ret}")
        elif name == "insert":
            if not loops: raise CheckError(f"{what}: no loop")
            for b, rs in loops.items():
                for s, h, e, new, fn in rs: last_lifted(s, e, fn.blocks[b].insts[-1].where())
        elif name in ("pop", "dequeue") or name == "erase" and "k" in info:
            k = info.get("k", cst(1))
            for s, how, ret in outs:
                if how != "ret": continue
                e = ev(s.log); m = num.sizeof(s, THIS)
                cp = [x for x in e if x[0] == "copy" and x[1][0] == "elem"]; so = [x for x in e if x[0] in ("sort_up", "sort_down")]
                filled = len(cp) == 1 and c.same(s, cp[0][1][1], k) and cp[0][2][0] == "elem" and c.same(s, cp[0][2][1], n - 1)
                if not cp: good(c.same(s, k, n - 1) and not so, "the gap is filled with the last element", F, f"position {k} is not filled")
                else:
                    good(filled and e.index(cp[0]) == min([e.index(x) for x in so + cp]), "the gap is filled with the last element", cp[0][4], f"{cp[0][1][1]} takes the place of {cp[0][2][1] if cp[0][2][0] == 'elem' else 'something else'} (gap {k}, last {n - 1})")
                    if not so: good(s.entails(cst(2) - m) or s.entails(k - m), "the element that fills the gap is moved to its place", F, "it is left where it is, with several elements held")
                    elif len(so) > 1 or not c.same(s, so[0][1], k): good(False, "the element that fills the gap is moved to its place", so[0][2], f"{[x[:2] for x in so]} is moved instead of {k}")
                    else:
                        up = so[0][0] == "sort_up"; okay = st.entails(cst(1) - k) and not up or s.entails(cst(1) - k) and not up; c.kd = kd
                        for x in s.log:
                            if x[0] != "cmp" or x[1][0] != "elem" or x[2][0] != "elem": continue
                            t = s.x.get(("named", x[3]))
                            for p, q, less in ((x[1][1], x[2][1], t), (x[2][1], x[1][1], None if t is None else None)):
                                if less is not None and c.isparent(s, p, k) and c.same(s, q, k): okay |= less == up
                            if t is True and c.isparent(s, x[2][1], k) and c.same(s, x[1][1], k): okay |= not up
                            if t is False and c.isparent(s, x[2][1], k) and c.same(s, x[1][1], k): okay |= up
                        good(okay, "the element that fills the gap moves in the direction the order demands", so[0][2], f"it is moved {'up' if up else 'down'} without the order saying so")
                if name == "dequeue":
                    if sret: r = s.mem.get((("obj", "result"), "obj")); good(r == ("value", show(("elem", THIS, cst(1)))), "it hands out the top", F, f"it hands out {r}")
                    else: good(ret == first, "it hands out the top", F, f"it hands out {ret}")
        elif name == "heap" or name == "erase":
            heads = {}
            for b, rs in loops.items():
                for s, h, e, new, fn in rs:
                    w = fn.blocks[b].insts[-1].where()
                    if not e: continue
                    it = [p for p, (v, a) in h[2].items() if isinstance(a, P) and len(e) == 1 and e[0][0] == "sort_down" and e[0][1] is not None and c.same(s, e[0][1], a) and isinstance(new.get(p), P) and c.same(s, new[p], a - 1)]
                    if not it:   # counted from one above
                        it = [p for p, (v, a) in h[2].items() if isinstance(a, P) and len(e) == 1 and e[0][0] == "sort_down" and e[0][1] is not None and c.same(s, e[0][1], a - 1) and isinstance(new.get(p), P) and c.same(s, new[p], a - 1)]; d = 1
                    else: d = 0
                    good(bool(it), "every round sifts down the next position", w, f"a round does {[x[:2] for x in e]}")
                    if it: heads.setdefault(h[1], set()).add((it[0], d))
            for s, how, ret in outs:
                if how != "ret": continue
                m = num.sizeof(s, THIS); okay = s.entails(cst(2) - m)
                for e in s.log:
                    if e[0] == "head" and e[1] in heads:
                        for p, d in heads[e[1]]:
                            v, a = e[2][p]; okay |= isinstance(v, P) and s.entails((v - d) * kd + 2 - m) and s.entails(cst(d) - a)
                good(okay, "every position from the last parent to the first is sifted down", F, "some are left out")
    miss = {"sort_up", "sort_down", "push", "emplace", "enqueue", "pop", "dequeue", "erase", "insert", "heap", "top", "front"} - seen
    if miss: raise CheckError(f"members not found: {sorted(miss)}")
