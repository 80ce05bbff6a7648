"""R03: the ranges of cells handed to the threads that build a graph cover every cell exactly once."""
from num import *
from solverir import lib
RULE = ("The constructor of a graph from a grid is interpreted over linear inequalities for every number of cells and of hardware threads: the range each thread is given must start where the one before ended (at 0 for the first), must end at or below the number of cells, and after the last thread was started no cell is left; the slots the threads' results are kept in must exist. "
        "The loop a thread runs over its range must take every cell from the first one on, one at a time, be left only at the end of the range or by an exception, and look at the cell of the grid in every round.")
TECH = "abstract interpretation over linear inequalities (position covered so far as a function of the loop's variables), loop shape of the worker"
MIN_OB = 12
ASSUME = ["std::async calls the function it is given once, with the values it is given", "a grid holds at most 2^56 cells, and no more than its graph's index type can number"]
BITS = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 56}
class C(Client):
    def __init__(self, count, workers, wraps, threads): self.wraps = wraps; self.count = count; self.workers = workers; self.threads = threads; self.reset()
    def reset(self): self.visits = {}; self.backs = []; self.slots = []; self.div = {}; self.cells = {}
    def templates(self, st, ini): return [lambda v: self.count - v]
    def spawning(self, fn, b):
        return any(i.op in ("call", "invoke") and self.spawns(fn, i) for x in fn.loops()[b] for i in fn.blocks[x].insts)
    def spawns(self, fn, i): return fn.callee(i) == "std::async" or i.d.get("fn") in self.workers
    def phis(self, num, fn, fr, st, b): return {i.id: st.val.get((fr, i.id)) for i in fn.blocks[b].insts if i.op == "phi"}
    def divide(self, num, st, i, by):
        o = self.div.setdefault(i.where(), [True, by])
        if not st.entails(by - 1): o[0] = False
    def enter(self, num, fn, fr, st, b):
        if self.spawning(fn, b): self.cells = {k: v for k, v in st.mem.items() if k[0][0] == "loc" and isinstance(v, P)}
    def head(self, num, fn, fr, st, b, inis):
        if not self.spawning(fn, b): return
        t = len(self.visits); ph = self.phis(num, fn, fr, st, b); inis = dict(inis)
        for k, v in self.cells.items():
            if k not in st.mem:
                a = atom(num.new("var")); st.add(a, cst(W - 1) - a); st.mem[k] = a; ph[("mem", k)] = a; inis[("mem", k)] = v
        self.visits[t] = (inis, ph, st.fork(), st.log, fn.blocks[b].insts[-1].where()); st.log += (("head", t),)
    def back(self, num, fn, fr, st, b, prev):
        if not self.spawning(fn, b): return
        nxt = {i.id: next((num.ev(st, fr, v) for blk, v in i.d["in"] if blk == prev), None) for i in fn.blocks[b].insts if i.op == "phi"}
        t = [e[1] for e in st.log if e[0] == "head"][-1]
        for k in self.visits[t][1]:
            if isinstance(k, tuple): nxt[k] = st.mem.get(k[1])
        self.backs.append((t, st.fork(), nxt))
    def call(self, num, st, fn, i, name, a):
        if name == "chdr::mazes::grid::count": return [(st, "ok", self.count)]
        if name.endswith("::hardware_concurrency"):
            if self.threads is None:
                v = atom("threads"); st.add(v, cst((1 << 32) - 1) - v); return [(st, "ok", v)]
            out = []
            for k in range(self.threads): out.append((st.fork(), "ok", cst(k)))
            v = atom("threads"); st.add(v - self.threads, cst((1 << 32) - 1) - v); return out + [(st, "ok", v)]
        if name == "std::async" and i.d["fn"] in self.wraps: return [(s, "ok" if k == "ret" else "throw", None) for s, k, v in num.run(self.wraps[i.d["fn"]], [a[-1]], st, 3)]
        if self.spawns(fn, i):
            x, y = a[-2], a[-1]
            if name == "std::async":
                x, y = (num.load(st, p, "i64") if isinstance(p, Ptr) else p for p in (x, y))
            x, y = num.num(st, x), num.num(st, y)
            if x is None or y is None: raise GiveUp(f"range at {i.where()}")
            st.log += (("range", x, y, i.where()),)
            return [(st, "ok", None), (st.fork(), "throw", None)]
        if name == "std::array::operator[]":
            n = re.search(r"std::array<.*, (\d+)ul>::operator", num.mod.dem(i.d["fn"])); k = num.num(st, a[1])
            if n and "future" in n[0]:
                self.slots.append((st.fork(), k, int(n[1]), i.where()))
            return [(st, "ok", U(num.new("slot")))]
        if name.startswith("chdr::mazes::graph::") : return [(st, "ok", None), (st.fork(), "throw", None)]
        if name == "std::array::size": return [(st, "ok", cst(int(re.search(r"std::array<.*, (\d+)ul>::size", num.mod.dem(i.d["fn"]))[1])))]
        if name.startswith("chdr::mazes::grid::"):
            v = None if i.ty == "void" else U(num.new("grid")); return [(st, "ok", v)]
        return None
def same(st, a, b): return st.entails(a - b) and st.entails(b - a)
def subst(p, m):
    out = P({})
    for k, v in p.d.items():
        t = P({(): v})
        for a in k: t = t * m.get(a, atom(a))
        out = out + t
    return out
def follow(st, cov, ranges, count, strict):
    """the position covered after the ranges, or (None, why)"""
    for _, x, y, w in ranges:
        if same(st, x, cov): pass
        elif st.entails(cov - count) and (st.entails(x - y) or st.entails(x - count)): pass
        else: return None, (w, f"starts at {x} where {cov} of the cells are covered")
        if not (st.entails(count - y) or st.entails(x - y)): return None, (w, f"ends at {y}, which can lie beyond the last cell")
        if strict and not st.entails(y - x): return None, (w, f"can end before it starts ({x} … {y}), and the worker only stops when it meets the end")
        if st.entails(x - y) and not st.entails(y - x): continue
        cov = y
    return cov, None
def covers(M, fn, a, b):
    """None if the worker goes over [a, b) one by one; (strict) when it stops only at equality"""
    a, b = (("a", k) if isinstance(k, int) else k for k in (a, b))
    def strip(o):
        if isinstance(o, list): o = tuple(o)
        while isinstance(o, int) and fn.inst[o].op in ("zext", "trunc", "freeze"): o = fn.inst[o].ops[0]; o = tuple(o) if isinstance(o, list) else o
        return o
    def arg(o): o = strip(o); return o[:2] if isinstance(o, tuple) and o[0] == "a" else o
    for h, body in fn.loops().items():
        for p in fn.blocks[h].insts:
            if p.op != "phi" or not p.ty.startswith("i"): continue
            entry = [v for blk, v in p.d["in"] if blk not in body]; latch = [(blk, v) for blk, v in p.d["in"] if blk in body]
            if not entry or any(arg(v) != a for v in entry): continue
            if not all(isinstance(v, int) and fn.inst[v].op == "add" and {str(tuple(o) if isinstance(o, list) else o) for o in fn.inst[v].ops} >= {str(p.id)} and any(isinstance(o, (list, tuple)) and o[0] == "c" and str(o[1]) == "1" for o in fn.inst[v].ops) for _, v in latch): return "does not go on to the very next cell after each", p.where()
            bits = int(p.ty[1:])
            strict = None
            for x in body:
                t = fn.blocks[x].insts[-1]
                for s in (t.d.get("succ") or ([t.d["normal"]] if t.op == "invoke" else [])):
                    if s in body: continue
                    if dead(fn, s): continue
                    c = fn.inst.get(t.ops[0]) if t.op == "br" and t.ops and isinstance(t.ops[0], int) else None
                    neg = False
                    while c is not None and c.op == "xor" and isinstance(c.ops[0], int) and str(c.ops[1][1]) in ("1", "true", "-1"): neg = not neg; c = fn.inst.get(c.ops[0])
                    if c is None or c.op != "icmp": return "can leave its range before the end", t.where()
                    l, r = arg(c.ops[0]), arg(c.ops[1]); pred = c.d["pred"]; stay = (t.d["succ"][0] != s) != neg
                    if l == b: l, r, pred = r, l, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pred, pred)
                    if l != p.id or r != b or x != h: return "can leave its range before the end", t.where()
                    if (pred, stay) in (("ult", True), ("uge", False)): strict = False
                    elif (pred, stay) in (("ne", True), ("eq", False)): strict = True
                    else: return f"stays in the loop while {pred} the end of the range", t.where()
            if strict is None: return "never leaves its loop", p.where()
            latches = [blk for blk, _ in latch]; uses = {p.id}; cells = set()
            for i in fn.insts():
                if i.op in ("trunc", "zext", "freeze") and i.ops[0] in uses: uses.add(i.id)
                if i.op == "store" and (i.ops[0] if not isinstance(i.ops[0], list) else None) in uses and isinstance(i.ops[1], int): cells.add(i.ops[1])
            good = [i for i in fn.insts() if i.op in ("call", "invoke") and "chdr::mazes::grid" in fn.callee(i) and any(isinstance(o, int) and (o in uses or o in cells) for o in i.ops) and all(fn.dominates(i.bb, l) for l in latches)]
            if not good:
                good = [i for i in fn.insts() if i.op in ("call", "invoke") and i.d.get("fn") in M.functions and "chdr::" in fn.callee(i) and not fn.callee(i).startswith("std::") and any(isinstance(o, int) and (o in uses or o in cells) for o in i.ops) and all(fn.dominates(i.bb, l) for l in latches) and looks(M, M.functions[i.d["fn"]], i, uses | cells)]
            if not good: return "passes over cells without looking at them", p.where()
            return (strict, good[0].where(), f"from the first cell of the range to the last, one by one; each round {fn.callee(good[0]).split('chdr::')[-1]} of the cell")
    for i in fn.insts():
        if i.op in ("call", "invoke") and i.d.get("fn") in M.functions and not fn.callee(i).startswith("std::"):
            ps = [arg(o) for o in i.ops]
            if a in ps and b in ps: return covers(M, M.functions[i.d["fn"]], ps.index(a), ps.index(b))
    return "has no loop over the range it is given", fn.sp_where()
def looks(M, g, i, vals):
    """the helper looks at the cell of the grid it is given before anything else it decides"""
    k = next(n for n, o in enumerate(i.ops) if isinstance(o, int) and o in vals); uses = {("a", k)}; cells = set()
    def n(o): o = tuple(o) if isinstance(o, list) else o; return o[:2] if isinstance(o, tuple) and o[0] == "a" else o
    for j in g.insts():
        if j.op in ("trunc", "zext", "freeze", "load") and n(j.ops[0]) in uses: uses.add(j.id)
        if j.op == "store" and n(j.ops[0]) in uses: cells.add(n(j.ops[1]))
    rets = [j.bb for j in g.insts() if j.op == "ret"]
    return any(j.op in ("call", "invoke") and "chdr::mazes::grid" in g.callee(j) and any(n(o) in uses or n(o) in cells for o in j.ops) and all(g.dominates(j.bb, r) for r in rets) for j in g.insts())
def dead(fn, b):
    seen = set(); todo = [b]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); t = fn.blocks[x].insts[-1]
        if t.op == "ret": return False
        todo += list(t.d.get("succ") or [v for v in (t.d.get("normal"), t.d.get("unwind")) if v is not None])
    return True
def tmpl(d):
    m = re.search(r"chdr::mazes::graph<([^<>]*)>::graph", d); return m[1] if m else d
def analyse(M, f, workers, wraps, name, threads):
    ty = tmpl(f.dem).split(",")[0].strip(); bits = BITS.get(ty)
    if bits is None: raise CheckError(f"graph over {ty}")
    count = atom("cells"); c = C(count, {w.name for w in workers}, wraps, threads); num = Num(M, c); st = St(); st.add(count, cst(1 << bits) - count)
    strict = False; bad = []; good = []
    this = Ptr(("obj", "this")); args = [this] + [Ptr(("obj", f"p{k}")) for k in range(1, 5)]
    for _ in range(60):
        c.reset()
        try: outs = num.run(f, args, st.fork()); break
        except Restart: num.n = 0; num.cnt = {}; num.paths = 0
    else: raise CheckError(f"{name}: loops")
    for w in workers:
        r = covers(M, w, len(params(w)) - 2, len(params(w)) - 1)
        if isinstance(r[0], bool): strict |= r[0]; good.append((f"{name}: a thread goes {r[2]}", r[1]))
        else: bad.append(("worker", r[1], f"the function a thread runs {r[0]}"))
    rets = [s for s, how, v in outs if how == "ret"]
    if not rets: raise CheckError(f"{name}: no way to the end")
    if not any(e[0] == "range" for s, _, _ in outs for e in s.log) and not any(e[0] == "range" for _, s, _ in c.backs for e in s.log): raise CheckError(f"{name}: no range is handed to a thread")
    known = {}
    for t, (inis, ph, entry, log, where) in c.visits.items():
        backs = [(s, n) for tt, s, n in c.backs if tt == t]; exits = [s for s in rets if ("head", t) in s.log]
        at = {v: k for k, p in ph.items() if isinstance(p, P) for v in p.atoms() if p == atom(v)}
        def since(s): l = s.log[s.log.index(("head", t)) + 1:]; return [e for e in l if e[0] == "range"]
        cands = []; steps = [count]
        for s, _ in backs:
            for e in since(s)[:1]:
                if e[1] not in cands: cands.append(e[1])
                if e[2] - e[1] not in steps and not (e[2] - e[1]).atoms() & set(at): steps.append(e[2] - e[1])
        vs = [p for p in ph.values() if isinstance(p, P)]
        cands += [p for p in vs if p not in cands]
        rels = [None] + [(v, p * d, past) for v in vs for p in vs if p != v for d in steps if all(abs(k) < 1 << 62 for k in d.d.values()) for past in (False, True)]
        def ini(p, at=at, inis=inis): return subst(p, {a: inis[k] for a, k in at.items() if isinstance(inis.get(k), P)})
        def nxt(p, nx, at=at): return subst(p, {a: nx[k] for a, k in at.items() if isinstance(nx.get(k), P)})
        def under(s, rel):
            """the cases of a state in which the two agree, or both are past the last cell"""
            if rel is None: return [s]
            x, y = s.fork(), s.fork(); x.add(rel[0] - rel[1], rel[1] - rel[0]); y.add(rel[0] - count, rel[1] - count)
            return [q for q in ((x, y) if rel[2] else (x,)) if q.possible()]
        def agree(s, a, b): return same(s, a, b) or s.entails(a - count) and s.entails(b - count)
        why = None; hit = False
        prior = [e for e in log if e[0] == "range"]; cov0, w0 = follow(entry, cst(0), prior, count, strict)
        if cov0 is None: bad.append(("ranges", w0[0], f"the range handed to a thread {w0[1]}")); continue
        def holds(rel, entry=entry, backs=backs, ini=ini, nxt=nxt, under=under, agree=agree):
            if rel is None: return True
            ok = agree if rel[2] else same
            return ok(entry, ini(rel[0]), ini(rel[1])) and all(ok(q, nxt(rel[0], nx), nxt(rel[1], nx)) for s, nx in backs for q in under(s, rel))
        known[t] = (lambda rels=rels, holds=holds: [r for r in rels[1:] if holds(r)], under)
        for rel in rels:
            if hit: break
            if not holds(rel): continue
            for B in cands:
                if not same(entry, ini(B), cov0): continue
                fail = None
                for s, nx in backs:
                    for q in under(s, rel):
                        cov, w = follow(q, B, since(q), count, strict)
                        if cov is None: fail = w; break
                        if not agree(q, cov, nxt(B, nx)): fail = (since(q)[-1][3] if since(q) else where, f"ends at {cov}, where the next one does not go on"); break
                    if fail: break
                for s in (exits if fail is None else ()):
                    later = s.log[s.log.index(("head", t)) + 1:]
                    for q in under(s, rel):
                        cov, w = follow(q, B, since(q), count, strict)
                        if cov is None: fail = w; break
                        if any(e[0] == "head" for e in later): continue
                        if not q.entails(cov - count): fail = (where, f"is the last one where {cov} cells are covered of {count}"); break
                    if fail: break
                if fail is None: hit = True; break
                if why is None: why = fail
        if hit: good.append((f"{name}: the ranges handed to the threads cover {B} cells before each round and all at the end", where))
        else: bad.append(("ranges", why[0] if why else where, f"the range handed to a thread {why[1]}" if why else "no function of the loop's variables gives the number of cells covered so far"))
    if not c.visits:
        for s in rets:
            cov, w = follow(s, cst(0), [e for e in s.log if e[0] == "range"], count, strict)
            if cov is None: bad.append(("ranges", w[0], f"the range handed to a thread {w[1]}"))
            elif not s.entails(cov - count): bad.append(("ranges", f.sp_where(), f"only {cov} cells are handed to threads"))
            else: good.append((f"{name}: all cells are handed to threads", f.sp_where()))
    done = {}
    for s, k, n, w in c.slots:
        o = done.setdefault(w, [True, None]); good1 = k is not None and s.entails(cst(n - 1) - k)
        for e in s.log:
            if not good1 and k is not None and e[0] == "head" and e[1] in known:
                f1, under = known[e[1]]
                if callable(f1): f1 = f1(); known[e[1]] = (f1, under)
                good1 = any(all(q.entails(cst(n - 1) - k) for q in under(s, rel)) for rel in f1)
        if not good1: o[0] = False; o[1] = (k, n)
    for w, (ok, why) in done.items():
        if ok: good.append((f"{name}: the slot for a thread's result exists", w))
        else: bad.append(("slot", w, f"the result of a thread is kept in slot {why[0]} of {why[1]}"))
    for w, (ok, by) in c.div.items():
        if ok: good.append((f"{name}: divides by {by}, which is not zero", w))
        else: bad.append(("divide", w, f"divides by {by}, which can be zero"))
    return good, bad
def params(w):
    n = max([o[1] for i in w.insts() for o in i.ops if isinstance(o, (list, tuple)) and o and o[0] == "a"] + [v[1] for i in w.insts() if i.op == "phi" for _, v in i.d["in"] if isinstance(v, (list, tuple)) and v and v[0] == "a"], default=0)
    return list(range(n + 1))
def run(rep, tier):
    M = lib([r"^chdr::mazes::graph::", r"^chdr::"])
    fs = [f for f in M.functions.values() if f.base == "chdr::mazes::graph::graph" and "grid<" in f.dem and "lambda" not in f.dem]
    if not fs: raise CheckError("no constructor of a graph from a grid")
    n = 0
    for f in fs:
        spawn = [i for i in f.insts() if i.op in ("call", "invoke") and f.callee(i) == "std::async"]
        helpers = reach(M, f)
        if not any(g.callee(i) == "std::async" for g in helpers for i in g.insts() if i.op in ("call", "invoke")): continue
        n += 1
        name = "graph<" + tmpl(f.dem) + "> from " + re.search(r"grid<[^>]*>", f.dem)[0]
        ws, wraps = workers(M, f, helpers)
        if not ws: raise CheckError(f"{name}: the function the threads run")
        try:
            good, bad = analyse(M, f, ws, wraps, name, None)
            if bad: good, bad = analyse(M, f, ws, wraps, name, 16)
        except GiveUp as e: raise CheckError(f"{name}: {e}")
        for w, x in good: rep.ok(w, x)
        for k, x, w in bad: rep.bad(k, x, w)
        rep.count("constructors", 1)
    if not n: raise CheckError("no graph is built by threads")
def reach(M, f):
    out = []; todo = [f]
    while todo:
        g = todo.pop()
        if g in out: continue
        out.append(g)
        for i in g.insts():
            if i.op in ("call", "invoke") and i.d.get("fn") in M.functions and not g.callee(i).startswith("std::"): todo.append(M.functions[i.d["fn"]])
    return out
def workers(M, f, helpers):
    """the functions that go over a range on another thread, and the closures std::async is given to call them: ([function], {closure's call operator})"""
    out = []; wraps = {}
    for g in helpers:
        for i in g.insts():
            if i.op in ("call", "invoke") and g.callee(i) == "std::async":
                d = M.dem(i.d["fn"])
                for w in M.functions.values():
                    if "::operator()(" in w.dem and "lambda" in w.dem and w.dem.split("::operator()(")[0] in d and w not in out:
                        if params(w)[-1] >= 2: out.append(w); continue
                        wraps[i.d["fn"]] = w
                        for j in w.insts():
                            if j.op in ("call", "invoke") and j.d.get("fn") in M.functions and len(j.ops) >= 2 and not w.callee(j).startswith("std::") and params(M.functions[j.d["fn"]])[-1] >= 2 and ("lambda" in M.functions[j.d["fn"]].dem or "graph::graph" in w.callee(j) or "chdr::mazes::graph::" in w.callee(j)): out.append(M.functions[j.d["fn"]])
    return out, wraps
