"""R01: building a graph from a grid by several threads is free of data races."""
from common import *
from solverir import lib
from effects import *
import re
RULE = ("Everything the function run by a thread reaches through what it captures (or through a global) is followed through its body and the functions it calls. What any thread may change there is only touched while one and the same mutex, shared by all threads, is held on every path to that point; what is touched without a lock is only read. "
        "In the constructor, from the point a thread may have been started until every path has joined all of them (results collected in a loop over all of them, or the futures destroyed), nothing the threads change is touched, nothing they read is changed, and nothing they hold a reference to ends its life.")
TECH = "interprocedural taint from the captured references with may-write effects; must-hold lock dataflow including exception edges; join typestate of the futures in the constructor"
MIN_OB = 16
ASSUME = ["the futures of std::async are joined when they are destroyed, and by get() and wait()", "const member functions of the standard library do not write"]
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock")
def tupd(o): return tuple(o) if isinstance(o, list) else o
def strip(fn, v):
    off = 0
    while isinstance(v, int) and fn.inst[v].op == "getelementptr" and not fn.inst[v].d.get("var"): off += fn.inst[v].d.get("off") or 0; v = tupd(fn.inst[v].d["base"])
    return v, off
class Race:
    def __init__(self, M, E): self.M = M; self.E = E; self.seen = set(); self.written = {}; self.touch = []; self.locks = {}
    def scan(self, fn, cells, vals, held, path, nest={}):
        """cells: {(param, offset): class} holding pointers to shared objects; vals: {value: class}; held: mutex classes held by every caller"""
        key = (fn.name, tuple(sorted(map(str, cells.items()))), tuple(sorted(map(str, vals.items()))), held, str(nest))
        if key in self.seen or len(path) > 12: return
        self.seen.add(key)
        seeds = {}; inner = {}           # inner: pointers to closures of the constructor
        for v, c in vals.items(): seeds.setdefault(c, set()).add(v)
        for i in fn.insts():
            if i.op == "load" and i.ty == "ptr":
                r, off = strip(fn, i.ops[0])
                if isinstance(r, tuple) and r[0] == "a" and (r[1], off) in nest: inner[i.id] = nest[(r[1], off)]; continue
                if r in inner and off in inner[r]: seeds.setdefault(inner[r][off], set()).add(i.id)
                if isinstance(r, tuple) and r[0] == "a" and (r[1], off) in cells: seeds.setdefault(cells[(r[1], off)], set()).add(i.id)
            for o in list(i.ops) + ([tupd(i.d["base"])] if i.op == "getelementptr" else []):
                if isinstance(o, tuple) and o and o[0] in ("g", "goff"):
                    g = o[1]
                    if self.shared_global(g): seeds.setdefault(("global", g), set()).add(("g", g))
        T = {c: self.E.taint(fn, s) for c, s in seeds.items()}
        roots = {}
        for i in fn.insts():
            if i.op == "store":
                r, off = strip(fn, i.ops[1])
                if isinstance(r, int) and fn.inst[r].op == "alloca":
                    for c, (t, sl, tin) in T.items():
                        if tin(i.ops[0]): roots.setdefault(r, {})[off] = c
        state = self.locksets(fn, T, held)
        for i in fn.insts():
            h = state.get(i.id)
            if h is None: continue
            for c, (t, sl, tin) in T.items():
                if i.op == "load" and tin(i.ops[0]) and i.ops[0] not in ():
                    self.note(fn, i, c, False, h, path)
                elif i.op == "store" and tin(i.ops[1]): self.note(fn, i, c, True, h, path)
                elif i.op in ("atomicrmw", "cmpxchg"): pass
            if i.op not in ("call", "invoke"): continue
            n = fn.callee(i)
            if n.startswith("llvm.mem"):
                for c, (t, sl, tin) in T.items():
                    if tin(i.ops[0]): self.note(fn, i, c, True, h, path)
                    if len(i.ops) > 1 and tin(i.ops[1]): self.note(fn, i, c, False, h, path)
                continue
            if n.startswith("llvm.") or n.startswith("std::atomic") or n.startswith("std::__atomic"): continue
            if self.lockop(n): continue
            g = self.M.functions.get(i.d.get("fn")) if i.d.get("fn") else None
            args = {}; cc = {}
            for k, o in enumerate(i.ops):
                for c, (t, sl, tin) in T.items():
                    if tin(o): args[("a", k)] = c
                r, off = strip(fn, o)
                if isinstance(r, int) and r in roots and off == 0:
                    for d, c in roots[r].items(): cc[(k, d)] = c
                if r in inner:
                    for d, c in inner[r].items(): cc[(k, d - off)] = c
                if isinstance(r, tuple) and r[0] == "a":
                    for (p, d), c in cells.items():
                        if p == r[1]: cc[(k, d - off)] = c
            if g is not None and not n.startswith("std::") and (args or cc):
                self.scan(g, cc, args, h, path + ((fn, i),)); continue
            if g is not None and not n.startswith("std::") and not args and not cc: self.scan(g, {}, {}, h, path + ((fn, i),)); continue
            for k, o in enumerate(i.ops):
                for c, (t, sl, tin) in T.items():
                    if tin(o): self.note(fn, i, c, self.E.call_writes(i, fn, k) if i.d.get("fn") else True, h, path, n)
    def shared_global(self, g):
        if not hasattr(self, "gl"):
            from checks.x01 import globals_of
            self.gl = {n for n, d in globals_of(self.M).items() if not d.get("tls") and not n.startswith("_ZGV")}
        return g in self.gl
    def initialising(self, fn, i):
        """inside the guarded first initialisation of a static object"""
        acq = [j for j in fn.insts() if j.op in ("call", "invoke") and (j.d.get("fn") == "__cxa_guard_acquire")]
        rel = [j for j in fn.insts() if j.op in ("call", "invoke") and (j.d.get("fn") == "__cxa_guard_release")]
        return any(fn.idominates(j, i) for j in acq) and not any(fn.idominates(j, i) for j in rel) and any(j.bb in fn.reach([i.bb]) for j in rel)
    def lockop(self, n):
        p = n.split("::")
        if len(p) < 3: return None
        cls = "::".join(p[:2]); last = p[-1]
        if cls in LOCKS or cls in ("std::shared_lock",): return ("guard", last, cls)
        if cls in ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex", "std::__mutex_base", "std::recursive_timed_mutex", "std::shared_timed_mutex"): return ("mutex", last, cls)
        return None
    def locksets(self, fn, T, held):
        """{instruction: mutex classes held on every path to it}"""
        def cls(o):
            cs = [c for c, (t, sl, tin) in T.items() if tin(o)]
            return cs[0] if len(cs) == 1 else None
        own = {}                      # guard object → mutex classes
        for i in fn.insts():
            if i.op in ("call", "invoke"):
                p = self.lockop(fn.callee(i))
                if p and p[0] == "guard" and p[1] == p[2].split("::")[1]:
                    own.setdefault(strip(fn, i.ops[0])[0], []).extend(cls(o) for o in i.ops[1:] if cls(o) is not None)
        def transfer(i, s):
            if i.op not in ("call", "invoke"): return s
            n = fn.callee(i); p = self.lockop(n)
            if not p: return s
            kind, last, c = p
            if kind == "guard":
                g = strip(fn, i.ops[0])[0]
                if last == c.split("::")[1]:
                    dem = self.M.dem(i.d["fn"])
                    if c == "std::shared_lock" or "defer_lock" in dem or "try_to_lock" in dem or "chrono" in dem: return s
                    if "adopt_lock" in dem: return s
                    ms = [cls(o) for o in i.ops[1:]]
                    return s | {m for m in ms if m is not None}
                if last == "lock": return s | {m for m in own.get(g, [])}
                if last in ("unlock", "release", "swap", "operator=") or last.startswith("~"): return s - set(own.get(g, []))
                return s
            if last == "lock":
                m = cls(i.ops[0]); return s | {m} if m is not None else s
            if last.startswith("unlock"): 
                m = cls(i.ops[0]); return s - {m}
            return s
        IN = {fn.entry: frozenset(held)}; work = [fn.entry]; out = {}
        while work:
            b = work.pop(); s = IN[b]
            for i in fn.blocks[b].insts:
                out[i.id] = s; pre = s; s = frozenset(transfer(i, s))
            t = fn.blocks[b].insts[-1]
            if t.op == "invoke":
                rel = self.lockop(fn.callee(t)); edges = [(t.d["normal"], s), (t.d["unwind"], pre & s if rel else pre)]
            else: edges = [(x, s) for x in (t.d.get("succ") or [])] + ([(x, s) for _, x in t.d.get("cases", [])] + [(t.d["default"], s)] if t.op == "switch" else [])
            for d, v in edges:
                n = v if d not in IN else IN[d] & v
                if d not in IN or n != IN[d]: IN[d] = n; work.append(d)
        return out
    def note(self, fn, i, c, write, held, path, callee=None):
        if c[0] == "global" and self.initialising(fn, i): return
        self.touch.append((fn, i, c, write, held, path, callee))
def describe(c): return {0: ""}.get(c, f"what the thread shares as capture {c[1] % 1000 // 8 + 1}" if c[0] == "cap" else f"the static object {c[1]}")
def stored(fn, r):
    """pointers kept in a local object, by offset"""
    f = {}
    for s in fn.insts():
        if s.op == "store":
            rr, d = strip(fn, s.ops[1])
            if rr == r and (isinstance(s.ops[0], tuple) and s.ops[0][0] == "a" or isinstance(s.ops[0], int) and fn.inst[s.ops[0]].ty == "ptr"): f[d] = s.ops[0]
    return f
def closure(M, fn, i):
    """{offset: value} of the closure a call hands to std::async"""
    for o in reversed(i.ops[:]):
        r, off = strip(fn, o)
        if isinstance(r, int) and fn.inst[r].op == "alloca":
            f = stored(fn, r)
            if f: return r, f
    return None, {}
def run(rep, tier):
    import checks.r03 as r03
    M = lib([r"^chdr::mazes::graph::", r"^chdr::"]); E = Effects(M); n = 0
    for f in [f for f in M.functions.values() if f.base == "chdr::mazes::graph::graph" and "grid<" in f.dem and "lambda" not in f.dem]:
        reach = r03.reach(M, f)
        sp = [(g, i) for g in reach for i in g.insts() if i.op in ("call", "invoke") and g.callee(i) == "std::async"]
        if not sp: continue
        n += 1; name = "graph<" + r03.tmpl(f.dem) + "> from " + re.search(r"grid<[^>]*>", f.dem)[0]
        ws, wraps = r03.workers(M, f, reach); tops = list(wraps.values()) or ws
        if not tops: raise CheckError(f"{name}: the function the threads run")
        for w in tops:
            cells = {}
            for i in w.insts():
                if i.op == "load" and i.ty == "ptr":
                    r, off = strip(w, i.ops[0])
                    if r == ("a", 0): cells[(0, off)] = ("cap", off)
            R = Race(M, E)
            hidden = captures(w)
            for off in hidden: cells[(0, off)] = ("cap", off)
            nest = {}
            for g, i in sp:
                clo, fields = closure(M, g, i)
                for d, v in fields.items():
                    r, _ = strip(g, v)
                    sub = stored(g, r) if isinstance(r, int) and g.inst[r].op == "alloca" and r != clo else {}
                    if sub: nest[(0, d)] = {x: ("cap", 1000 * (d // 8 + 1) + x) for x in sub}; cells.pop((0, d), None)
            R.scan(w, cells, {}, frozenset(), (), nest)
            judge(rep, R, name)
            wrote = {t[2] for t in R.touch if t[3]}; used = {t[2] for t in R.touch} | set(cells.values())
        for g, i in sp: joins(rep, M, E, g, i, wrote, used, name, r03)
        rep.count("constructors", 1)
    if not n: raise CheckError("no graph is built by threads")
def captures(w):
    """offsets of the closure the function passes on by address or copies"""
    out = set()
    for i in w.insts():
        if i.op == "getelementptr" and tupd(i.d["base"]) == ("a", 0) and not i.d.get("var"): out.add(i.d.get("off") or 0)
    return out
def judge(rep, R, name):
    by = {}
    for t in R.touch: by.setdefault(t[2], []).append(t)
    for c, ts in by.items():
        ws = [t for t in ts if t[3]]
        what = lambda t: f"{'calls ' + t[6].split('chdr::')[-1] + ' on' if t[6] else 'changes' if t[3] else 'reads'} {describe(c)}"
        if not ws:
            for t in ts: rep.ok(f"{name}: a thread only reads {describe(c)}", t[1].where())
            continue
        common = None
        for t in ts: common = t[4] if common is None else common & t[4]
        if common:
            for t in ts: rep.ok(f"{name}: a thread {what(t)} with {describe(sorted(common, key=str)[0])} locked", t[1].where())
            continue
        un = [t for t in ts if not t[4]]
        for t in (un or ts[:1]):
            rep.bad(f"{t[0].base.split('::')[-1]}:{'write' if t[3] else 'read'}", t[1].where(), f"a thread {what(t)} " + ("without holding a lock shared by all threads" if not t[4] else "under a lock that other accesses to it do not hold") + (f"; another thread may change it at {ws[0][1].where()}" if not t[3] else ""))
def joins(rep, M, E, fn, call, wrote, used, name, r03):
    """typestate: may threads be running here?"""
    clo, fields = closure(M, fn, call)
    if not fields: raise CheckError(f"{name}: the closure handed to std::async")
    shared = {("cap", d): v for d, v in fields.items() }
    for c, v in list(shared.items()):
        r, _ = strip(fn, v)
        if isinstance(r, int) and fn.inst[r].op == "alloca" and r != clo:
            for d, x in stored(fn, r).items(): shared[("cap", 1000 * (c[1] // 8 + 1) + d)] = x
    spawns = [i for i in fn.insts() if i.op in ("call", "invoke") and fn.callee(i) == "std::async"]
    store = None                     # the container of the futures
    fut = strip(fn, call.ops[0])[0]
    for i in fn.insts():
        if i.op in ("call", "invoke") and fn.callee(i) in ("std::future::operator=", "std::vector::push_back", "std::vector::emplace_back", "std::deque::emplace_back", "std::deque::push_back") and len(i.ops) > 1 and strip(fn, i.ops[1])[0] == fut:
            o = i.ops[0]
            if isinstance(o, int) and fn.inst[o].op in ("call", "invoke"): o = fn.inst[o].ops[0]
            store = strip(fn, o)[0]; keep = i
    if store is None: raise CheckError(f"{name}: where the results of the threads are kept")
    slotphi = None
    if isinstance(keep.ops[0], int) and fn.inst[keep.ops[0]].op in ("call", "invoke") and len(fn.inst[keep.ops[0]].ops) > 1: slotphi = fn.inst[keep.ops[0]].ops[1]
    spl = [h for h, b in fn.loops().items() if call.bb in b]
    bound = set()
    for h in spl:
        for i in fn.blocks[h].insts:
            if i.op == "icmp" and (slotphi is None or slotphi in i.ops): bound |= {str(o) for o in i.ops if o != slotphi and not (isinstance(o, int) and fn.inst[o].op == "phi" and fn.inst[o].bb == h)}
    if slotphi is not None: bound.add(str(slotphi))
    # loops that collect every result
    done = set()
    for h, body in fn.loops().items():
        if call.bb in body: continue
        gets = [i for b in body for i in fn.blocks[b].insts if i.op in ("call", "invoke") and fn.callee(i) in ("std::future::get", "std::__basic_future::wait", "std::future::wait", "std::__basic_future::_M_get_result")]
        latches = [b for b in body if h in succs(fn, b)]
        if not gets: continue
        g = gets[0]; o = g.ops[-1] if not g.d.get("sret") else g.ops[1]
        valid = [fn.inst[t.ops[0]] for b in body for t in [fn.blocks[b].insts[-1]] if t.op == "br" and t.ops and isinstance(t.ops[0], int) and fn.inst[t.ops[0]].op in ("call", "invoke") and fn.callee(fn.inst[t.ops[0]]).endswith("::valid")]
        every = all(any(fn.dominates(x.bb, l) for x in gets) for l in latches) or (valid and all(fn.dominates(valid[0].bb, l) for l in latches))
        leaves = [b for b in body for s in succs(fn, b, normal=True) if s not in body and not r03.dead(fn, s)]
        if not every or any(b != h for b in leaves): continue
        src = o
        while isinstance(src, int) and fn.inst[src].op == "load" : src = fn.inst[src].ops[0]
        full = False
        if isinstance(src, int) and fn.inst[src].op in ("call", "invoke") and fn.callee(fn.inst[src]).endswith("operator[]") or isinstance(src, int) and fn.inst[src].op in ("call", "invoke") and fn.callee(fn.inst[src]).endswith("::at"):
            a, k = fn.inst[src].ops[0], fn.inst[src].ops[1]
            if strip(fn, a)[0] == store and isinstance(k, int) and fn.inst[k].op == "phi" and fn.inst[k].bb == h:
                p = fn.inst[k]; zero = all(isinstance(v, (list, tuple)) and v[0] == "c" and str(v[1]) == "0" for blk, v in p.d["in"] if blk not in body)
                step = all(isinstance(v, int) and fn.inst[v].op == "add" and any(isinstance(x, tuple) and x[0] == "c" and str(x[1]) == "1" for x in fn.inst[v].ops) and k in fn.inst[v].ops for blk, v in p.d["in"] if blk in body)
                t = fn.blocks[h].insts[-1]; c = fn.inst.get(t.ops[0]) if t.ops and isinstance(t.ops[0], int) else None
                stay = 0 if t.d["succ"][0] in body else 1
                if c is not None and c.op == "icmp" and c.ops[0] == k and (c.d["pred"] in ("ult", "ne") and stay == 0 or c.d["pred"] in ("uge", "eq") and stay == 1):
                    lim = c.ops[1]
                    full = zero and step and (str(lim) in bound or isinstance(lim, int) and fn.inst[lim].op in ("call", "invoke") and fn.callee(fn.inst[lim]).split("::")[-1] == "size" and strip(fn, fn.inst[lim].ops[0])[0] == store or extent(M, fn, store, lim))
        else:
            # over the container itself
            ph = src
            if isinstance(ph, int) and fn.inst[ph].op in ("call", "invoke") and fn.callee(fn.inst[ph]).endswith("operator*"): ph = fn.inst[ph].ops[0]
            ok = {"begin": False, "end": False}
            for i in fn.insts():
                if i.op in ("call", "invoke") and fn.callee(i).split("::")[-1] in ("begin", "end", "cbegin", "cend") and strip(fn, i.ops[0] if not i.d.get("sret") else i.ops[1])[0] == store: ok[fn.callee(i).split("::")[-1].lstrip("c")] = True
            full = ok["begin"] and ok["end"]
        if full: done |= {(h, s) for s in succs(fn, h) if s not in body}
    # may threads run?
    run_ = {fn.entry: False}; work = [fn.entry]; at = {}
    while work:
        b = work.pop(); s = run_[b]
        for i in fn.blocks[b].insts:
            at[i.id] = s
            if i.op in ("call", "invoke"):
                n = fn.callee(i)
                if n == "std::async": s = True
                elif n.split("::")[-1] in ("~array", "~vector", "~deque") and "std::" in n and strip(fn, i.ops[0])[0] == store: s = False
                elif n in ("std::vector::clear",) and strip(fn, i.ops[0])[0] == store: s = False
        t = fn.blocks[b].insts[-1]
        for d in succs(fn, b):
            v = s
            if (b, d) in done: v = False
            if d not in run_ or v and not run_[d]: run_[d] = run_.get(d, False) or v; work.append(d)
    shared_ids = {c: strip(fn, v)[0] for c, v in shared.items()}
    names = {c: describe(c) for c in shared}
    cnt = 0
    for c, v in shared.items():
        root = strip(fn, v)[0]
        T, sl, tin = E.taint(fn, [v, root])
        tin2 = lambda o: tin(o) or strip(fn, o)[0] == root and not (isinstance(strip(fn, o)[0], int) and strip(fn, o)[0] == clo)
        for i in fn.insts():
            if i is call or i in spawns: continue
            hit = [k for k, o in enumerate(i.ops) if o is not None and tin2(o)]
            if not hit: continue
            if i.op == "store" and hit == [0] and strip(fn, i.ops[1])[0] == clo: continue
            if i.op in ("load",): kind = "read"
            elif i.op == "store": kind = "write" if 1 in hit else None
            elif i.op in ("call", "invoke"):
                n = fn.callee(i)
                if n.startswith("llvm.lifetime.end") or n.split("::")[-1].startswith("~"): kind = "end"
                elif n.startswith("llvm.lifetime") or n.startswith("llvm.dbg"): kind = None
                elif n.startswith("llvm.mem"): kind = "write" if 0 in hit else "read"
                elif n.startswith("llvm."): kind = None
                else: kind = "write" if any(E.call_writes(i, fn, k) for k in hit) else "read"
            else: kind = None
            if kind is None: continue
            if not at.get(i.id):
                if kind == "end" or fn.dominates(call.bb, i.bb) : rep.ok(f"{name}: {names[c]} is {dict(read='read', write='changed', end='given up')[kind]} only when no thread runs", i.where())
                continue
            if kind == "read" and c not in wrote: continue
            if kind == "write" and c not in used: continue
            rep.bad(f"unjoined:{kind}", i.where(), f"{names[c]} is {dict(read='read', write='changed', end='given up')[kind]} while threads that share it may still be running ({fn.callee(i).split('chdr::')[-1] if i.op in ('call','invoke') else i.op})")
        cnt += 1
    for i in fn.insts():
        if i.op in ("ret", "resume"):
            if at.get(i.id): rep.bad("unjoined:return", i.where(), "the function can end while threads it started are still running")
            else: rep.ok(f"{name}: no thread is left running at this end", i.where())
def extent(M, fn, store, lim):
    if not (isinstance(lim, tuple) and lim[0] == "c"): return False
    for i in fn.insts():
        if i.op in ("call", "invoke") and fn.callee(i) == "std::array::operator[]" and strip(fn, i.ops[0])[0] == store:
            m = re.search(r"std::array<.*, (\d+)ul>::operator", M.dem(i.d["fn"]))
            if m and m[1] == str(lim[1]): return True
    return False
def succs(fn, b, normal=False):
    t = fn.blocks[b].insts[-1]; out = list(t.d.get("succ") or [])
    if t.op == "invoke": out += [t.d["normal"]] + ([] if normal else [t.d["unwind"]])
    if t.op == "switch": out += [d for _, d in t.d.get("cases", [])] + [t.d["default"]]
    return out
