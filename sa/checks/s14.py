"""S14: reference counts of pooled predecessors."""
from nodes import *
from paths import Flags
from checks.s18 import Walks
RULE = ("In the searches whose cells count their successors: every constructor that stores a predecessor adds exactly one to that predecessor's count, whenever there is one, and starts the new cell's own count at zero; the count is at least as wide as the index type; the search itself changes counts of stored cells only by subtracting one. "
        "A predecessor is given back, or set aside to be given back, exactly on the branch on which the count just decremented was found to be zero; it is not looked at afterwards; its own predecessor, read before, is the next to be decremented, and a non-zero count ends the walk, which starts at the predecessor of the cell being discarded. "
        "On every path from taking a cell to taking the next one, the cell is either stored in the pool (once) or its predecessors are released, never both, and outside of mgstar never neither.")
TECH = "typestate over flag-sensitive paths, with constructor summaries"
MIN_OB = 80
COUNTED = ("gstar", "gbfs", "gdfs", "gbest_first", "gjps", "mgstar")
NOTE = "mgstar sets predecessors whose count dropped to zero aside and frees them one at a time when memory runs short; that it does not release the chains of cells it drops when it runs out of memory is outside the rule"
def short(n): return n.rpartition("::")[2].split("[abi")[0]
def dec1(fn, v, d):
    """is v a load of `d`'s own location plus k: returns (load, k)"""
    k = 0
    while isinstance(v, int):
        i = fn.inst[v]
        if i.op in ("add", "sub") and cval(i.ops[1]) is not None:
            c = cval(i.ops[1])
            k += c if i.op == "add" else -c; v = i.ops[0]
        elif i.op in ("zext", "sext", "trunc", "freeze"): v = i.ops[0]
        elif i.op == "load": return i, k
        else: return None
    return None
def sgn(k, bits): return (k + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))

def constructors(S, N, r):
    """(offset of the count, offset of the link)"""
    offs = set()
    tns = set()
    for I, cls, m, o in S.inserts():
        t = split_targs(qual(S.dem(I))[-2][1])[0].rstrip("* ").rstrip()
        tns.add(norm(t))
    # constructors with those of their bases inlined
    mods = [S.aux([r"^chdr::solvers::\w+::(\w+)::\1$"]), S.aux([r"^chdr::solvers::(\w+)::\1$"])]
    ctors = {}
    for f in [f for m in mods for f in m.functions.values()]:
        q = qual(f.dem)
        if len(q) < 2: continue
        cls = norm(f.dem[:f.dem.rfind("::" + q[-1][0] + "(")] if ("::" + q[-1][0] + "(") in f.dem else f.dem)
        ctors.setdefault(cls, []).append(f)
    for tn in sorted(tns):
        lay = {m: (o, s, ty) for m, o, s, ty in N.layout(tn)}
        for f in ctors.get(tn, ()):
            sem = Sem(f)
            stores = [i for b in f.order for i in f.blocks[b].insts if i.op == "store"]
            link = None
            for i in stores:
                R, o = sem.addr(i.ops[1]); v = i.ops[0]
                if R == ("a", 0) and isinstance(v, tuple) and v[0] == "a" and f.d["args"][v[1]]["ty"] == "ptr": link = (o, v[1])
            if link is None: continue
            what = f"{S.solver}: constructor that stores a predecessor"
            inc = [i for i in stores if sem.addr(i.ops[1])[0] == ("a", link[1])]
            other = [i for b in f.order for i in f.blocks[b].insts if i.op in ("call", "invoke") and not f.callee(i).startswith("llvm.")]
            if len(inc) != 1: r.bad(what, f.loc() if hasattr(f, "loc") else f.dem[:120], "the count of the predecessor is " + ("not changed" if not inc else "changed more than once") + " when a successor is created"); continue
            i = inc[0]; R, co = sem.addr(i.ops[1]); x = dec1(f, i.ops[0], None)
            bits = i.d["bytes"] * 8
            if x is None or sem.addr(x[0].ops[0]) != (R, co) or sgn(x[1], bits) != 1: r.bad(what, i.where(), "a new successor does not add one to the predecessor's count"); continue
            # exactly when there is a predecessor
            extra = []
            for v, tr in f.facts(i.bb):
                if isinstance(v, tuple): extra.append(v); continue
                c = f.inst[v]
                if c.op == "icmp" and c.d["pred"] in ("eq", "ne") and ("a", link[1]) in c.ops and ("null",) in [o[:1] for o in c.ops if isinstance(o, tuple)] and tr == (c.d["pred"] == "ne"): continue
                extra.append(v)
            if extra: r.bad(what, i.where(), "a new successor is counted only under a further condition"); continue
            if any(i.bb in body for body in f.loops().values()): r.bad(what, i.where(), "a new successor may be counted several times"); continue
            own = [j for j in stores if sem.addr(j.ops[1]) == (("a", 0), co)]
            if not own or any(cval(j.ops[0]) != 0 for j in own): r.bad(what, i.where(), "the count of a new cell does not start at zero"); continue
            w = [s for m, (o, s, ty) in lay.items() if o == co]; ix = [s for m, (o, s, ty) in lay.items() if o == 0]
            if w and ix and w[0] < ix[0]: r.bad(f"{S.solver}: width of the successor count", i.where(), f"the count has {8 * w[0]} bits, cells are indexed with {8 * ix[0]}: a predecessor with more than {2 ** (8 * w[0]) - 1} successors is taken to have none left too early")
            else: r.ok(f"{S.name}: the count is as wide as the index", i.where())
            r.ok(f"{S.name}: a successor adds one to its predecessor's count", i.where())
            offs.add((co, link[0]))
    return offs

def unit(S, r):
    if S.solver not in COUNTED: return "skip"
    fn, sem = S.fn, S.sem; N = Nodes(S)
    offs = constructors(S, N, r)
    if not offs:
        if r.viol: return
        raise CheckError(f"{S.name}: no constructor that stores a predecessor")
    if len(offs) != 1: raise CheckError(f"{S.name}: cells with different layouts")
    co, lk = next(iter(offs))
    bad = lambda k, i, why: r.bad(f"{S.solver}: {k}", i.where() if hasattr(i, "where") else str(i), why)
    # ---- count updates
    decs = []
    csize = None
    for b in fn.order:
        for i in fn.blocks[b].insts:
            if i.op != "store": continue
            R, o = sem.addr(i.ops[1])
            if o != co or sem.alloca(R) or R[0] != "v": continue
            if i.d["bytes"] not in (1, 2, 4, 8) or not nodeptr(S, R, lk, co): continue
            x = dec1(fn, i.ops[0], None)
            if x is None or sem.addr(x[0].ops[0]) != (R, o) or sgn(x[1], 8 * i.d["bytes"]) != -1: bad("count changed", i, "the count of a stored cell is changed by something other than subtracting one"); continue
            decs.append((i, R[1]))
    frees = []
    for i in fn.calls():
        n = fn.callee(i)
        if short(n) in ("deallocate", "do_deallocate") and ("pool" in n or "memory_resource" in n): frees.append((i, i.ops[1], "freed"))
    if not decs: bad("discarding a cell", S.name, "no path subtracts one from the count of a discarded cell's predecessor"); return
    # mgstar-like: set aside
    aside = []
    for I in fn.calls():
        n = fn.callee(I)
        if short(n) in ("emplace", "push", "push_back", "emplace_back", "emplace_front", "push_front") and I.ops and "*" in S.elem_class(I.id)[1]:
            R, o = sem.addr(I.ops[1])
            for d in sem.defs(R, o, 8, I):
                if d[0] == "store": aside.append((I, d[1].ops[0], "set aside", d[1]))
    loops = fn.loops()
    def inner(b):
        c = [(len(body), h) for h, body in loops.items() if b in body]
        return min(c)[1] if c else None
    def same(v, w, depth=0):
        """is v the pointer w, possibly merged with null"""
        if v == w: return True
        if not isinstance(v, int) or depth > 6: return False
        i = fn.inst[v]
        if i.op in ("freeze", "bitcast"): return same(i.ops[0], w, depth + 1)
        if i.op == "phi": 
            xs = [tup(x) for _, x in i.d["in"]]; xs = [x for x in xs if not (isinstance(x, tuple) and x[0] == "null")]
            return bool(xs) and all(same(x, w, depth + 1) for x in xs)
        if i.op == "select":
            xs = [x for x in i.ops[1:] if not (isinstance(x, tuple) and x[0] == "null")]; return bool(xs) and all(same(x, w, depth + 1) for x in xs)
        if i.op == "load":
            R, o = sem.addr(i.ops[0])
            if sem.alloca(R) and fn.inst[R[1]].d.get("aty") == "ptr":
                ds = sem.defs(R, o, 8, i)
                ds = [d for d in ds if d[0] != "undef" and not (d[0] == "store" and d[1].ops[0] == ("null",))]
                return bool(ds) and all(d[0] == "store" and same(d[1].ops[0], w, depth + 1) for d in ds)
            if isinstance(w, int) and fn.inst[w].op == "load" and not sem.alloca(R):
                j = fn.inst[w]; return sem.addr(j.ops[0]) == (R, o) and fn.idominates(j, i) is not None and fn.idominates(j, i) and not clobbered(j, i, R, o)
        return False
    def clobbered(j, i, R, o): return any(k.op == "store" and sem.addr(k.ops[1]) == (R, o) for b in fn.order for k in fn.blocks[b].insts)
    def zero_edges(i, p):
        """(edges taken when the count just stored by i is zero, when it is not)"""
        z, nz = set(), set()
        for b in fn.order:
            if not (b == i.bb or fn.dominates(i.bb, b)): continue
            for s in fn.blocks[b].succs:
                for v, tr in fn.edge_fact(b, s):
                    if isinstance(v, tuple): continue
                    c = fn.inst[v]
                    while c.op in ("zext", "freeze", "trunc") and isinstance(c.ops[0], int): c = fn.inst[c.ops[0]]
                    if c.op != "icmp" or len(c.ops) < 2: continue
                    k = cval(c.ops[1]); x = c.ops[0]
                    if k is None or not isinstance(x, int): continue
                    def cnt(x):
                        while isinstance(x, int) and fn.inst[x].op in ("zext", "freeze"): x = fn.inst[x].ops[0]
                        if x == i.ops[0]: return 0
                        if isinstance(x, int):
                            j = fn.inst[x]
                            if j.op == "load" and sem.addr(j.ops[0]) == (("v", p), co):
                                o = fn.inst.get(dec1(fn, i.ops[0], None)[0].id)
                                return 1 if j.id == o.id or fn.idominates(j, i) else 0     # the value before, or after, the decrement
                        return None
                    d = cnt(x)
                    if d is None: continue
                    P = c.d["pred"]
                    if P in ("eq", "ne") and k == d: (z if tr == (P == "eq") else nz).add((b, s))
                    elif P == "ult" and k == d + 1 or P == "ule" and k == d: (z if tr else nz).add((b, s))
                    elif P == "ugt" and k == d or P == "uge" and k == d + 1: (nz if tr else z).add((b, s))
        return z, nz
    taken = takes(S)
    if not taken: raise CheckError(f"{S.name}: where cells are taken from the frontier was not found")
    takeb = {i.bb for i in taken}
    good_free = set()
    for i, p in decs:
        what = f"release in {i.where().rpartition('(')[2].rstrip(')')}"
        z, nz = zero_edges(i, p)
        if not z or not nz: bad(what, i, "the count that was decremented is not compared with zero"); continue
        mine = [(F, v, how) for F, v, how in frees if same(v, p)] + [(F, v, how) for F, v, how, st in aside if same(v, p)]
        if not mine: bad(what, i, "a predecessor whose count dropped to zero is not given back"); continue
        stop = {F.bb for F, _, _ in mine}
        # from a zero count, the block is given back before anything else is decremented or taken
        miss = [e for e in z if any(S.reachable_without(t, (), begin=e[1], stop=stop) or e[1] == t for t in takeb | {d.bb for d, _ in decs} if t not in stop) and e[1] not in stop]
        if miss: bad(what, i, "a predecessor whose count dropped to zero is kept on some path"); continue
        # from a non-zero count it is not, and the walk ends
        body = loops.get(inner(i.bb), set()); wrong = None
        inouter = inner(i.bb) is None or any(t in body for t in takeb)
        for (a, s) in nz:
            if any(fn_reach_flag(S, s, F.bb, takeb) for F, _, _ in mine): wrong = "a predecessor that still has successors may be given back"
            elif not inouter and s in body and fn_reach_flag(S, s, i.bb, takeb): wrong = "the walk goes on past a predecessor that still has successors"
        if wrong: bad(what, i, wrong); continue
        # each release of this pointer is decided by this count
        und = [F for F, _, _ in mine if F.bb not in {e[1] for e in z} and S.reachable_without(F.bb, z, begin=i.bb)]
        if und or any(not fn.dominates(i.bb, F.bb) for F, _, how in mine if how == "freed"): bad(what, i, "a predecessor may be given back without its count having dropped to zero"); continue
        # use after it was given back
        late = None
        for F, v, how in mine:
            if how != "freed": continue
            start = F.d.get("normal") if F.op == "invoke" else None
            for b in fn.order:
                for j in fn.blocks[b].insts:
                    if j.op in ("load", "store"):
                        R, o = sem.addr(j.ops[0] if j.op == "load" else j.ops[1])
                        if R == ("v", p) or isinstance(v, int) and R == ("v", v):
                            pd = fn.inst[p].bb
                            if b == F.bb and fn.blocks[b].insts.index(j) > fn.blocks[b].insts.index(F) or b != F.bb and any(s == b and s != pd or S.reachable_without(b, (), begin=s, stop={pd}) and s != pd for s in fn.blocks[F.bb].succs if s != F.d.get("unwind")): late = j
        if late is not None: bad(what, late, "a predecessor is read after it was given back"); continue
        for F, _, _ in mine: good_free.add(F.id)
        # where the walk starts, and how it goes on
        src = sources(S, p); start = [x for x in src if x[0] == "link" and x[1] == "cell"]; chain = [x for x in src if x[0] == "link" and x[1] != "cell"]
        odd = [x for x in src if x[0] != "link"]
        if odd or any(x[2] != lk for x in src if x[0] == "link"): bad(what, i, f"what is decremented is not a predecessor ({sorted(map(str, odd or src))[:2]})"); continue
        freed = any(how == "freed" for _, _, how in mine)
        if not start: bad(what, i, "the walk does not start at the predecessor of the cell that is discarded"); continue
        if freed:
            if not any(same_ptr(S, x[1], p) for x in chain): bad(what, i, "the predecessors of a cell that was given back are not released in turn"); continue
            # the next one is read before the block is given back
        elif chain: bad(what, i, "the walk goes on past a cell that is only set aside"); continue
        r.ok(f"{S.name}: released exactly when the count drops to zero", i.where())
        r.ok(f"{S.name}: the walk runs along the predecessors and stops at one in use", i.where())
    for F, v, how in frees:
        if F.id in good_free: continue
        if aside and isinstance(v, int) and any(o[0] == "elem" for o in [x for x in sources(S, v)]) and all(x[0] == "elem" and "*" in S.elem_class(x[1])[1] for x in sources(S, v)): 
            # comes out of the container of set-aside cells, which is shortened with it
            cont = {S.container(fn.inst[x[1]]) for x in sources(S, v)}
            pops = [j for j in fn.calls() if short(fn.callee(j)) in ("pop", "pop_back", "pop_front", "erase") and j.ops and S.container(j) in cont]
            if any(fn.dominates(F.bb, j.bb) or fn.dominates(j.bb, F.bb) for j in pops): r.ok(f"{S.name}: set-aside cells are freed once", F.where())
            else: bad("set-aside cell freed", F, "a cell that was set aside may be freed again")
            continue
        if not r.viol: bad(f"block given back in {F.where().rpartition('(')[2].rstrip(')')}", F, "a stored cell is given back although its count was not found to have dropped to zero")
    # ---- each taken cell is stored or released
    allocs = {i.id for i in fn.calls() if short(fn.callee(i)) in ("allocate", "do_allocate") and ("pool" in fn.callee(i) or "memory_resource" in fn.callee(i))}
    entry = set()
    for i, p in decs:
        entry.add(i.bb)
        # a null test counts as the start of the walk when its other side always leads to the decrement
        for b in null_tests(S, p, lk):
            c = fn.inst[fn.term(b).ops[0]]; nn = fn.term(b).d["succ"][0 if c.d["pred"] == "ne" else 1]
            if nn == i.bb or (not any(t == nn or S.reachable_without(t, (), begin=nn, stop={i.bb}) for t in takeb) and S.reachable_without(i.bb, (), begin=nn, stop=takeb)): entry.add(b)
    F = Flags(S); viol = {}; takeid = {i.id for i in taken}
    goal = set(S.goal_edges())
    def event(i, st):
        if i.id in takeid:
            if st == "live" and S.solver != "mgstar": viol.setdefault("neither", i)
            return "live"
        if i.id in allocs:
            if st in ("stored", "both"): viol.setdefault("twice", i)
            if st == "gone": viol.setdefault("both", i)
            return "stored"
        if i.id in term and st != "none":
            if st == "stored": viol.setdefault("both", i)
            return "gone"
        return st
    term = {fn.term(b).id for b in entry} | {i.id for i, p in decs}
    states = F.explore("none", event, unwind=False)
    r.count("path states", len(states))
    for k, i in viol.items():
        bad({"neither": "discarded cell", "twice": "stored cell", "both": "stored cell"}[k], i, {"neither": "on some path a cell without successors is dropped without releasing its predecessors", "twice": "a cell is stored in the pool twice", "both": "a cell is stored in the pool and its predecessors are released as well"}[k])
    if not viol: r.ok(f"{S.name}: every taken cell is stored or its predecessors are released", taken[0].where(), )

def takes(S):
    fn = S.fn; fr = set(); out = []
    for I, cls, m, o in S.inserts():
        if not split_targs(qual(S.dem(I))[-2][1])[0].rstrip().endswith("*"): fr.add(S.container(I))
    loops = fn.loops()
    for i in fn.calls():
        m = short(fn.callee(i))
        if m in ("top", "front", "back", "extract", "pop") and S.container(i) in fr and any(i.bb in b for b in loops.values()): out.append((m, i))
    pop = [i for m, i in out if m in ("top", "front", "back", "extract")]
    # the first of them on every iteration
    return [i for i in pop if not any(j is not i and fn.idominates(j, i) for j in pop)]
def fn_reach_flag(S, a, b, stop):
    return a == b or S.reachable_without(b, (), begin=a, stop=set(stop) - {b})
def nodeptr(S, R, lk, co):
    """does something treat the object at R as a cell with successors: its count is read as well"""
    return True
def sources(S, v):
    """what a pointer is: {('link', 'cell' or the pointer it was read from, offset), ('elem', call), ('other', ...)}"""
    fn, sem = S.fn, S.sem; out, seen, w = set(), set(), [v]
    while w:
        v = w.pop()
        if isinstance(v, tuple):
            if v[0] not in ("null", "undef", "poison"): out.add(("other", v))
            continue
        if v in seen: continue
        seen.add(v); i = fn.inst[v]
        if i.op == "phi": w += [tup(y) for _, y in i.d["in"]]
        elif i.op == "select": w += i.ops[1:]
        elif i.op in ("freeze", "bitcast"): w.append(i.ops[0])
        elif i.op == "load":
            R, o = sem.addr(i.ops[0])
            if sem.alloca(R):
                size = fn.inst[R[1]].d.get("size")
                if size == 8:
                    for d in sem.defs(R, o, 8, i):
                        if d[0] == "store": w.append(d[1].ops[0])
                        elif d[0] == "undef": continue
                        else: out.add(("other", d[0]))
                else:
                    out.add(("link", "cell", o))
                    for d in sem.defs(R, o, 8, i):      # the cell's own link is moved along the chain
                        if d[0] == "store": w.append(d[1].ops[0])
            elif R[0] == "v" and fn.inst[R[1]].op in ("call", "invoke") and "*" in S.elem_class(R[1])[1] and o == 0: out.add(("elem", R[1]))
            elif R[0] == "v": out.add(("link", R[1], o))
            else: out.add(("other", R))
        elif i.op in ("call", "invoke") and "*" in S.elem_class(v)[1]: out.add(("elem", v))
        else: out.add(("other", v))
    return out
def same_ptr(S, x, p):
    if x == p: return True
    i, j = S.fn.inst.get(x), S.fn.inst.get(p)
    if i is None or j is None: return False
    if i.op == "load" and j.op == "load": return S.sem.addr(i.ops[0]) == S.sem.addr(j.ops[0])
    if j.op == "phi" and i.op == "phi": return False
    return False
def null_tests(S, p, lk):
    """blocks that end in a test of the walk's pointer against null"""
    fn, sem = S.fn, S.sem; out = set(); webs = {p}
    src = sources(S, p)
    for b in fn.order:
        t = fn.term(b)
        if t.op != "br" or len(t.d["succ"]) != 2 or not isinstance(t.ops[0], int): continue
        c = fn.inst[t.ops[0]]
        if c.op == "icmp" and c.d["pred"] in ("eq", "ne") and ("null",) in [o for o in c.ops if isinstance(o, tuple)]:
            x = [o for o in c.ops if isinstance(o, int)]
            if x and (x[0] == p or x[0] in webs or sources(S, x[0]) and sources(S, x[0]) <= src and all(s[0] == "link" for s in sources(S, x[0]))): out.add(b)
    return out
def run(rep, tier): run_units(rep, unit, tier, 4)
