"""S03: exceptions of a solve are not swallowed."""
from search import *
RULE = ("Every exception handler in every inlined solve() and in the library's containers, mazes and nodes it calls either guards nothing but optional reservations of capacity (or empties a container by other means), or ends on every path by throwing: it rethrows directly, terminates, or keeps the exception (current_exception) in a "
        "variable that is found non-null and rethrown before the function can return. An exception kept is not overwritten by a later one.")
TECH = "exception-handler typestate over the control-flow graph (exception_ptr variables known non-null)"
MIN_OB = 200
EXTRA = [("bfs", "PE"), ("astar", "PE"), ("idastar", "PE")]
EP = "std::__exception_ptr::"

def handlers(fn):
    """(begin_catch call, landing pad blocks that lead to it)"""
    for i in fn.calls():
        if (i.d.get("fn") or "") == "__cxa_begin_catch": yield i
def guarded(fn, h):
    """the invokes whose exceptions arrive at handler h"""
    seen = set(); w = [h.bb]; out = []
    while w:
        b = w.pop()
        if b in seen: continue
        seen.add(b)
        for p in fn.blocks[b].preds:
            t = fn.term(p)
            if t.op == "invoke" and t.d["unwind"] == b and any(x.op == "landingpad" for x in fn.blocks[b].insts): out.append(t)
            else: w.append(p)
        
    return out
def callname(fn, i): return fn.callee(i) or (i.d.get("fn") or "")

def ends(fn, h, sem):
    """[(terminator, how)]: how control can leave the function normally after handler h without the exception having been thrown again"""
    def var(v):
        R, o = sem.addr(v); return (R, o)
    bad = []; start = (h.bb, h.pos + 1, frozenset(), frozenset(), frozenset())
    # state: block, first position, variables known to hold an exception, {comparison value: (variable, truth when null)}, variables known to be null
    seen = set(); w = [start]; steps = 0
    while w:
        b, pos, N, C, Z = w.pop()
        if (b, pos, N, C, Z) in seen: continue
        seen.add((b, pos, N, C, Z)); steps += 1
        if steps > 200000: raise CheckError("handler exploration does not end")
        N, C = set(N), dict(C); Z = set(Z); stop = False
        for i in fn.blocks[b].insts:
            if i.pos < pos: continue
            if i.op in ("call", "invoke"):
                n = fn.callee(i); raw = i.d.get("fn") or ""; m = n.rpartition("::")[2]
                if raw in ("__cxa_rethrow", "__cxa_throw") or n in ("std::terminate", "abort", "__clang_call_terminate") or raw == "__clang_call_terminate": stop = True; break
                if n == "std::rethrow_exception":
                    stop = True; break
                if n == "std::current_exception" and i.d.get("sret"): N.add(var(i.ops[i.d["sret"][0]])); Z.discard(var(i.ops[i.d["sret"][0]]))
                elif n.startswith(EP):
                    a = [var(o) if not isinstance(o, tuple) or o[0] in ("a", "g", "goff", "v") else None for o in i.ops]
                    isnull = lambda k: len(i.ops) > k and (isinstance(i.ops[k], tuple) and i.ops[k][0] == "null" or a[k] in Z)
                    if m in ("exception_ptr", "operator=") and len(i.ops) > 1:
                        was = a[1] in N; null = isnull(1)
                        (N.add if was else N.discard)(a[0]); (Z.add if null else Z.discard)(a[0])
                    elif m == "exception_ptr": Z.add(a[0]); N.discard(a[0])
                    elif m == "swap":
                        x, y = a[0] in N, a[1] in N; u, z = a[0] in Z, a[1] in Z
                        (N.add if y else N.discard)(a[0]); (N.add if x else N.discard)(a[1]); (Z.add if z else Z.discard)(a[0]); (Z.add if u else Z.discard)(a[1])
                    elif m in ("operator==", "operator!="):
                        x = a[1] if isnull(0) else a[0] if isnull(1) else None
                        if x is not None: C[i.id] = (x, m == "operator==")
                    elif m == "operator bool": C[i.id] = (a[0], False)
                    elif m == "~exception_ptr": N.discard(a[0]); Z.discard(a[0])
            elif i.op == "ret": bad.append((i, "returns normally")); stop = True; break
            elif i.op == "resume": stop = True; break
        if stop: continue
        t = fn.term(b)
        if t.op == "invoke" and callname(fn, t) == "__cxa_end_catch": succ = [t.d["normal"]]
        else: succ = fn.blocks[b].succs
        for s in succ:
            N2, Z2 = set(N), set(Z)
            dead = False
            for v, tr in fn.edge_fact(b, s):
                k = resolve(fn, v)
                if k and k[0] in C:
                    x, nullwhen = C[k[0]]; isnull = (nullwhen == (tr == k[1]))
                    if isnull and x in N: dead = True
                    if not isnull and x in Z: dead = True
                    (Z2 if isnull else N2).add(x)
            if not dead: w.append((s, 0, frozenset(N2), frozenset(C.items()), frozenset(Z2)))
    return bad
def resolve(fn, v):
    pol = True
    while isinstance(v, int):
        i = fn.inst.get(v)
        if i is None: return None
        if i.op in ("zext", "sext", "trunc", "freeze"): v = i.ops[0]
        elif i.op == "xor" and any(isc(o, 1) for o in i.ops if isinstance(o, tuple)): v = [o for o in i.ops if not isinstance(o, tuple)][0]; pol = not pol
        elif i.op == "icmp" and i.d["pred"] in ("eq", "ne") and isc(i.ops[1], 0): v = i.ops[0]; pol = pol == (i.d["pred"] == "ne")
        elif i.op == "call" and fn.callee(i).startswith("llvm.expect"): v = i.ops[0]
        else: return (v, pol)
    return None

def overwrites(fn, sem):
    """assignments of a freshly caught exception to a variable that may already hold one"""
    asg = []
    for i in fn.calls():
        n = fn.callee(i)
        if n.startswith(EP) and n.rpartition("::")[2] == "operator=" and len(i.ops) > 1:
            src = sem.addr(i.ops[1])
            cur = [j for j in fn.calls() if fn.callee(j) == "std::current_exception" and j.d.get("sret") and sem.addr(j.ops[j.d["sret"][0]]) == src]
            if cur: asg.append((i, sem.addr(i.ops[0])))
    for i, X in asg:
        cut = set()
        for b in fn.order:
            for s in fn.blocks[b].succs:
                for v, tr in fn.edge_fact(b, s):
                    k = resolve(fn, v)
                    j = fn.inst.get(k[0]) if k else None
                    if j is not None and j.op in ("call", "invoke") and fn.callee(j).startswith(EP):
                        m = fn.callee(j).rpartition("::")[2]
                        if m in ("operator==", "operator!=", "operator bool") and any(isinstance(o, int) and sem.addr(o) == X for o in j.ops):
                            if (m == "operator==") == (tr == k[1]): cut.add((b, s))
        for j, Y in asg:
            if Y != X: continue
            seen = set(); w = list(fn.blocks[j.bb].succs)
            while w:
                b = w.pop()
                if b in seen: continue
                seen.add(b); w += [s for s in fn.blocks[b].succs if (b, s) not in cut]
            if i.bb in seen: yield i; break

def check(fn, sem, label, key, r):
    for h in handlers(fn):
        t = fn.term(h.bb)
        nxt = fn.blocks[h.bb].insts[h.pos + 1:]
        if any(x.op in ("call", "invoke") and callname(fn, x) in ("std::terminate",) for x in nxt): continue       # a promise not to throw (S04)
        inv = guarded(fn, h)
        names = {fn.callee(i) or i.d.get("fn") or "" for i in inv}
        if inv and all(n.rpartition("::")[2] == "reserve" for n in names):
            r.ok(f"{label}: a handler absorbs only the failure of {', '.join(sorted(names))}", h.where()); continue
        if inv and all(n.rpartition("::")[2] in ("operator=", "clear", "shrink_to_fit", "swap") for n in names):
            tgt = {sem.addr(i.ops[0]) for i in inv if fn.callee(i).rpartition("::")[2] != "shrink_to_fit"}
            if all(any(fn.callee(j).rpartition("::")[2] == "clear" and j.ops and sem.addr(j.ops[0]) == x and (fn.dominates(h.bb, j.bb)) for j in fn.calls()) for x in tgt):
                r.ok(f"{label}: a handler empties the container another way", h.where()); continue
        bad = ends(fn, h, sem)
        if bad: r.bad(f"{key}:swallowed", h.where(), f"{label}: an exception caught here (from {', '.join(sorted(n for n in names if n)[:3])}) is dropped: the function {bad[0][1]}")
        else: r.ok(f"{label}: a handler passes the exception on", h.where())
    for i in overwrites(fn, sem): r.bad(f"{key}:overwritten", i.where(), f"{label}: an exception that was kept may be replaced by a later one")

def unit(S, r):
    check(S.fn, S.sem, S.name, S.solver, r)
    for f in S.mod.functions.where(r"^chdr::(?!\w*_pool)|::jump$|::state::"):
        if f is S.fn: continue
        check(f, Sem(f), f"{S.name}: {f.base}", f.base, r)

def run(rep, tier): run_units(rep, unit, tier, 1, EXTRA)
