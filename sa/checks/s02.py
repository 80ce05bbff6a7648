"""S02: resources are handed back reset."""
from search import *
RULE = ("In every inlined solve(), for each of the three memory resources of the parameters: every way out of the function - return, and each call outside of a handler through which an exception can leave - is reached from the entry only past a call of reset() (or release()) on that "
        "resource, or over a branch on which the resource is known to be null; a call that may itself throw counts as done only on its normal return, except for the resource it concerns. With cleanup disabled nothing is reset after the search. Instantiations "
        "with a caller-defined resource whose reset() may throw are included.")
TECH = "must-pass-through analysis over the control-flow graph including exception edges"
MIN_OB = 400
FIELDS = ("mono", "het", "hom")
EXTRA = [("bfs", "PE"), ("astar", "PE"), ("idastar", "PE")]

def exits(fn):
    """instructions through which control leaves the function; calls outside of any handler that may throw included"""
    for i in fn.insts():
        if i.op == "ret": yield i, "returns"
        elif i.op == "resume": yield i, "passes an exception on"
        elif i.op == "call" and not i.d.get("nounwind"):
            n = fn.callee(i)
            if not n.startswith(("llvm.", "std::terminate", "__clang_call_terminate", "__cxa_begin_catch", "__cxa_end_catch")) and dies(fn, i) is False: yield i, f"may throw out of {n or 'an indirect call'}"
def dies(fn, i):
    """calls that do not let exceptions out: they are followed by termination, or are the library's own noexcept functions"""
    B = fn.blocks[i.bb].insts
    n = fn.callee(i)
    if n in ("std::terminate", "abort"): return True
    return False

def which(S, ptr):
    """fields of the parameters a resource pointer may come from"""
    out = set()
    for a in alts(S.sem.t(ptr)):
        for f in FIELDS:
            if a == ("ld", ("a", 1), S.off[f]): out.add(f)
    return out

def unit(S, r):
    fn = S.fn; sem = S.sem; calls = []
    for i in fn.calls():
        n = fn.callee(i)
        if n.rpartition("::")[2] in ("reset", "release") and ("_pool::" in n or "own_resource::" in n) and i.ops:
            w = which(S, i.ops[0])
            if len(w) == 1: calls.append((i, w.pop()))
            else: raise CheckError(f"{S.name}: {n} on a resource that was not recognised")
    if S.cfg in ("PD", "PF"):
        ins = {i.bb for i, *_ in S.inserts()}; pos = [(i.bb, i.pos) for i, *_ in S.inserts()]
        rets = [b for b in fn.order if fn.term(b).op == "ret"]
        for i, f in calls:
            # recycling between the iterations of a search is fine: the search goes on
            if any(b == i.bb and p > i.pos for b, p in pos) or post_passes(fn, i, ins, rets): r.ok(f"{S.name}: {f} is only recycled inside the search", i.where())
            else: r.bad(f"{S.solver}:reset-despite-no-cleanup:{f}", i.where(), f"{S.name}: cleanup is disabled, but the {f} resource is reset after the search")
        r.ok(f"{S.name}: {len(calls)} resets, none after the search", fn.sp_where())
        return
    ex = list(exits(fn))
    null = {f: set() for f in FIELDS}
    for b in fn.order:
        for s in fn.blocks[b].succs:
            for v, tr in fn.edge_fact(b, s):
                c = sem.cond(v) if not isinstance(v, tuple) else None
                if c is None or c[0][0] != "eq" or c[1] != tr: continue
                for f in FIELDS:
                    if {c[0][1], c[0][2]} == {("null",), ("ld", ("a", 1), S.off[f])}: null[f].add((b, s))
    for f in FIELDS:
        # final resets: not the ones followed by more search
        mine = [i for i, g in calls if g == f]
        if not mine: r.bad(f"{S.solver}:never-reset:{f}", fn.sp_where(), f"{S.name}: the {f} resource is never reset"); continue
        work = {i.bb for i, *_ in S.inserts()} | {i.bb for i in S.expansions()}
        done = [i for i in mine if not (fn.reach(fn.blocks[i.bb].succs) & work)]
        if not done: r.bad(f"{S.solver}:not-reset-after:{f}", mine[0].where(), f"{S.name}: the {f} resource is only reset before or during the search"); continue
        R = unreset(fn, done, null[f])
        for i, how in ex:
            if (i.bb, i.pos) in R: 
                r.bad(f"{S.solver}:exit-without-reset:{f}:{i.op}", i.where(), f"{S.name}: solve {how} on a path on which the {f} resource was not reset")
            else: r.ok(f"{S.name}: {f} reset before solve {how}", i.where())

def post_passes(fn, i, ins, rets):
    """does every normal way from i to a return pass one of the blocks"""
    seen = set(); w = [s for s in normal(fn, i.bb)]
    while w:
        b = w.pop()
        if b in seen or b in ins: continue
        seen.add(b)
        if b in rets: return False
        w += normal(fn, b)
    return True
def normal(fn, b):
    t = fn.term(b)
    return [t.d["normal"]] if t.op == "invoke" else fn.blocks[b].succs

def unreset(fn, done, nulls):
    """(block, position) of the instructions that can execute before any of the calls"""
    at = {}
    for i in done: at.setdefault(i.bb, []).append(i.pos)
    out = set(); seen = {fn.entry}; w = [fn.entry]
    while w:
        b = w.pop(); stop = min(at.get(b, [1 << 30]))
        for i in fn.blocks[b].insts:
            if i.pos < stop: out.add((b, i.pos))
        if stop < (1 << 30): continue          # both ways out of a reset of this resource count: it was called
        t = fn.term(b)
        for s in normal(fn, b) if t.op == "invoke" and fn.callee(t) == "__cxa_end_catch" else fn.blocks[b].succs:      # (destroying a caught exception object does not throw)
            if (b, s) in nulls or s in seen: continue
            seen.add(s); w.append(s)
    return out

def run(rep, tier): run_units(rep, unit, tier, 1, EXTRA)
