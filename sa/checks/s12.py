"""S12: nothing is reset under data that lives in it."""
from search import *
from checks.s02 import which
from checks.s18 import Walks
RULE = ("In every inlined solve(), each object constructed with one of the three memory resources of the parameters (directly, through an allocator, or by copying or moving from such an object) is tracked from its constructor to its destructor along all paths, exception edges included; "
        "a reset or release of a resource is reached only while no object bound to that resource is alive, and once memory for cells was taken from a resource directly, no cell is added, looked at or read back after a reset of it.")
TECH = "typestate (object lifetimes per memory resource) over the control-flow graph"
MIN_OB = 160
def short(n): return n.rpartition("::")[2].split("[abi")[0]
def special(n):
    """'ctor' / 'dtor' of which class"""
    cls, _, m = n.rpartition("::"); last = cls.rpartition("::")[2]; m = m.split("[")[0]
    if not last: return None
    return ("ctor", last) if m == last else ("dtor", last) if m == "~" + last else None
class Owners:
    def __init__(self, S):
        self.S, self.fn, self.sem = S, S.fn, S.sem
        self.bound = {}        # object -> fields
        self.gen, self.kill = {}, {}
        calls = [(i, special(self.fn.callee(i))) for i in self.fn.calls()]
        ctors = [i for i, k in calls if k and k[0] == "ctor" and i.ops]
        for i, k in calls:
            if k and k[0] == "dtor" and i.ops:
                for R, o in self.sem.locs(i.ops[0]): self.kill.setdefault(i.id, set()).add((R, o))
        grew = True
        while grew:
            grew = False
            for i in ctors:
                ls = self.sem.locs(i.ops[0])
                if len(ls) != 1: continue
                me = ls[0]; f = set()
                for o in i.ops[1:]: f |= self.fields(o)
                if f - self.bound.get(me, set()): self.bound.setdefault(me, set()).update(f); grew = True
                if f: self.gen[i.id] = me
            # an allocator, or an owner, filled in by hand
            for b in self.fn.order:
                for i in self.fn.blocks[b].insts:
                    if i.op == "store" and isinstance(i.ops[0], int) and self.fn.inst[i.ops[0]].op in ("load", "phi"):
                        R, o = self.sem.addr(i.ops[1])
                        if self.sem.alloca(R):
                            f = self.direct(i.ops[0])
                            if f - self.bound.get((R, o), set()) and self.fn.inst[R[1]].d.get("aty") != "ptr": self.bound.setdefault((R, o), set()).update(f); grew = True
        # the destructor of an allocator ends nothing, and allocators hold nothing
        self.trivial = {me for me in self.bound if not any(me in k for k in self.kill.values())}
    def direct(self, o):
        out = set()
        for a in alts(self.sem.t(o)):
            for f in ("mono", "het", "hom"):
                if a == ("ld", ("a", 1), self.S.off[f]): out.add(f)
        return out
    def fields(self, o):
        out = self.direct(o)
        if isinstance(o, int):
            for R, off in self.sem.locs(o): out |= self.bound.get((R, off), set())
        return out
    def live(self):
        """{instruction id of a call: objects alive before it}"""
        fn = self.fn; inn = {fn.entry: frozenset()}; w = [fn.entry]; before = {}
        while w:
            b = w.pop(); st = set(inn[b]); last = None
            for i in fn.blocks[b].insts:
                if i.op in ("call", "invoke"):
                    before[i.id] = before.get(i.id, frozenset()) | frozenset(st)
                    st -= self.kill.get(i.id, set())
                    if i.id in self.gen:
                        if i.op == "invoke": last = self.gen[i.id]
                        else: st.add(self.gen[i.id])
            t = fn.term(b)
            for s in fn.blocks[b].succs:
                x = set(st)
                if last is not None and not (t.op == "invoke" and s == t.d.get("unwind")): x.add(last)
                n = inn.get(s, None)
                if n is None or not x <= n: inn[s] = frozenset(x) | (n or frozenset()); w.append(s)
        return before
def unit(S, r):
    fn, sem = S.fn, S.sem
    O = Owners(S)
    if not O.gen: raise CheckError(f"{S.name}: no object that draws from the caller's memory resources")
    before = O.live(); n = 0
    resets = []
    for i in fn.calls():
        c = fn.callee(i)
        if short(c) in ("reset", "release") and ("_pool::" in c or "own_resource::" in c or "memory_resource::" in c) and i.ops:
            w = which(S, i.ops[0])
            if not w: raise CheckError(f"{S.name}: {c} on a resource that was not recognised")
            resets.append((i, w))
    taken = {}
    for i in fn.calls():
        if short(fn.callee(i)) in ("allocate", "do_allocate") and ("pool" in fn.callee(i) or "memory_resource" in fn.callee(i)):
            for f in O.direct(i.ops[0]): taken.setdefault(f, set()).add(i.bb)
    used = {I.bb for I, *_ in S.inserts()} | {I.bb for I, m in S.grows()}
    for i in fn.calls():
        if short(fn.callee(i)) in ("top", "front", "back", "extract") : used.add(i.bb)
    for i, w in resets:
        bad = None
        for o in before.get(i.id, ()):
            if O.bound.get(o, set()) & w and o not in O.trivial: bad = o; break
        if bad is not None:
            c = [fn.inst[k] for k, me in O.gen.items() if me == bad]
            r.bad(f"{S.solver}: {'/'.join(sorted(w))} resource reset in {i.where().rpartition('(')[2].rstrip(')')}", i.where(), f"{S.name}: the {fn.callee(c[0]).rpartition('::')[2] if c else 'object'} constructed at {c[0].where() if c else '?'} draws from the resource and is still alive")
            continue
        late = None
        for f in w:
            if not taken.get(f): continue
            if not any(i.bb == t or S.reachable_without(i.bb, (), begin=t) for t in taken[f]): continue
            nx = [s for s in fn.blocks[i.bb].succs] if fn.term(i.bb).id == i.id or fn.term(i.bb) is i else [i.bb]
            for u in used:
                if any(s == u or S.reachable_without(u, (), begin=s) for s in fn.blocks[i.bb].succs): late = (f, u); break
        if late: r.bad(f"{S.solver}: {late[0]} resource reset in {i.where().rpartition('(')[2].rstrip(')')}", i.where(), f"{S.name}: cells were taken from the resource and are used afterwards ({fn.blocks[late[1]].insts[0].where()})"); continue
        r.ok(f"{S.name}: nothing bound to the {'/'.join(sorted(w))} resource is alive at its reset", i.where())
    if not resets: r.ok(f"{S.name}: no resource is reset", fn.sp_where())
    r.count("objects tracked", len([o for o in O.gen.values() if o not in O.trivial]))
def run(rep, tier): run_units(rep, unit, tier, 1)
