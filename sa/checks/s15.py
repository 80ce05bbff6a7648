"""S15: blocks of pool memory for cells."""
from nodes import *
from checks.s18 import Walks
RULE = ("Every block a search takes from a memory resource for a cell is large enough for everything written to or copied into it (followed through pointer arithmetic, merges and calls) and for the declared type of the search's cells, with at least that type's alignment. "
        "Every block given back goes to the resource (a field of the caller's parameters) the search takes its blocks from, with the size and alignment they were requested with, and is a block obtained there: a predecessor pointer, read from a cell or from a container of such pointers, without an offset.")
TECH = "points-to and extent analysis of pool blocks on inlined SSA, with type layouts from debug information"
MIN_OB = 45
def short(n): return n.rpartition("::")[2].split("[abi")[0]
class Layout:
    def __init__(self, N): self.N = N
    def align(self, tn, depth=0):
        tn = norm(tn).replace("const ", "").replace("volatile ", "").strip()
        if "*" in tn or tn.endswith("&"): return 8
        if tn in CWIDTH: return CWIDTH[tn]
        if tn in ("long double", "__int128", "unsigned __int128"): return 16
        m = re.match(r"(.*?)\s*\[\d*\]", tn)
        if m: return self.align(m.group(1), depth + 1)
        t = self.N.types.get(tn)
        if t is None or depth > 8:
            a = re.match(r"std::array<(.*), \d+ul>$", tn)
            return self.align(a.group(1), depth + 1) if a else None
        out = max(1, t.get("align", 0))
        for m, o, s, ty in t["members"]:
            x = self.align(ty, depth + 1)
            if x is None: x = s & -s if s else 1
            out = max(out, x)
        return out
    def size(self, tn):
        t = self.N.types.get(norm(tn)); return t["size"] if t else None

def extent(S, v):
    """how far beyond the block's start it is written: [(end, instruction)], through what is computed from it"""
    fn = S.fn; out, w, seen = [], [(v, 0)], set()
    while w:
        x, off = w.pop()
        if (x, off) in seen or len(seen) > 4000: continue
        seen.add((x, off))
        for b in fn.order:
            for i in fn.blocks[b].insts:
                if i.op == "getelementptr" and tup(i.d["base"]) == x:
                    if i.d.get("off") is not None and not i.d.get("var"): w.append((i.id, off + i.d["off"]))
                elif i.op in ("phi",) and any(tup(y) == x for _, y in i.d["in"]) and off >= 0: w.append((i.id, off)) if not any(k == i.id for k, _ in seen) else None
                elif i.op in ("select", "freeze", "bitcast") and x in i.ops: w.append((i.id, off))
                elif i.op == "store" and i.ops[1] == x: out.append((off + i.d["bytes"], i))
                elif i.op in ("call", "invoke") and fn.callee(i).startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and i.ops[0] == x: out.append((off + (cval(i.ops[2]) or 0), i))
    return out

def origin(S, v, links, alloc):
    """None if v can only be a block of the pool: just taken, read from a predecessor link, or from a container of cell pointers; otherwise what else it may be"""
    fn = S.fn; seen, w = set(), [v]
    while w:
        v = w.pop()
        if isinstance(v, tuple):
            if v[0] in ("null", "undef", "poison"): continue
            return "is not known to be a block of the pool"
        if v in seen or v in alloc: continue
        seen.add(v); i = fn.inst[v]
        if i.op == "phi": w += [tup(y) for _, y in i.d["in"]]
        elif i.op == "select": w += i.ops[1:]
        elif i.op in ("freeze", "bitcast"): w.append(i.ops[0])
        elif i.op == "getelementptr":
            if i.d.get("off") or i.d.get("var"): return "is not the start of a block"
            w.append(tup(i.d["base"]))
        elif i.op == "load":
            R, o = S.sem.addr(i.ops[0])
            al = S.sem.alloca(R)
            if al and fn.inst[R[1]].d.get("aty") == "ptr":
                for d in S.sem.defs(R, o, 8, i):
                    if d[0] == "store": w.append(d[1].ops[0])
                    elif d[0] in ("undef",): continue
                    elif d[0] == "call": 
                        if "*" not in S.elem_class(d[1].id)[1]: return f"is computed by {fn.callee(d[1])}"
                    else: return "is not known to be a block of the pool"
                continue
            if o in links: continue
            c = fn.inst.get(R[1]) if R[0] == "v" else None
            if c is not None and c.op in ("call", "invoke") and o == 0 and "*" in S.elem_class(c.id)[1]: continue
            return "is read from something other than a predecessor link"
        elif i.op in ("call", "invoke"):
            if "*" in S.elem_class(v)[1] and not i.d.get("sret"): continue
            return f"is computed by {fn.callee(i)}"
        else: return "is not known to be a block of the pool"
    return None
def unit(S, r):
    fn, sem = S.fn, S.sem
    alloc, free = [], []
    for i in fn.calls():
        n = fn.callee(i); m = short(n)
        if m in ("allocate", "do_allocate", "deallocate", "do_deallocate") and (n.startswith("chdr::") and "pool" in n or n.startswith("std::pmr::memory_resource") or "own_resource" in n):
            (alloc if m.endswith("_allocate") or m == "allocate" else free).append(i)
    if not alloc and not free: return "skip"
    N = Nodes(S); links = Walks(S, N).link.get('ptr', set()); L = Layout(N)
    types = {}
    for I, cls, m, o in S.inserts():
        t = split_targs(qual(S.dem(I))[-2][1])[0].rstrip("* ").rstrip()
        if L.size(t): types[norm(t)] = (L.size(t), L.align(t))
    if not types: raise CheckError(f"{S.name}: the type of the search's cells is not known")
    need = (max(s for s, a in types.values()), max(a or 16 for s, a in types.values()))
    where = lambda i: i.where()
    taken = {}
    for a in alloc:
        R = sem.t(a.ops[0]); b = cval(a.ops[1]); al = cval(a.ops[2]) if len(a.ops) > 2 else 16
        key = f"{S.solver}: block taken in {a.where().rpartition('(')[2].rstrip(')')}"
        if b is None or al is None: r.bad(key, where(a), "the size or alignment requested is not a constant of the cell's type"); continue
        e = extent(S, a.id); top = max([x for x, _ in e], default=0)
        if not e: r.bad(key, where(a), "nothing is built in the block"); continue
        if b < top: r.bad(key, where(a), f"a block of {b} bytes is requested, but {top} are written to it ({[i for x, i in e if x == top][0].where()})"); continue
        if b < need[0]: r.bad(key, where(a), f"a block of {b} bytes is requested for a cell of {need[0]}"); continue
        if al < need[1] or al & (al - 1): r.bad(key, where(a), f"the block is aligned to {al}, cells need {need[1]}"); continue
        r.ok(f"{S.name}: {b} bytes aligned to {al} for a cell of {need[0]}/{need[1]}", where(a))
        taken.setdefault((R, b, al), []).append(a)
    for d in free:
        R = sem.t(d.ops[0]); b = cval(d.ops[2]); al = cval(d.ops[3]) if len(d.ops) > 3 else 16
        key = f"{S.solver}: block given back in {d.where().rpartition('(')[2].rstrip(')')}"
        if not alloc: r.bad(key, where(d), "gives back a block although the search takes none"); continue
        if R not in {k[0] for k in taken}: r.bad(key, where(d), "the block goes to another resource than the one it was taken from"); continue
        if len(taken) > 1 or (R, b, al) not in taken: r.bad(key, where(d), f"given back as {b} bytes aligned to {al}, requested as {', '.join(f'{k[1]}/{k[2]}' for k in taken)}"); continue
        why = origin(S, d.ops[1], links, {a.id for a in alloc})
        if why: r.bad(key, where(d), f"what is given back {why}")
        else: r.ok(f"{S.name}: given back as {b}/{al} to the resource it came from", where(d))
def run(rep, tier): run_units(rep, unit, tier, 1)
