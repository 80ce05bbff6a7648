"""S13: frontier orderings."""
from itertools import product
from nodes import *
RULE = ("For every ordered container a search keeps cells in, the comparator (resolved from the container's type) is interpreted over the sign domain: each field it reads of the two cells is related as smaller, equal or larger, and the result is tabulated for every combination. "
        "The table must be that of a lexicographic order - exactly then it is a strict weak ordering - whose first field is the estimated total (the field with the heuristic in it, the known cost in a search without one), in the direction that puts the smallest one at the end the search takes the next cell from. "
        "Fields are compared as the type they are declared with.")
TECH = "abstract interpretation of comparators over the sign domain"
MIN_OB = 60
NOTE = "costs and estimates are not NaN"
ORDERED = ("chdr::heap", "std::multiset", "std::set", "std::priority_queue")
SOLVERS = {"astar", "best_first", "dijkstra", "gstar", "gbest_first", "jps", "gjps", "smastar", "osmastar", "mgstar"}
class Undecided(Exception): pass
FLIP = {"<": ">", ">": "<", "=": "="}
PRED = {"lt": "<", "gt": ">", "le": "<=", "ge": ">=", "eq": "=", "ne": "<>"}
def table(f):
    """({offset: {types compared as}}, {signs: result}) of a comparator over two cells"""
    reads = {}; w = True
    def side(v):
        while True:
            v = tup(v)
            if isinstance(v, tuple): return (v[1], 0) if v and v[0] == "a" else None
            i = f.inst[v]
            if i.op == "getelementptr" and not i.d.get("var"):
                s = side(i.d["base"]); return (s[0], s[1] + i.d["off"]) if s else None
            if i.op in ("bitcast", "freeze"): v = i.ops[0]; continue
            return None
    nargs = len([a for a in f.d["args"]]); first = nargs - 2       # a comparator object comes ahead of the two cells
    def ev(v, env, memo):
        v = tup(v)
        if isinstance(v, tuple):
            if v[0] == "c" or cval(v) is not None: return ("k", cval(v))
            if v[0] in ("cf", "f"): return ("k", float(v[1]))
            raise Undecided(f"operand {v}")
        if v in memo: return memo[v]
        i = f.inst[v]; r = None
        if i.op == "load":
            s = side(i.ops[0])
            if s is None or s[0] not in (first, first + 1): raise Undecided("reads something other than the two cells")
            r = ("f", s[0] - first, s[1], 1); reads.setdefault(s[1], set()).add(i.ty)
        elif i.op in ("fpext", "zext", "sext", "freeze", "bitcast"):
            r = ev(i.ops[0], env, memo)
        elif i.op in ("fneg",): x = ev(i.ops[0], env, memo); r = ("f", x[1], x[2], -x[3]) if x[0] == "f" else None
        elif i.op in ("fsub",):
            x, y = ev(i.ops[0], env, memo), ev(i.ops[1], env, memo)
            if x == ("k", 0.0) and y[0] == "f": r = ("f", y[1], y[2], -y[3])
            elif x[0] == y[0] == "f": r = ("diff", x, y)
        elif i.op in ("icmp", "fcmp"):
            x, y = ev(i.ops[0], env, memo), ev(i.ops[1], env, memo); p = i.d["pred"]; q = PRED.get(p[-2:])
            if x[0] == "diff" and y == ("k", 0.0): x, y = x[1], x[2]
            elif y[0] == "diff" and x == ("k", 0.0): x, y = y[2], y[1]
            if x[0] == "b" and y[0] == "k" and q in ("=", "<>"): r = ("b", x[1] == bool(y[1]) if q == "=" else x[1] != bool(y[1]))
            elif x[0] == "b" and y[0] == "b" and q in ("=", "<>"): r = ("b", (x[1] == y[1]) == (q == "="))
            elif x[0] == "k" and y[0] == "k": raise Undecided("constants")
            elif x[0] == y[0] == "f" and x[2] == y[2] and x[3] == y[3] and q:
                s = "=" if x[1] == y[1] else env[x[2]] if x[1] == 0 else FLIP[env[x[2]]]
                if x[3] < 0: s = FLIP[s]
                if i.op == "icmp" and q not in ("=", "<>"): signs.setdefault(x[2], set()).add(p[0])
                r = ("b", s in q)
            elif x[0] == y[0] == "f" and x[2] != y[2]: raise Undecided("compares different fields of the two cells with each other")
        elif i.op in ("and", "or", "xor") and i.ty == "i1":
            x, y = ev(i.ops[0], env, memo), ev(i.ops[1], env, memo)
            if x[0] in "bk" and y[0] in "bk": a, b = bool(x[1]), bool(y[1]); r = ("b", a and b if i.op == "and" else a or b if i.op == "or" else a != b)
        elif i.op == "select":
            c = ev(i.ops[0], env, memo)
            if c[0] in "bk": r = ev(i.ops[1 if c[1] else 2], env, memo)
        elif i.op == "call" and f.callee(i).startswith("llvm.expect"): r = ev(i.ops[0], env, memo)
        if r is None: raise Undecided(f"{i.op} at {i.where()}")
        memo[v] = r; return r
    def run(env):
        b, prev, memo, n = f.entry, None, {}, 0
        while True:
            n += 1
            if n > 60: raise Undecided("loops")
            for i in f.blocks[b].insts:
                if i.op == "phi": memo[i.id] = ev(next(v for blk, v in i.d["in"] if blk == prev), env, memo)
                elif i.op in ("store", "invoke") or i.op == "call" and not i.d.get("intr"): raise Undecided(f"{i.op} at {i.where()}")
            t = f.term(b)
            if t.op == "ret":
                r = ev(t.ops[0], env, memo)
                if r[0] not in "bk": raise Undecided("result")
                return bool(r[1])
            if t.op != "br": raise Undecided(t.op)
            prev = b
            b = t.d["succ"][0] if len(t.d["succ"]) == 1 else t.d["succ"][0 if bool(ev(t.ops[0], env, memo)[1]) else 1]
    # the fields: collected by following every branch
    signs = {}; offs = set()
    for i in f.insts():
        if i.op == "load":
            s = side(i.ops[0])
            if s and s[0] in (first, first + 1): offs.add(s[1])
    offs = sorted(offs)
    if len(offs) > 6: raise Undecided("too many fields")
    T = {}
    for s in product("<=>", repeat=len(offs)): T[s] = run(dict(zip(offs, s)))
    return offs, T, signs
def lexicographic(offs, T):
    """[(offset, '<' or '>')]: the fields in the order they decide, with the direction in which the comparator holds; a string if it is no strict weak ordering"""
    out = []; left = list(range(len(offs))); cur = dict(T)
    while True:
        vals = set(cur.values())
        if len(vals) == 1:
            if vals == {True}: return "holds for a cell and itself" if not out else "holds in both directions for cells that agree on what it compares"
            return out
        for k in left:
            lt = {v for s, v in cur.items() if s[k] == "<"}; gt = {v for s, v in cur.items() if s[k] == ">"}
            if len(lt) == 1 and len(gt) == 1 and lt != gt:
                out.append((offs[k], "<" if lt == {True} else ">")); left.remove(k); cur = {s: v for s, v in cur.items() if s[k] == "="}; break
        else:
            for s, v in T.items():
                if v and T[tuple(FLIP[x] for x in s)]: return "can hold in both directions between two cells" if set(s) != {"="} else "holds for a cell and itself"
            return "is no strict weak ordering: cells it does not tell apart are told apart from third ones"
def comparator(S, cmp, elem):
    """function of the unit that orders two elements"""
    if not hasattr(S, "_cmpmod"): S._cmpmod = S.aux([r"::operator[<>]$", r"operator\(\)$"])
    M = S._cmpmod; c = norm(cmp)
    if re.match(r"std::(less|greater)<", c):
        op = "operator<" if c.startswith("std::less") else "operator>"
        fs = [f for f in M.functions.values() if f.base.endswith("::" + op) and [norm(re.sub(r"\bconst\b|&", "", p).strip()) for p in Nodes.plist(f.dem)] == [norm(elem)] * 2]
        fs += [f for f in M.functions.values() if norm(f.dem).startswith(norm(elem) + "::" + op + "(")]
    else: fs = [f for f in M.functions.values() if norm(f.dem).startswith(c + "::operator()(") or c + "::operator()" in norm(f.dem)]
    return fs[0] if len(fs) == 1 else None
def iterends(S, v, bb, seen=None):
    """the ends of its container an iterator operand comes from: 'first', 'last'"""
    fn = S.fn; seen = set() if seen is None else seen; v = tup(v)
    if isinstance(v, tuple) or v in seen: return set()
    seen.add(v); i = fn.inst.get(v); out = set()
    if i is None: return out
    if i.op in ("call", "invoke"):
        m = fn.callee(i).rpartition("::")[2].split("[")[0]
        if m in ("begin", "cbegin"): return {"first"}
        if m in ("end", "cend", "rbegin", "crbegin"): return {"last"}
        for o in i.ops: out |= iterends(S, o, bb, seen)
        return out
    if i.op in ("load", "alloca", "getelementptr"):
        R, o = S.sem.addr(i.ops[0] if i.op == "load" else v)
        if S.sem.alloca(R):
            for j in fn.insts():
                if j.op == "store" and S.sem.addr(j.ops[1])[0] == R: out |= iterends(S, j.ops[0], bb, seen)
                elif j.op in ("call", "invoke") and not j.d.get("intr") and any(isinstance(o, int) and S.sem.isptr(o) and S.sem.addr(o)[0] == R for o in j.ops[:2]) and fn.callee(j).startswith("std::"):
                    m = fn.callee(j).rpartition("::")[2].split("[")[0]
                    if m in ("begin", "cbegin") : out.add("first")
                    elif m in ("end", "cend", "rbegin", "crbegin"): out.add("last")
                elif j.op in ("call", "invoke") and fn.callee(j).startswith(("llvm.memcpy", "llvm.memmove")) and S.sem.addr(j.ops[0])[0] == R: out |= iterends(S, j.ops[1], bb, seen)
        elif i.op == "load": out |= iterends(S, i.ops[0], bb, seen)
        return out
    for o in ([x[1] for x in i.d["in"]] if i.op == "phi" else i.ops): out |= iterends(S, o, bb, seen)
    return out
def taken_end(S, C):
    """the end of an ordered container the next cell is taken from: 'greatest' or 'least'"""
    fn = S.fn; ex = list(S.expansions()); takes = []
    for i in fn.calls():
        cls, _, m = fn.callee(i).rpartition("::"); m = m.split("[")[0]
        if cls not in ORDERED or S.container(i) != C: continue
        if cls in ("chdr::heap", "std::priority_queue") and m in ("top", "front", "extract"): takes.append((i, {"greatest"}))
        elif cls in ("std::multiset", "std::set") and m in ("extract", "erase") and len(i.ops) > 1 + (1 if i.d.get("sret") else 0):
            e = iterends(S, i.ops[1 + (1 if i.d.get("sret") else 0)], i.bb)
            if e: takes.append((i, {{"first": "least", "last": "greatest"}[x] for x in e}))
    takes = [(i, e) for i, e in takes if any(fn.dominates(i.bb, x.bb) for x in ex)]
    first = [e for i, e in takes if not any(j is not i and j.bb != i.bb and fn.dominates(j.bb, i.bb) for j, _ in takes)]
    return first[0] if len(first) >= 1 and all(x == first[0] for x in first) and len(first[0]) == 1 else None
def unit(S, r):
    fn = S.fn; N = Nodes(S); found = {}
    for i in fn.calls():
        q = qual(S.dem(i))
        if len(q) < 2: continue
        cls = fn.callee(i).rpartition("::")[0]
        if cls not in ORDERED: continue
        ta = split_targs(q[-2][1]); elem = ta[0]
        if not S.nodeish(elem): continue
        cmp = ta[1] if cls != "std::priority_queue" and len(ta) > 1 else ta[2] if len(ta) > 2 else f"std::less<{elem}>"
        found.setdefault((cls, elem, cmp), set()).add(S.container(i))
    if not found:
        if S.solver in SOLVERS: r.bad(f"{S.solver}:unordered", S.fn.sp_where(), f"{S.name}: the frontier is not an ordered container")
        return "skip" if S.solver not in SOLVERS else None
    # what the fields mean
    est, cost, both = set(), set(), set()
    for I, cls, m, o in S.inserts():
        f = N.fields(I, cls, m, o)
        if f is None: continue
        off0 = min(f)
        for off, (mm, sz, t) in f.items():
            if off == off0: continue
            t = arith(t); h = any(isinstance(x, tuple) and x and x[0] == "icall" for x in subterms(t)); plus = isinstance(t, tuple) and t and t[0] == "op" and t[1] == "add"
            if h: est.add(off)
            if h and plus: both.add(off)
            if plus and not h: cost.add(off)
    goal = both or est or cost
    for (cls, elem, cmp), Cs in found.items():
        short = cls.split("::")[-1]
        f = comparator(S, cmp, elem)
        if f is None: r.bad(f"{S.solver}:no-order", fn.sp_where(), f"{S.name}: the order of the {short} ({cmp[:60]}) is not resolved"); continue
        w = f.sp_where()
        try: offs, T, signs = table(f)
        except Undecided as e: r.bad(f"{S.solver}:undecided", w, f"{S.name}: the order of cells is not decided by comparing their fields one with the same: {e}"); continue
        L = lexicographic(offs, T)
        if isinstance(L, str): r.bad(f"{S.solver}:not-weak", w, f"{S.name}: the order of cells {L}"); continue
        if not L: r.bad(f"{S.solver}:constant", w, f"{S.name}: no cell is ordered ahead of another"); continue
        r.ok(f"{S.name}: the order of cells is lexicographic, a strict weak ordering ({len(T)} combinations)", w)
        lay = {o: (m, ty) for m, o, s, ty in N.layout(elem)}
        for o, ps in signs.items():
            ty = lay.get(o, ("", ""))[1]
            un = ty.startswith("unsigned") or ty in ("bool",) or ty.endswith("*")
            if ps - {"u" if un else "s"}: r.bad(f"{S.solver}:signedness", w, f"{S.name}: compares {lay.get(o, ('?',))[0]} ({ty}) as if it were {'signed' if un else 'unsigned'}")
            else: r.ok(f"{S.name}: {lay.get(o, ('?',))[0]} is compared as the type it has", w)
        if L[0][0] not in goal:
            r.bad(f"{S.solver}:primary", w, f"{S.name}: cells are ordered by {lay.get(L[0][0], ('?',))[0]} first, not by the estimated total"); continue
        r.ok(f"{S.name}: cells are ordered by {lay.get(L[0][0], ('?',))[0]} first", w)
        for o, d in L[1:]:
            if o not in cost and o not in est: r.bad(f"{S.solver}:secondary", w, f"{S.name}: cells with the same estimate are ordered by {lay.get(o, ('?',))[0]}, which is no cost")
            else: r.ok(f"{S.name}: cells with the same estimate are ordered by {lay.get(o, ('?',))[0]}", w)
        ends = [e for e in (taken_end(S, C) for C in Cs) if e]
        if not ends: r.bad(f"{S.solver}:end", w, f"{S.name}: which end of the {short} the next cell is taken from is not resolved"); continue
        dirn = L[0][1] if not cmp.startswith("std::greater<") else L[0][1]
        for e in ends:
            best = "least" if dirn == "<" else "greatest"
            if e != {best}: r.bad(f"{S.solver}:direction", w, f"{S.name}: the {short} yields the cell with the largest {lay.get(L[0][0], ('?',))[0]} first")
            else: r.ok(f"{S.name}: the {short} yields the cell with the smallest {lay.get(L[0][0], ('?',))[0]} first", w)

def run(rep, tier): run_units(rep, unit, tier, 2)
