"""C02: the heap stays usable after being emptied, wiped or moved from."""
from heaps import *
RULE = ("Every public member of the heap is interpreted over linear inequalities from any number of stored entries - including none at all, as wiping or moving from the heap leaves it - on every path. Each access to an entry must be entailed to lie within the entries stored; every member must leave exactly as many elements as its meaning demands "
        "(one more after each insertion, one less after each removal, none after clearing and wiping, the source's number after copying, moving and swapping); size and emptiness must be those of the elements, and the ends of the iteration must enclose exactly them.")
TECH = "abstract interpretation over linear inequalities (Fourier-Motzkin entailment), all public members, all paths, every heap size"
MIN_OB = 80
ASSUME = ["the members of std::vector do what the C++ standard says", "members documented to need a non-empty heap are called on one; element references and iterators passed in belong to the heap"]
def run(rep, tier):
    M = lib([r"^chdr::heap::"]); seen = set()
    for f, name, kd, pl in members(M):
        what = f"heap<{kd}>::{name}({re.sub(r'<[^()]*>', '', pl)})"; c = HeapClient(True); 
        class B(HeapClient): pass
        num = Num(M, c)
        def head(num_, fn, fr, st, b, inis): st.x[("head", fr, b)] = num.sizeof(st, THIS)
        fin = []
        def back(num_, fn, fr, st, b, prev): fin.append((fn, st, st.x[("head", fr, b)]))
        c.head, c.back = head, back
        if name in ("sort_up", "sort_down"): c.intercept = False
        st, args, info = setup(f, name, pl, num); n = info["n"]
        if f.d.get("sret") or any(o for o in f.d.get("argattrs", []) if o == "sret"): pass
        if name in ("dequeue",): args = shift(f, args)
        try: outs = num.outcomes(f, args, st)
        except GiveUp as e: raise CheckError(f"{what}: not followed: {e}")
        rep.count("members interpreted"); rep.count("paths", len(outs)); seen.add(name)
        if name != "operator[]":
            for (b, iid, where), (good, acc, why) in c.obs.items():
                if good: rep.ok(f"{what}: {acc} within the entries stored", where)
                else: rep.bad(f"{name}:{b.split('::')[-1]}:{acc}", where, f"{what}: {acc} reaches {why}")
        def size(s): return num.sizeof(s, THIS)
        def elements(s, e, lo, why):
            """max(size, 1) - 1 == e"""
            x = size(s); good = (s.entails(x - 1 - e) and s.entails(e - x + 1)) or (s.entails(-e) and s.entails(e) and s.entails(cst(1) - x))
            if good: rep.ok(f"{what} {lo}", f.sp_where())
            else: rep.bad(f"{name}:size", f.sp_where(), f"{what} leaves {x} entries (placeholder included) instead of {e + 1}: {why}")
        for s, how, ret in outs:
            if how == "throw": continue
            for t, held in [(t, h) for t, h in ((s.fork(), n - 1), (s.fork(), cst(0)))]:
                # n >= 1: n - 1 elements; n == 0: none
                if held == cst(0):
                    if name == "heap" or not all(t.possible_with(p) for p in (-n,)): continue
                    t.add(-n)
                else:
                    if name != "heap":
                        if not t.possible_with(n - 1): continue
                        t.add(n - 1)
                if not t.possible(): continue
                if name in ADD or (name == "insert" and "k" in info): elements(t, held + 1, "adds one element", "one more than before")
                elif name in ("pop", "dequeue", "pop_back") or (name == "erase" and "k" in info): elements(t, held - 1, "removes one element", "one less than before")
                elif name == "erase" and "range" in info: elements(t, held - (info["range"][1] - info["range"][0]), "removes the range", "less the range")
                elif name in ("clear", "wipe"): elements(t, cst(0), "leaves no element", "none")
                elif name in ("operator=", "swap", "heap") and "other" in info:
                    o = info["other"]; x = t.size.get(THIS)
                    if x == o: rep.ok(f"{what} takes the other's elements", f.sp_where())
                    else: rep.bad(f"{name}:size", f.sp_where(), f"{what} holds {x} entries instead of the other's {o}")
                    if name == "swap" and t.size.get((("obj", "other"), cst(0))) != n: rep.bad("swap:size", f.sp_where(), f"{what} does not give its own elements to the other")
                elif name == "heap" and "source" in info: elements(t, info["source"], "takes every element of the container", "those of the container")
                elif name == "heap": elements(t, cst(0), "starts empty", "none")
                elif name == "size":
                    if isinstance(ret, P) and t.entails(ret - held) and t.entails(held - ret): rep.ok(f"{what} is the number of elements", f.sp_where())
                    else: rep.bad("size:value", f.sp_where(), f"{what} answers {ret} with {held} elements held")
                elif name == "empty":
                    yes = [u for u in num.assume(t.fork(), ret, True) if u.possible()]; no = [u for u in num.assume(t.fork(), ret, False) if u.possible()]
                    if all(u.entails(-held) for u in yes) and all(u.entails(held - 1) for u in no): rep.ok(f"{what} tells whether no element is held", f.sp_where())
                    else: rep.bad("empty:value", f.sp_where(), f"{what} answers {ret} with {held} elements held")
                elif name in ("begin", "cbegin", "end", "cend"):
                    want = n if name in ("end", "cend") or held == cst(0) else cst(1)
                    if isinstance(ret, Ptr) and ret.r[0] == "elem" and t.entails(ret.r[2] - want) and t.entails(want - ret.r[2]): rep.ok(f"{what} encloses the elements", f.sp_where())
                    else: rep.bad(f"{name}:value", f.sp_where(), f"{what} is {ret} instead of position {want}")
                elif name in ("front", "top", "back", "capacity", "contains", "reserve", "shrink_to_fit", "at", "operator[]", "lower_bounds", "upper_bounds", "sort_up", "sort_down"):
                    if t.size.get(THIS) != n: rep.bad(f"{name}:size", f.sp_where(), f"{what} changes the number of elements")
                    else: rep.ok(f"{what} leaves the number of elements", f.sp_where())
        if name == "insert" and "k" not in info:
            if not fin and not outs: raise CheckError(f"{what}: no path")
            for fn, s, h in fin:
                for base in (h, cst(1)):
                    t = s.fork(); g = (h - 1,) if base is h else (-h,)
                    if not all(t.possible_with(p) for p in g): continue
                    t.add(*g); x = num.sizeof(t, THIS)
                    if t.entails(x - base - 1) and t.entails(base + 1 - x): rep.ok(f"{what}: each round adds one element", f.sp_where())
                    else: rep.bad("insert:size", f.sp_where(), f"{what}: a round leaves {x} entries after {base}")
    miss = (PUBLIC - {"cbegin", "cend", "capacity", "enqueue_nosort"}) - seen
    if miss: raise CheckError(f"members not found: {sorted(miss)}")
def shift(f, args):
    """the returned object comes first where it is not returned in registers"""
    return args if any(t.op == "ret" and t.ops for t in f.insts()) else [Ptr(("obj", "result"))] + args
