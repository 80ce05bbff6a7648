"""C04: queue and stack keep their order and ends."""
import re
from solverir import lib
from seqs import *
RULE = ("Every public member of queue and stack is interpreted over a symbolic sequence (the unknown elements held, plus what the member adds or removes at either end), on every path, with the two operands distinct and the same object. The outcome must be the one a queue or a stack gives: insertion appends at the end; the element looked at is the one removal takes, the oldest for the queue and the newest for the stack; "
        "emptiness and size are those of the sequence; clear leaves it empty; iterators start and stop at its ends; copies and moves carry the whole sequence in the same order and looking changes nothing.")
TECH = "abstract interpretation of the compiled members over a domain of symbolic sequences"
MIN_OB = 50
ASSUME = ["the members of std::vector and std::deque do what the C++ standard says"]

def expect(kind, name, dem, q, st, ret, st0, this, other, alias):
    """what is wrong with the outcome, or None"""
    seg = (("seg", "S", 0, 0),); now = st.seq.get(this)
    same = lambda: None if now == seg else f"changes the elements held ({show(now)})"
    end = ("at", "S", "b", 0) if kind == "queue" else ("at", "S", "e", 1)
    which = "oldest" if kind == "queue" else "newest"
    if name in ("push", "emplace"):
        if now and len(now) == 2 and now[0] == seg[0] and now[1][0] == "elt":
            return None if now[1][1:] == (("old", other),) or (name == "emplace" and len(now[1]) > 2 and now[1][1:] == (("old", other),) + tuple(("old", ("arg", k)) for k in range(2, len(now[1])))) else f"adds {now[1][1:]} instead of the element given"
        return f"leaves {show(now)} instead of the elements held followed by the new one"
    if name == "pop":
        want = (("seg", "S", 1, 0),) if kind == "queue" else (("seg", "S", 0, 1),)
        return None if now == want else f"leaves {show(now)} instead of removing the {which} element"
    if name in ("top", "front"): return same() or (None if ret == ("ref", this, end) else f"gives {showref(ret)} instead of the {which} element")
    if name == "empty": return same() or (None if ret == ("empty", this, seg) else f"answers {ret} instead of whether no element is held")
    if name == "size": return same() or (None if ret == ("size", this, seg) else f"answers {ret} instead of the number of elements held")
    if name == "clear": return None if now == () else f"leaves {show(now)} instead of no element"
    m = re.fullmatch(r"c?(r?)(begin|end)", name)
    if m:
        want = ("it", this, "b" if (m[2] == "begin") != bool(m[1]) else "e", 0, -1 if m[1] else 1)
        return same() or (None if ret == want else f"gives {ret} instead of the {m[2]} of the sequence" )
    if name == kind:
        if other is None: return None if now == () else f"starts with {show(now)}"
        return None if now == (("seg", "O", 0, 0),) else f"holds {show(now)} instead of the elements of its source"
    if name == "operator=":
        want = seg if alias else (("seg", "O", 0, 0),)
        if now != want: return f"holds {show(now)} instead of the elements of its source"
        return None if ret == this else "does not return the object assigned to"
    return None
def show(q):
    if q is None: return "an unknown state"
    if q == (): return "no element"
    return " + ".join((f"the {'held' if x[1] == 'S' else 'source' if x[1] == 'O' else x[1]} elements" + (f" without the first {x[2]}" if x[2] else "") + (f" without the last {x[3]}" if x[3] else "")) if x[0] == "seg" else "a new element" for x in q)
def showref(r):
    if isinstance(r, tuple) and r[0] == "ref":
        x = r[2]
        if x[0] == "at": return f"element {x[3]} from the {'front' if x[2] == 'b' else 'back'}" + ("" if x[2] == "e" else " (counting from 0)")
    return repr(r)
def run(rep, tier):
    M = lib([r"^chdr::(queue|stack)::"]); found = {}
    for fname, f in M.functions.items():
        m = re.match(r"chdr::(queue|stack)::([^:]+)$", f.base)
        if not m: continue
        kind, name = m[1], m[2]; dem = f.dem
        if name.startswith("~"): continue
        pm = re.search(rf"::{re.escape(name)}(?:<.*?>)?\((.*)\)(?: const)?(?: \[.*)?$", dem); plist = pm[1] if pm else ""
        another = name in (kind, "operator=") and bool(re.match(rf"chdr::{kind}<", plist))
        value = name in ("push", "emplace")
        known = name in ("push", "emplace", "pop", "top", "front", "empty", "size", "clear", kind, "operator=") or re.fullmatch(r"c?r?(begin|end)", name)
        if not known: rep.count("members without a rule"); continue
        sret = bool(re.fullmatch(r"c?r?(begin|end)", name)) and f.d.get("ret", "void" if all(not i.ops for i in f.insts() if i.op == "ret") else "x") == "void"
        for alias in ((False, True) if name == "operator=" else (False,)):
            st = St(); this = ("arg", "this"); other = None
            args = ([("arg", "sret")] if sret else []) + [this]
            if another:
                other = this if alias else ("arg", "other"); args.append(other)
            elif value: other = ("arg", "value"); args.append(other)
            args += [("arg", k) for k in range(len(args), 6)]
            if not (name == kind): st.seq[this] = (("seg", "S", 0, 0),)
            if another and not alias: st.seq[other] = (("seg", "O", 0, 0),)
            moved = "&&" in plist
            what = f"{kind}::{name}({plist})" + (" on itself" if alias else "")
            try: outs = Seqs(M).run(f, args, st)
            except Unknown as e: raise CheckError(f"{what}: not followed: {e}")
            if not outs: raise CheckError(f"{what}: no path")
            for s, ret in outs:
                if sret: ret = s.mem.get(("arg", "sret"))
                why = expect(kind, name, dem, None, s, ret, st, this, other, alias)
                if why is None and another and not moved and not alias and s.seq.get(other) != (("seg", "O", 0, 0),): why = "changes the object it copies from"
                if why: rep.bad(f"{kind}:{name}", f.sp_where(), f"{what} {why}")
                else: rep.ok(f"{what} does what a {kind} does", f.sp_where())
            rep.count("members interpreted"); rep.count("paths", len(outs)); found.setdefault(kind, set()).add(name)
    for kind in ("queue", "stack"):
        miss = {"push", "emplace", "pop", "top", "front", "empty", "size", "clear", kind, "operator="} - found.get(kind, set())
        if miss: raise CheckError(f"{kind}: members not found: {sorted(miss)}")
