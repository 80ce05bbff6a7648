"""M05: memory resources are interchangeable only if they are the same object."""
import re
from solverir import lib
from common import *
RULE = "The equality member (do_is_equal) of every memory resource is followed on every path: each value it can return must be decided by nothing but the identity of the two objects - true where their addresses are equal, false where they differ."
TECH = "path-sensitive evaluation of the compiled equality members, with the addresses equal and with the addresses different"
MIN_OB = 6
CAST = re.compile(r"__dynamic_cast$")
def value(f, M, same, args=None, depth=0):
    """the set of values f returns when its two objects are (not) the same; None in the set: undecided"""
    if depth > 6: return {None}
    sub = {("a", 0): "this", ("a", 1): "this" if same else "other"} if args is None else {("a", k): v for k, v in enumerate(args)}
    from functools import lru_cache
    out = set(); memo = {}
    def ev(o, prev, env):
        if isinstance(o, tuple):
            if o[0] == "c": return {"true": 1, "false": 0}.get(o[1], int(o[1]) if re.fullmatch(r"-?\d+", str(o[1])) else None)
            return sub.get(o, "null" if o[0] == "null" else None)
        return env.get(o)
    work = [(f.entry, None, {}, 0)]
    steps = 0
    while work:
        b, prev, env, n = work.pop(); steps += 1
        if steps > 400 or n > 60: return {None}
        env = dict(env); B = f.blocks[b]
        for i in B.insts:
            if i.op == "phi":
                for blk, v in i.d["in"]:
                    if blk == prev: env[i.id] = ev(tuple(v) if isinstance(v, list) else v, prev, env)
            elif i.op == "icmp":
                x, y = ev(i.ops[0], prev, env), ev(i.ops[1], prev, env)
                if "other?" in (x, y) and "null" in (x, y): env[i.id] = None
                elif x is not None and y is not None and i.d["pred"] in ("eq", "ne"): env[i.id] = int((x == y) == (i.d["pred"] == "eq"))
                else: env[i.id] = None
            elif i.op in ("zext", "trunc", "bitcast", "freeze", "ptrtoint", "inttoptr"): env[i.id] = ev(i.ops[0], prev, env)
            elif i.op == "select":
                c = ev(i.ops[0], prev, env); env[i.id] = ev(i.ops[1] if c else i.ops[2], prev, env) if c is not None else (ev(i.ops[1], prev, env) if ev(i.ops[1], prev, env) == ev(i.ops[2], prev, env) else None)
            elif i.op in ("and", "or", "xor"):
                x, y = ev(i.ops[0], prev, env), ev(i.ops[1], prev, env)
                if i.op == "and" and 0 in (x, y): env[i.id] = 0
                elif i.op == "or" and i.ty == "i1" and (x in (1, -1) or y in (1, -1)): env[i.id] = 1
                elif isinstance(x, int) and isinstance(y, int): env[i.id] = {"and": x & y, "or": x | y, "xor": x ^ y}[i.op] & (1 if i.ty == "i1" else -1)
                else: env[i.id] = None
            elif i.op == "getelementptr":
                env[i.id] = ev(i.ops[0], prev, env) if i.d.get("off") == 0 else None
            elif i.op in ("call", "invoke"):
                nm = f.callee(i); a = [ev(o, prev, env) for o in i.ops]
                g = M.functions.get(i.d.get("fn")) if i.d.get("fn") else None
                if CAST.search(nm): env[i.id] = "other?" if a[0] == "other" else a[0]
                elif nm.startswith("llvm.expect"): env[i.id] = a[0]
                elif nm.split("::")[-1] in ("addressof", "__addressof"): env[i.id] = a[0]
                elif nm.split("::")[-1] == "operator()" and "equal_to" in nm: env[i.id] = int(a[1] == a[2]) if None not in a[1:3] else None
                elif g is not None and not nm.startswith("std::"):
                    r = value(g, M, same, a, depth + 1); env[i.id] = next(iter(r)) if len(r) == 1 else None
                else: env[i.id] = None
        t = B.insts[-1]
        if t.op == "ret": v = ev(t.ops[0], prev, env); out.add(None if v is None or isinstance(v, str) else int(v) & 1)
        elif t.op == "br" and len(t.d["succ"]) == 2:
            c = ev(t.ops[0], prev, env)
            for d, tr in zip(t.d["succ"], (1, 0)):
                if c is None or (c & 1) == tr: work.append((d, b, env, n + 1))
        elif t.op == "br": work.append((t.d["succ"][0], b, env, n + 1))
        elif t.op == "invoke": work.append((t.d["normal"], b, env, n + 1))
        elif t.op == "switch":
            c = ev(t.ops[0], prev, env)
            for d in ({x[1] for x in t.d["cases"]} | {t.d["default"]}) if c is None else {next((x[1] for x in t.d["cases"] if int(x[0]) == c), t.d["default"])}: work.append((d, b, env, n + 1))
    return out
def run(rep, tier):
    M = lib([r"^chdr::.*_pool::"]); seen = set()
    for name, f in M.functions.items():
        m = re.match(r"chdr::(\w+)::do_is_equal$", f.base)
        if not m: continue
        seen.add(m[1]); rep.count("equality members")
        for same in (True, False):
            r = value(f, M, same)
            what = "the same object" if same else "two different objects"
            if r == {int(same)}: rep.ok(f"{m[1]}: {what} compare{'s' if same else ''} {'equal' if same else 'unequal'}", f.sp_where())
            else: rep.bad(f"{m[1]}:{'same' if same else 'different'}", f.sp_where(), f"do_is_equal of {m[1]} answers {' or '.join('something that depends on more than identity' if x is None else str(bool(x)).lower() for x in sorted(r, key=str))} for {what}")
    want = {"monotonic_pool", "heterogeneous_pool", "homogeneous_pool"}
    if want - seen: raise CheckError(f"no equality member found for {sorted(want - seen)}")
