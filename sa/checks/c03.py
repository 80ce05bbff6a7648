"""C03: the existence set stays within its storage and answers what was put in."""
from solverir import lib
import re
from num import *
RULE = ("Every member of the existence set is interpreted over linear inequalities between the key and the number of entries held, on every path and for every key up to the largest: each access to an entry must be entailed to lie below the number of entries at that point (growth included). "
        "Adding must leave exactly the entry of the key set, and fill what it grows by with 'absent'; removing must clear exactly that entry; looking up must give the entry where the key lies within and 'absent' otherwise; reserving and trimming must not change an entry that is set.")
TECH = "abstract interpretation over linear inequalities (Fourier-Motzkin entailment), all members, all paths"
MIN_OB = 25
ASSUME = ["the members of std::vector do what the C++ standard says; a request beyond max_size raises an exception"]
class C(Client):
    def __init__(self, rep, what, cont): self.rep = rep; self.what = what; self.cont = cont; self.obs = {}
    def access(self, num, st, i, r, k, what):
        if r != self.cont or what.endswith("+"): return
        n = num.sizeof(st, r); ok = st.entails(k) and st.entails(n - k - 1)
        o = self.obs.setdefault((i.fn.base, i.id, i.where()), [True, what, None])
        if not ok: o[0] = False; o[2] = f"key {k} of {n} entries"
        st.log += (("access", k),)
    def newsize(self, st, r, v): st.add(v, cst(1 << 60) - v)
    def store(self, num, st, i, p, v):
        if isinstance(p, Ptr) and p.r[0] == "elem" and p.r[1] == self.cont: st.log += (("set", p.r[2], v, i.where()),)
    def call(self, num, st, fn, i, name, a):
        last = name.split("::")[-1]
        if name.startswith("std::_Bit_reference::") :
            ref = num.load(st, a[0], "ptr") if isinstance(a[0], Ptr) and a[0].r[0] == "loc" else a[0]
            e = st.x.get(("bit", a[0].r if isinstance(a[0], Ptr) else a[0]))
            if last == "operator=" : 
                st.log += (("bitset", e, a[1], i.where()),); return [(st, "ok", a[0])]
            return [(st, "ok", U(num.new("bit")))]
        if name == "std::vector::resize":
            st.log += (("resize", num.num(st, a[1]), num.load(st, a[2], "i8") if len(a) > 2 and isinstance(a[2], Ptr) else (a[2] if len(a) > 2 else cst(0))),)
            big = num.num(st, a[1])
            s2 = st.fork(); out = []
            lim = cst((1 << 60)) - big
            if st.possible_with(lim):
                old = num.sizeof(st, self.cont) if (a[0].r, a[0].off) == self.cont else None
                st.add(lim); st.size[(a[0].r, a[0].off)] = big; out.append((st, "ok", None))
            return out + [(s2, "throw", None)]
        if name == "std::reverse_iterator::operator*" or name.startswith("std::reverse_iterator::operator"):
            if last in ("operator*", "operator->"):
                good = any(tr == ne and self.isguard(fn, v, i) for v, tr in fn.facts(i.bb) for ne in (True, False) if self.guardkind(fn, v) == ne)
                o = self.obs.setdefault((i.fn.base, i.id, i.where()), [True, "*reverse iterator", None])
                if not good: o[0] = False; o[2] = "a reverse iterator that was not tested against the end"
            return None
        return None
    def guardkind(self, fn, v):
        if not isinstance(v, int): return None
        c = fn.inst[v]
        if c.op not in ("call", "invoke"): return None
        n = fn.callee(c).split("::")[-1]
        return {"operator!=": True, "operator==": False}.get(n)
    def isguard(self, fn, v, i): return isinstance(v, int) and i.ops[0] in fn.inst[v].ops
def one(M, f, kind, rep):
    m = re.match(r"chdr::existence_set::([^:]+)$", f.base); name = m[1]
    this = Ptr(("obj", "this")); cont = (("obj", "this"), cst(0)); c = C(rep, name, cont); num = Num(M, c); st = St()
    key = atom("key"); st.add(key, cst(W - 1) - key)
    pm = re.search(rf"::{re.escape(name)}(?:<.*?>)?\((.*)\)(?: const)?(?: \[.*)?$", f.dem); pl = pm[1] if pm else ""
    args = [this]
    another = "existence_set" in pl
    keyed = name in ("push", "emplace", "erase", "contains", "enable", "disable", "allocate")
    if f.d.get("sret") or any(i.d.get("sret") for i in f.insts() if i.op == "ret"): pass
    byref = keyed and ("&" in pl)
    if another: args.append(Ptr(("obj", "other")))
    elif byref:
        args.append(Ptr(("obj", "item"))); st.mem[(("obj", "item"), 0)] = key
        if " char" in " " + pl or "short" in pl: st.add(cst(255 if "char" in pl else 65535) - key)
        elif "long" not in pl: st.add(cst((1 << 32) - 1) - key)
    elif keyed: args.append(key)
    for k in range(len(args), 5):
        v = atom(f"p{k}"); st.add(v, cst(W - 1) - v); args.append(v)
    n0 = num.sizeof(st, cont)
    outs = num.outcomes(f, args, st); what = f"existence_set<{kind}>::{name}({pl})"
    for (b, iid, where), (good, acc, why) in c.obs.items():
        if good: rep.ok(f"{what}: {acc} within the entries held", where)
        else: rep.bad(f"{b.split('::')[-1]}:{acc}", where, f"{what} touches {why}")
    bits = kind == "bool"
    def nz(v): return isinstance(v, P) and v.const() not in (None, 0)
    def sets(s): return [e for e in s.log if e[0] in ("set", "bitset")]
    def complain(why): rep.bad(f"{name}:meaning", f.sp_where(), f"{what} {why}")
    for s, how, ret in outs:
        if how == "throw": continue
        ss = sets(s); n1 = s.size.get(cont)
        grown = [e for e in s.log if e[0] == "resize"]
        if name in ("push", "emplace", "enable") and not (name == "push" and "const&" in pl and "hash" in pl):
            if not ss: complain("returns without adding the key"); continue
            for e in grown:
                if not (isinstance(e[2], P) and e[2].const() == 0): complain("grows by entries that are not absent")
            if not bits:
                if any(not (s.entails(e[1] - key) and s.entails(key - e[1])) for e in ss): complain(f"sets the entry {ss[0][1]} instead of that of the key")
                elif not nz(ss[-1][2]): complain(f"stores {ss[-1][2]} for a key that is added")
                else: rep.ok(f"{what} sets exactly the entry of the key", f.sp_where())
            else:
                acc = [e for e in s.log if e[0] == "access"]
                if not acc or not (s.entails(acc[-1][1] - key) and s.entails(key - acc[-1][1])): complain("sets another entry than that of the key")
                elif not nz(ss[-1][2]): complain(f"stores {ss[-1][2]} for a key that is added")
                else: rep.ok(f"{what} sets exactly the entry of the key", f.sp_where())
            if grown and not s.entails(grown[-1][1] - n0): complain("shrinks the set")
        elif name in ("erase", "disable"):
            if grown: complain("changes the number of entries")
            if s.entails(n0 - key - 1):
                if not ss: complain("returns without removing a key within the entries held"); continue
                acc = [e for e in s.log if e[0] == "access"]
                e = ss[-1]; at = e[1] if not bits else (acc[-1][1] if acc else None)
                if at is None or not (s.entails(at - key) and s.entails(key - at)) or len(ss) > 1: complain("clears another entry than that of the key")
                elif not (isinstance(e[2], P) and e[2].const() == 0): complain(f"stores {e[2]} for a key that is removed")
                else: rep.ok(f"{what} clears exactly the entry of the key", f.sp_where())
            elif ss: pass
        elif name == "contains":
            if ss or grown: complain("changes the set")
            if s.entails(key - n0):
                if isinstance(ret, P) and ret.const() == 0: rep.ok(f"{what}: absent beyond the entries held", f.sp_where())
                else: complain(f"answers {ret} for a key beyond the entries held")
            elif s.entails(n0 - key - 1):
                cell = s.mem.get((("elem", cont, key), 0))
                good = bits and any(e[0] == "access" and e[1] == key for e in s.log)
                if not bits and cell is not None:
                    z = truthy(num, s, ret, cell); good = z
                if good: rep.ok(f"{what}: the entry of the key is the answer", f.sp_where())
                else: complain(f"answers {ret} for a key within the entries held")
            else: complain("answers without comparing the key with the number of entries")
        elif name == "clear":
            if n1 != cst(0): complain("leaves entries behind")
            else: rep.ok(f"{what} leaves no entry", f.sp_where())
        elif name in ("allocate", "reserve", "shrink_to_fit", "empty", "size", "capacity"):
            if ss or grown or (n1 is not None and n1 != n0): complain("changes the entries")
            else: rep.ok(f"{what} leaves the entries as they are", f.sp_where())
            if name == "size" and ret != n0: complain(f"answers {ret}")
        elif name == "resize":
            if ss: complain("changes an entry")
        elif another:
            o = (("obj", "other"), cst(0))
    if name == "trim": trim(f, rep, what)
    return name
def truthy(num, s, ret, cell):
    """ret is (cell != 0)"""
    for c in (ret,):
        a = num.assume(s.fork(), ("cmp", "eq", cell, cst(0)), True); b = num.assume(s.fork(), ("cmp", "ne", cell, cst(0)), True)
        fa = [t for x in a for t in num.assume(x, ret, True)]; fb = [t for x in b for t in num.assume(x, ret, False)]
        return not any(t.possible() for t in fa) and not any(t.possible() for t in fb)
def trim(f, rep, what):
    """the scan only passes over entries that are not set; what is erased is what it passed over"""
    steps = [i for i in f.calls(lambda n: n.startswith("std::reverse_iterator::operator++") or n == "std::vector::pop_back")]
    for i in steps:
        ok = False
        for v, tr in f.facts(i.bb):
            if not isinstance(v, int): continue
            c = f.inst[v]
            if c.op == "icmp" and c.d["pred"] in ("eq", "ne") and any(isinstance(o, tuple) and o[0] == "c" and o[1] == "0" for o in c.ops):
                l = next((f.inst[o] for o in c.ops if isinstance(o, int)), None)
                while l is not None and l.op in ("zext", "sext", "trunc") : l = f.inst.get(l.ops[0]) if isinstance(l.ops[0], int) else None
                if l is not None and l.op in ("load", "call", "invoke") and (c.d["pred"] == "eq") == tr: ok = True
            elif c.op in ("call", "invoke") and f.callee(c).endswith("operator bool") and not tr: ok = True
            elif c.op in ("load",) and c.ty == "i1" and not tr: ok = True
            elif c.op == "trunc" and not tr: ok = True
        if ok: rep.ok(f"{what} passes only over entries that are not set", i.where())
        else: rep.bad("trim:meaning", i.where(), f"{what} passes over an entry without testing that it is not set")
    for i in f.calls(lambda n: n == "std::vector::erase"):
        b = f.inst.get(i.ops[1]) if isinstance(i.ops[1], int) else None
        if b is not None and f.callee(b) == "std::reverse_iterator::base" or (b is None or b.op == "load"): rep.ok(f"{what} erases what it passed over", i.where())
        else: rep.bad("trim:range", i.where(), f"{what} erases from a position other than the one its scan stopped at")
def run(rep, tier):
    M = lib([r"^chdr::existence_set::"]); seen = set()
    for n, f in M.functions.items():
        m = re.match(r"chdr::existence_set::([^:]+)$", f.base)
        if not m or m[1].startswith("~") or re.fullmatch(r"c?r?(begin|end)", m[1]): continue
        k = re.search(r"existence_set<([^<>]*)>", f.dem); rep.count("members interpreted")
        try: seen.add(one(M, f, k[1] if k else "?", rep))
        except GiveUp as e: raise CheckError(f"{f.dem}: not followed: {e}")
    miss = {"push", "emplace", "erase", "contains", "trim", "clear", "allocate"} - seen
    if miss: raise CheckError(f"members not found: {sorted(miss)}")
