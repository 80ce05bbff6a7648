"""Which pointers derive from a given object (the maze, a global), and what is written through them: an interprocedural may-write analysis on SSA form."""
import re
from ir import *

PURE_ITER = ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "front", "back", "operator[]", "at", "find", "operator*", "operator->", "operator++", "operator--", "operator+", "operator-", "base", "lower_bound", "upper_bound", "get", "operator()")

def params(dem):
    """declared parameter types of a demangled signature"""
    d = 0; i = 0; n = len(dem)
    # find the parameter list: the last top-level '(' group
    end = len(dem); depth = 0; start = None
    k = n - 1
    while k >= 0 and dem[k] != ")": k -= 1
    if k < 0: return []
    end = k
    while k >= 0:
        if dem[k] == ")": depth += 1
        elif dem[k] == "(":
            depth -= 1
            if depth == 0: start = k; break
        k -= 1
    s = dem[start + 1:end]; out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([{": d += 1
        elif ch in ">)]}": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def is_const_member(dem):
    s = dem.rstrip()
    s = re.sub(r"(\s*\[clone [^\]]*\])+$", "", s)
    return s.endswith(" const") or s.endswith(")const") or s.endswith(" const&")

class Effects:
    def __init__(self, mod): self.mod = mod; self.memo = {}; self.busy = set()
    def taint(self, fn, seeds):
        """SSA values of pointer type that may point into what the seed values point to (or be found there); slots: stack objects that may hold such pointers"""
        T = set(seeds); slots = set(); grew = True
        root = {}
        def rt(v):
            seen = 0
            while isinstance(v, int) and seen < 64:
                i = fn.inst.get(v)
                if i is None: return v
                if i.op == "getelementptr": v = tup(i.d["base"]); seen += 1; continue
                return v
            if isinstance(v, tuple) and v and v[0] == "goff": return ("g", v[1])
            return v
        def tin(v):
            if isinstance(v, tuple) and v and v[0] == "goff": v = ("g", v[1])
            return v in T
        while grew:
            grew = False
            for i in fn.insts():
                if i.id in T and i.op not in ("store",): pass
                hit = False
                if i.op == "getelementptr": hit = tin(tup(i.d["base"]))
                elif i.op == "phi": hit = any(tin(tup(x[1])) for x in i.d["in"])
                elif i.op in ("select", "bitcast", "freeze", "addrspacecast", "inttoptr", "ptrtoint", "insertvalue", "extractvalue", "add", "sub"): hit = any(tin(o) for o in i.ops)
                elif i.op == "load":
                    r = rt(i.ops[0])
                    hit = i.ty == "ptr" and (tin(i.ops[0]) or r in slots)
                elif i.op == "store":
                    if tin(i.ops[0]):
                        r = rt(i.ops[1])
                        if r not in slots: slots.add(r); grew = True
                elif i.op in ("call", "invoke"):
                    n = fn.callee(i)
                    if n.startswith(("llvm.memcpy", "llvm.memmove")):
                        if rt(i.ops[1]) in slots and rt(i.ops[0]) not in slots: slots.add(rt(i.ops[0])); grew = True
                        continue
                    if n.startswith("llvm."):
                        hit = n.startswith("llvm.threadlocal") and any(tin(o) for o in i.ops)
                    else:
                        anyin = any(tin(o) or (isinstance(o, int) and rt(o) in slots) for o in i.ops)
                        if anyin:
                            hit = i.ty == "ptr" or i.ty.startswith("{")
                            for k in i.d.get("sret") or []:
                                if rt(i.ops[k]) not in slots: slots.add(rt(i.ops[k])); grew = True
                if hit and i.id not in T: T.add(i.id); grew = True
        return T, slots, tin
    def writes(self, fn, seeds, allow=lambda i, n: False):
        """[(instruction, description)] that may write to memory reached from the seeds"""
        T, slots, tin = self.taint(fn, seeds); out = []
        for i in fn.insts():
            if i.op == "store" and tin(i.ops[1]): out.append((i, "stores to it"))
            elif i.op in ("atomicrmw", "cmpxchg") and tin(i.ops[0]): out.append((i, "changes it"))
            elif i.op in ("call", "invoke"):
                n = fn.callee(i)
                if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    if tin(i.ops[0]): out.append((i, "overwrites it"))
                    continue
                if n.startswith("llvm.") or i.d.get("fn") is None: continue
                if allow(i, n): continue
                for k, o in enumerate(i.ops):
                    if tin(o) and self.call_writes(i, fn, k): out.append((i, f"passes it to {n}, which may change it"))
        return out
    def call_writes(self, i, fn, k):
        f = i.d["fn"]
        g = self.mod.functions.get(f)
        if g is not None: return self.param_writes(g, k)
        dem = self.mod.dem(f); n = self.mod.base(f)
        sret = i.d.get("sret") or []
        if k in sret: return True
        p = params(dem); nargs = len(i.ops) - len(sret); k2 = k - (1 if sret else 0)
        member = nargs == len(p) + 1
        m = n.rpartition("::")[2]
        if n in ("operator delete", "free"): return True
        if member and k2 == 0:
            if is_const_member(dem): return False
            if m in PURE_ITER: return False       # hands out access; the result is followed instead
            return True
        j = k2 - (1 if member else 0)
        if 0 <= j < len(p):
            t = p[j].rstrip()
            if t.endswith(("&", "*")) and not re.search(r"\bconst\s*[&*]+$", t): return True
            return False
        return False
    def param_writes(self, g, k):
        key = (g.name, k)
        if key in self.memo: return self.memo[key]
        if key in self.busy: return False
        self.busy.add(key)
        r = bool(self.writes(g, [("a", k)]))
        self.busy.discard(key); self.memo[key] = r
        return r
