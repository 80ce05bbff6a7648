"""Values of memory: reaching definitions over SSA form, and canonical terms for SSA values and for the contents of memory.

A pointer is resolved to locations (root, offset): the root is an SSA value that names an object (stack slot, call result, argument, loaded pointer, loop
variable), the offset is a constant or None. Terms are nested tuples:
  ('c', n)  ('null',)  ('a', k) argument  ('g', name) global
  ('ld', R, off)   what memory at root R, offset off held (R: ('v', id) or ('a', k))
  ('call', name, id) result of an opaque call      ('icall', id) of an indirect one
  ('op', opcode, t...)    ('phi', frozenset of terms)    ('gep', t, off, ((t, scale)...))
  ('any', id)    not resolved
"""
import sys
from ir import *
sys.setrecursionlimit(20000)
INTCAST = ("zext", "sext", "trunc", "freeze", "bitcast", "ptrtoint", "inttoptr", "fptoui", "uitofp", "sitofp", "fptosi", "fpext", "fptrunc")

def root_of(op):
    if isinstance(op, int): return ("v", op)
    if isinstance(op, tuple) and op and op[0] in ("a", "null", "g", "v"): return op
    return ("k", op)

class Sem:
    def __init__(self, fn):
        self.fn = fn; self._t = {}; self._loc = {}; self._defs = {}
        self.addr_cache = {}
        self.busy = set()
        self._byroot = None
    # ---- addresses ----
    def addr(self, v):
        """(root, offset or None) of a pointer operand, following GEPs only"""
        if isinstance(v, tuple):
            if v and v[0] == "goff": return (("g", v[1]), v[2])
            return (root_of(v), 0)
        if v in self.addr_cache: return self.addr_cache[v]
        i = self.fn.inst.get(v); r = (("v", v), 0)
        if i is not None and i.op == "getelementptr":
            b = tup(i.d["base"]); R, o = self.addr(b)
            if i.d.get("off") is None or o is None or i.d.get("var"): r = (R, None)
            else: r = (R, o + i.d["off"])
        self.addr_cache[v] = r
        return r
    def alloca(self, R): return R[0] == "v" and R[1] in self.fn.inst and self.fn.inst[R[1]].op == "alloca"
    # ---- what an instruction does to memory at a root ----
    def _effects(self):
        """root -> {block -> [(pos, inst, kind, off, size, extra)]}"""
        if self._byroot is not None: return self._byroot
        out = {}
        def add(R, I, kind, off, size, extra=None): out.setdefault(R, {}).setdefault(I.bb, []).append((I.pos, I, kind, off, size, extra))
        for I in self.fn.insts():
            if I.op == "store":
                R, o = self.addr(I.ops[1]); add(R, I, "store", o, I.d.get("bytes"))
            elif I.op == "alloca": add(("v", I.id), I, "undef", 0, 1 << 40)
            elif I.op in ("call", "invoke"):
                n = self.fn.callee(I)
                if n.startswith("llvm."):
                    if n.startswith(("llvm.memcpy", "llvm.memmove")):
                        R, o = self.addr(I.ops[0]); sz = cval(I.ops[2]); add(R, I, "copy", o, sz, I.ops[1])
                    elif n.startswith("llvm.memset"):
                        R, o = self.addr(I.ops[0]); add(R, I, "memset", o, cval(I.ops[2]))
                    elif n.startswith("llvm.lifetime.start"):
                        R, o = self.addr(I.ops[1]); add(R, I, "undef", o, 1 << 40)
                    continue
                for k in self.written_args(I, n):
                    R, o = self.addr(I.ops[k]); add(R, I, "call", o, None, k)
        for m in out.values():
            for l in m.values(): l.sort(key=lambda x: -x[0])
        self._byroot = out
        return out
    def written_args(self, I, n):
        """argument positions through which an opaque call may write an object the caller can name"""
        s = I.d.get("sret") or []
        out = list(s)
        f = I.d.get("fn")
        if f is None: return out              # the heuristic: takes its arguments by reference to const
        dem = self.fn.mod.dem(f)
        this = 1 if 0 in s else 0
        if n.startswith(("chdr::utils::", "chdr::heuristics::")): return out
        if is_member(dem) and not dem.rstrip().endswith("const") and this < len(I.ops): out.append(this)
        if n.startswith("std::swap") or n.endswith("::swap") or n.startswith("std::iter_swap"):
            out = list(range(len(I.ops)))
        return out
    def defs(self, R, off, size, at):
        """the definitions of memory [off, off+size) at R that reach instruction `at`"""
        key = (R, off, size, at.bb, at.pos)
        if key in self._defs: return self._defs[key]
        eff = self._effects().get(R, {}); out = []; seen = set()
        stop = None
        if R[0] == "v" and R[1] in self.fn.inst: stop = self.fn.inst[R[1]]
        work = [(at.bb, at.pos)]
        while work:
            b, pos = work.pop()
            done = False
            for p, I, kind, o, sz, ex in eff.get(b, ()):
                if p >= pos: continue
                if kind == "call" and I.op == "invoke" and pos == -2: pass
                r = self._match(kind, o, sz, off, size, I, ex)
                if r is None: continue
                d, final = r
                if d not in out: out.append(d)
                if final: done = True; break
            if done: continue
            if stop is not None and stop.op != "alloca" and stop.bb == b and stop.pos < pos:
                if ("live", None) not in out: out.append(("live", None))
                continue
            B = self.fn.blocks[b]
            if b == self.fn.entry:
                if ("live", None) not in out: out.append(("live", None))
                continue
            for p in B.preds:
                if p not in seen: seen.add(p); work.append((p, 1 << 30))
        self._defs[key] = out
        return out
    def _match(self, kind, o, sz, off, size, I, ex):
        if kind == "undef": return (("undef", I), True)
        if kind == "call":
            if o is not None and off is not None and size is not None and off + size <= o: return None      # a member function of a subobject leaves what lies before it alone
            return (("call", I, ex, off), True)
        if o is None or off is None or sz is None:
            return (("may", I), False)
        if o + sz <= off or off + size <= o: return None
        if kind == "store":
            if o == off and sz == size: return (("store", I), True)
            if o <= off and o + sz >= off + size: return (("wide", I, off - o), True)
            return (("part", I), False)
        if kind == "memset":
            if o <= off and o + sz >= off + size: return (("memset", I), True)
            return (("part", I), False)
        if kind == "copy":
            if o <= off and o + sz >= off + size: return (("copy", I, ex, off - o), True)
            return (("part", I), False)
    # ---- locations a pointer may point to ----
    def locs(self, v, depth=0):
        """[(root, offset)] after looking through pointers kept in stack slots and through phis; null is dropped"""
        if v in self._loc: return self._loc[v]
        if isinstance(v, int) and ("loc", v) in self.busy: return []
        self.busy.add(("loc", v))
        R, o = self.addr(v)
        res = [(R, o)]
        if R[0] == "v":
            i = self.fn.inst.get(R[1])
            if i is not None and i.op in ("phi", "select"):
                vals = [tup(x[1]) for x in i.d["in"]] if i.op == "phi" else list(i.ops[1:])
                subs = []
                self_ref = False
                for x in vals:
                    if isinstance(x, tuple) and x[0] == "null": continue
                    a, _ = self.addr(x)
                    if a == R: self_ref = True; continue
                    subs.append(x)
                if not self_ref and depth < 12:
                    out = []
                    for x in subs: out += self.locs(x, depth + 1)
                    res = [(r, None if (p is None or o is None) else p + o) for r, p in out]
            elif i is not None and i.op == "load":
                t = self.load_ptrs(i, depth)
                if t is not None: res = [(r, None if (p is None or o is None) else p + o) for r, p in t]
        elif R[0] == "null": res = []
        self.busy.discard(("loc", v))
        res = list(dict.fromkeys(res))
        if not any(isinstance(x, tuple) and x[0] == "loc" for x in self.busy): self._loc[v] = res
        return res
    def load_ptrs(self, i, depth):
        """locations of the pointer that load i reads, if it comes from a stack slot with known stores"""
        out = []
        for R, o in self.locs(i.ops[0], depth + 1):
            if o is None or not (self.alloca(R) or self.heapish(R)): return None
            for d in self.defs(R, o, i.d["bytes"], i):
                if d[0] == "store": out += self.locs(d[1].ops[0], depth + 1)
                elif d[0] in ("undef",): continue
                elif d[0] == "copy":
                    q = self.copy_src_ptrs(d, i.d["bytes"], depth + 1)
                    if q is None: return None
                    out += q
                else: return None
        return out or None
    def copy_src_ptrs(self, d, size, depth):
        _, I, src, delta = d
        out = []
        for R, o in self.locs(src, depth + 1):
            if o is None or not (self.alloca(R) or self.heapish(R)): return None
            for e in self.defs(R, o + delta, size, I):
                if e[0] == "store": out += self.locs(e[1].ops[0], depth + 1)
                elif e[0] == "undef": continue
                elif e[0] == "copy" and depth < 12:
                    q = self.copy_src_ptrs(e, size, depth + 1)
                    if q is None: return None
                    out += q
                else: return None
        return out
    def heapish(self, R):
        if R[0] != "v" or R[1] not in self.fn.inst: return False
        i = self.fn.inst[R[1]]
        return i.op in ("call", "invoke") and (self.fn.callee(i).endswith("::allocate") or self.fn.callee(i) in ("operator new", "malloc"))
    # ---- terms ----
    def t(self, v):
        if isinstance(v, tuple):
            if v[0] == "c": return ("c", cval(v))
            if v[0] == "null": return ("null",)
            if v[0] == "goff": return ("gep", ("g", v[1]), v[2], ())
            return v
        if v in self._t: return self._t[v]
        if v in self.busy: return ("rec", v)
        self.busy.add(v)
        n = len(self.busy)
        r = unrec(self._term(v), v)
        self.busy.discard(v)
        if n == 1 or not has_rec(r): self._t[v] = r
        return r
    def _term(self, v):
        i = self.fn.inst.get(v)
        if i is None: return ("any", v)
        if i.op == "trunc" and i.ty in ("i8", "i16"):
            x = self.t(i.ops[0])      # a narrowed index no longer identifies its cell; a widened flag is still that flag
            return x if isinstance(i.ops[0], int) and self.fn.is_boolish(i.ops[0]) or x[0] in ("c", "active", "contains") else ("op", "trunc " + i.ty, x)
        if i.op in INTCAST: return self.t(i.ops[0])
        if i.op == "load": return self.load_term(i.ops[0], i.d["bytes"], i)
        if i.op == "alloca": return ("v", v)
        if i.op == "getelementptr":
            b = self.t(tup(i.d["base"]))
            if i.d.get("off") is None: return ("any", v)
            var = tuple(sorted(((self.t(tup(x)), s) for x, s in i.d["var"]), key=repr))
            if b[0] == "gep" and not b[3]: return ("gep", b[1], b[2] + i.d["off"], var)
            if b[0] == "gep" and not var: return ("gep", b[1], b[2] + i.d["off"], b[3])
            return ("gep", b, i.d["off"], var)
        if i.op in ("call", "invoke"):
            if i.d.get("fn") is None: return ("icall", v)
            n = self.fn.callee(i)
            if n.startswith("llvm.expect"): return self.t(i.ops[0])
            if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")): return comm("op", n.split(".")[1], [self.t(x) for x in i.ops])
            if n.startswith(("llvm.fmuladd", "llvm.fma.")): return ("fma", *(self.t(x) for x in i.ops))
            return ("call", n, v)
        if i.op == "phi": return mkphi([self.t(tup(x[1])) for x in i.d["in"]])
        if i.op == "select": return mkphi([self.t(i.ops[1]), self.t(i.ops[2])])
        if i.op in ("add", "mul", "and", "or", "xor", "fadd", "fmul"): return comm("op", i.op.lstrip("f") if i.op in ("fadd", "fmul") else i.op, [self.t(x) for x in i.ops])
        if i.op in ("sub", "fsub"): return ("op", "sub", self.t(i.ops[0]), self.t(i.ops[1]))
        if i.op in ("shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "fdiv"): return ("op", i.op, self.t(i.ops[0]), self.t(i.ops[1]))
        if i.op in ("icmp", "fcmp"): return ("op", i.op + " " + i.d["pred"], self.t(i.ops[0]), self.t(i.ops[1]))
        if i.op == "extractvalue": return ("xv", tuple(i.d["idx"]), self.t(i.ops[0]))
        return ("any", v)
    def load_term(self, ptr, size, at):
        ls = self.locs(ptr)
        out = []
        for R, o in ls:
            if o is None:
                out.append(("ldx", self.t(ptr) if isinstance(ptr, int) else ptr)); continue
            out.append(self.mem_term(R, o, size, at, 0))
        if not out: return ("any", at.id)
        return mkphi(out)
    def mem_term(self, R, o, size, at, depth):
        """the term for what memory [o, o+size) at R holds just before instruction `at`"""
        if R[0] in ("a", "g"): return ("ld", R, o)
        if depth > 24: return ("any", at.id)
        key = ("mt", R, o, size, at.id)
        if key in self.busy: return ("rec", key[1:])
        self.busy.add(key)
        res = []
        for d in self.defs(R, o, size, at):
            if d[0] == "store": res.append(self.t(d[1].ops[0]))
            elif d[0] == "copy":
                _, I, src, delta = d
                for R2, o2 in self.locs(src):
                    res.append(("ldx", self.t(src), delta) if o2 is None else self.mem_term(R2, o2 + delta, size, I, depth + 1))
            elif d[0] == "call": res.append(("mem", d[1].id, d[2], o - (self.addr(d[1].ops[d[2]])[1] or 0)))
            elif d[0] == "live": res.append(("ld", R, o))
            elif d[0] == "memset": res.append(("c", 0) if cval(d[1].ops[1]) == 0 else ("any", d[1].id))
            elif d[0] == "undef": continue
            elif d[0] in ("part", "may"): res.append(("any", d[1].id))
            elif d[0] == "wide": res.append(("wide", self.t(d[1].ops[0]), d[2]))
        self.busy.discard(key)
        if not res: return ("undef",)
        return unrec(mkphi(res), key[1:])
    def content(self, ptr, size, at):
        """the term for the object of `size` bytes that a pointer operand refers to at instruction `at`"""
        return self.load_term(ptr, size, at)

def comm(k, op, ts): return (k, op, *sorted(ts, key=repr))
def mkphi(ts):
    s = set()
    for x in ts:
        if x[0] == "phi": s |= x[1]
        elif x[0] == "undef": continue
        else: s.add(x)
    if len(s) == 1: return next(iter(s))
    return ("phi", frozenset(s)) if s else ("undef",)
def unrec(t, k):
    """a merged value is not one of its own alternatives"""
    if t[0] != "phi" or ("rec", k) not in t[1]: return t
    s = t[1] - {("rec", k)}
    return ("phi", s) if len(s) > 1 else next(iter(s))
def has_rec(t):
    if isinstance(t, tuple): return (len(t) > 0 and t[0] == "rec") or any(has_rec(x) for x in t)
    if isinstance(t, frozenset): return any(has_rec(x) for x in t)
    return False
def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, (tuple, frozenset)): yield from subterms(x)
    elif isinstance(t, frozenset):
        for x in t: yield from subterms(x)
def alts(t): return set(t[1]) if t[0] == "phi" else {t}
def is_member(dem):
    """does a demangled signature look like a member function of one of the container or resource classes?"""
    b = dem.split("(")[0]
    return "::" in b
