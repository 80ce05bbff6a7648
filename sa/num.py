"""Abstract interpretation of compiled functions over linear inequalities (a polyhedral domain with trace partitioning): integers are polynomials over atoms, pointers are region + offset, containers have a symbolic size. What a loop changes is forgotten at its head."""
from common import *
import re
W = 1 << 64
class GiveUp(Exception): pass

# ---------------------------------------------------------------- polynomials
class P:
    __slots__ = ("d", "h")
    def __init__(s, d): s.d = {k: v for k, v in d.items() if v}; s.h = None
    def key(s):
        if s.h is None: s.h = tuple(sorted(s.d.items()))
        return s.h
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return isinstance(o, P) and s.d == o.d
    def __add__(s, o):
        o = cst(o); d = dict(s.d)
        for k, v in o.d.items(): d[k] = d.get(k, 0) + v
        return P(d)
    def __neg__(s): return P({k: -v for k, v in s.d.items()})
    def __sub__(s, o): return s + (-cst(o))
    def __mul__(s, o):
        o = cst(o); d = {}
        for a, x in s.d.items():
            for b, y in o.d.items():
                k = tuple(sorted(a + b)); d[k] = d.get(k, 0) + x * y
        return P(d)
    def const(s): return s.d.get((), 0) if all(k == () for k in s.d) else None
    def atoms(s): return {a for k in s.d for a in k}
    def degree(s): return max((len(k) for k in s.d), default=0)
    def __repr__(s):
        if not s.d: return "0"
        out = ""
        for k, v in sorted(s.d.items(), key=lambda t: (t[0] == (), t[0])):
            t = "*".join(k) if k else ""
            out += (" - " if v < 0 else " + " if out else "") + (t if abs(v) == 1 and t else f"{abs(v)}*{t}" if t else str(abs(v)))
        return out.strip()
def cst(x): return x if isinstance(x, P) else P({(): x})
def atom(n): return P({(n,): 1})
class Ptr:
    __slots__ = ("r", "off")
    def __init__(s, r, off=0): s.r = r; s.off = cst(off)
    def __eq__(s, o): return isinstance(o, Ptr) and s.r == o.r and s.off == o.off
    def __hash__(s): return hash((s.r, s.off))
    def __repr__(s): return f"&{s.r}+{s.off}"
class U:
    """a value nothing is known of"""
    __slots__ = ("n",)
    def __init__(s, n): s.n = n
    def __eq__(s, o): return isinstance(o, U) and s.n == o.n
    def __hash__(s): return hash(s.n)
    def __repr__(s): return f"?{s.n}"

# ---------------------------------------------------------------- inequalities (Fourier-Motzkin elimination)
def norm(c):
    from math import gcd
    g = 0
    for k, v in c.items():
        if k != (): g = gcd(g, abs(v))
    if g == 0: return None if c.get((), 0) >= 0 else False
    if g > 1: c = {k: (v // g if k != () else v // g) for k, v in c.items()}
    return {k: v for k, v in c.items() if v or k == ()}
def feasible(cons):
    """False only if the conjunction of (p >= 0) has no integer solution"""
    cs = []; seen = set()
    for p in cons:
        c = norm(dict(p.d))
        if c is False: return False
        if c is None: continue
        k = tuple(sorted(c.items()))
        if k not in seen: seen.add(k); cs.append(c)
    # equalities: c and -c both present
    for _ in range(200):
        if not cs: return True
        best = {}
        for c in cs:
            k = tuple(sorted((m, v) for m, v in c.items() if m != ()))
            if k not in best or c.get((), 0) < best[k].get((), 0): best[k] = c
        for k, c in best.items():
            n = tuple((m, -v) for m, v in k)
            if n in best and best[n].get((), 0) + c.get((), 0) < 0: return False
        cs = list(best.values())
        eq = None
        for k, c in best.items():
            n = tuple((m, -v) for m, v in k)
            if n in best and best[n].get((), 0) == -c.get((), 0):
                piv = [m for m, v in k if abs(v) == 1]
                if piv: eq = (c, max(piv, key=lambda m: (len(m), m))); break
        if eq is not None:
            c, m = eq; s = c[m]; new = []
            for x in cs:
                if m in x:
                    f = x[m] * s; y = {k: x.get(k, 0) - f * c.get(k, 0) for k in set(x) | set(c)}; y = {k: v for k, v in y.items() if v}
                else: y = x
                y = norm(y)
                if y is False: return False
                if y is not None: new.append(y)
            cs = new; continue
        var = {}
        for c in cs:
            for m, v in c.items():
                if m != (): var.setdefault(m, [0, 0])[0 if v > 0 else 1] += 1
        m = min(var, key=lambda v: (var[v][0] * var[v][1] - var[v][0] - var[v][1], v))
        pos = [c for c in cs if c.get(m, 0) > 0]; neg = [c for c in cs if c.get(m, 0) < 0]; rest = [c for c in cs if not c.get(m, 0)]
        if len(pos) * len(neg) > 1500: return True
        for a in pos:
            for b in neg:
                x, y = a[m], -b[m]
                n = norm({k: v for k, v in ((k, y * a.get(k, 0) + x * b.get(k, 0)) for k in set(a) | set(b)) if v})
                if n is False: return False
                if n is not None: rest.append(n)
        cs = rest
        if len(cs) > 3000: return True
    return True
class St:
    __slots__ = ("val", "mem", "size", "cons", "ali", "log", "x")
    def __init__(s): s.val = {}; s.mem = {}; s.size = {}; s.cons = (); s.ali = {}; s.log = (); s.x = {}
    def fork(s):
        n = St(); n.val = dict(s.val); n.mem = dict(s.mem); n.size = dict(s.size); n.cons = s.cons; n.ali = dict(s.ali); n.log = s.log; n.x = dict(s.x); return n
    def add(s, *ps):
        for p in ps:
            p = cst(p)
            if p not in s.cons: s.cons += (p,)
        return s
    def related(s, qs):
        at = set().union(*[q.atoms() for q in qs]) if qs else set(); todo = list(s.cons); out = []
        ch = True
        while ch:
            ch = False; rest = []
            for c in todo:
                a = c.atoms()
                if not a or a & at: out.append(c); at |= a; ch = True
                else: rest.append(c)
            todo = rest
        for a in sorted(at): out.append(atom(a))
        return out
    def _sat(s, rel):
        """products of known inequalities with atoms, where a product of atoms occurs"""
        mon = {k for c in rel for k in c.d if len(k) == 2}
        if not mon: return rel
        out = list(rel); fac = {a for k in mon for a in k}
        for c in rel:
            if c.degree() != 1: continue
            for v in fac:
                if any(len(k) == 1 and tuple(sorted(k + (v,))) in mon for k in c.d): out.append(c * atom(v))
        for k in mon: out.append(P({k: 1}))
        return out
    def entails(s, p):
        """p >= 0 follows from what is known"""
        p = cst(p); k = p.const()
        if k is not None: return k >= 0
        q = -p - 1
        key = (p, s.cons)
        if key not in _memo:
            if len(_memo) > 200000: _memo.clear()
            _memo[key] = not feasible(s._sat(s.related([q]) + [q]))
        return _memo[key]
    def possible(s): return feasible(s._sat(s.related([c for c in s.cons])))
    def possible_with(s, p):
        p = cst(p); k = p.const()
        if k is not None: return k >= 0
        return not s.entails(-p - 1)
    def divisible(s, e, al):
        """e is a multiple of the atom al (a power of two)"""
        for _ in range(20):
            m = next((a for a in sorted(e.atoms()) if a in s.ali and s.ali[a][0] == "mod" and s.ali[a][2] == al), None)
            if m is None: break
            x = s.ali[m][1]; d = P({})
            for k, v in e.d.items():
                n = k.count(m); t = P({tuple(a for a in k if a != m): v})
                for _ in range(n): t = t * x
                d = d + t
            e = d
        am = {al} if isinstance(al, str) else set()
        def rest(e): return {k: v for k, v in e.d.items() if not any(a in am or al in s.ali.get(("mult", a), ()) for a in k) and not (isinstance(al, int) and v % al == 0) and not (k == () and v % W == 0)}
        if not rest(e): return True
        for m, t in list(s.ali.items()):            # something whose remainder is zero on this path
            if isinstance(t, tuple) and len(t) == 3 and t[0] == "mod" and t[2] == al and any(not rest(e - t[1] * c) for c in (1, -1)) and s.entails(-atom(m)): return True
        return False
_memo = {}

class Client:
    """what an analysis adds: initial knowledge of memory cells, the meaning of calls, checks at accesses"""
    def fresh(self, st, region, off, v): pass
    def call(self, num, st, fn, i, name, args): return None
    def access(self, num, st, i, cont, idx, what): pass
    def store(self, num, st, i, p, v): pass
    def enter(self, num, fn, fr, st, b): pass
    def divide(self, num, st, i, by): pass
    def head(self, num, fn, fr, st, b, inis): pass
    def back(self, num, fn, fr, st, b, prev): pass
    def copy(self, num, st, i, d, s, n): pass
    def newsize(self, st, region, v): st.add(v, cst((1 << 56)) - v)
    def range(self, num, st, i, r, a, b, n): pass
    def templates(self, st, ini): return []

class Restart(Exception): pass
class Num:
    def outcomes(self, fn, args, st):
        """run, with the assumptions made about loop-carried values checked"""
        for _ in range(40):
            try: return self.run(fn, args, st.fork())
            except Restart: self.n = 0; self.cnt = {}; self.paths = 0
        raise GiveUp("loops")
    def __init__(self, mod, client, maxpaths=4000):
        self.noassume = set(); self.assumed = {}; self.memo = {}; self.stepof = {}
        self.mod = mod; self.c = client; self.n = 0; self.maxpaths = maxpaths; self.paths = 0; self.cnt = {}
    def new(self, hint):
        self.cnt[hint] = self.cnt.get(hint, 0) + 1
        return f"{hint}#{self.cnt[hint]}"
    # ---- values ----
    def ev(self, st, fr, o):
        if isinstance(o, list): o = tuple(o)
        if isinstance(o, int): return st.val[(fr, o)]
        if o[0] == "a": return st.val.get((fr, o), U(f"arg{o[1]}"))
        if o[0] == "c":
            s = o[1]
            if s in ("true", "false"): return cst(int(s == "true"))
            try: n = int(s)
            except ValueError: return U(f"const {s}")
            w = o[2] if len(o) > 2 and isinstance(o[2], int) else 64
            if w == 1: return cst(n & 1)
            return cst(n if n >= 0 else n + (1 << w))
        if o[0] == "null": return cst(0)
        if o[0] in ("undef", "poison"): return U("undef")
        return Ptr(("glob",) + tuple(map(str, o[1:])))
    def num(self, st, v, hint="v"):
        """a polynomial for an integer value"""
        if isinstance(v, P): return v
        if isinstance(v, Ptr): return self.addr(st, v.r) + v.off
        if isinstance(v, tuple): 
            return None
        if isinstance(v, U):
            a = f"?{v.n}"; return atom(a)
        return None
    def addr(self, st, r):
        if r[0] == "elem":
            e = self.elemsize(st, r[1])
            if e: return self.addr(st, ("data", r[1])) + r[2] * e
        a = f"addr{show(r)}"; p = atom(a)
        st.add(p - 1, cst(1 << 62) - p)
        return p
    # ---- conditions ----
    def assume(self, st, c, tr):
        """states in which the condition has the truth value"""
        if isinstance(c, P):
            k = c.const()
            if k is not None: return [st] if bool(k & 1 if k in (0, 1) else k) == tr else []
            return self.cmp(st, "ne" if tr else "eq", c, cst(0))
        if isinstance(c, tuple):
            if c[0] == "not": return self.assume(st, c[1], not tr)
            if c[0] == "and":
                if tr: return [t for s in self.assume(st, c[1], True) for t in self.assume(s, c[2], True)]
                return self.assume(st.fork(), c[1], False) + [t for s in self.assume(st, c[1], True) for t in self.assume(s, c[2], False)]
            if c[0] == "or": return self.assume(st, ("and", ("not", c[1]), ("not", c[2])), not tr)
            if c[0] == "cmp":
                neg = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
                return self.cmp(st, c[1] if tr else neg[c[1]], c[2], c[3])
            if c[0] == "named":
                if ("named", c[1]) in st.x: return [st] if st.x[("named", c[1])] == tr else []
                st.x[("named", c[1])] = tr; return [st]
        return [st]
    def cmp(self, st, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r: a, b = a.off, b.off
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.r[0] in ("obj", "loc", "glob") and b.r[0] in ("obj", "loc", "glob") and pred in ("eq", "ne"): return [] if pred == "eq" else [st]
        elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.r[0] == b.r[0] == "elem" and a.r[1] == b.r[1] and a.off == b.off: a, b = a.r[2], b.r[2]
        elif isinstance(a, Ptr) and isinstance(b, P) and b.const() == 0: return [] if pred == "eq" else [st]
        elif isinstance(b, Ptr) and isinstance(a, P) and a.const() == 0: return [] if pred == "eq" else [st]
        elif isinstance(a, tuple) or isinstance(b, tuple):
            if isinstance(a, tuple) and isinstance(b, P) and b.const() in (0, 1): return self.assume(st, a, (b.const() == 1) == (pred == "eq")) if pred in ("eq", "ne") else [st]
            return [st]
        else:
            if not isinstance(a, (P, U)) or not isinstance(b, (P, U)):
                a, b = self.num(st, a), self.num(st, b)
                if a is None or b is None: return [st]
            elif isinstance(a, U) or isinstance(b, U):
                a, b = self.num(st, a), self.num(st, b)
        if pred[0] == "s":
            for x in (a, b):
                if not st.entails(cst(W // 2 - 1) - x): return [st]
            pred = "u" + pred[1:]
        def t(*ps):
            s = st.fork()
            if all(s.possible_with(p) for p in ps): s.add(*ps); return [s]
            return []
        if pred == "eq": return t(a - b, b - a)
        if pred == "ne":
            if a == b: return []
            if st.entails(a - b): return t(a - b - 1)
            if st.entails(b - a): return t(b - a - 1)
            return [st]
        if pred == "ult": return t(b - a - 1)
        if pred == "ule": return t(b - a)
        if pred == "ugt": return t(a - b - 1)
        if pred == "uge": return t(a - b)
        return [st]
    # ---- running ----
    def run(self, fn, args, st, depth=0):
        """outcomes (state, 'ret' | 'throw', value)"""
        if depth > 14: raise GiveUp(f"recursion through {fn.base}")
        self.n += 1; fr = self.n
        for k, a in enumerate(args): st.val[(fr, ("a", k))] = a
        out = []; work = [(st, fn.entry, None, frozenset())]
        loops = fn.loops(); steps = 0
        while work:
            st, b, prev, seen = work.pop(); steps += 1
            if steps > self.maxpaths: raise GiveUp(f"{fn.base}: too many paths")
            B = fn.blocks[b]
            if b in loops:
                if b in seen:
                    self.back(fn, fr, st, b, prev); continue          # covered by the forgotten state
                new = {}; der = self.derived(fn, b, prev)
                for i in B.insts:
                    if i.op != "phi": break
                    if i.id in der: continue
                    ini = next((self.ev(st, fr, v) for blk, v in i.d["in"] if blk == prev), U("phi"))
                    new[(fr, i.id)] = self.havoc_phi(fn, fr, st, i, ini, loops[b])
                inis = {i.id: next((self.ev(st, fr, v) for blk, v in i.d["in"] if blk == prev), None) for i in B.insts if i.op == "phi"}
                st.val.update(new); self.stepped(fn, fr, st, B, loops[b], inis); self.c.enter(self, fn, fr, st, b)
                self.havoc(fn, fr, st, loops[b]); states = [st]
                for d in der: states = [u for x in states for u in self.rederive(fn, fr, x, d, *der[d], depth)]
                for x in states: self.c.head(self, fn, fr, x, b, inis)
                seen = seen | {b}
            else:
                new = {}; states = [st]
                for i in B.insts:
                    if i.op != "phi": break
                    for blk, v in i.d["in"]:
                        if blk == prev: new[(fr, i.id)] = self.ev(st, fr, v)
                st.val.update(new)
            t = B.insts[-1]
            for i in B.insts:
                if i.op == "phi" or (i is t and i.op != "invoke"): continue
                nxt = []
                for s in states:
                    for s2, kind, v in self.step(fn, fr, i, s, depth):
                        if kind == "throw":
                            if i.op == "invoke": work.append((s2, i.d["unwind"], b, seen))
                            else: out.append((s2, "throw", v))
                        else:
                            if v is not None: s2.val[(fr, i.id)] = v
                            nxt.append(s2)
                states = nxt
            for s in states:
                if t.op == "ret": out.append((s, "ret", self.ev(s, fr, t.ops[0]) if t.ops else None))
                elif t.op == "invoke": work.append((s, t.d["normal"], b, seen))
                elif t.op == "br" and len(t.d["succ"]) == 1: work.append((s, t.d["succ"][0], b, seen))
                elif t.op == "br":
                    c = self.ev(s, fr, t.ops[0])
                    for d, tr in zip(t.d["succ"], (True, False)):
                        for n in self.assume(s.fork(), c, tr): work.append((n, d, b, seen))
                elif t.op == "switch":
                    c = self.ev(s, fr, t.ops[0]); o = [s.fork()]
                    for v, d in t.d["cases"]:
                        for n in self.assume(s.fork(), ("cmp", "eq", c, cst(int(v))), True): work.append((n, d, b, seen))
                        o = [m for x in o for m in self.assume(x, ("cmp", "ne", c, cst(int(v))), True)]
                    for n in o: work.append((n, t.d["default"], b, seen))
                elif t.op == "resume": out.append((s, "throw", None))
                elif t.op == "unreachable": pass
                else: raise GiveUp(t.op)
        self.paths += len(out)
        return out
    def stepped(self, fn, fr, st, B, body, inis):
        """loop-carried values that move by the same amount in every round: expressed over the loop's counter"""
        phis = [i for i in B.insts if i.op == "phi"]; steps = {}; self.stepof[(fr, B.id)] = rec = []
        def amount(i):
            r = None
            for blk, v in i.d["in"]:
                if blk not in body: continue
                d = fn.inst.get(v) if isinstance(v, int) else None; a = None
                if d is not None and d.op == "getelementptr" and (tuple(d.d["base"]) if isinstance(d.d.get("base"), list) else d.d.get("base")) == i.id:
                    a = cst(d.d.get("off") or 0)
                    for o, k in d.d.get("var", []):
                        x = self.invariant(fn, fr, st, o, body); a = a + x * k if a is not None and x is not None else None
                elif d is not None and d.op in ("add", "sub") and i.id in d.ops and (d.op == "add" or d.ops[0] == i.id):
                    o = next((x for x in d.ops if x != i.id), None); a = self.invariant(fn, fr, st, o, body) if o is not None else None
                    if a is not None and a.const() is not None and a.const() >= W // 2: a = a - W
                    if a is not None and d.op == "sub": a = -a
                if a is None or r is not None and r != a: return None
                r = a
            return r
        for i in phis: steps[i.id] = amount(i)
        def idx(v): return v if isinstance(v, P) else v.r[2] if isinstance(v, Ptr) and v.r[0] == "elem" else None
        cnt = None
        for i in phis:
            v, ini = idx(st.val.get((fr, i.id))), idx(inis.get(i.id)); k = steps[i.id].const() if steps[i.id] is not None else None
            if isinstance(st.val.get((fr, i.id)), Ptr) and k is not None: e = self.elemsize(st, st.val[(fr, i.id)].r[1]) if st.val[(fr, i.id)].r[0] == "elem" else None; k = k // e if e and k % e == 0 else None
            if v is not None and ini is not None and v.const() is None and k in (1, -1): cnt = (i.id, v, ini, k); break
        if cnt is None: return
        for i in phis:
            ini, S = inis.get(i.id), steps[i.id]
            if i.id == cnt[0] or S is None or (fn.name, i.id, "step") in self.noassume: continue
            n = (cnt[1] - cnt[2]) * cnt[3]
            if S.const() is None and st.entails(S) and st.entails(n): st.add(S * n)
            if isinstance(ini, Ptr) and ini.r[0] != "elem": st.val[(fr, i.id)] = Ptr(ini.r, ini.off + S * n)
            elif isinstance(ini, P) and i.ty != "i1": st.val[(fr, i.id)] = ini + S * n
            else: continue
            rec.append((i.id, cnt[0], ini, S, cnt[2], cnt[3])); self.assumed.pop((fr, i.id), None)
    def invariant(self, fn, fr, st, o, body):
        if isinstance(o, list): o = tuple(o)
        if isinstance(o, int) and any(i.id == o for b in body for i in fn.blocks[b].insts): return None
        v = self.ev(st, fr, o)
        return v if isinstance(v, P) else None
    def derived(self, fn, b, prev):
        """loop-carried values that on every edge are the same function of other loop-carried values: {phi: (operand on entry, {leaf operand: phi})}"""
        k = ("derived", fn.name, b, prev)
        if k in self.memo: return self.memo[k]
        phis = [i for i in fn.blocks[b].insts if i.op == "phi"]; out = {}
        inc = {i.id: {blk: (tuple(v) if isinstance(v, list) else v) for blk, v in i.d["in"]} for i in phis}
        def tree(p, x, y, bk, leaves, n=0):
            x, y = (tuple(v) if isinstance(v, list) else v for v in (x, y))
            for q in inc:
                if q != p and q not in out and inc[q].get(prev) == x and inc[q].get(bk) == y and x != y:
                    if leaves.get(x, q) == q: leaves[x] = q; return n > 0
            if x == y: return x not in leaves and not isinstance(x, int)
            if not isinstance(x, int) or not isinstance(y, int) or n > 6: return False
            i, j = fn.inst[x], fn.inst[y]
            if i.op != j.op or i.ty != j.ty or len(i.ops) != len(j.ops) or i.d.get("pred") != j.d.get("pred"): return False
            if i.op in ("call", "invoke"):
                if i.d.get("fn") != j.d.get("fn") or not (i.d.get("fn") in self.mod.functions and self.arithmetic(i.d["fn"])): return False
            elif i.op not in ("add", "sub", "mul", "udiv", "urem", "shl", "lshr", "and", "or", "xor", "icmp", "select", "zext", "trunc"): return False
            return all(tree(p, u, v, bk, leaves, n + 1) for u, v in zip(i.ops, j.ops))
        for i in phis:
            lv = {}; e = inc[i.id].get(prev); bks = [k2 for k2 in inc[i.id] if k2 != prev and b in fn.dom(k2)] if hasattr(fn, "dom") else [k2 for k2 in inc[i.id] if k2 != prev and k2 in fn.loops()[b]]
            if isinstance(e, int) and bks and all(tree(i.id, e, inc[i.id][k2], k2, lv) for k2 in bks) and lv: out[i.id] = (e, lv)
        self.memo[k] = out
        return out
    def arithmetic(self, g, seen=()):
        f = self.mod.functions.get(g)
        if f is None or g in seen: return False
        return all(i.op not in ("load", "store", "alloca", "invoke", "phi") and (i.op != "call" or i.d.get("intr") or self.arithmetic(i.d.get("fn"), seen + (g,))) for i in f.insts())
    def rederive(self, fn, fr, st, phi, e, leaves, depth):
        """states in which the derived value is computed from the loop-carried ones"""
        self.n += 1; f2 = self.n; order = []
        def topo(x):
            if isinstance(x, list): x = tuple(x)
            if x in leaves: st.val[(f2, x)] = st.val[(fr, leaves[x])]; return
            if not isinstance(x, int):
                if x and x[0] == "a": st.val[(f2, x)] = self.ev(st, fr, x)
                return
            if x in order: return
            for o in fn.inst[x].ops: topo(o)
            order.append(x)
        topo(e); states = [st]
        for x in order:
            nxt = []
            for s in states:
                for s2, kind, v in self.step(fn, f2, fn.inst[x], s, depth):
                    if kind != "throw": s2.val[(f2, x)] = v; nxt.append(s2)
            states = nxt
        for s in states: s.val[(fr, phi)] = s.val[(f2, e)]
        return states
    def back(self, fn, fr, st, head, prev):
        bad = False
        for i in fn.blocks[head].insts:
            if i.op != "phi": break
            v = next((self.ev(st, fr, x) for blk, x in i.d["in"] if blk == prev), None)
            for k, f in enumerate(self.assumed.get((fr, i.id), ())):
                if f is None: continue
                if isinstance(f, tuple) and f[0] == "same": good = v == f[1]
                else:
                    q = v if isinstance(v, P) else v.r[2] if isinstance(v, Ptr) and v.r[0] == "elem" else None
                    good = q is not None and st.entails(f(q))
                if not good: self.noassume.add((fn.name, i.id, k)); bad = True
        for p, c, ini, S, c0, k in self.stepof.get((fr, head), ()):
            v, n = (next((self.ev(st, fr, x) for i in fn.blocks[head].insts if i.id == q for blk, x in i.d["in"] if blk == prev), None) for q in (p, c))
            n = n if isinstance(n, P) else n.r[2] if isinstance(n, Ptr) and n.r[0] == "elem" else None; good = n is not None and type(v) is type(ini)
            if good:
                d = (v.off - ini.off if isinstance(v, Ptr) else v - ini) - S * (n - c0) * k; good = (not isinstance(v, Ptr) or v.r == ini.r) and (d == cst(0) or st.entails(d) and st.entails(-d))
            if not good: self.noassume.add((fn.name, p, "step")); bad = True
        if bad: raise Restart()
        self.c.back(self, fn, fr, st, head, prev)
    def templates(self, st, ini):
        """candidate invariants of a loop-carried value, in a fixed order"""
        t = [lambda v: v - ini, lambda v: ini - v, lambda v: v - 1, lambda v: v - 2]
        for r in sorted(st.size, key=show):
            n = st.size[r]; t.append(lambda v, n=n: n - v - 1); t.append(lambda v, n=n: n - v)
        return t + self.c.templates(st, ini)
    def invariants(self, fn, fr, st, i, ini, v):
        f = []; more = []
        for j in fn.insts():
            if j.op == "icmp" and any(o == i.id for o in j.ops):
                for o in j.ops:
                    if isinstance(o, list): o = tuple(o)
                    if o == i.id or isinstance(o, int) and (fr, o) not in st.val: continue
                    e = self.ev(st, fr, o)
                    if isinstance(e, P) and e.const() is None and not (isinstance(o, int) and fn.inst[o].op == "phi"): more.append(lambda v, e=e: e - v)
        for k, t in enumerate(self.templates(st, ini) + more):
            if (fn.name, i.id, k) in self.noassume or not st.entails(t(ini)): f.append(None)
            else: f.append(t)
        for t in f:
            if t is not None: st.add(t(v))
        self.assumed[(fr, i.id)] = f
    def havoc_phi(self, fn, fr, st, i, ini, body):
        """a loop-carried value: bounded below (above) by its start where it only grows (shrinks)"""
        if isinstance(ini, Ptr):
            st.val.pop((fr, i.id), None)
            if (fn.name, i.id, 0) not in self.noassume: self.assumed[(fr, i.id)] = [("same", ini)]; return ini
            if ini.r[0] == "elem":
                v = atom(self.new("it")); self.invariants(fn, fr, st, i, ini.r[2], v); self.assumed[(fr, i.id)][0] = None; return Ptr(("elem", ini.r[1], v), 0)
            if any(isinstance(self.resolve(fn, fr, st, x), Ptr) and self.resolve(fn, fr, st, x).r != ini.r for blk, x in i.d["in"] if blk in body): return U(self.new("phi"))
            self.assumed.pop((fr, i.id), None)
            return Ptr(ini.r, atom(self.new("off")))
        if isinstance(ini, U) or isinstance(ini, tuple) or i.ty in ("ptr",) or i.ty.startswith("{"): return U(self.new("phi"))
        if i.ty == "i1": return U(self.new("phi"))
        v = atom(self.new(f"i{i.id}")); st.add(v, cst(W - 1) - v)
        self.invariants(fn, fr, st, i, ini, v)
        return v
    def havoc(self, fn, fr, st, body):
        anystore = set(); calls = False; conts = False
        for b in body:
            for i in fn.blocks[b].insts:
                if i.op == "store": anystore.add(i)
                if i.op in ("call", "invoke") and not i.d.get("intr"):
                    calls = True
        if anystore or calls:
            for k in list(st.mem):
                if k[0][0] == "loc" and not calls and not any(isinstance(s.ops[1], int) and st.val.get((fr, s.ops[1])) is not None and isinstance(st.val[(fr, s.ops[1])], Ptr) and st.val[(fr, s.ops[1])].r == k[0] for s in anystore) : continue
                if self.keeps(fn, fr, st, body, k): continue
                self.kill(st, k)
        if calls:
            for k in list(st.size):
                if self.keeps_size(fn, fr, st, body, k): continue
                del st.size[k]
    def keeps(self, fn, fr, st, body, k):
        """cell k is not written in the loop (no call into the library's own code, and no store that could be to it)"""
        for b in body:
            for i in fn.blocks[b].insts:
                if i.op == "store":
                    p = st.val.get((fr, i.ops[1])) if isinstance(i.ops[1], int) else self.ev(st, fr, i.ops[1])
                    q = self.resolve(fn, fr, st, i.ops[1])
                    if q is None: 
                        if k[0][0] == "loc": continue
                        if k[0][0] in ("obj",) and self.outside(fn, fr, st, i.ops[1], body): continue
                        return False
                    if q.r == k[0] and (q.off.const() is None or q.off.const() == k[1]): return False
                elif i.op in ("call", "invoke") and not i.d.get("intr"):
                    n = fn.callee(i)
                    if not n.startswith("std::") and i.d.get("fn") in self.mod.functions:
                        ps = self.stored(i.d["fn"])
                        if ps is None: return False
                        for j in ps:
                            q = self.resolve(fn, fr, st, i.ops[j]) if j < len(i.ops) else None
                            if q is None or q.r == k[0]: return False
                        continue
                    if not n.startswith("std::") and not n.startswith("operator") and not n.startswith("__"): return False
                    for o in i.ops:
                        q = self.resolve(fn, fr, st, o)
                        if q is not None and q.r == k[0] and (q.off.const() == k[1] or k[0][0] == "loc"): return False
        return True
    def keeper(self, g, seen=()):
        """the function, with everything it calls, changes the size of no container"""
        if g in seen: return True
        k = ("keeper", g)
        if k not in self.memo:
            f = self.mod.functions.get(g); r = True
            for i in f.insts():
                if i.op in ("call", "invoke") and not i.d.get("intr"):
                    n = f.callee(i)
                    if not n: r = False
                    elif n.startswith("std::"):
                        if n.split("::")[-1] not in CONST and any(c in n for c in ("vector", "deque", "map", "set", "swap", "list")): r = False
                    elif i.d.get("fn") in self.mod.functions: r = r and self.keeper(i.d["fn"], seen + (g,))
            self.memo[k] = r
        return self.memo[k]
    def pure(self, g): return self.stored(g) == frozenset()
    def stored(self, g, seen=()):
        """the function, with everything it calls, stores only to its own variables and through these parameters; None: it may store anywhere"""
        if g in seen: return frozenset()
        k = ("stored", g)
        if k not in self.memo:
            f = self.mod.functions.get(g); r = frozenset() if self.keeper(g) else None
            def root(o):
                while isinstance(o, (int, list)) and (isinstance(o, list) or f.inst[o].op in ("getelementptr", "bitcast")):
                    if isinstance(o, list): o = tuple(o); break
                    o = f.inst[o].d.get("base", f.inst[o].ops[0] if f.inst[o].ops else None)
                return tuple(o) if isinstance(o, list) else o
            def through(r, o):
                o = root(o)
                if r is None or isinstance(o, int) and f.inst[o].op == "alloca": return r
                return r | {o[1]} if isinstance(o, tuple) and o and o[0] == "a" else None
            for i in f.insts():
                if i.op == "store": r = through(r, i.ops[1])
                elif i.op in ("call", "invoke"):
                    n = f.callee(i)
                    if n.startswith("llvm.mem"): r = None
                    elif i.d.get("intr") or n.startswith(("std::", "operator delete", "operator new")): pass
                    elif i.d.get("fn") in self.mod.functions:
                        s = self.stored(i.d["fn"], seen + (g,))
                        if s is None: r = None
                        else:
                            for j in s: r = through(r, i.ops[j]) if j < len(i.ops) else None
                    else: r = None
            self.memo[k] = r
        return self.memo[k]
    def outside(self, fn, fr, st, o, body):
        """the pointer is derived from a container element, so cannot be a field of an object"""
        for _ in range(20):
            if not isinstance(o, int): return False
            i = fn.inst[o]
            if i.op == "getelementptr": o = i.d.get("base", i.ops[0] if i.ops else None); o = tuple(o) if isinstance(o, list) else o; continue
            if i.op in ("call", "invoke"):
                n = fn.callee(i); return n.startswith("std::") and n.split("::")[-1] in ("operator[]", "at", "back", "front", "operator*", "operator->")
            return False
        return False
    def keeps_size(self, fn, fr, st, body, r):
        for b in body:
            for i in fn.blocks[b].insts:
                if i.op in ("call", "invoke") and not i.d.get("intr"):
                    n = fn.callee(i); last = n.split("::")[-1]
                    if not n.startswith("std::"):
                        if i.d.get("fn") in self.mod.functions and not self.keeper(i.d["fn"]): return False
                        continue
                    if last in CONST: continue
                    for o in i.ops:
                        q = self.resolve(fn, fr, st, o)
                        if q is None:
                            if i.d.get("fn") and isinstance(o, int) and fn.inst[o].ty == "ptr" and not self.outside(fn, fr, st, o, body) and fn.inst[o].op == "load": return False
                            continue
                        if q == r_ptr(r): return False
        return True
    def resolve(self, fn, fr, st, o, n=0):
        """the pointer an operand stands for, computed from the state (instructions inside the loop included)"""
        if isinstance(o, list): o = tuple(o)
        if not isinstance(o, int):
            v = self.ev(st, fr, o); return v if isinstance(v, Ptr) else None
        i = fn.inst[o]
        if i.op == "getelementptr" and not i.d.get("var") and n < 20:
            b = i.d.get("base"); b = tuple(b) if isinstance(b, list) else b
            p = self.resolve(fn, fr, st, b, n + 1)
            return Ptr(p.r, p.off + i.d["off"]) if p is not None else None
        v = st.val.get((fr, o))
        return v if isinstance(v, Ptr) else None
    # ---- instructions ----
    def arith(self, st, op, a, b, bits):
        """[(state, value)]"""
        M = 1 << bits
        if op == "sub":
            if st.entails(a - b): return [(st, a - b)]
            if st.entails(b - a - 1): return [(st, a - b + M)]
            s2 = st.fork(); st.add(a - b); s2.add(b - a - 1)
            return [(st, a - b), (s2, a - b + M)]
        if op == "add":
            for x, y in ((a, b), (b, a)):
                k = y.const()
                if k is not None and k >= M // 2 and x.const() is None: return self.arith(st, "sub", x, cst(M - k), bits)
            if st.entails(cst(M - 1) - a - b): return [(st, a + b)]
            if st.entails(a + b - M): return [(st, a + b - M)]
            s2 = st.fork(); st.add(cst(M - 1) - a - b); s2.add(a + b - M)
            return [(st, a + b), (s2, a + b - M)]
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                t = st.ali.get(next(iter(x.atoms()), None)) if len(x.d) == 1 and x == atom(next(iter(x.atoms()), "")) else None
                if t and t[0] == "quot" and y == atom(t[2]): return [(st, self.round_(st, t[1], t[2], y))]
            p = a * b
            if st.entails(cst(M - 1) - p): return [(st, p)]
            if a.const() is not None or b.const() is not None:
                s2 = st.fork(); st.add(cst(M - 1) - p); s2.add(p - M); n = atom(self.new("ovf")); s2.add(n, cst(M - 1) - n)
                return [(st, p), (s2, n)]
            s2 = st.fork(); st.add(cst(M - 1) - p); s2.add(p - M); n = atom(self.new("ovf")); s2.add(n, cst(M - 1) - n)
            return [(st, p), (s2, n)]
        if op in ("udiv", "urem"):
            k = b.const()
            if a.const() is not None and k: return [(st, cst(a.const() // k if op == "udiv" else a.const() % k))]
            if k == 1: return [(st, a if op == "udiv" else cst(0))]
            if k:
                whole = P({m: v // k for m, v in a.d.items() if v % k == 0}); rest = P({m: v for m, v in a.d.items() if v % k})
                if rest.const() is not None and 0 <= rest.const() < k and st.entails(whole): return [(st, whole if op == "udiv" else rest)]
            for al, e in self.powers(st):
                if b == e and op == "udiv":
                    q = atom(f"({a!r})/({b!r})"); st.ali[next(iter(q.atoms()))] = ("quot", a, al); st.add(q, a - q * b, q * b + b - 1 - a); return [(st, q)]
                if b == e:
                    return [(st, self.mod_(st, a, al, e))]
            q = atom(f"({a!r})/({b!r})")
            st.add(q, a - q * b, q * b + b - 1 - a)
            if b.const() is None and st.entails(a - b): st.add(q - 1)
            return [(st, q if op == "udiv" else a - q * b)]
        if op in ("umin", "umax"):
            x = st.fork(); x.add(b - a); y = st; y.add(a - b - 1)
            r = []
            if x.possible(): r.append((x, a if op == "umin" else b))
            if y.possible(): r.append((y, b if op == "umin" else a))
            return r
        if op == "shl" and b.const() is not None: return self.arith(st, "mul", a, cst(1 << b.const()), bits)
        if op == "lshr" and b.const() is not None: return self.arith(st, "udiv", a, cst(1 << b.const()), bits)
        if op == "xor" and b.const() == M - 1: return [(st, cst(M - 1) - a)]
        if op == "xor" and a.const() == M - 1: return [(st, cst(M - 1) - b)]
        if op == "and":
            for x, m in ((a, b), (b, a)):
                for al, e in self.powers(st):
                    if m == e - 1: return [(st, self.mod_(st, x, al, e))]
                    if m == cst(M) - e: return [(st, self.round_(st, x, al, e))]
                k = m.const()
                if k is not None and k & (k + 1) == 0: return [(st, self.mod_(st, x, k + 1, cst(k + 1)))]
                if k is not None and (M - k) & (M - k - 1) == 0: return [(st, x - self.mod_(st, x, M - k, cst(M - k)))]
            r = atom(self.new("and")); st.add(r, a - r, b - r); return [(st, r)]
        if op == "or":
            r = atom(self.new("or")); st.add(r - a, r - b, a + b - r); return [(st, r)]
        r = atom(self.new(op)); st.add(r, cst(M - 1) - r); return [(st, r)]
    def powers(self, st):
        return [(k[1], atom(k[1])) for k in st.ali if isinstance(k, tuple) and k[0] == "pow"]
    def mod_(self, st, x, al, e):
        if st.entails(e - 1 - x): return x
        if st.divisible(x, al): return cst(0)
        r = P({k: v for k, v in x.d.items() if not st.divisible(P({k: v}), al)})
        if r != x:
            for t in (r, r + e):
                if st.entails(t) and st.entails(e - 1 - t): return t
        n = f"({x!r})mod({al})"; st.ali[n] = ("mod", x, al); m = atom(n)
        st.add(m, e - 1 - m, x - m); return m
    def round_(self, st, x, al, e):
        d = x - self.mod_(st, x, al, e)
        if len(d.d) < 3: return d
        n = f"({x!r})round({al})"; v = atom(n); st.add(v - d, d - v); k = ("mult", n); st.ali[k] = tuple(sorted(set(st.ali.get(k, ())) | {al}, key=str)); return v
    def step(self, fn, fr, i, st, depth):
        """[(state, 'ok'|'throw', value)]"""
        op = i.op
        V = lambda o: self.ev(st, fr, o)
        def ok(v): return [(st, "ok", v)]
        if op == "alloca": return ok(Ptr(("loc", fr, i.id)))
        if op == "getelementptr":
            b = i.d.get("base", i.ops[0] if i.ops else None); p = V(b)
            off = cst(i.d.get("off") or 0)
            for v, k in i.d.get("var", []):
                x = self.num(st, V(v))
                if x is None: return ok(U(self.new("gep")))
                if not st.entails(cst(W // 2 - 1) - x) and x.const() is not None: x = x - W
                off = off + x * k
            if isinstance(p, Ptr):
                e = self.elemsize(st, p.r[1]) if p.r[0] == "elem" else None
                if e and p.off == cst(0) and all(v % e == 0 for v in off.d.values()): return ok(Ptr(("elem", p.r[1], p.r[2] + P({k: v // e for k, v in off.d.items()}))))
                return ok(Ptr(p.r, p.off + off))
            if isinstance(p, U): return ok(Ptr(("ext", p.n), off))
            if isinstance(p, P):
                if p.const() == 0: return ok(off) if off.const() == 0 else ok(U(self.new("gep")))
                return ok(p + off)
            return ok(U(self.new("gep")))
        if op in ("bitcast", "freeze", "addrspacecast"): return ok(V(i.ops[0]))
        if op == "ptrtoint":
            v = V(i.ops[0]); n = self.num(st, v); return ok(n if n is not None else U(self.new("p2i")))
        if op == "inttoptr": return ok(V(i.ops[0]))
        if op in ("zext", "sext"):
            v = V(i.ops[0]); return ok(v)
        if op == "trunc":
            v = V(i.ops[0]); bits = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
            if isinstance(v, (tuple, U)): return ok(v)
            v = self.num(st, v)
            if v is None: return ok(U(self.new("trunc")))
            if st.entails(cst((1 << bits) - 1) - v): return ok(v)
            return ok(self.mod_(st, v, 1 << bits, cst(1 << bits)))
        if op == "load":
            return ok(self.load(st, V(i.ops[0]), i.ty))
        if op == "store":
            p, v = V(i.ops[1]), V(i.ops[0]); self.c.store(self, st, i, p, v); self.put(st, p, v); return [(st, "ok", None)]
        if op == "icmp":
            a, b = V(i.ops[0]), V(i.ops[1])
            return ok(("cmp", i.d["pred"], a, b))
        if op == "select":
            c, a, b = V(i.ops[0]), V(i.ops[1]), V(i.ops[2]); r = []
            if a == b: return ok(a)
            for tr, v in ((True, a), (False, b)):
                for s in self.assume(st.fork(), c, tr): r.append((s, "ok", v))
            return r
        if op in ("and", "or", "xor") and i.ty == "i1":
            a, b = V(i.ops[0]), V(i.ops[1])
            if op == "xor":
                for x, y in ((a, b), (b, a)):
                    if isinstance(y, P) and y.const() == 1: return ok(("not", x))
                return ok(U(self.new("xor")))
            return ok((op, a, b))
        if op in ("add", "sub", "mul", "udiv", "urem", "shl", "lshr", "and", "or", "xor"):
            a, b = V(i.ops[0]), V(i.ops[1])
            a2, b2 = self.num(st, self.boolnum(a)), self.num(st, self.boolnum(b))
            if a2 is None or b2 is None: return ok(U(self.new(op)))
            if isinstance(a, U): st.add(cst(W - 1) - a2)
            if isinstance(b, U): st.add(cst(W - 1) - b2)
            bits = int(i.ty[1:]) if i.ty[1:].isdigit() else 64
            if op in ("udiv", "urem"):
                self.c.divide(self, st, i, b2)
                if b2.const() == 0: return []
                st.add(b2 - 1)
            return [(s, "ok", v) for s, v in self.arith(st, op, a2, b2, bits)]
        if op in ("sdiv", "ashr"):
            a, b = self.num(st, V(i.ops[0])), self.num(st, V(i.ops[1]))
            if a is not None and b is not None and b.const() is not None and st.entails(cst(W // 2 - 1) - a):
                return [(s, "ok", v) for s, v in self.arith(st, "udiv", a, cst(b.const() if op == "sdiv" else 1 << b.const()), 64)]
            return ok(U(self.new(op)))
        if op in ("call", "invoke"): return self.docall(fn, fr, i, st, depth)
        if op in ("landingpad", "extractvalue", "insertvalue"): return ok(U(self.new(op)))
        return ok(U(self.new(op)))
    def boolnum(self, v): return U("bool" + repr(v)) if isinstance(v, tuple) else v
    def elemsize(self, st, r): return st.x.get(("esz", r))
    def load(self, st, p, ty):
        if isinstance(p, Ptr) and p.off.const() is not None:
            k = (p.r, p.off.const())
            if k not in st.mem:
                n = f"{show(p.r)}.{k[1]}"
                if n in self.cnt and self.cnt.get(("cell", k)) is None or st.x.get(("dead", k)): n = self.new(n)
                if ty == "i1" or ty == "i8": v = U(n)
                elif ty == "ptr": v = Ptr(("ext", n)) 
                elif ty.startswith("i"): v = atom(n); st.add(v, cst((1 << int(ty[1:])) - 1) - v)
                else: v = U(n)
                st.mem[k] = v; self.c.fresh(st, p.r, k[1], v)
                v = st.mem[k]
            return st.mem[k]
        return U(self.new("load"))
    def put(self, st, p, v):
        if isinstance(p, Ptr):
            r = p.r
            if r[0] == "elem":
                for k in [k for k in st.mem if k[0][0] == "elem" and k[0][1] == r[1] and k[0] != r]: self.kill(st, k)
            if p.off.const() is not None: st.mem[(r, p.off.const())] = v
            else:
                for k in [k for k in st.mem if k[0] == r]: self.kill(st, k)
    def token(self, st, p):
        """the identity of the object value a pointer leads to"""
        k = (p.r, "obj")
        if k not in st.mem: st.mem[k] = ("value", self.new("of" + show(p.r)) if st.x.get(("dead", k)) else show(p.r))
        return st.mem[k]
    def kill(self, st, k): st.mem.pop(k, None); st.x[("dead", k)] = True
    # ---- containers ----
    def sizeof(self, st, r):
        if r not in st.size:
            v = atom(self.new(f"size{show(r)}")); st.size[r] = v; self.c.newsize(st, r, v)
        return st.size[r]
    def docall(self, fn, fr, i, st, depth):
        name = fn.callee(i); last = name.split("::")[-1]
        args = [self.ev(st, fr, o) for o in i.ops]
        def ok(v=None): return [(st, "ok", v)]
        r = self.c.call(self, st, fn, i, name, args)
        if r is not None: return r
        if name.startswith("llvm."):
            if last.startswith("llvm.expect") : return ok(args[0])
            m = re.match(r"llvm\.(umin|umax)", name)
            if m: return [(s, "ok", v) for s, v in self.arith(st, m[1], self.num(st, args[0]), self.num(st, args[1]), 64)]
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                d, s = args[0], args[1]
                if isinstance(d, Ptr) and isinstance(s, Ptr):
                    t = self.token(st, s); self.c.copy(self, st, i, d, s, args[2])
                    if d.r[0] == "elem":
                        for k in [k for k in st.mem if k[0][0] == "elem" and k[0][1] == d.r[1] and k[0] != d.r]:
                            if not (k[1] == "obj" and (st.entails(k[0][2] - d.r[2] - 1) or st.entails(d.r[2] - k[0][2] - 1))): self.kill(st, k)
                if isinstance(d, Ptr) and isinstance(s, Ptr) and d.off.const() is not None and s.off.const() is not None and isinstance(args[2], P) and args[2].const() is not None:
                    n = args[2].const(); src = {k[1]: v for k, v in st.mem.items() if k[0] == s.r and k[1] != "obj" and s.off.const() <= k[1] < s.off.const() + n}
                    for k in [k for k in st.mem if k[0] == d.r and (k[1] == "obj" or d.off.const() <= k[1] < d.off.const() + n)]: self.kill(st, k)
                    for o, v in src.items(): st.mem[(d.r, o - s.off.const() + d.off.const())] = v
                    st.mem[(d.r, "obj")] = t
                elif isinstance(d, Ptr):
                    for k in [k for k in st.mem if k[0] == d.r]: self.kill(st, k)
            elif name.startswith("llvm.memset"):
                d = args[0]
                if isinstance(d, Ptr):
                    for k in [k for k in st.mem if k[0] == d.r]: self.kill(st, k)
            return ok(U(self.new("llvm")) if i.ty != "void" else None)
        g = self.mod.functions.get(i.d.get("fn")) if i.d.get("fn") else None
        if g is not None and not name.startswith("std::"):
            return [(s, "ok" if k == "ret" else "throw", v if k == "ret" else None) for s, k, v in self.run(g, args, st, depth + 1)]
        parts = name.split("::"); cls = parts[-2] if len(parts) > 1 else ""
        if cls == "_Vector_base": cls = "vector"
        thr = [] if i.d.get("nounwind") else [(st.fork(), "throw", None)]
        if cls == "vector" or (cls in ("deque",)):
            a0 = args[0]
            if i.d.get("sret"): a0 = args[1]
            if isinstance(a0, Ptr):
                r = (a0.r, a0.off); rest = args[2:] if i.d.get("sret") else args[1:]
                out = self.vector(st, i, last, cls, r, rest, name)
                if out is not None: return out + (thr if last in THROWS else [])
        if cls in ("__normal_iterator", "_Bit_iterator", "_Bit_const_iterator") and last in ("operator+", "operator-", "operator*", "operator->", "operator++", "operator--") or last in ("next", "prev") and parts[0] == "std":
            p = args[0]
            if isinstance(p, Ptr) and p.r[0] == "loc": q = st.mem.get((p.r, 0))
            else: q = p
            if isinstance(q, Ptr) and q.r[0] == "elem":
                if last in ("operator*", "operator->"): self.c.access(self, st, i, q.r[1], q.r[2], "*iterator"); return ok(q)
                if last in ("operator++", "operator--"):
                    st.mem[(p.r, 0)] = Ptr(("elem", q.r[1], q.r[2] + (1 if last == "operator++" else -1))); return ok(p)
                k = self.num(st, args[1]) if len(args) > 1 else cst(1)
                if k is not None:
                    if k.const() is not None and k.const() > W // 2: k = k - W
                    n = q.r[2] + k if last in ("operator+", "next") else q.r[2] - k
                    return ok(Ptr(("elem", q.r[1], n)))
        if cls == "numeric_limits" and last in ("max", "min"):
            b = {"unsigned long": 64, "unsigned int": 32, "unsigned short": 16, "unsigned char": 8, "unsigned long long": 64, "long": 63, "int": 31}.get(re.search(r"numeric_limits<([^<>]*)>", self.mod.dem(i.d["fn"]))[1])
            if b: return ok(cst((1 << b) - 1 if last == "max" else 0))
        if last in ("move", "forward", "addressof", "__addressof", "as_const"): return ok(args[0])
        if last in ("min", "max") and len(args) == 2 and parts[0] == "std":
            x, y = self.load(st, args[0], "i64") if isinstance(args[0], Ptr) else None, self.load(st, args[1], "i64") if isinstance(args[1], Ptr) else None
            if isinstance(x, P) and isinstance(y, P):
                out = []
                for s, v in self.arith(st, "u" + last, x, y, 64): out.append((s, "ok", args[0] if v == x else args[1]))
                return out
        if last == "terminate": return []
        # anything else: forget what its pointer arguments lead to
        for a in args:
            if isinstance(a, Ptr) and a.r[0] == "loc":
                for k in [k for k in st.mem if k[0] == a.r]: self.kill(st, k)
        v = None
        if i.ty != "void":
            n = self.new(last or "call")
            v = Ptr(("ext", n)) if i.ty == "ptr" else U(n) if i.ty == "i1" or not i.ty.startswith("i") else atom(n)
            if isinstance(v, P): st.add(v, cst(W - 1) - v)
        return [(st, "ok", v)] + thr
    def vector(self, st, i, last, cls, r, a, name):
        def ok(v=None): return [(st, "ok", v)]
        n = self.sizeof
        def drop():
            for k in [k for k in st.mem if k[0][0] == "elem" and k[0][1] == r]: self.kill(st, k)
        if last == cls:
            if a and isinstance(a[0], Ptr) and ((a[0].r, a[0].off) in st.size or "&&" in self.mod.dem(i.d["fn"]) or "vector const&" in name) and a[0].r[0] != "loc" or (a and isinstance(a[0], Ptr) and (a[0].r, a[0].off) in st.size):
                o = (a[0].r, a[0].off); st.size[r] = n(st, o)
                if "&&" in self.mod.dem(i.d["fn"]).split("::" + cls + "(")[-1].split(",")[0]: st.size[o] = cst(0)
            elif a and self.mod.dem(i.d["fn"]).split("::" + cls + "(")[-1].startswith("unsigned long"): st.size[r] = self.num(st, a[0])
            elif len(a) >= 2 and isinstance(a[0], Ptr) and a[0].r[0] == "elem": st.size.pop(r, None)
            else: st.size[r] = cst(0)
            return ok()
        if last == "~" + cls: st.size.pop(r, None); return ok()
        if last == "size": return ok(n(st, r))
        if last == "empty": return ok(("cmp", "eq", n(st, r), cst(0)))
        if last in ("capacity", "max_size"):
            v = atom(self.new(last)); st.add(v - n(st, r), cst(1 << 62) - v); return ok(v)
        if last in ("operator[]", "at"):
            k = self.num(st, a[0])
            if k is None: k = atom(self.new("idx"))
            if last == "operator[]": self.c.access(self, st, i, r, k, last)
            elif st.possible_with(n(st, r) - k - 1): st.add(n(st, r) - k - 1)
            return ok(Ptr(("elem", r, k)))
        if last in ("back", "front"):
            k = n(st, r) - 1 if last == "back" else cst(0)
            self.c.access(self, st, i, r, k, last); return ok(Ptr(("elem", r, k)))
        if last == "data": return ok(Ptr(("elem", r, cst(0))))
        if last in ("begin", "cbegin"): return ok(Ptr(("elem", r, cst(0)))) if i.ty == "ptr" else ok()
        if last in ("end", "cend"): return ok(Ptr(("elem", r, n(st, r)))) if i.ty == "ptr" else ok()
        if last in ("push_back", "emplace_back"):
            k = n(st, r); self.c.access(self, st, i, r, k, last + "+")
            st.size[r] = k + 1; e = Ptr(("elem", r, k)); drop_k(self, st, ("elem", r, k)); return ok(e if i.ty == "ptr" else None)
        if last in ("pop_back", "pop_front"):
            self.c.access(self, st, i, r, n(st, r) - 1 if last == "pop_back" else cst(0), last); st.size[r] = n(st, r) - 1; return ok()
        if last == "clear": st.size[r] = cst(0); drop(); return ok()
        if last == "resize": st.size[r] = self.num(st, a[0]); st.add(cst(1 << 56) - st.size[r]); return ok() if st.possible() else []
        if last == "assign": st.size.pop(r, None); drop(); return ok()
        if last in ("reserve", "shrink_to_fit", "get_allocator", "_M_get_Tp_allocator"): return ok(U(self.new(last)) if i.ty != "void" else None)
        if last == "swap" and a and isinstance(a[0], Ptr):
            o = (a[0].r, a[0].off); x, y = n(st, r), n(st, o); st.size[r], st.size[o] = y, x; drop(); return ok()
        if last == "operator=":
            if a and isinstance(a[0], Ptr):
                o = (a[0].r, a[0].off); st.size[r] = n(st, o); drop()
                if "&&" in self.mod.dem(i.d["fn"]) and o != r: st.size[o] = cst(0)
            else: st.size.pop(r, None); drop()
            return ok(Ptr(r[0], r[1]))
        if last == "erase":
            old = n(st, r); drop()
            if len(a) == 1:
                if isinstance(a[0], Ptr) and a[0].r[0] == "elem": self.c.range(self, st, i, r, a[0].r[2], a[0].r[2] + 1, old)
                st.size[r] = old - 1
            elif isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].r[0] == a[1].r[0] == "elem": self.c.range(self, st, i, r, a[0].r[2], a[1].r[2], old); st.size[r] = old - (a[1].r[2] - a[0].r[2])
            else:
                st.size.pop(r, None); st.add(old - n(st, r))
            return ok(a[0] if i.ty == "ptr" else None)
        if last == "insert":
            old = n(st, r); drop()
            if len(a) == 2: st.size[r] = old + 1
            elif len(a) == 3 and all(isinstance(x, Ptr) and x.r[0] == "elem" for x in a[1:]) and a[1].r[1] == a[2].r[1]: st.size[r] = old + a[2].r[2] - a[1].r[2]
            else: st.size.pop(r, None); st.add(n(st, r) - old)
            return ok(a[0] if i.ty == "ptr" else None)
        return None
def drop_k(num, st, r):
    for k in [k for k in st.mem if k[0] == r]: num.kill(st, k)
def r_ptr(r): return Ptr(r[0], r[1])
def show(r):
    if isinstance(r, tuple): return "[" + ",".join(show(x) for x in r) + "]"
    return str(r)
CONST = {"size", "empty", "capacity", "max_size", "operator[]", "at", "back", "front", "data", "begin", "end", "cbegin", "cend", "rbegin", "rend", "get_allocator", "reserve", "shrink_to_fit", "operator*", "operator->", "operator++", "operator--", "operator+", "operator-", "min", "max", "move", "forward", "lower_bound", "upper_bound", "find", "next", "prev", "operator!=", "operator==", "operator()", "base", "operator bool"}
THROWS = {"push_back", "emplace_back", "resize", "reserve", "insert", "assign", "emplace", "operator=", "vector", "deque", "shrink_to_fit"}
