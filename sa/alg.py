"""Algebraic value numbering of loop-free code: every integer becomes a polynomial over what is read, guarded by boolean functions of the comparisons made; both have one normal form, so that
differently written code for the same function compares equal. No path is ever executed: joins are merged as soon as they are met."""
from common import CheckError
from ir import *

# ---------------------------------------------------------------- boolean functions (reduced ordered decision diagrams)
class Bdd:
    def __init__(self):
        self.vars = {}; self.names = []; self.uniq = {}; self.memo = {}
        self.F, self.T = 0, 1; self.nodes = [None, None]
    def var(self, name):
        if name not in self.vars: self.vars[name] = len(self.names); self.names.append(name)
        return self.mk(self.vars[name], 0, 1)
    def mk(self, v, lo, hi):
        if lo == hi: return lo
        k = (v, lo, hi)
        if k not in self.uniq: self.uniq[k] = len(self.nodes); self.nodes.append(k)
        return self.uniq[k]
    def ite(self, c, a, b):
        if c == 1: return a
        if c == 0: return b
        if a == b: return a
        if a == 1 and b == 0: return c
        k = (c, a, b); r = self.memo.get(k)
        if r is None:
            v = min(self.nodes[x][0] for x in k if x > 1)
            f = lambda x, s: self.nodes[x][1 + s] if x > 1 and self.nodes[x][0] == v else x
            r = self.memo[k] = self.mk(v, self.ite(f(c, 0), f(a, 0), f(b, 0)), self.ite(f(c, 1), f(a, 1), f(b, 1)))
        return r
    def nt(self, a): return self.ite(a, 0, 1)
    def an(self, a, b): return self.ite(a, b, 0)
    def orr(self, a, b): return self.ite(a, 1, b)
    def all(self, xs):
        r = 1
        for x in xs: r = self.an(r, x)
        return r
    def any(self, xs):
        r = 0
        for x in xs: r = self.orr(r, x)
        return r
    def implies(self, a, b): return self.an(a, self.nt(b)) == 0
    def support(self, a):
        out = set(); w = [a]; seen = set()
        while w:
            x = w.pop()
            if x < 2 or x in seen: continue
            seen.add(x); v, l, h = self.nodes[x]; out.add(self.names[v]); w += [l, h]
        return out
    def support(self, a, seen=None):
        """names of the variables a condition depends on"""
        seen = set() if seen is None else seen
        if a < 2 or a in seen: return set()
        seen.add(a); v, l, h = self.nodes[a]
        return {self.names[v]} | self.support(l, seen) | self.support(h, seen)
    def show(self, a, depth=4):
        if a < 2: return str(bool(a))
        v, l, h = self.nodes[a]
        if depth == 0: return "..."
        n = self.names[v]
        if (l, h) == (0, 1): return f"{n}"
        if (l, h) == (1, 0): return f"!{n}"
        if l == 0: return f"{n} & {self.show(h, depth - 1)}"
        if h == 0: return f"!{n} & {self.show(l, depth - 1)}"
        return f"({n} ? {self.show(h, depth - 1)} : {self.show(l, depth - 1)})"

# ---------------------------------------------------------------- polynomials: frozenset of (monomial, coefficient)
def P(d): return frozenset((m, c) for m, c in d.items() if c)
def const(n): return P({(): n})
def atom(a): return P({(a,): 1})
def padd(a, b, k=1):
    d = dict(a)
    for m, c in b: d[m] = d.get(m, 0) + k * c
    return P(d)
_keys = {}
def akey(x):
    if isinstance(x, str): return x
    try: r = _keys.get(x)
    except TypeError: return str(x)
    if r is None: r = _keys[x] = pshow(frozenset({((x,), 1)}))
    return r
def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            x = tuple(sorted(m + n, key=akey)); d[x] = d.get(x, 0) + c * e
    return P(d)
def pconst(a):
    if not a: return 0
    if len(a) == 1:
        (m, c), = a
        if m == (): return c
    return None
def pmono(a):
    """(monomial, coefficient) if there is a single term"""
    return next(iter(a)) if len(a) == 1 else None
def psub(a, f):
    """substitute atoms: f(atom) -> polynomial or None"""
    out = frozenset()
    for m, c in a:
        t = const(c)
        for x in m:
            y = f(x); t = pmul(t, atom(x) if y is None else y)
        out = padd(out, t)
    return out
def pshow(a):
    if not a: return "0"
    def sh(x): return x if isinstance(x, str) else str(x[0]) + "(" + ",".join(pshow(y) if isinstance(y, frozenset) else str(y) for y in x[1:]) + ")" if isinstance(x, tuple) else str(x)
    return " + ".join(sorted(("" if c == 1 and m else f"{c}" + ("*" if m else "")) + "*".join(sorted(sh(x) for x in m)) for m, c in a))
def fneg(p):
    """(x, True) for a floating-point -x"""
    m = pmono(p)
    if m and m[1] == 1 and len(m[0]) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "fneg": return m[0][0][1], True
    return p, False
UP = "~@"       # a byte position within a word of packed fields
def up(m): return m.count(UP)
def signed(c, w):
    c &= (1 << w) - 1
    return c - (1 << w) if c >> (w - 1) else c
def mdiv(m, n):
    """monomial m / n, or None"""
    m = list(m)
    for x in n:
        if x in m: m.remove(x)
        else: return None
    return tuple(m)

class Alg:
    """evaluates a loop-free function
    names(term) may rename an atom or a composite (a polynomial) to something the check talks about; less(A, B, strictly-less / equal) may decide or rename a comparison"""
    def __init__(self, fn, bdd=None, rename=None, compare=None, minw=32, pure=None):
        self.fn = fn; self.B = bdd or Bdd(); self.rename = rename or (lambda a: None); self.compare = compare or (lambda op, a, b, w: None); self.minw = minw; self.pure = pure or (lambda al, i: None)
        if fn.loops(): raise CheckError(f"{fn.base}: not loop-free after unrolling")
        self.cache = {}; self.rc = {fn.entry: 1}; self.slots = {}
        self.topo = self._topo()
    def _topo(self):
        seen = set(); out = []; st = [(self.fn.entry, iter(self.fn.blocks[self.fn.entry].succs))]; seen.add(self.fn.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(self.fn.blocks[s].succs))); break
            else: out.append(n); st.pop()
        return out[::-1]
    # ---- control
    def edge(self, p, b):
        """condition under which the edge p -> b is taken, given that p is reached"""
        t = self.fn.term(p)
        if t.op == "invoke": return 1 if t.d["normal"] == b else 0
        if t.op == "br" and len(t.d["succ"]) == 2 and t.d["succ"][0] != t.d["succ"][1]:
            c = self.boolean(t.ops[0])
            return c if t.d["succ"][0] == b else self.B.nt(c)
        if t.op == "switch":
            v = self.val(t.ops[0]); w = self.width(t.ops[0])
            hit = [self.cmp("eq", v, [(1, const(signed(int(c[0]), w)))], w) for c in t.d["cases"] if c[1] == b]
            r = self.B.any(hit)
            if t.d["default"] == b: r = self.B.orr(r, self.B.nt(self.B.any([self.cmp("eq", v, [(1, const(signed(int(c[0]), w)))], w) for c in t.d["cases"]])))
            return r
        return 1
    def reach(self, b):
        if b not in self.rc:
            for x in self.topo:
                if x not in self.rc: self.rc[x] = self.B.any([self.B.an(self.rc[p], self.edge(p, x)) for p in self.fn.blocks[x].preds])
                if x == b: break
        return self.rc[b]
    # ---- values
    def width(self, v):
        if isinstance(v, int): t = self.fn.inst[v].ty
        elif v[0] == "c": return int(v[2]) if len(v) > 2 else 64
        elif v[0] == "a": t = self.fn.d["args"][v[1]]["ty"]
        else: return 64
        return int(t[1:]) if t[0] == "i" and t[1:].isdigit() else 64
    def boolean(self, v):
        r = 0
        for g, p in self.val(v):
            c = pconst(p)
            if c is None: x = self.bit(p)
            else: x = 1 if c & 1 else 0
            r = self.B.orr(r, self.B.an(g, x))
        return r
    def bit(self, p):
        m = pmono(p)
        if m and len(m[0]) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "B": return m[0][0][1]
        r = self.compare("bit", p, None, 1)
        if r is not None: return r(self.B) if callable(r) else r
        return self.B.var(("bit", pshow(p)))
    def of_bool(self, b):
        """a boolean function as a guarded 0/1"""
        if b in (0, 1): return [(1, const(b))]
        return [(b, const(1)), (self.B.nt(b), const(0))]
    def norm(self, gs):
        """merge alternatives with the same value"""
        d = {}
        for g, p in gs:
            if g: d[p] = self.B.orr(d.get(p, 0), g)
        return [(g, p) for p, g in d.items()]
    def canon(self, d):
        """one of d and -d, and whether it is d"""
        n = P({m: -c for m, c in d})
        return (d, 1) if pshow(d) <= pshow(n) else (n, -1)
    signs = False; positive = atleast = ()        # in the mode for differences: atoms known to be positive, to be at least zero
    def sgn(self, p):
        """the sign of a value, where it is certain"""
        if not p: return 0
        if all(x in self.positive or x in self.atleast for m, c in p for x in m) and any(all(x in self.positive for x in m) for m, c in p):
            if all(c > 0 for m, c in p): return 1
            if all(c < 0 for m, c in p): return -1
    def wrap(self, p, w):
        """coefficients are kept modulo the width, as the signed representative; quotient times divisor is folded into the remainder"""
        p = P({m: signed(c, w) for m, c in p})
        for m, c in p:
            for x in m:
                if isinstance(x, tuple) and x[0] == "udiv":
                    dm = pmono(x[2])
                    if dm is None: continue
                    rest = list(m); rest.remove(x)
                    r = mdiv(tuple(rest), dm[0])
                    if r is None or c % dm[1]: continue
                    k = P({r: c // dm[1]})
                    q = padd(p, P({m: c}), -1); q = padd(q, pmul(k, x[1])); q = padd(q, pmul(k, self.rem(x[1], x[2])), -1)
                    return self.wrap(q, w)
        return p
    def mk(self, a):
        if a[0] == "ld" and a[3] == 8 and self.minw == 32 and self.packed(a):
            return padd(self.mk(("ld", a[1], a[2], 4)), P({m + (UP,) * 4: c for m, c in self.mk(("ld", a[1], padd(a[2], const(4)), 4))}))
        r = self.rename(a)
        return atom(a) if r is None else r
    def packed(self, a):
        """does an 8-byte read cover two 4-byte components"""
        return isinstance(self.rename(("ld", a[1], a[2], 4)), frozenset) and isinstance(self.rename(("ld", a[1], padd(a[2], const(4)), 4)), frozenset)
    def div(self, x, m):
        c = pconst(m)
        if c == 1: return x
        if c == 0: return self.mk(("udiv", x, m))
        if not x: return x
        xc = pconst(x)
        if xc is not None and c is not None and xc >= 0 and c > 0: return const(xc // c)
        a, b = pmono(x), pmono(m)
        if a and len(a[0]) == 1 and a[1] == 1 and isinstance(a[0][0], tuple) and b:
            t = a[0][0]
            if t[0] == "udiv": return self.div(t[1], pmul(t[2], m))
            if t[0] == "urem":
                n = pmono(t[2])
                if n:
                    q = mdiv(n[0], b[0])
                    if q is not None and n[1] % b[1] == 0: return self.rem(self.div(t[1], m), P({q: n[1] // b[1]}))
        return self.mk(("udiv", x, m))
    def rem(self, x, m):
        c = pconst(m)
        if c == 1: return frozenset()
        b = pmono(m)
        if b and c != 0 and not (c is not None and pconst(x) is not None):
            x = P({k: v for k, v in x if mdiv(k, b[0]) is None or v % b[1]}) if b[0] else x
        if not x: return x
        xc = pconst(x)
        if xc is not None and c is not None and xc >= 0 and c > 0: return const(xc % c)
        a = pmono(x)
        if a and len(a[0]) == 1 and a[1] == 1 and isinstance(a[0][0], tuple) and b:
            t = a[0][0]
            if t[0] == "urem":
                n = pmono(t[2])
                if n and mdiv(n[0], b[0]) is not None and n[1] % b[1] == 0: return self.rem(t[1], m)
        return self.mk(("urem", x, m))
    def lift(self, f, *vs):
        """apply f to every compatible combination of alternatives"""
        acc = [(1, ())]
        for v in vs:
            acc = [(self.B.an(g, h), t + (p,)) for g, t in acc for h, p in v]
            acc = [x for x in acc if x[0]]
            if len(acc) > 400: raise CheckError(f"{self.fn.base}: too many alternatives")
        return self.norm([(g, f(*t)) for g, t in acc])
    def cmp(self, op, a, b, w):
        r = 0
        for g, p in a:
            for h, q in b:
                k = self.B.an(g, h)
                if k: r = self.B.orr(r, self.B.an(k, self.cmp1(op, p, q, w)))
        return r
    def cmp1(self, op, p, q, w):
        B = self.B
        if op == "ne": return B.nt(self.cmp1("eq", p, q, w))
        if op in ("ugt", "sgt"): return self.cmp1(op[0] + "lt", q, p, w)
        if op in ("uge", "sge"): return B.nt(self.cmp1(op[0] + "lt", p, q, w))
        if op in ("ule", "sle"): return B.nt(self.cmp1(op[0] + "lt", q, p, w))
        x, y = pconst(p), pconst(q)
        if op == "eq":
            for u, v in ((p, q), (q, p)):
                m = pmono(u)
                if pconst(v) in (0, 1) and m and m[1] == 1 and len(m[0]) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "B": return m[0][0][1] if pconst(v) else B.nt(m[0][0][1])
            d = self.wrap(padd(p, q, -1), w)
            if pconst(d) is not None: return int(pconst(d) == 0)
        elif x is not None and y is not None:
            if op[0] == "u": x %= 1 << w; y %= 1 << w
            return int(x < y)
        if self.signs:
            t = self.sgn(self.wrap(padd(p, q, -1), w))
            if t is not None and (op != "ult" or all(c > 0 for z in (p, q) for m, c in z)): return int(t == 0 if op == "eq" else t < 0)
        r = self.compare(op, p, q, w)
        if r is not None: return r(B) if callable(r) else r
        if op == "eq": return B.var(("eq0", pshow(self.canon(d)[0])))
        if op == "ult" and self.signs and x == 0: return B.nt(self.cmp1("eq", q, const(0), w))
        if self.signs and (op == "slt" or all(c > 0 for z in (p, q) for m, c in z)):
            d = self.wrap(padd(p, q, -1), w)
            if not any(m == () for m, c in d):      # p < q by the sign of the difference
                e, s = self.canon(d)
                neg = B.var(("neg", pshow(e)))
                return neg if s > 0 else B.an(B.nt(neg), B.nt(B.var(("eq0", pshow(e)))))
        if op == "ult" and y == 1: return self.cmp1("eq", p, const(0), w)
        if op == "ult" and x == 0: return B.nt(self.cmp1("eq", q, const(0), w))
        return B.var((op, pshow(p), pshow(q)))
    def val(self, v):
        if not isinstance(v, int):
            if v[0] in ("fp", "f", "cf"):
                try: return [(1, atom(("fc", float(v[1]))))]
                except ValueError: pass
            if v[0] == "c":
                c = cval(v)
                return [(1, const(signed(c, self.width(v)) if self.width(v) > 1 else c & 1))] if c is not None else [(1, self.mk(("k", v)))]
            if v[0] == "undef" or v[0] == "poison": return [(1, atom(("undef",)))]
            return [(1, self.mk(v if isinstance(v, tuple) else ("k", v)))]
        if v not in self.cache:
            self.cache[v] = None
            self.cache[v] = self._val(self.fn.inst[v])
        r = self.cache[v]
        if r is None: raise CheckError(f"{self.fn.base}: cyclic value")
        return r
    def opaque(self, i): return [(1, self.mk((i.op, i.d.get("pred", ""), *[self.one(o) for o in i.ops])))]
    def one(self, v):
        x = self.val(v)
        return x[0][1] if len(x) == 1 else atom(("B*", tuple(sorted((g, pshow(p)) for g, p in x))))
    def _val(self, i):
        w = self.width(i.id); op = i.op
        if op in ("add", "sub", "mul"):
            f = {"add": padd, "sub": lambda a, b: padd(a, b, -1), "mul": pmul}[op]
            if w == 1: return self.of_bool(self.B.ite(self.boolean(i.ops[0]), self.B.nt(self.boolean(i.ops[1])), self.boolean(i.ops[1]))) if op != "mul" else self.of_bool(self.B.an(self.boolean(i.ops[0]), self.boolean(i.ops[1])))
            return self.lift(lambda a, b: self.wrap(f(a, b), w), self.val(i.ops[0]), self.val(i.ops[1]))
        if op in ("and", "or", "xor"):
            if w == 1:
                a, b = self.boolean(i.ops[0]), self.boolean(i.ops[1])
                return self.of_bool({"and": self.B.an, "or": self.B.orr, "xor": lambda x, y: self.B.ite(x, self.B.nt(y), y)}[op](a, b))
            if all(self.binary(o) for o in i.ops):
                a, b = (self.of(o) for o in i.ops)
                return self.of_bool({"and": self.B.an, "or": self.B.orr, "xor": lambda x, y: self.B.ite(x, self.B.nt(y), y)}[op](a, b))
            k = cval(i.ops[1])
            if op == "and" and k is not None:
                u = k % (1 << w); inv = (1 << w) - 1 - u
                if any(up(m) for g, p in self.val(i.ops[0]) for m, c in p):                # fields packed into one word
                    if inv and (inv & (inv + 1)) == 0 and inv.bit_length() % 8 == 0: return self.lift(lambda a: P({m: c for m, c in a if up(m) >= inv.bit_length() // 8}), self.val(i.ops[0]))
                    if (u & (u + 1)) == 0 and u.bit_length() % 8 == 0: return self.lift(lambda a: P({m: c for m, c in a if up(m) < u.bit_length() // 8}), self.val(i.ops[0]))
                elif inv and (inv & (inv + 1)) == 0 and inv.bit_length() >= 32: return [(1, frozenset())]
            if op == "and" and k is not None and k > 0 and (k & (k + 1)) == 0: return self.lift(lambda a: self.rem(a, const(k + 1)), self.val(i.ops[0]))
            if op == "or" and any(up(m) for o in i.ops for g, p in self.val(o) for m, c in p): return self.lift(lambda a, b: padd(a, b), self.val(i.ops[0]), self.val(i.ops[1]))
            return self.opaque(i)
        if op == "shl" and cval(i.ops[1]) is not None and cval(i.ops[1]) % 8 == 0 and w > cval(i.ops[1]) and w > 32: return self.lift(lambda a: P({m + (UP,) * (cval(i.ops[1]) // 8): c for m, c in a if up(m) + cval(i.ops[1]) // 8 < (w + 7) // 8}), self.val(i.ops[0]))
        if op == "shl" and cval(i.ops[1]) is not None: return self.lift(lambda a: self.wrap(pmul(a, const(1 << cval(i.ops[1]))), w), self.val(i.ops[0]))
        if op == "lshr" and cval(i.ops[1]) is not None:
            k = cval(i.ops[1])
            def f(a):
                if any(up(m) for m, c in a) and k % 8 == 0: return P({tuple(x for x in m if x != UP) + (UP,) * (up(m) - k // 8): c for m, c in a if up(m) >= k // 8})
                return frozenset() if k >= 32 and w == 64 and not a else self.div(a, const(1 << k))
            return self.lift(f, self.val(i.ops[0]))
        if op == "sdiv" and self.signs: return self.lift(lambda a, b: a if not a or pconst(b) == 1 else self.mk(("sdiv", a, b)), self.val(i.ops[0]), self.val(i.ops[1]))
        if op == "udiv": return self.lift(self.div, self.val(i.ops[0]), self.val(i.ops[1]))
        if op == "urem": return self.lift(self.rem, self.val(i.ops[0]), self.val(i.ops[1]))
        if op == "icmp":
            ty = self.fn.inst[i.ops[0]].ty if isinstance(i.ops[0], int) else ""
            return self.of_bool(self.cmp(i.d["pred"], self.val(i.ops[0]), self.val(i.ops[1]), self.width(i.ops[0])))
        if op in ("zext", "freeze"):
            if self.width(i.ops[0]) == 1: return self.of_bool(self.boolean(i.ops[0]))
            if self.signs and op == "zext": return self.lift(lambda a: a if all(c > 0 for m, c in a) else self.mk(("zext", w, a)), self.val(i.ops[0]))
            return self.val(i.ops[0])
        if op == "sext":
            if self.width(i.ops[0]) == 1: return self.lift(lambda a: P({m: -c for m, c in a}), self.of_bool(self.boolean(i.ops[0])))
            x = self.val(i.ops[0])
            if self.signs or all(pconst(p) is not None or self.small(p) for _, p in x): return x
            return self.opaque(i)
        if op == "trunc":
            if w == 1: return self.of_bool(self.of(i.ops[0]))
            x = self.val(i.ops[0])
            if any(up(m) for g, p in x for m, c in p): x = self.lift(lambda a: P({m: c for m, c in a if up(m) < (w + 7) // 8}), x)
            if w >= self.minw or all(pconst(p) is not None for _, p in x): return self.lift(lambda a: self.wrap(a, w), x)
            return self.lift(lambda a: a if self.small(a, w) else self.mk(("trunc", w, a)), x)
        if op == "select":
            if w == 1 and i.ty == "i1": return self.of_bool(self.B.ite(self.boolean(i.ops[0]), self.boolean(i.ops[1]), self.boolean(i.ops[2])))
            c = self.boolean(i.ops[0])
            return self.norm([(self.B.an(c, g), p) for g, p in self.val(i.ops[1])] + [(self.B.an(self.B.nt(c), g), p) for g, p in self.val(i.ops[2])])
        if op == "phi":
            out = []
            for b, x in i.d["in"]:
                e = self.B.an(self.reach(b), self.edge(b, i.bb))
                if e: out += [(self.B.an(e, g), p) for g, p in (self.of_bool(self.boolean(tup(x))) if i.ty == "i1" else self.val(tup(x)))]
            return self.norm(out)
        if op in ("call", "invoke"):
            n = self.fn.callee(i)
            r = self.pure(self, i)
            if r is not None: return r
            if n.startswith("llvm.abs"): return self.lift(self.abs, self.val(i.ops[0]))
            if n.rpartition("::")[2] in ("fabs", "fabsf", "fabsl") or n.startswith("llvm.fabs"): return self.lift(self.fabs, self.val(i.ops[0]))
            if n.rpartition("::")[2] in ("sqrt", "sqrtf", "sqrtl", "hypot", "pow", "exp", "log") or n.startswith("llvm.sqrt"): return self.lift(lambda *a: a[0] if a[0] == atom(("fc", 0.0)) else atom(("sqrt", *a)), *[self.val(o) for o in i.ops if not (isinstance(o, tuple) and o[0] == "md")])
            if n.startswith(("llvm.fmuladd", "llvm.fma.")):
                a, b, c = (self.val(o) for o in i.ops[:3])
                return self.lift(lambda x, y, z: self.farith("fadd", self.farith("fmul", x, y), z), a, b, c)
            if n.startswith(("llvm.maxnum", "llvm.minnum", "fmax", "fmin")):
                a, b = self.val(i.ops[0]), self.val(i.ops[1])
                return self.lift(lambda x, y: x if x == y else atom(("fmax" if "max" in n else "fmin", *sorted((x, y), key=pshow))), a, b)
            if n.startswith("llvm.expect"): return self.val(i.ops[0])
            if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                a, b = self.val(i.ops[0]), self.val(i.ops[1]); c = self.cmp(("ult" if n[5] == "u" else "slt"), a, b, w)
                if "max" in n: c = self.B.nt(c)
                return self.norm([(self.B.an(c, g), p) for g, p in a] + [(self.B.an(self.B.nt(c), g), p) for g, p in b])
            return [(1, self.mk(("call", n, i.id)))]
        if op == "load":
            b = i.ops[0]
            if isinstance(b, int) and self.fn.inst[b].op in ("call", "invoke", "phi", "select"): return self.norm([(g, self.mk(("ld", p, frozenset(), i.d["bytes"]))) for g, p in self.val(b)])
            R, o = self.addr(b)
            if R is None or isinstance(R, tuple) and R[0] == "alloca": return [(1, self.mk(("mem", i.id)))]
            return [(1, self.mk(("ld", R, o, i.d["bytes"])))]
        if op == "getelementptr": return [(1, self.mk(("ptr", *self.addr(i.id))))]
        if op in ("bitcast", "addrspacecast"): return self.val(i.ops[0])
        if op in ("fadd", "fmul", "fsub", "fdiv", "fneg", "fcmp", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"): return self.floating(i)
        if op in ("uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fcmp", "ashr", "sdiv", "srem", "ptrtoint", "inttoptr", "extractvalue", "insertvalue", "lshr", "shl"): return self.opaque(i)
        return [(1, self.mk((op, i.id)))]
    def abs(self, a):
        if pconst(a) is not None: return const(abs(pconst(a)))
        t = self.sgn(a)
        return a if t in (0, 1) else P({m: -c for m, c in a}) if t == -1 else atom(("abs", self.canon(a)[0]))
    def fabs(self, p):
        x, n = fneg(p)
        if x == atom(("fc", 0.0)) or self.nonneg(x): return x
        d = self.converted(x)
        return atom(("fabs", x)) if d is None else self.tofp(self.abs(d))
    def floating(self, i):
        """floating point: sums and products commute, the sign of a difference is kept apart, and differences of converted integers are integer differences"""
        op = i.op
        vs = [self.val(o) for o in i.ops]
        if op in ("fneg", "fadd", "fsub", "fmul", "fdiv"): return self.lift(lambda *a: self.farith(op, *a), *vs)
        if op == "fcmp":
            r = 0
            for g, p in vs[0]:
                for h, q in vs[1]:
                    k = self.B.an(g, h)
                    if k: r = self.B.orr(r, self.B.an(k, self.fcmp1(i.d["pred"], p, q)))
            return self.of_bool(r)
        def f(a):
            c = pconst(a); m = pmono(a); m = m[0][0] if m and m[1] == 1 and len(m[0]) == 1 else None
            if op in ("sitofp", "uitofp"):
                if c is not None: return atom(("fc", float(c)))
                if op == "sitofp" or self.magnitudes(a): return self.tofp(a)
            elif isinstance(m, tuple) and m[0] == "fc": return a if op in ("fpext", "fptrunc") else const(int(m[1]))
            elif op in ("fptoui", "fptosi") and isinstance(m, tuple) and m[0] in ("tofp", "sitofp"): return m[1]
            elif op in ("fpext", "fptrunc") and (self.converted(a) is not None): return a
            return atom((op, a))
        return self.lift(f, *vs)
    def farith(self, op, *a):
        def zero(p): return p == atom(("fc", 0.0)) or not p
        def minus(p): x, n = fneg(p); return x if n else p if zero(p) else atom(("fneg", p))
        if op == "fneg": return minus(a[0])
        x, y = a
        if op in ("fadd", "fsub"):
            if op == "fsub": y = minus(y)
            if zero(x): return y
            if zero(y): return x
            if minus(x) == y: return atom(("fc", 0.0))
            if self.signs:
                d, e = self.converted(x), self.converted(y)
                if d is not None and e is not None: return self.tofp(padd(d, e))
            (u, nu), (v, nv) = fneg(x), fneg(y)
            if pshow(u) > pshow(v): u, nu, v, nv = v, nv, u, nu
            r = atom(("fadd", u, v) if nu == nv else ("fsub", u, v))
            return minus(r) if nu else r
        (u, nu), (v, nv) = fneg(x), fneg(y)
        if zero(u) or op == "fmul" and zero(v): return atom(("fc", 0.0))
        if op == "fmul": u, v = sorted((u, v), key=pshow)
        r = atom((op, u, v)); return minus(r) if nu != nv else r
    def fcmp1(self, pred, x, y):
        B = self.B
        def zero(p): return p == atom(("fc", 0.0)) or not p
        if pred[0] not in "ou" or pred[1:] not in ("eq", "ne", "lt", "le", "gt", "ge"): return B.var(("f" + pred, pshow(x), pshow(y)))
        t = pred[1:]
        if t in ("ne", "ge", "le"):
            return B.nt(self.fcmp1("o" + {"ne": "eq", "ge": "lt", "le": "gt"}[t], x, y))
        if t == "gt": x, y = y, x; t = "lt"
        if x == y or zero(x) and zero(y): return int(t == "eq")
        a, b = self.fconst(x), self.fconst(y)
        if a is not None and b is not None: return int(a == b if t == "eq" else a < b)
        if self.signs:
            d, e = (frozenset() if zero(z) else self.converted(z) for z in (x, y))
            if d is not None and e is not None: return self.cmp1("eq" if t == "eq" else "slt", d, e, 64)
            if zero(x) or zero(y):
                z, n = fneg(x if zero(y) else y); eq = B.var(("eq0", pshow(z))); neg = B.var(("neg", pshow(z)))
                if t == "eq": return eq
                if self.nonneg(z): neg = 0
                return B.an(B.nt(neg), B.nt(eq)) if n == zero(y) else neg        # -z < 0 or 0 < z: z is positive
        if t == "eq": x, y = sorted((x, y), key=pshow)
        return B.var(("f" + t, pshow(x), pshow(y)))
    def fconst(self, p):
        if not p: return 0.0
        x, n = fneg(p); m = pmono(x)
        if m and m[1] == 1 and len(m[0]) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == "fc": return -m[0][0][1] if n else m[0][0][1]
    def magnitudes(self, p):
        """only read values and magnitudes, added and multiplied: never negative"""
        return all(c > 0 and all(isinstance(x, str) or x[0] in ("abs", "ld") for x in m) for m, c in p)
    def nonneg(self, p):
        m = pmono(p)
        if not (m and m[1] == 1 and len(m[0]) == 1 and isinstance(m[0][0], tuple)): return False
        t = m[0][0]
        if t[0] in ("tofp", "abs", "fabs", "sqrt"): return True
        if t[0] == "uitofp": return True
        if t[0] == "fc": return t[1] >= 0
        if t[0] == "fmul" and t[1] == t[2]: return True
        return t[0] in ("fadd", "fmul", "fdiv", "fpext", "fptrunc") and all(self.nonneg(x) for x in t[1:])
    def tofp(self, p):
        if not p: return atom(("fc", 0.0))
        if self.magnitudes(p): return atom(("tofp", p))
        if self.sgn(p) == -1: return atom(("fneg", atom(("tofp", P({m: -c for m, c in p})))))
        e, s = self.canon(p); r = atom(("sitofp", e))
        return r if s > 0 else atom(("fneg", r))
    def converted(self, p):
        """the integer a floating-point value was converted from"""
        x, n = fneg(p); m = pmono(x)
        if m and m[1] == 1 and len(m[0]) == 1 and isinstance(m[0][0], tuple) and m[0][0][0] in ("sitofp", "tofp"): return padd(frozenset(), m[0][0][1], -1 if n else 1)
    def small(self, p, w=None):
        """a value known to be narrow: something read from storage"""
        m = pmono(p)
        if not (m and m[1] == 1 and len(m[0]) == 1 and isinstance(m[0][0], tuple)): return False
        t = m[0][0]
        return t[0] == "cell" or t[0] == "ld" and (w is None or t[3] * 8 <= w)
    def binary(self, v):
        if not isinstance(v, int): return cval(v) in (0, 1)
        return all(pconst(p) in (0, 1) for _, p in self.val(v)) and self.fn.inst[v].op in ("zext", "phi", "select", "and", "or", "xor")
    def of(self, v):
        """the lowest bit of a value"""
        return self.boolean(v)
    def addr(self, v):
        """(base, byte offset polynomial or constant)"""
        off = frozenset()
        while isinstance(v, int):
            i = self.fn.inst[v]
            if i.op == "getelementptr":
                off = padd(off, const(i.d["off"]))
                for x, k in i.d.get("var", []):
                    x = self.val(tup(x))
                    if len(x) != 1: return (None, None)
                    off = padd(off, pmul(x[0][1], const(k)))
                v = tup(i.d["base"]); continue
            if i.op in ("bitcast", "freeze"): v = i.ops[0]; continue
            if i.op == "alloca": return (("alloca", v), off)
            x = self.val(v)
            return (x[0][1], off) if len(x) == 1 else (None, None)
        return (v, off)
    # ---- results
    def stores(self, arg):
        """{byte offset: guarded value} of what is finally stored through an argument"""
        out = {}
        for b in self.topo:
            for i in self.fn.blocks[b].insts:
                if i.op != "store": continue
                R, o = self.addr(i.ops[1])
                if R != ("a", arg): continue
                o = pconst(o)
                if o is None: raise CheckError(f"{self.fn.base}: a result is stored at an unknown place")
                r = self.reach(b); x = self.of_bool(self.boolean(i.ops[0])) if self.width(i.ops[0]) == 1 else self.val(i.ops[0])
                n = int(i.d["bytes"])
                out[o] = (n, self.norm([(self.B.an(r, g), p) for g, p in x] + ([(self.B.an(self.B.nt(r), g), p) for g, p in out[o][1]] if o in out else [])))
        return out
