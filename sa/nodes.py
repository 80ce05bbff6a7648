"""What the fields of a search node hold when it is created: the constructors' summaries applied to the arguments of the call that inserts it."""
from search import *
WIDTH = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}

CWIDTH = {"bool": 1, "char": 1, "unsigned char": 1, "signed char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "float": 4, "double": 8}
def norm(tn): return re.sub(r"(\d)(UL|U|L)\b", lambda m: m.group(1) + m.group(2).lower(), tn).replace(" >", ">").replace(" restrict", "")
def subst(t, m):
    """replace terms by a mapping, bottom-up re-normalising commutative operators"""
    if t in m: return m[t]
    if isinstance(t, tuple):
        if t and t[0] == "op" and t[1] in ("add", "mul", "and", "or", "xor"):
            return comm_("op", t[1], [subst(x, m) for x in t[2:]])
        return tuple(subst(x, m) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset): return frozenset(subst(x, m) for x in t)
    return t
def comm_(k, op, ts): return (k, op, *sorted(ts, key=repr))

class Nodes:
    def __init__(self, S):
        self.S = S
        # constructors of nodes and states, everything else inlined into them
        self.mod = S.aux([r"::(\w*node|state)::\1$"], keep=())
        self.byclass = {}
        for f in self.mod.functions.values():
            q = qual(f.dem)
            if len(q) < 2: continue
            cls = norm(f.dem[:f.dem.rfind("::" + q[-1][0] + "(")] if ("::" + q[-1][0] + "(") in f.dem else f.dem)
            self.byclass.setdefault(cls, []).append(f)
        self.types = {norm(k): v for k, v in S.mod.types.items()}
        for k, v in self.mod.types.items(): self.types.setdefault(norm(k), v)
    def layout(self, tn, off=0):
        t = self.types.get(norm(tn))
        if t is None: return
        for m, o, s, ty in t["members"]:
            if m == "<base>": yield from self.layout(ty, off + o)
            else: yield m, off + o, s, ty
    def params(self, f): return self.plist(f.dem)
    @staticmethod
    def plist(d):
        p = d[d.rfind("(") + 1 if "(*" not in d else d.find("(") + 1:d.rfind(")")]
        # outermost parameter list
        depth = 0
        for k in range(len(d) - 1, -1, -1):
            if d[k] == ")": depth += 1
            elif d[k] == "(":
                depth -= 1
                if depth == 0: p = d[k + 1:d.rfind(")")]; break
        return [x for x in split_targs(p) if x]
    def ctor(self, tn, nargs, argtypes):
        best = None
        for f in self.byclass.get(norm(tn), ()):
            ps = self.params(f)
            if len(ps) < nargs: continue
            copy = len(ps) == 1 and norm(ps[0].replace("const", "").replace("&", "").strip()).rstrip() == norm(tn)
            if copy: continue
            if best is None or len(ps) < len(self.params(best)): best = f
        return best
    def summary(self, f):
        """{offset: (member, size, term over ('a', k) and ('ld', ('a', k), off))} of a constructor; the object is argument 0"""
        if not hasattr(f, "_sum"):
            s = Sem(f); out = {}
            cls = norm(f.dem[:f.dem.rfind("::" + qual(f.dem)[-1][0] + "(")])
            rets = [f.term(b) for b in f.order if f.term(b).op == "ret"]
            for m, o, sz, ty in self.layout(cls):
                ts = []
                for r in rets:
                    for d in s.defs(("a", 0), o, sz, r):
                        if d[0] == "store": ts.append(s.t(d[1].ops[0]))
                        elif d[0] == "copy":
                            for R2, o2 in s.locs(d[2]): ts.append(("ldx", s.t(d[2]), d[3]) if o2 is None else s.mem_term(R2, o2 + d[3], sz, d[1], 0))
                        elif d[0] == "memset": ts.append(("c", 0))
                        elif d[0] == "live": ts.append(("undef",))
                        elif d[0] == "call" and d[2] == 0 and d[1].d.get("fn") in self.mod.functions:      # a base class's or member's constructor
                            g = self.mod.functions[d[1].d["fn"]]
                            base = s.addr(d[1].ops[0])[1] or 0
                            v = self.summary(g).get(o - base)
                            ts.append(self.at_call(v[2], s, d[1]) if v else ("any", d[1].id))
                        else: ts.append(("any", d[1].id if d[1] else 0))
                out[o] = (m, sz, mkphi(ts) if ts else ("undef",))
            f._sum = out
        return f._sum
    def at_call(self, t, s, I):
        """a constructor's term with the arguments of the call I in place of its parameters"""
        if isinstance(t, tuple):
            if t and t[0] == "a" and len(t) == 2 and t[1] < len(I.ops): return s.t(I.ops[t[1]])
            if t and t[0] == "ld" and t[1][0] == "a" and t[1][1] < len(I.ops):
                R, o = s.addr(I.ops[t[1][1]])
                return ("ld", R, (o or 0) + t[2])
            if t and t[0] == "op" and t[1] in ("add", "mul", "and", "or", "xor"): return comm_("op", t[1], [self.at_call(x, s, I) for x in t[2:]])
            return tuple(self.at_call(x, s, I) if isinstance(x, (tuple, frozenset)) else x for x in t)
        if isinstance(t, frozenset): return frozenset(self.at_call(x, s, I) for x in t)
        return t
    def fields(self, i, cls, m, o):
        """{offset: (member, size, term)} of the node a container call puts in; None if the element is a pointer"""
        S = self.S; tn = split_targs(qual(S.dem(i))[-2][1])[0]
        if tn.rstrip().endswith("*"): return None
        k = i.ops.index(o) if o in i.ops else None
        k = 1 + (1 if i.d.get("sret") else 0)
        if cls == "std::vector" and m in ("insert", "emplace"): k += 1
        return self.build(tn, i.ops[k:], i)
    def build(self, tn, args, i):
        """fields of an object of type tn constructed from the arguments (all by reference, as emplace forwards them) at instruction i"""
        S = self.S; at = S.sem.at(i.bb)
        lay = list(self.layout(tn))
        if not lay: return None
        def copied(op):
            return {off: (m, sz, at.load_at(op, off, sz, i)) for m, off, sz, ty in lay}
        d = S.dem(i); atypes = []
        q = qual(d)[-1]
        # is the only argument a node of that type?
        if len(args) == 1:
            par = self.plist(d)[-1]
            if norm(par.replace("const", "").replace("&", "").strip()) == norm(tn): return copied(args[0])
        f = self.ctor(tn, len(args), atypes)
        if f is None: return copied(args[0]) if len(args) == 1 else None
        ps = self.params(f); mp = {}
        gp = [re.sub(r"\b(const|restrict)\b|&", "", x).strip() for x in self.plist(d)[-len(args):]]      # the types of the objects referred to
        for k in range(len(ps)):
            ty = f.d["args"][k + 1]["ty"]
            if k < len(args):
                if ps[k].endswith("&"):
                    mp[k] = ("ref", args[k])
                else: mp[k] = ("val", at.content(args[k], CWIDTH.get(gp[k], WIDTH.get(ty, 8)) if k < len(gp) else WIDTH.get(ty, 8), i) if at.isptr(args[k]) else at.t(args[k]))
            else: mp[k] = ("val", ("default",))
        def rep(t):
            if isinstance(t, tuple):
                if t and t[0] == "a" and len(t) == 2 and t[1] >= 1 and t[1] - 1 in mp: return mp[t[1] - 1][1] if mp[t[1] - 1][0] == "val" else at.t(mp[t[1] - 1][1])
                if t and t[0] == "ld" and t[1][0] == "a" and t[1][1] >= 1 and mp.get(t[1][1] - 1, ("",))[0] == "ref":
                    return at.load_at(mp[t[1][1] - 1][1], t[2], 4 if len(t) < 4 else t[3], i)
                if t and t[0] == "op" and t[1] in ("add", "mul", "and", "or", "xor"): return comm_("op", t[1], [rep(x) for x in t[2:]])
                return tuple(rep(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
            if isinstance(t, frozenset): return frozenset(rep(x) for x in t)
            return t
        return {off: (m, sz, rep(t)) for off, (m, sz, t) in self.summary(f).items()}

def arith(t):
    """arithmetic normal form: fused multiply-adds split, zeros dropped, sums and products flattened"""
    if isinstance(t, frozenset): return frozenset(arith(x) for x in t)
    if not isinstance(t, tuple): return t
    if t and t[0] == "fma": return arith(("op", "add", ("op", "mul", t[1], t[2]), t[3]))
    if t and t[0] == "op" and t[1] in ("add", "mul"):
        xs = []
        for x in t[2:]:
            x = arith(x)
            if x[0] == "op" and x[1] == t[1]: xs += x[2:]
            else: xs.append(x)
        one = [("c", 0), ("f", "0")] if t[1] == "add" else [("c", 1), ("f", "1")]
        if t[1] == "mul" and any(x in (("c", 0), ("f", "0")) for x in xs): return ("c", 0)
        xs = [x for x in xs if x not in one]
        if not xs: return ("c", 0) if t[1] == "add" else ("c", 1)
        return xs[0] if len(xs) == 1 else comm_("op", t[1], xs)
    if t == ("f", "0"): return ("c", 0)
    if t == ("f", "1"): return ("c", 1)
    if t and t[0] == "ldx" and len(t) == 2: return ("ldx", arith(t[1]), 0)
    return tuple(arith(x) if isinstance(x, (tuple, frozenset)) else x for x in t)

def _load_at(self, ptr, off, size, i):
    """what the object at a pointer holds at a byte offset"""
    out = []
    for R, o in self.locs(ptr):
        if o is None: out.append(("ldx", self.t(ptr) if isinstance(ptr, int) else ptr, off)); continue
        out.append(self.mem_term(R, o + off, size, i, 0))
    return mkphi(out) if out else ("any", i.id)
Sem.load_at = _load_at
