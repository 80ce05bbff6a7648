"""J01: the local pruning rules of jump-point search."""
import math, itertools, re
from common import *
from ir import *
import solverir
RULE = ("Jump-point search decides locally, from the eight neighbours' activity flags and the direction of travel, which steps to skip. Both places that decide - the step from one jump point to the next and the expansion of an open cell - are specialised "
        "to each of the nine directions (eight and 'start'): constants, the rotation tables' initialisers, the neighbours' coordinates relative to the cell and the signs of coordinate differences are propagated along every path, activity flags, outcomes of further jumps and "
        "the comparison with the goal stay open. The result is a decision table per direction. A step may be left out only if the geometry allows it: the cell was entered straight and the neighbour has a detour around the cell that is no longer, or it was entered diagonally and the detour is shorter, "
        "or the step squeezes between two blocked cells; every other step must be taken, probed without success, or make the cell a jump point. Every further jump must start at a neighbour flagged active and carry the direction that leads there; "
        "a jump that hands on another jump's result must be travelling in the same direction; the direction derived from two coordinates must be the sign of their difference, for any distance; and the search asks for it from the expanded cell to its successor.")
TECH = "conditional constant propagation specialised per direction over the control flow graph (tables of the pruning rules over the activity flags), compared with the rule derived from the geometry of the 3x3 neighbourhood"
MIN_OB = 4
ASSUME = ["coordinates differ by less than 2^31", "the neighbours of a cell are reported in the order TL TM TR ML MR BL BM BR (G03)", "the rotation tables keep the values they are initialised with (X01)"]

OFF = [(-1, -1), (0, -1), (1, -1), (-1, 0), (1, 0), (-1, 1), (0, 1), (1, 1)]
IDX = {o: k for k, o in enumerate(OFF)}
START = 8

class Stuck(Exception): pass

# ---------------------------------------------------------------- the geometry
def _steps(active):
    """legal steps between the cells of the neighbourhood, without the centre"""
    out = {}
    for a in OFF:
        for b in OFF:
            d = (b[0] - a[0], b[1] - a[1])
            if a != b and max(abs(d[0]), abs(d[1])) == 1 and active[IDX[b]] and active[IDX[a]]: out.setdefault(a, []).append((b, 1.0 if 0 in d else math.sqrt(2)))
    return out
_need = {}
def needed(d, active):
    """the neighbours that must not be skipped when the centre was entered in direction d"""
    key = (d, active)
    if key in _need: return _need[key]
    legal = []
    for k, (x, y) in enumerate(OFF):
        if not active[k]: continue
        if x and y and not (active[IDX[(x, 0)]] or active[IDX[(0, y)]]): continue      # squeezing between two blocked cells
        legal.append(k)
    if d == START: r = frozenset(legal)
    else:
        dx, dy = OFF[d]; p = (-dx, -dy)
        if not active[IDX[p]] or (dx and dy and not (active[IDX[(-dx, 0)]] or active[IDX[(0, -dy)]])): r = frozenset()      # cannot have come from there
        else:
            st = _steps(active); dist = {p: 0.0}; w = [p]
            while w:
                a = w.pop(0)
                for b, c in st.get(a, ()):
                    if dist[a] + c < dist.get(b, 1e9) - 1e-9: dist[b] = dist[a] + c; w.append(b)
            first = 1.0 if 0 in OFF[d] else math.sqrt(2); r = set()
            for k in legal:
                if OFF[k] == p: continue
                via = first + (1.0 if 0 in OFF[k] else math.sqrt(2)); alt = dist.get(OFF[k], 1e9)
                if not (alt <= via + 1e-9 if 0 in OFF[d] else alt < via - 1e-9): r.add(k)
            r = frozenset(r)
    _need[key] = r
    return r

# ---------------------------------------------------------------- the specialiser
# values: ("i", n) integer, ("p", base, off) pointer, ("N", k) activity of neighbour k, ("X", a, c) coordinate a of the cell plus c, ("S", s) number of sign s, ("J", n) result of jump n,
# ("JF", n) its flag, ("low", v) integer whose low byte is v, ("not", v), ("E",) depends on the goal, ("P", ...) comparison of the cell's position with a constant, ("agg", {..}), None unknown
def width(ty):
    return int(ty[1:]) if ty[:1] == "i" and ty[1:].isdigit() else None
def wrap(n, w, signed=False):
    n &= (1 << w) - 1
    return n - (1 << w) if signed and n >> (w - 1) else n

class Spec:
    """all paths of one function for one direction"""
    def __init__(self, M, G, jumps, rank=2):
        self.M = M; self.G = G; self.jumps = jumps; self.leaves = []; self.steps = 0
    def run(self, fn, args, mem=None):
        """-> list of (return value, state)"""
        st = {"mem": dict(mem or {}), "lit": {}, "calls": [], "nb": None}
        return self.call(fn, args, st, 0)
    def call(self, fn, args, st, depth):
        if depth > 8: raise Stuck("calls nested too deeply")
        out = []; w = [(fn.entry, None, {}, st, 0)]; self.frame = getattr(self, "frame", 0) + 1; fr = self.frame
        while w:
            b, prev, env, st, n = w.pop()
            self.steps += 1
            if self.steps > 60000 or n > 400: raise Stuck("too many paths")
            env = dict(env)
            ph = {}
            blk = fn.blocks[b]
            for i in blk.insts:
                if i.op != "phi": break
                ph[i.id] = self.op([tup(x) for k, x in i.d["in"] if k == prev][0], env, args, fr)
            env.update(ph)
            st = {"mem": dict(st["mem"]), "lit": dict(st["lit"]), "calls": list(st["calls"]), "nb": st["nb"]}
            conts = [(env, st)]
            for i in blk.insts:
                if i.op == "phi" or i is blk.insts[-1] and i.op not in ("invoke",): continue
                nxt = []
                for e, s in conts: nxt += self.step(fn, i, e, s, args, fr, depth)
                conts = nxt
            t = blk.insts[-1]
            for e, s in conts:
                if t.op == "ret": out.append((self.op(t.ops[0], e, args, fr) if t.ops else None, s)); continue
                if t.op == "unreachable": continue
                if t.op == "invoke": w.append((t.d["normal"], b, e, s, n + 1)); continue
                if t.op == "br":
                    if len(t.d["succ"]) == 1: w.append((t.d["succ"][0], b, e, s, n + 1)); continue
                    for truth_, s2 in self.decide(self.op(t.ops[0], e, args, fr), s, i=t): w.append((t.d["succ"][0 if truth_ else 1], b, e, s2, n + 1))
                    continue
                if t.op == "switch":
                    v = self.op(t.ops[0], e, args, fr)
                    if v and v[0] == "i":
                        k = [c[1] for c in t.d["cases"] if wrap(c[0], 64) == wrap(v[1], 64) or wrap(c[0], 32) == v[1] or wrap(c[0], 8) == v[1]]
                        w.append((k[0] if k else t.d["default"], b, e, s, n + 1)); continue
                    raise Stuck("undecided switch")
                raise Stuck("unhandled " + t.op)
        return out
    def decide(self, v, st, i):
        if v is not None and v[0] == "i": return [(bool(v[1]), st)]
        neg = False
        while v is not None and v[0] == "not": v = v[1]; neg = not neg
        if v is not None and v[0] == "i": return [(bool(v[1]) != neg, st)]
        if v is None: key = ("?", i.fn.name, i.id)
        else: key = v
        if key in st["lit"]: return [(st["lit"][key] != neg, st)]
        out = []
        for tr in (True, False):
            s = {"mem": dict(st["mem"]), "lit": dict(st["lit"]), "calls": list(st["calls"]), "nb": st["nb"]}
            s["lit"][key] = tr; out.append((tr != neg, s))
        return out
    def op(self, o, env, args, fr):
        if isinstance(o, int): return env.get(o)
        k = o[0]
        if k == "c": return ("i", wrap(cval(o), o[2] if len(o) > 2 and isinstance(o[2], int) else 64))
        if k == "a": return args[o[1]] if o[1] < len(args) else None
        if k == "g": return ("p", ("g", o[1]), 0)
        if k == "null": return ("i", 0)
        if k == "undef": return ("agg", ())
        return None
    # memory: (base, off) -> (value, bytes)
    def load(self, p, n, ty, st):
        if p is None or p[0] != "p": return None
        base, off = p[1], p[2]
        if (base, off) in st["mem"]:
            v, m = st["mem"][(base, off)]
            if m == n: return v
            if v is not None and m > n and v[0] == "J" and n == 1: return ("JF", v[1])
            if v is not None and v[0] == "i" and m > n: return ("i", wrap(v[1], 8 * n))
            return None
        if st["nb"] is not None and base == st["nb"][0]:
            stride, co, cw = st["nb"][1:]
            k, r = divmod(off, stride)
            if not 0 <= k < 8: return None
            if r == 0 and n == 1: return ("N", k)
            if r >= co and (r - co) % cw == 0 and n == cw and (r - co) // cw < 2: a = (r - co) // cw; return ("X", a, OFF[k][a])
            return None
        if base == ("cur",): return ("X", off // n, 0) if n in (4, 8) and off in (0, n) else None
        if base[0] == "far" and n in (4, 8) and off in (0, n): return ("F", base[1], off // n)
        if base == ("dir",) and off == 0 and n == 1: return st["mem"].get((("dir",), 0), (None,))[0]
        if base == ("end",): return ("E",)
        if base[0] == "g":
            g = self.G.get(base[1])
            if g and g.get("init") is not None and g["init"] and g["size"] % len(g["init"]) == 0:
                e = g["size"] // len(g["init"])
                if e == n and off % e == 0 and 0 <= off // e < len(g["init"]): return ("i", wrap(g["init"][off // e], 8 * n))
        for (b2, o2), (v, m) in st["mem"].items():      # part of something larger
            if b2 == base and o2 < off < o2 + m and v is not None and v[0] == "i": return ("i", (v[1] >> (8 * (off - o2))) & ((1 << (8 * n)) - 1))
        return None
    def store(self, p, v, n, st):
        if p is None or p[0] != "p": raise Stuck("a store through an unknown pointer")
        for k in [k for k, (x, m) in st["mem"].items() if k[0] == p[1] and k[1] < p[2] + n and p[2] < k[1] + m]: del st["mem"][k]
        st["mem"][(p[1], p[2])] = (v, n)
    def truthy(self, v):
        """v != 0"""
        if v is None: return None
        if v[0] == "i": return ("i", int(v[1] != 0))
        if v[0] in ("N", "JF", "E", "P", "not", "U", "W"): return v
        if v[0] == "p": return ("i", 1)
        if v[0] == "S": return ("i", int(v[1] != 0))
        return None
    def neg(self, v):
        if v is None: return None
        if v[0] == "i": return ("i", int(not v[1]))
        return v[1] if v[0] == "not" else ("not", v)
    def step(self, fn, i, env, st, args, fr, depth):
        v = lambda k: self.op(i.ops[k], env, args, fr)
        o = i.op; r = None; w = width(i.ty)
        if o in ("call", "invoke"): return self.docall(fn, i, env, st, args, fr, depth)
        if o == "alloca": r = ("p", ("al", fr, i.id), 0)
        elif o == "getelementptr":
            b = self.op(tup(i.d["base"]), env, args, fr)
            if b is not None and b[0] == "p" and "off" in i.d:
                off = b[2] + i.d["off"]; ok = True
                for x, s in i.d.get("var", []):
                    y = self.op(tup(x), env, args, fr)
                    if y is None or y[0] != "i": ok = False; break
                    off += wrap(y[1], 64, True) * s
                if ok: r = ("p", b[1], off)
        elif o == "load": r = self.load(v(0), i.d["bytes"], i.ty, st)
        elif o == "store": self.store(v(1), v(0), i.d["bytes"], st); return [(env, st)]
        elif o in ("zext", "trunc", "sext", "freeze", "bitcast"):
            x = v(0)
            if x is not None:
                if x[0] == "i":
                    sw = None
                    if o == "sext":
                        so = i.ops[0]; sw = width(fn.inst[so].ty) if isinstance(so, int) and so in fn.inst else None
                    r = ("i", wrap(wrap(x[1], sw, True), w) if sw else wrap(x[1], w) if w else x[1])
                elif x[0] == "low" and o == "trunc" and w == 8: r = x[1]
                elif x[0] == "low" and o == "trunc" and w == 1: r = x[1]
                elif x[0] == "Jw": r = ("JF", x[1]) if o == "trunc" and w in (1, 8) else ("Jw", x[1]) if o == "zext" else None
                elif x[0] == "up": r = x if o == "zext" or w and w > 8 else ("i", 0) if w == 8 else None
                elif x[0] in ("S", "F", "W") and o == "trunc" and w and w < 32: r = ("W",)      # the sign of a large difference is lost
                elif x[0] in ("N", "JF", "E", "P", "not", "U", "S", "X", "F", "W"): r = x
        elif o == "select":
            c = v(0)
            out = []
            for tr, s in self.decide(c, st, i):
                e = dict(env); e[i.id] = self.op(i.ops[1 if tr else 2], e, args, fr); out.append((e, s))
            return out
        elif o == "icmp": r = self.icmp(fn, i, v(0), v(1))
        elif o in ("add", "sub", "xor", "and", "or", "mul", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"): r = self.arith(o, v(0), v(1), w)
        elif o == "extractvalue":
            x = v(0)
            if x is not None and x[0] == "J": r = ("Jw", x[1]) if i.d["idx"] == [0] else None
            elif x is not None and x[0] == "agg": r = dict(x[1]).get(tuple(i.d["idx"]))
        elif o == "insertvalue":
            x = v(0)
            if x is not None and x[0] == "agg": d = dict(x[1]); d[tuple(i.d["idx"])] = v(1); r = ("agg", tuple(sorted(d.items(), key=lambda y: y[0])))
        env[i.id] = r
        return [(env, st)]
    def icmp(self, fn, i, a, b):
        p = i.d["pred"]
        if a is None or b is None: return None
        if a[0] == "W" or b[0] == "W": return ("W", fn.name, i.id)
        if a == ("E",) or b == ("E",): return ("E", fn.name, i.id)
        if a[0] == "i" and b[0] == "i":
            so = [o for o in i.ops if isinstance(o, int) and o in fn.inst]; w = width(fn.inst[so[0]].ty) if so else None
            w = w or next((o[2] for o in i.ops if isinstance(o, tuple) and o[0] == "c" and len(o) > 2 and isinstance(o[2], int)), 64)
            x, y = (wrap(a[1], w, p[0] == "s"), wrap(b[1], w, p[0] == "s"))
            return ("i", int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[-2:]]))
        if a[0] == "p" and b[0] == "p" and a[1] == b[1]:
            x, y = a[2], b[2]; return ("i", int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[-2:]]))
        if p in ("eq", "ne"):
            for x, y in ((a, b), (b, a)):
                if y[0] == "i" and y[1] in (0, 1) and x[0] in ("N", "JF", "P", "not", "U") or y == ("i", 0) and x[0] in ("S", "p") or y == ("i", 0) and x[0] == "E":
                    t = self.truthy(x)
                    return t if (y[1] == 1) == (p == "eq") else self.neg(t)
        if a[0] == "S" and b == ("i", 0) or b[0] == "S" and a == ("i", 0):
            if p[0] == "u": return None
            x, y = (a[1], 0) if a[0] == "S" else (0, b[1]); return ("i", int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[-2:]]))
        if a[0] == "X" and b[0] == "X" and a[1] == b[1] and p in ("eq", "ne"): return ("i", int((a[2] == b[2]) == (p == "eq")))
        if a[0] == "X" and b[0] == "X" and a[1] == b[1] and p[0] == "u":      # neighbouring coordinates that exist do not wrap
            x, y = a[2], b[2]; return ("i", int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p[-2:]]))
        if a[0] == "F" and b[0] == "F" and a[2] == b[2]:
            s = self.far[a[2]] * (1 if (a[1], b[1]) == (1, 0) else -1 if (a[1], b[1]) == (0, 1) else 0)
            if p[0] == "s": return None
            return ("i", int({"eq": s == 0, "ne": s != 0, "lt": s < 0, "le": s <= 0, "gt": s > 0, "ge": s >= 0}[p[-2:]]))
        for x, y in ((a, b), (b, a)):
            if x[0] == "X" and y[0] == "i": return ("P", x[1], x[2], p, y[1], x is a)
        return None
    def arith(self, o, a, b, w):
        if a is None or b is None:
            if o == "shl" and b is not None and b[0] == "i" and b[1] >= 8: return ("up",)
            if o == "or":
                return None
            return None
        if a[0] == "W" or b[0] == "W": return ("W",)
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]; sx, sy = wrap(x, w, True), wrap(y, w, True)
            try: n = {"add": x + y, "sub": x - y, "xor": x ^ y, "and": x & y, "or": x | y, "mul": x * y, "shl": x << min(y, 128), "lshr": x >> y, "ashr": sx >> y, "udiv": x // y if y else None, "urem": x % y if y else None,
                      "sdiv": int(sx / sy) if sy else None, "srem": sx - sy * int(sx / sy) if sy else None}[o]
            except (ValueError, OverflowError): return None
            return None if n is None else ("i", wrap(n, w))
        if o == "sub" and a[0] == "X" and b[0] == "X" and a[1] == b[1]: return ("i", wrap(a[2] - b[2], w))
        if o in ("add", "sub") and a[0] == "X" and b[0] == "i": return ("X", a[1], a[2] + (1 if o == "add" else -1) * wrap(b[1], w, True))
        if o == "sub" and a[0] == "F" and b[0] == "F" and a[2] == b[2]: return ("S", self.far[a[2]] * (1 if (a[1], b[1]) == (1, 0) else -1 if (a[1], b[1]) == (0, 1) else 0))
        if o == "sub" and a == ("i", 0) and b[0] == "S": return ("S", -b[1])
        if o == "xor" and w in (1, 8):
            for x, y in ((a, b), (b, a)):
                if y[0] == "i" and y[1] == 1 and x[0] in ("N", "JF", "E", "P", "not", "U"): return self.neg(x)
                if y[0] == "i" and y[1] == 0: return x
        if o in ("and", "or") and w in (1, 8, 32):
            for x, y in ((a, b), (b, a)):
                if y[0] == "i" and (y[1] == 0) == (o == "and") and (o == "and" or y[1] == 1): return y
                if y[0] == "i" and y[1] in (0, 1) and x[0] in ("N", "JF", "E", "P", "not", "U"): return x
        if o == "or":
            for x, y in ((a, b), (b, a)):
                if x[0] == "up": return ("low", y)
        if o == "shl" and b[0] == "i" and b[1] >= 8: return ("up",)
        if o == "ashr" and a[0] == "S" and b == ("i", w - 1): return ("i", wrap(-1, w) if a[1] < 0 else 0)
        if o == "lshr" and a[0] == "S" and b == ("i", w - 1): return ("i", 1 if a[1] < 0 else 0)
        return None
    def docall(self, fn, i, env, st, args, fr, depth):
        M = self.M; nm = i.d.get("fn"); base = fn.callee(i); last = base.rpartition("::")[2]
        v = lambda k: self.op(i.ops[k], env, args, fr)
        if nm is None: raise Stuck("an indirect call")
        if nm.startswith("llvm.expect"): env[i.id] = v(0); return [(env, st)]
        if nm.startswith("llvm.memcpy") or nm.startswith("llvm.memmove"):
            d, s, n = v(0), v(1), v(2)
            if d is None or d[0] != "p" or s is None or s[0] != "p" or n is None or n[0] != "i": raise Stuck("a copy of unknown memory")
            src = [(k, x) for k, x in st["mem"].items() if k[0] == s[1] and s[2] <= k[1] < s[2] + n[1]]
            for k in [k for k, (x, m) in st["mem"].items() if k[0] == d[1] and k[1] < d[2] + n[1] and d[2] < k[1] + m]: del st["mem"][k]
            if st["nb"] is not None and s[1] == st["nb"][0]: self.copynb(d, s, n[1], st)
            elif s[1][0] == "g":
                g = self.G.get(s[1][1])
                if g and g.get("init") is not None and g["init"] and g["size"] % len(g["init"]) == 0:
                    e = g["size"] // len(g["init"])
                    for k, x in enumerate(g["init"]):
                        if s[2] <= k * e < s[2] + n[1]: st["mem"][(d[1], d[2] + k * e - s[2])] = (("i", wrap(x, 8 * e)), e)
            elif s[1] == ("cur",):
                cw = n[1] // 2
                for a in (0, 1): st["mem"][(d[1], d[2] + a * cw)] = (("X", a, 0), cw)
            for k, x in src: st["mem"][(d[1], d[2] + k[1] - s[2])] = x
            return [(env, st)]
        if nm.startswith("llvm.memset"):
            d, x, n = v(0), v(1), v(2)
            if d is None or d[0] != "p" or n is None or n[0] != "i": raise Stuck("a fill of unknown memory")
            for k in [k for k, (y, m) in st["mem"].items() if k[0] == d[1] and k[1] < d[2] + n[1] and d[2] < k[1] + m]: del st["mem"][k]
            if x == ("i", 0): st["mem"][(d[1], d[2])] = (("i", 0), n[1])
            return [(env, st)]
        if i.d.get("intr"):
            m = re.match(r"llvm\.(abs|smax|smin|umax|umin)\.", nm)
            if m:
                a, b = v(0), v(1)
                if a and a[0] == "i" and (m[1] == "abs" or b and b[0] == "i"):
                    w = width(i.ty); x = wrap(a[1], w, m[1][0] != "u"); y = wrap(b[1], w, m[1][0] != "u") if b and b[0] == "i" else 0
                    env[i.id] = ("i", wrap(abs(x) if m[1] == "abs" else max(x, y) if m[1].endswith("max") else min(x, y), w))
                else: env[i.id] = None
            return [(env, st)]
        if last == "get_neighbours":
            if st["nb"] is not None: raise Stuck("the neighbours are read more than once")
            if i.d.get("sret") != [0]: raise Stuck("get_neighbours returns in registers")
            p = v(0)
            if p is None or p[0] != "p" or p[2] != 0: raise Stuck("the neighbours' place is unknown")
            if v(2) != ("p", ("cur",), 0): raise Stuck("the neighbours of another cell")
            size = fn.inst[p[1][2]].d.get("size") if p[1][0] == "al" and p[1][2] in fn.inst else self.nbsize
            stride = size // 8; cw = self.cw
            st["nb"] = (p[1], stride, stride - 2 * cw, cw); return [(env, st)]
        if nm in self.jumps:
            av = [v(k) for k in range(len(i.ops))]
            return self.jumpcall(fn, i, env, st, av)
        g = M.functions.get(nm)
        if nm in ("memcmp", "bcmp"):
            a, b = v(0), v(1)
            if ("end",) in (a and a[1], b and b[1]): env[i.id] = ("E", "eq"); return [(env, st)]
            env[i.id] = None; return [(env, st)]
        if g is not None:
            av = [v(k) for k in range(len(i.ops))]
            out = []
            for r, s in self.call(g, av, st, depth + 1): e = dict(env); e[i.id] = r; out.append((e, s))
            return out
        if last in ("operator==", "equal", "operator!="): env[i.id] = ("E", fn.name, i.id) if any(v(k) is not None and v(k)[0] == "p" and v(k)[1] == ("end",) for k in range(len(i.ops))) else None; return [(env, st)]
        raise Stuck("a call of " + base)
    def copynb(self, d, s, n, st):
        base, stride, co, cw = st["nb"]
        for k in range(8):
            o = k * stride
            if s[2] <= o < s[2] + n: st["mem"][(d[1], d[2] + o - s[2])] = (("N", k), 1)
            for a in (0, 1):
                if s[2] <= o + co + a * cw < s[2] + n: st["mem"][(d[1], d[2] + o + co + a * cw - s[2])] = (("X", a, OFF[k][a]), cw)
    def where_is(self, p, st):
        """(dx, dy) of the coordinate a pointer points to"""
        if p is None or p[0] != "p": return None
        x = [self.load(("p", p[1], p[2] + a * self.cw), self.cw, "", st) for a in (0, 1)]
        if all(y is not None and y[0] == "X" and y[1] == a for a, y in enumerate(x)): return tuple(y[2] for y in x)
        return None
    def jumpcall(self, fn, i, env, st, av):
        sr = 1 if i.d.get("sret") == [0] else 0
        J = self.jumps[i.d["fn"]]      # (position of the cell, position of the direction, by value?)
        cell = self.where_is(av[J[0]], st)
        dv = av[J[1]]
        d = self.load(dv, 1, "i8", st) if dv is not None and dv[0] == "p" else dv
        n = (cell, d[1] if d is not None and d[0] == "i" else None)
        st["calls"].append((n, dict(st["lit"]), i.where()))
        r = ("J", n)
        if sr: self.store(av[0], ("JF", n), 1, st)
        else: env[i.id] = r
        return [(env, st)]

# ---------------------------------------------------------------- the functions
def unit(sc):
    s, c = sc
    bc, err = compile_bc("solver.cpp", (f"SOLVER={s}", f"CFG={c}"))
    if bc is None: raise CheckError(f"{s}/{c} does not compile: " + err[:400])
    rx = rf"^chdr::solvers::{s}::"
    return dump(bc, [rx], solverir.KEEP + [rx, r"::get_neighbours$"])
def reads(f): return any(f.callee(i).endswith("::get_neighbours") for i in f.calls())
def ptrarg(f, k): return k < len(f.d["args"]) and f.d["args"][k]["ty"] == "ptr"
def isarg(o): return isinstance(o, tuple) and o[0] == "a"

def show_flags(act): return "blocked: " + (", ".join("TL TM TR ML MR BL BM BR".split()[k] for k in range(8) if not act[k]) or "none")
NAME = "TL TM TR ML MR BL BM BR start".split()

def leaf_cubes(lit):
    """the activity patterns of a path"""
    known = {k[1]: x for k, x in lit.items() if k[0] == "N"}
    free = [k for k in range(8) if k not in known]
    for bits in itertools.product((True, False), repeat=len(free)):
        d = dict(known); d.update(zip(free, bits)); yield tuple(d[k] for k in range(8))
def opaque(lit):
    """conditions the analysis does not understand, or whose combination may be impossible"""
    return any(k[0] == "?" or k[0] == "U" for k in lit) or sum(1 for k in lit if k[0] == "P") > 1

def run(rep, tier):
    build_tool()
    for s in ("jps", "gjps"):
        for c in [c for x, c in solver_units() if x == s]: one(rep, s, c, Module(unit((s, c))))

def one(rep, s, c, M):
    name = f"{s}/{c}"; G = {g["name"]: g for g in M.globals}
    fs = M.functions.values(); rd = [f for f in fs if reads(f)]
    jump = [f for f in rd if any(i.d.get("fn") == f.name for i in f.calls())]
    if not jump: 
        rep.count("undecided"); rep.notes.setdefault("not decided", []).append(f"{name}: no recursive jump found"); return
    jumps = {}
    for f in jump:
        g = next(i for i in f.calls() if f.callee(i).endswith("::get_neighbours"))
        if not isarg(g.ops[2]): rep.count("undecided"); return
        cell = g.ops[2][1]; J = None
        # the direction: the argument that selects behaviour - an 8-bit value or a pointer to one
        for k, a in enumerate(f.d["args"]):
            if a["ty"] == "i8" or a["ty"] == "ptr" and any(i.op == "load" and i.ops[0] == ("a", k) and i.d["bytes"] == 1 for i in f.insts()) and k != cell: J = k
        if J is None: rep.count("undecided"); return
        jumps[f.name] = (cell, J)
    def args(f, cell, dirn, d, mem):
        av = []
        for k, a in enumerate(f.d["args"]):
            if a.get("sret"): av.append(("p", ("ret",), 0))
            elif k == cell: av.append(("p", ("cur",), 0))
            elif k == dirn:
                if a["ty"] == "ptr": mem[(("dir",), 0)] = (("i", d), 1); av.append(("p", ("dir",), 0))
                else: av.append(("i", d))
            elif a["ty"] == "ptr": av.append(("p", ("end",) if k == max(j for j, y in enumerate(f.d["args"]) if y["ty"] == "ptr" and j not in (cell, dirn)) else ("maze",), 0))
            else: av.append(None)
        return av
    def analyse(f, cell, dirn, d):
        S = Spec(M, G, jumps); S.nbsize = 0; S.far = (0, 0)
        g = next(i for i in f.calls() if f.callee(i).endswith("::get_neighbours")); slot = f.inst.get(g.ops[0]) if isinstance(g.ops[0], int) else None
        S.cw = 8 if slot is not None and slot.d.get("size", 96) > 96 else 4
        mem = {}; av = args(f, cell, dirn, d, mem)
        return S.run(f, av, mem)
    def calls_ok(kind, d, st, where):
        good = True
        for (cell, dd), lit, w in st["calls"]:
            if opaque(lit): continue
            k = IDX.get(cell)
            if k is None: continue
            if lit.get(("N", k)) is not True: rep.bad(f"{s}:{kind}:active", w, f"{name}: {kind} in direction {NAME[d]} jumps to {NAME[k]} without knowing that it is traversable"); good = False
            if dd is not None and dd != k: rep.bad(f"{s}:{kind}:heading", w, f"{name}: {kind} in direction {NAME[d]} jumps to {NAME[k]} heading {NAME[dd] if dd <= 8 else dd}"); good = False
        return good
    # ---- the step
    blind = []; seen_goal = [False]
    for f in jump:
        cell, dirn = jumps[f.name]
        for d in range(8):
            try: leaves = analyse(f, cell, dirn, d)
            except Stuck as e: rep.count("undecided"); rep.notes.setdefault("not decided", []).append(f"{name}: jump in direction {NAME[d]}: {e}"); continue
            good = True; n = 0; und = 0
            for rv, st in leaves:
                lit = st["lit"]
                fl = flag(rv, st)
                if opaque(lit): und += 1; continue
                if not calls_ok("jump", d, st, f.sp_where()): good = False
                n += 1
                if fl is None: und += 1; continue
                if fl == ("i", 1): continue
                if not any(k[0] == "E" for k in lit): blind.append((d, f))
                else: seen_goal[0] = True
                ended = at_goal(lit)
                if ended is None: und += 1; continue
                if ended:
                    if fl[0] != "i": und += 1
                    else: rep.bad(f"{s}:jump:goal", f.sp_where(), f"{name}: a jump in direction {NAME[d]} does not stop at the goal"); good = False
                    continue
                failed = {IDX.get(k[1][0]) for k, x in lit.items() if k[0] == "JF" and x is False}
                if fl[0] == "JF":
                    k = IDX.get(fl[1][0])
                    if k is None: und += 1; continue
                    if k != d: rep.bad(f"{s}:jump:turn", f.sp_where(), f"{name}: a jump in direction {NAME[d]} hands on the result of a jump in direction {NAME[k]}: the two do not lie on one line"); good = False; continue
                    failed = failed | {k}
                elif fl != ("i", 0): und += 1; continue
                for act in leaf_cubes(lit):
                    miss = needed(d, act) - failed
                    if miss:
                        rep.bad(f"{s}:jump:lost:{kind_of(d)}", f.sp_where(), f"{name}: a jump in direction {NAME[d]} passes the cell without stopping or trying {', '.join(NAME[k] for k in sorted(miss))} ({show_flags(act)})"); good = False; break
            if und: rep.count("undecided"); rep.notes.setdefault("not decided", []).append(f"{name}: {und} path(s) of jump in direction {NAME[d]}")
            elif good: rep.ok(f"{name}: jump in direction {NAME[d]}: {n} paths, nothing a shortest path needs is passed", f.sp_where())
    # ---- the expansion
    elsewhere = False
    for f in rd:
        if f in jump: continue
        g = next(i for i in f.calls() if f.callee(i).endswith("::get_neighbours"))
        if not isarg(g.ops[2]): continue
        cell = g.ops[2][1]; dirs = [k for k, a in enumerate(f.d["args"]) if a["ty"] == "i8"] or [k for k, a in enumerate(f.d["args"]) if a["ty"] == "ptr" and k != cell and any(i.op == "load" and i.ops[0] == ("a", k) and i.d["bytes"] == 1 for i in f.insts())]
        if len(dirs) != 1: continue
        for d in range(9):
            try: leaves = analyse(f, cell, dirs[0], d)
            except Stuck as e: rep.count("undecided"); rep.notes.setdefault("not decided", []).append(f"{name}: expansion in direction {NAME[d]}: {e}"); continue
            good = True; n = und = 0
            for rv, st in leaves:
                lit = st["lit"]
                if opaque(lit): und += 1; continue
                if not calls_ok("expansion", d, st, f.sp_where()): good = False
                n += 1
                if any(k[0] == "E" for k in lit): elsewhere = True
                got = set()
                for (b, o), (v, m) in st["mem"].items():
                    if b == ("ret",) and v is not None and v[0] in ("J", "JF", "Jw"): got.add(IDX.get(v[1][0]))
                if None in got or unknown_ret(st): und += 1; continue
                for act in leaf_cubes(lit):
                    miss = needed(d, act) - got
                    if miss:
                        rep.bad(f"{s}:expand:lost:{kind_of(d)}", f.sp_where(), f"{name}: expanding a cell entered in direction {NAME[d]} leaves out {', '.join(NAME[k] for k in sorted(miss))} ({show_flags(act)})"); good = False; break
            if und: rep.count("undecided"); rep.notes.setdefault("not decided", []).append(f"{name}: {und} path(s) of the expansion in direction {NAME[d]}")
            elif good: rep.ok(f"{name}: expansion in direction {NAME[d]}: {n} paths, nothing a shortest path needs is left out", f.sp_where())
    if blind and not elsewhere:      # the goal is a jump point
        d, f = blind[0]; rep.bad(f"{s}:jump:goal", f.sp_where(), f"{name}: a jump in direction {NAME[d]} can pass a cell without comparing it with the goal")
    elif seen_goal[0]: rep.ok(f"{name}: no jump passes a cell without comparing it with the goal")
    # ---- the direction between two coordinates
    dirf = [f for f in fs if not reads(f) and f not in jump and len(f.d["args"]) == 2 and all(a["ty"] == "ptr" for a in f.d["args"]) and f.d["ret"] == "i8"]
    for f in dirf:
        good = True; und = 0
        for dx, dy in itertools.product((-1, 0, 1), repeat=2):
            S = Spec(M, G, jumps); S.nbsize = 0; S.cw = 4; S.far = (dx, dy)
            try: leaves = S.run(f, [("p", ("far", 0), 0), ("p", ("far", 1), 0)])
            except Stuck as e: und += 1; continue
            want = IDX.get((dx, dy), START)
            for rv, st in leaves:
                if rv is None or rv[0] != "i" and rv != ("W",) or any(k[0] != "W" for k in st["lit"]): und += 1; continue
                if any(k[0] == "W" for k in st["lit"]) or rv == ("W",):
                    if rv != ("i", want): rep.bad(f"{s}:direction", f.sp_where(), f"{name}: the direction from one coordinate to another is derived from a difference that was cut to fewer than 32 bits: for distant cells it is wrong"); good = False
                    continue
                if rv[1] != want: rep.bad(f"{s}:direction", f.sp_where(), f"{name}: from one coordinate to another with signs of difference ({dx}, {dy}) the direction is {NAME[rv[1]] if rv[1] <= 8 else rv[1]}, not {NAME[want]}"); good = False
        if und: rep.count("undecided"); rep.notes.setdefault("not decided", []).append(f"{name}: {und} case(s) of {f.base}")
        elif good: rep.ok(f"{name}: the direction between two coordinates is the sign of their difference in all 9 cases", f.sp_where())
    # ---- who asks for it
    exp = {f.name: next(i for i in f.calls() if f.callee(i).endswith("::get_neighbours")).ops[2] for f in rd if f not in jump}
    for f in fs:
        ex = [i for i in f.calls() if i.d.get("fn") in exp]
        if not ex: continue
        for i in f.calls():
            if i.d.get("fn") not in {g.name for g in dirf}: continue
            cur = [e.ops[exp[e.d["fn"]][1]] for e in ex if isarg(exp[e.d["fn"]])]
            if not cur: continue
            if i.ops[0] in cur and i.ops[1] not in cur: rep.ok(f"{name}: a successor's direction leads from the expanded cell to it", i.where())
            elif i.ops[1] in cur and i.ops[0] not in cur: rep.bad(f"{s}:search:direction", i.where(), f"{name}: a successor's direction is taken from the successor to the expanded cell")
            else: rep.count("undecided")

def kind_of(d): return "start" if d == START else "straight" if 0 in OFF[d] else "diagonal"
def flag(rv, st):
    """the activity flag of the result: ("i", 0/1), ("JF", n) or None"""
    if rv is None: x = st["mem"].get((("ret",), 0)); v = x[0] if x else None
    elif rv[0] == "J": return ("JF", rv[1])
    elif rv[0] == "agg": v = dict(rv[1]).get((0,))
    else: v = rv
    for _ in range(3):
        if v is None: return None
        if v[0] == "low": v = v[1]
        elif v[0] == "Jw": v = ("JF", v[1])
    if v[0] == "i": return ("i", v[1] & 1)
    if v[0] in ("JF",):
        if v in st["lit"]: return ("i", int(st["lit"][v]))
        return v
    return None
def at_goal(lit):
    """did the path find the cell to be the goal? None when it cannot be told"""
    es = {k: x for k, x in lit.items() if k[0] == "E"}
    if ("E", "eq") in es and len(es) == 1: return not es[("E", "eq")]      # memcmp: zero when equal
    return False if not es else None if len(es) > 2 else False
def unknown_ret(st):
    """something was written to the result whose nature is unknown: whole-record values other than jump results and constants"""
    return any(b == ("ret",) and v is None and m == 8 for (b, o), (v, m) in st["mem"].items())
