"""The heap's members over linear inequalities."""
import re
from solverir import lib
from num import *
THIS = (("obj", "this"), cst(0))
PUBLIC = {"heap", "operator=", "empty", "size", "capacity", "front", "top", "back", "enqueue", "push", "emplace", "enqueue_nosort", "push_nosort", "emplace_nosort", "erase", "dequeue", "pop", "pop_back", "sort_up", "sort_down", "contains", "reserve",
          "swap", "clear", "shrink_to_fit", "at", "wipe", "operator[]", "lower_bounds", "upper_bounds", "insert", "begin", "cbegin", "end", "cend"}
ADD = {"enqueue", "push", "emplace", "enqueue_nosort", "push_nosort", "emplace_nosort"}
NONEMPTY = {"front", "top", "back", "dequeue", "pop", "pop_back", "erase", "sort_up", "sort_down"}
class HeapClient(Client):
    def __init__(self, intercept): self.intercept = intercept; self.obs = {}; self.backs = []
    def at(self, num, st, p):
        if isinstance(p, Ptr) and p.r[0] == "elem" and p.r[1] == THIS and p.off == cst(0): return ("elem", p.r[2])
        if isinstance(p, Ptr): return ("value", num.token(st, p))
        return ("?",)
    def access(self, num, st, i, r, k, what):
        if r[0][0] != "obj" or what.endswith("+"): return
        n = num.sizeof(st, r); ok = st.entails(k) and st.entails(n - k - 1)
        o = self.obs.setdefault((i.fn.base, i.id, i.where()), [True, what, None])
        if not ok: o[0] = False; o[2] = f"position {k} of {n}"
    def range(self, num, st, i, r, a, b, n):
        if r[0][0] != "obj": return
        o = self.obs.setdefault((i.fn.base, i.id, i.where()), [True, "erase", None])
        if not (st.entails(a) and st.entails(b - a) and st.entails(n - b)): o[0] = False; o[2] = f"positions {a} to {b} of {n}"
    def swap(self, num, st, i, a, b): pass
    def newsize(self, st, r, v): st.add(v, cst(1 << 56) - v)
    def copy(self, num, st, i, d, s, n):
        if self.at(num, st, d)[0] == "elem" or d.r[0] == "loc": st.log += (("copy", self.at(num, st, d) if self.at(num, st, d)[0] == "elem" else ("local", d.r), self.at(num, st, s), num.token(st, s), i.where()),)
    def call(self, num, st, fn, i, name, a):
        last = name.split("::")[-1]
        if last == "operator()" and i.ty == "i1" and len(a) == 3:
            n = num.new("cmp"); st.log += (("cmp", self.at(num, st, a[1]), self.at(num, st, a[2]), n, i.where(), num.token(st, a[1]) if isinstance(a[1], Ptr) else None, num.token(st, a[2]) if isinstance(a[2], Ptr) else None),)
            return [(st, "ok", ("named", n))]
        if self.intercept and name in ("chdr::heap::sort_up", "chdr::heap::sort_down"):
            p = a[1]; w = self.at(num, st, p)
            o = self.obs.setdefault((fn.base, i.id, i.where()), [True, last, None])
            n = num.sizeof(st, THIS)
            if w[0] != "elem" or not (st.entails(w[1] - 1) and st.entails(n - w[1] - 1)): o[0] = False; o[2] = f"{w[1] if w[0] == 'elem' else 'something else'} of {n}"
            st.log += ((last, w[1] if w[0] == "elem" else None, i.where(), n),)
            for k in [k for k in st.mem if k[0][0] == "elem"]: num.kill(st, k)
            if i.ty == "i64":
                v = atom(num.new("up")); st.add(v - 1, num.sizeof(st, THIS) - 1 - v); return [(st, "ok", v)]
            return [(st, "ok", None)]
        if name == "std::distance" and all(isinstance(x, Ptr) and x.r[0] == "elem" for x in a[:2]):
            return [(st, "ok", a[1].r[2] - a[0].r[2])]
        if last in ("make_move_iterator",) and isinstance(a[0], Ptr): return [(st, "ok", a[0])]
        if name == "std::swap" and all(isinstance(x, Ptr) and x.r[0] == "elem" and x.r[1] == THIS for x in a[:2]):
            st.log += (("swap", a[0].r[2], a[1].r[2], i.where()),); self.swap(num, st, i, a[0], a[1])
            x, y = num.token(st, a[0]), num.token(st, a[1])
            for k in [k for k in st.mem if k[0][0] == "elem"]: num.kill(st, k)
            st.mem[(a[0].r, "obj")], st.mem[(a[1].r, "obj")] = y, x; return [(st, "ok", None)]
        if name == "std::swap" and all(isinstance(x, Ptr) for x in a[:2]) and any((x.r, x.off) in st.size for x in a[:2]):
            r, o = (a[0].r, a[0].off), (a[1].r, a[1].off); x, y = num.sizeof(st, r), num.sizeof(st, o); st.size[r], st.size[o] = y, x; return [(st, "ok", None)]
        return None
def members(M):
    for n, f in M.functions.items():
        m = re.match(r"chdr::heap::([^:]+)$", f.base)
        if not m or m[1] not in PUBLIC: continue
        name = m[1]
        k = re.match(r".*?chdr::heap<.*?, (\d+)ul>::", f.dem)
        pm = re.search(rf"::{re.escape(name)}(?:<.*?>)?\((.*)\)(?: const)?(?: \[.*)?$", f.dem); pl = pm[1] if pm else ""
        yield f, name, int(k[1]) if k else 2, pl
def setup(f, name, pl, num):
    """entry state and arguments: any heap (also one that was wiped or moved from), any element, any position"""
    st = St(); n = num.sizeof(st, THIS); st.x[("esz", THIS)] = 8
    args = [Ptr(*THIS)]; info = {"n": n}
    if f.d.get("sret") or (name in ("dequeue",) and f.term(f.order[-1]).op == "ret" and not f.term(f.order[-1]).ops): pass
    if name in NONEMPTY: st.add(n - 2)
    if name in ("heap", "operator=", "swap") and re.match(r"chdr::heap<", pl):
        o = (("obj", "other"), cst(0)); info["other"] = num.sizeof(st, o); args.append(Ptr(*o))
    elif name == "heap" and re.match(r"std::(pmr::)?vector<", pl):
        o = (("obj", "container"), cst(0)); info["source"] = num.sizeof(st, o); args.append(Ptr(*o))
    elif name in ("erase", "sort_up", "sort_down") and pl.endswith("const&"):
        k = atom("k"); st.add(k - 1, n - 1 - k); args.append(Ptr(("elem", THIS, k))); info["k"] = k
    elif name in ("erase", "insert") and "__normal_iterator" in pl and not (name == "insert" and len(f.d.get("args", [])) == 3 and False):
        if name == "erase" and pl.count("__normal_iterator") == 1 or name == "insert" and ("sa::item const&" in pl or "sa::item&&" in pl):
            k = atom("k"); st.add(k - 1, n - (1 if name == "erase" else 0) - k); args.append(Ptr(("elem", THIS, k))); info["k"] = k
        elif name == "erase":
            a, b = atom("first"), atom("last"); st.add(a - 1, b - a, n - b); args += [Ptr(("elem", THIS, a)), Ptr(("elem", THIS, b))]; info["range"] = (a, b)
    if name == "heap": st.size.pop(THIS, None)
    for k in range(len(args), 6):
        v = Ptr(("obj", f"arg{k}")); args.append(v)
    if name in ("at", "operator[]") or (name in ("heap", "reserve") and pl.startswith("unsigned long")):
        v = atom("arg"); st.add(v, cst(W - 1) - v); args[1] = v
    return st, args, info
