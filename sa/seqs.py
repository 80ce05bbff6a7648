"""Abstract interpretation of short functions over standard sequence containers: every container holds a symbolic sequence (an unknown original sequence, with elements dropped or added at either end)."""
from common import *
import copy
class Unknown(Exception): pass
ANY = (("seg", "some unknown", 0, 0),)
def parts_eq(n): return n.startswith("std::") and n.split("::")[-1] in ("operator==", "operator!=")
def c_of(o): return o[1] if isinstance(o, tuple) and o[0] == "c" else None
class St:
    def __init__(s): s.seq = {}; s.mem = {}; s.val = {}
    def fork(s):
        n = St(); n.seq = dict(s.seq); n.mem = dict(s.mem); n.val = dict(s.val); return n
class Seqs:
    """run(fn, args) yields (state, returned value) for every path; what a loop changes is widened to anything when control comes back to it"""
    def __init__(self, mod): self.mod = mod; self.n = 0
    # ---- sequences ----
    @staticmethod
    def length(q): return (sum(1 for x in q if x[0] == "elt") - sum(x[2] + x[3] for x in q if x[0] == "seg"), tuple(sorted(x[1] for x in q if x[0] == "seg")))
    def at(self, q, pos):
        """the element at begin + k or end - k"""
        kind, k = pos
        if kind == "b":
            if k < 0: raise Unknown("position before the beginning")
            for x in q:
                if x[0] == "elt":
                    if k == 0: return x
                    k -= 1
                else: return ("at", x[1], "b", x[2] + k)
        else:
            if k < 1: raise Unknown("position past the end")
            for x in reversed(q):
                if x[0] == "elt":
                    if k == 1: return x
                    k -= 1
                else: return ("at", x[1], "e", x[3] + k)
        raise Unknown("element of an empty sequence")
    def drop(self, q, pos):
        kind, k = pos; q = list(q)
        if kind == "b" and k == 0:
            if not q: raise Unknown("removal from an empty sequence")
            x = q[0]
            q[0:1] = [("seg", x[1], x[2] + 1, x[3])] if x[0] == "seg" else []
        elif kind == "e" and k == 1:
            if not q: raise Unknown("removal from an empty sequence")
            x = q[-1]
            q[-1:] = [("seg", x[1], x[2], x[3] + 1)] if x[0] == "seg" else []
        else: raise Unknown("removal inside the sequence")
        return tuple(q)
    def put(self, q, pos, xs):
        if pos == ("b", 0): return tuple(xs) + q
        if pos == ("e", 0): return q + tuple(xs)
        raise Unknown("insertion inside the sequence")
    # ---- values ----
    def ev(self, st, fr, o):
        if isinstance(o, int): 
            if (fr, o) not in st.val: raise Unknown(f"value %{o}")
            return st.val[(fr, o)]
        if o[0] == "a": return st.val[(fr, o)]
        if o[0] == "c":
            try: return int(o[1])
            except ValueError: return {"true": 1, "false": 0}.get(o[1], ("const",) + tuple(o[1:]))
        return ("const",) + tuple(o)
    def elem(self, st, p):
        """the element a pointer leads to"""
        v = st.mem.get(p)
        return v if v is not None else ("old", p)
    def iter(self, st, v):
        """an iterator, by value or by address"""
        if isinstance(v, tuple) and v[0] == "it": return v
        w = st.mem.get(v)
        if isinstance(w, tuple) and w[0] == "it": return w
        raise Unknown("an iterator that was not followed")
    def region(self, st, p):
        if p not in st.seq: raise Unknown(f"a container that was not followed ({p})")
        return p
    # ---- execution ----
    def run(self, fn, args, st, depth=0):
        self.n += 1; fr = self.n
        if depth > 12: raise Unknown("recursion")
        for k, a in enumerate(args): st.val[(fr, ("a", k))] = a
        work = [(st, fn.entry, None, {})]; out = []
        while work:
            st, b, prev, seen = work.pop()
            B = fn.blocks[b]; seen = dict(seen)
            if b in seen:
                old = seen[b]; q = {k for k in set(st.seq) | set(old.seq) if st.seq.get(k) != old.seq.get(k)}; mm = {k for k in set(st.mem) | set(old.mem) if st.mem.get(k) != old.mem.get(k)}
                if all(old.seq.get(k) == ANY for k in q) and all(old.mem.get(k, 0) is None for k in mm): continue
                for k in q: st.seq[k] = ANY
                for k in mm: st.mem[k] = ("any", k)
                old = st.fork()
                for k in mm: old.mem[k] = None
                seen[b] = old
            else: seen[b] = st.fork()
            new = {}
            for i in B.insts:
                if i.op != "phi": break
                for blk, v in i.d["in"]:
                    if blk == prev: new[(fr, i.id)] = self.ev(st, fr, v if not isinstance(v, list) else tuple(v))
            if b in fn.loops() and any(k in st.val and st.val[k] != v for k, v in new.items()): new = {k: ("any", k) for k in new}
            st.val.update(new)
            states = [st]
            for i in B.insts:
                if i.op == "phi": continue
                nxt = []
                for s in states:
                    if i.op in ("br", "switch", "ret", "unreachable", "resume") : nxt.append(s)
                    else: nxt += self.step(fn, fr, i, s, depth)
                states = nxt
            t = B.insts[-1]
            for s in states:
                if t.op == "ret": out.append((s, self.ev(s, fr, t.ops[0]) if t.ops else None))
                elif t.op == "invoke": work.append((s, t.d["normal"], b, seen))
                elif t.op == "br" and len(t.d["succ"]) == 1: work.append((s, t.d["succ"][0], b, seen))
                elif t.op == "br":
                    for d, tr in zip(t.d["succ"], (1, 0)):
                        n = self.assume(s.fork(), self.ev(s, fr, t.ops[0]), tr)
                        if n is not None: work.append((n, d, b, seen))
                elif t.op in ("unreachable", "resume"): pass
                else: raise Unknown(t.op)
        return out
    def assume(self, st, v, tr):
        if isinstance(v, int): return st if bool(v & 1) == bool(tr) else None
        if isinstance(v, tuple) and v[0] == "not": return self.assume(st, v[1], 1 - tr)
        if isinstance(v, tuple) and v[0] == "empty":
            q = v[2]; cur = st.seq.get(v[1])
            if not any(x[0] == "seg" for x in q): return st if (len(q) == 0) == bool(tr) else None
            if tr:
                if any(x[0] == "elt" for x in q): return None
                if cur == q: st.seq[v[1]] = ()
            return st
        return st
    def step(self, fn, fr, i, st, depth):
        V = lambda o: self.ev(st, fr, o)
        def res(v): st.val[(fr, i.id)] = v; return [st]
        op = i.op
        if op == "alloca": return res(("loc", fr, i.id))
        if op in ("bitcast", "freeze", "addrspacecast", "zext", "trunc", "sext", "inttoptr", "ptrtoint"): return res(V(i.ops[0]))
        if op == "getelementptr":
            p = V(i.ops[0]); off = i.d.get("off")
            if off == 0 or all(c_of(o) in ("0", 0) for o in i.ops[1:]): return res(p)
            return res(("off", p, off if off is not None else repr(i.ops[1:])))
        if op == "store":
            p = V(i.ops[1]); st.mem[p] = V(i.ops[0]); return [st]
        if op == "load":
            p = V(i.ops[0]); v = st.mem.get(p)
            return res(v if v is not None else ("old", p))
        if op == "icmp" and i.d["pred"] in ("eq", "ne"):
            a, b = V(i.ops[0]), V(i.ops[1]); neg = i.d["pred"] == "ne"
            for x, y in ((a, b), (b, a)):
                if isinstance(x, tuple) and x[0] == "size" and y == 0:
                    r = ("empty", x[1], x[2]); return res(("not", r) if neg else r)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ("arg", "loc") and b[0] in ("arg", "loc"): return res(int((a == b) != neg))
            if isinstance(a, int) and isinstance(b, int): return res(int((a == b) != neg))
            try: ia, ib = self.iter(st, a), self.iter(st, b)
            except (Unknown, TypeError): ia = None
            if ia is not None and ia[1] == ib[1] and {ia[2:4], ib[2:4]} == {("b", 0), ("e", 0)}:
                r = ("empty", ia[1], st.seq[ia[1]]); return res(("not", r) if neg else r)
            if isinstance(a, tuple) and a[0] in ("empty", "not") and isinstance(b, int): return res(("not", a) if (b == 0) != neg else a)
            return res(("cmp", i.d["pred"], a, b))
        if op == "xor" and c_of(i.ops[1]) in ("true", "1", "-1"):
            return res(("not", V(i.ops[0])))
        if op in ("sub", "add"):
            a, b = V(i.ops[0]), V(i.ops[1])
            if isinstance(a, int) and isinstance(b, int): return res(a + b if op == "add" else a - b)
            if isinstance(b, int) and isinstance(a, tuple) and a[0] in ("size", "sizek"):
                k = (a[3] if a[0] == "sizek" else 0) + (b if op == "add" else -b)
                return res(("sizek", a[1], a[2], k))
            return res((op, a, b))
        if op in ("call", "invoke"): return self.call(fn, fr, i, st, depth)
        if op in ("landingpad", "extractvalue", "insertvalue", "fence"): return res(("other", i.id))
        try: return res((op,) + tuple(V(o) for o in i.ops))
        except Unknown: return res(("other", i.id))
    def call(self, fn, fr, i, st, depth):
        name = fn.callee(i); last = name.split("::")[-1]
        V = lambda o: self.ev(st, fr, o)
        def res(v): st.val[(fr, i.id)] = v; return [st]
        if parts_eq(name) and len(i.ops) >= 2 and self.isit(st, V(i.ops[0])) and self.isit(st, V(i.ops[1])):
            ia, ib = self.iter(st, V(i.ops[0])), self.iter(st, V(i.ops[1]))
            if ia[1] == ib[1] and {ia[2:4], ib[2:4]} == {("b", 0), ("e", 0)}:
                r = ("empty", ia[1], st.seq[ia[1]]); return res(("not", r) if name.endswith("!=") else r)
        if name.startswith("llvm."):
            if last.startswith("llvm.memcpy") or last.startswith("llvm.memmove"):
                d, s = V(i.ops[0]), V(i.ops[1])
                if s in st.seq: raise Unknown("a container copied as bytes")
                st.mem[d] = st.mem.get(s, ("old", s))
            elif last.startswith("llvm.expect"): return res(V(i.ops[0]))
            return [st]
        g = self.mod.functions.get(i.d.get("fn")) if i.d.get("fn") else None
        if g is not None and not name.startswith("std::"):
            out = []
            for s, v in self.run(g, [V(o) for o in i.ops], st, depth + 1): s.val[(fr, i.id)] = v; out.append(s)
            return out
        if not name.startswith("std::"):
            raise Unknown(f"a call of {name or 'a function pointer'}")
        a = [V(o) for o in i.ops]
        parts = name.split("::"); cls = parts[-2] if len(parts) > 1 else ""
        cls = {"_Vector_base": "vector", "_Deque_base": "deque", "__cxx11": ""}.get(cls, cls)
        if cls in ("vector", "deque", "list"):
            sret = []
            if last in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "insert", "emplace", "erase") and i.ty == "void": sret = [a[0]]; a = a[1:]
            def give(v):
                if sret: st.mem[sret[0]] = v; return [st]
                return res(v)
            r = a[0]
            if last == cls:                                      # constructors
                src = [x for x in a[1:] if x in st.seq]; its = [x for x in a[1:] if self.isit(st, x)]
                if src:
                    st.seq[r] = st.seq[src[0]]
                    if "&&" in self.mod.dem(i.d["fn"]).split(cls + "(", 1)[-1].split(",")[0]: st.seq[src[0]] = (("seg", f"moved from {src[0]}", 0, 0),)
                elif len(its) == 2: st.seq[r] = self.range(st, its[0], its[1])
                elif a[1:] and self.mod.dem(i.d["fn"]).split("::" + last + "(", 1)[-1].startswith("unsigned long"): st.seq[r] = () if a[1] == 0 else (("seg", "a number of new elements", 0, 0),)
                else: st.seq[r] = ()
                return [st]
            if last == "~" + cls: st.seq.pop(r, None); return [st]
            q = st.seq[self.region(st, r)]
            if last == "operator=":
                if a[1] in st.seq:
                    mv = "&&" in self.mod.dem(i.d["fn"])
                    if a[1] == r:
                        if mv: st.seq[r] = (("seg", "a container moved into itself", 0, 0),)
                    else:
                        st.seq[r] = st.seq[a[1]]
                        if mv: st.seq[a[1]] = (("seg", f"moved from {a[1]}", 0, 0),)
                    return res(r)
                raise Unknown("an assignment")
            if last == "swap":
                o = self.region(st, a[1]); st.seq[r], st.seq[o] = st.seq[o], q; return [st]
            if last == "assign" and len(a) == 3 and self.isit(st, a[1]): st.seq[r] = self.range(st, a[1], a[2]); return [st]
            if last in ("push_back", "emplace_back", "push_front", "emplace_front"):
                e = ("elt",) + tuple(self.elem(st, x) for x in a[1:])
                st.seq[r] = self.put(q, ("e", 0) if last.endswith("back") else ("b", 0), [e])
                return res(("ref", r, self.at(st.seq[r], ("e", 1) if last.endswith("back") else ("b", 0)))) if i.ty == "ptr" else [st]
            if last in ("pop_back", "pop_front"): st.seq[r] = self.drop(q, ("e", 1) if last == "pop_back" else ("b", 0)); return [st]
            if last in ("front", "back"): return res(("ref", r, self.at(q, ("b", 0) if last == "front" else ("e", 1))))
            if last in ("operator[]", "at"):
                k = a[1]
                if isinstance(k, int): return res(("ref", r, self.at(q, ("b", k))))
                if isinstance(k, tuple) and k[0] == "sizek" and k[1] == r and k[2] == q: return res(("ref", r, self.at(q, ("e", -k[3]))))
                raise Unknown("an element at an unknown position")
            if last == "empty": return res(("empty", r, q))
            if last == "size": return res(("size", r, q))
            if last in ("clear",): st.seq[r] = (); return [st]
            if last == "resize":
                if a[1] == 0: st.seq[r] = (); return [st]
                if isinstance(a[1], tuple) and a[1][0] == "sizek" and a[1][1:3] == (r, q) and a[1][3] == -1: st.seq[r] = self.drop(q, ("e", 1)); return [st]
                raise Unknown("a resize")
            if last in ("begin", "cbegin"): return give(("it", r, "b", 0, 1))
            if last in ("end", "cend"): return give(("it", r, "e", 0, 1))
            if last in ("rbegin", "crbegin"): return give(("it", r, "e", 0, -1))
            if last in ("rend", "crend"): return give(("it", r, "b", 0, -1))
            if last in ("insert", "emplace"):
                it = self.iter(st, a[1])
                if it[1] != r: raise Unknown("an iterator of another container")
                if last == "insert" and len(a) == 4 and self.isit(st, a[2]): xs = self.range(st, a[2], a[3])
                else: xs = [("elt",) + tuple(self.elem(st, x) for x in a[2:])]
                st.seq[r] = self.put(q, it[2:4], xs); return give(it)
            if last == "erase":
                it = self.iter(st, a[1])
                if it[1] != r: raise Unknown("an iterator of another container")
                if len(a) == 3:
                    if self.range(st, a[1], a[2]) == q: st.seq[r] = ()
                    else: raise Unknown("a partial erase")
                else: st.seq[r] = self.drop(q, it[2:4])
                return give(it)
            if last in ("get_allocator", "capacity", "max_size", "data") : return res(("alloc", r)) if i.ty != "void" else [st]
            if last in ("reserve", "shrink_to_fit"): return [st]
            raise Unknown(f"a call of {name}")
        if "polymorphic_allocator" in name or "memory_resource" in name: return res(("alloc", i.id)) if i.ty != "void" else [st]
        if cls in ("__normal_iterator", "_Deque_iterator", "reverse_iterator") or last in ("prev", "next", "advance"):
            if i.ty == "void" and last not in cls and last not in ("advance",) and not last.startswith("operator+=") :
                if last == cls or last == "base": pass
            sret = None
            if i.ty == "void" and last in ("operator+", "operator-", "prev", "next", "base") : sret = a[0]; a = a[1:]
            if last == cls and len(a) == 2: st.mem[a[0]] = self.turn(self.iter(st, a[1])) if cls == "reverse_iterator" else self.iter(st, a[1]); return [st]
            it = self.iter(st, a[0])
            def mv(k):
                k *= it[4]
                return it[:3] + ((it[3] + k) if it[2] == "b" else (it[3] - k),) + it[4:]
            if last in ("operator*", "operator->"):
                pos = (it[2], it[3])
                if it[4] < 0: pos = (it[2], it[3] - 1) if it[2] == "b" else (it[2], it[3] + 1)
                return res(("ref", it[1], self.at(st.seq[it[1]], pos)))
            if last in ("operator+", "operator-", "prev", "next", "advance", "operator+=", "operator-="):
                k = a[1] if len(a) > 1 else 1
                if not isinstance(k, int): raise Unknown("iterator arithmetic")
                v = mv(-k if last in ("operator-", "prev", "operator-=") else k)
                if last in ("advance", "operator+=", "operator-="): st.mem[a[0]] = v; return res(a[0])
                if sret is not None: st.mem[sret] = v; return [st]
                return res(v)
            if last in ("operator++", "operator--"):
                st.mem[a[0]] = mv(1 if last == "operator++" else -1); return res(a[0])
            if last == "base" and cls == "reverse_iterator":
                v = it[:4] + (1,)
                if sret is not None: st.mem[sret] = v; return [st]
                return res(v)
        if last in ("size", "empty") and parts[:-1] == ["std"] and a[0] in st.seq: return res((last, a[0], st.seq[a[0]]))
        if last in ("begin", "end", "cbegin", "cend") and parts[:-1] == ["std"]:
            if i.ty == "void": st.mem[a[0]] = ("it", a[1], "b" if "begin" in last else "e", 0, 1); return [st]
            return res(("it", a[0], "b" if "begin" in last else "e", 0, 1))
        if last == "swap" and parts[:-1] == ["std"] and len(a) == 2 and a[0] in st.seq and a[1] in st.seq:
            st.seq[a[0]], st.seq[a[1]] = st.seq[a[1]], st.seq[a[0]]; return [st]
        if last in ("move", "forward", "addressof", "as_const", "__addressof"): return res(a[0])
        if last == "terminate": return []
        raise Unknown(f"a call of {name}")
    def isit(self, st, v):
        try: self.iter(st, v); return True
        except (Unknown, TypeError): return False
    def turn(self, it): return it[:4] + (-it[4],)
    def range(self, st, a, b):
        a, b = self.iter(st, a), self.iter(st, b)
        if a[1] == b[1] and a[2:4] == ("b", 0) and b[2:4] == ("e", 0) and a[4] == b[4] == 1: return st.seq[a[1]]
        if a[1] == b[1] and a[2:4] == ("e", 0) and b[2:4] == ("b", 0) and a[4] == b[4] == -1: return (("seg", "reversed " + "+".join(map(str, st.seq[a[1]])), 0, 0),)
        raise Unknown("a range that is not the whole container")
