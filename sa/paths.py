"""Exploration of a function's control flow that follows flags: booleans and null pointers held in registers, merges and stack slots decide the branches that test them."""
from common import *
from ir import *

class Flags:
    def __init__(self, S):
        self.S, self.fn, self.sem = S, S.fn, S.sem
        fn = self.fn
        self.slots = {}          # alloca -> stores into it (whole slot)
        self.rel = set()         # values that decide a branch
        self.slotrel = set()
        w = []
        for b in fn.order:
            t = fn.term(b)
            if t.op == "br" and len(t.d["succ"]) == 2: w.append(t.ops[0])
        while w:
            v = w.pop()
            if not isinstance(v, int) or v in self.rel: continue
            i = fn.inst.get(v)
            if i is None: continue
            if i.op == "phi" and i.ty in ("i1", "i8", "ptr"): self.rel.add(v); w += [tup(x) for _, x in i.d["in"]]
            elif i.op in ("zext", "sext", "trunc", "freeze", "xor", "and", "or", "select") : self.rel.add(v); w += list(i.ops)
            elif i.op == "icmp" and i.d["pred"] in ("eq", "ne") and any(self.zero(o) or isc(o, 1) for o in i.ops if isinstance(o, tuple)): self.rel.add(v); w += list(i.ops)
            elif i.op == "call" and fn.callee(i).startswith("llvm.expect"): self.rel.add(v); w.append(i.ops[0])
            elif i.op == "load" and (i.ty == "ptr" or i.d["bytes"] == 1):
                R, o = self.sem.addr(i.ops[0])
                if self.sem.alloca(R) and o == 0 and fn.inst[R[1]].d.get("size") == i.d["bytes"]: self.rel.add(v); self.slotrel.add(R[1]); w += [s.ops[0] for s in self.stores(R[1])]
            elif i.op in ("call", "invoke") and i.ty == "ptr": self.rel.add(v)
    def zero(self, o): return isinstance(o, tuple) and (o[0] == "null" or cval(o) == 0)
    def stores(self, a):
        if a not in self.slots: self.slots[a] = [i for b in self.fn.order for i in self.fn.blocks[b].insts if i.op == "store" and self.sem.addr(i.ops[1]) == (("v", a), 0)]
        return self.slots[a]
    def val(self, v, env, depth=0):
        """False/True (zero or null / not) or None"""
        if isinstance(v, tuple):
            if v[0] == "null": return False
            c = cval(v); return None if c is None else c != 0
        if depth > 24: return None
        if ("v", v) in env: return env[("v", v)]
        i = self.fn.inst.get(v)
        if i is None: return None
        n = lambda o: self.val(o, env, depth + 1)
        if i.op in ("zext", "sext", "trunc", "freeze"): return n(i.ops[0])
        if i.op == "xor" and i.ty in ("i1", "i8"):
            a, b = n(i.ops[0]), n(i.ops[1])
            return None if a is None or b is None else a != b
        if i.op == "and" and i.ty == "i1":
            a, b = n(i.ops[0]), n(i.ops[1])
            return False if a is False or b is False else True if a and b else None
        if i.op == "or" and i.ty == "i1":
            a, b = n(i.ops[0]), n(i.ops[1])
            return True if a or b else False if a is False and b is False else None
        if i.op == "select":
            c = n(i.ops[0]); return None if c is None else n(i.ops[1 if c else 2])
        if i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
            for a, b in ((0, 1), (1, 0)):
                if self.zero(i.ops[b]):
                    x = n(i.ops[a]); return None if x is None else (not x) == (i.d["pred"] == "eq")
                if isc(i.ops[b], 1) and self.fn.is_boolish(i.ops[a]):
                    x = n(i.ops[a]); return None if x is None else x == (i.d["pred"] == "eq")
        if i.op == "call" and self.fn.callee(i).startswith("llvm.expect"): return n(i.ops[0])
        if i.op in ("alloca", "getelementptr"): return True
        if i.op in ("call", "invoke") and self.fn.callee(i).endswith(("memory_resource::allocate",)): return True
        return None
    def explore(self, state, event, edge=None, limit=150000, entry=None, unwind=True):
        """every (block, flags, state); event(inst, state) -> state, edge(src, dst, state) -> state or None to stop"""
        fn = self.fn; e0 = entry if entry is not None else fn.entry
        start = (e0, frozenset(), state); seen = {start}; w = [start]
        while w:
            b, fe, st = w.pop(); env = dict(fe)
            for i in fn.blocks[b].insts:
                if i.op == "phi": continue
                if i.op == "load" and i.id in self.rel:
                    R, o = self.sem.addr(i.ops[0]); x = env.get(("m", R[1])) if self.sem.alloca(R) and o == 0 else None
                    if x is None: env.pop(("v", i.id), None)
                    else: env[("v", i.id)] = x
                elif i.op == "store":
                    R, o = self.sem.addr(i.ops[1])
                    if self.sem.alloca(R) and R[1] in self.slotrel:
                        x = self.val(i.ops[0], env)
                        if x is None: env.pop(("m", R[1]), None)
                        else: env[("m", R[1])] = x
                st = event(i, st)
                if st is None: break
            if st is None: continue
            t = fn.term(b); succ = list(fn.blocks[b].succs)
            learn = None
            if t.op == "br" and len(t.d["succ"]) == 2:
                x = self.val(t.ops[0], env)
                if x is not None: succ = [t.d["succ"][0 if x else 1]]
                else: learn = t
            if t.op == "invoke" and not unwind: succ = [s for s in succ if s != t.d.get("unwind")]
            for s in succ:
                e2 = dict(env)
                if learn is not None and learn.d["succ"][0] != learn.d["succ"][1]: self.learn(learn.ops[0], s == learn.d["succ"][0], e2)
                new = {}
                for i in fn.blocks[s].insts:
                    if i.op != "phi": break
                    if i.id in self.rel:
                        x = self.val([tup(y) for k, y in i.d["in"] if k == b][0], e2)
                        new[("v", i.id)] = x
                for k, x in new.items():
                    if x is None: e2.pop(k, None)
                    else: e2[k] = x
                s2 = edge(b, s, st) if edge else st
                if s2 is None and edge: continue
                n = (s, frozenset((k, x) for k, x in e2.items() if self.alive(k, s)), s2)
                if n not in seen:
                    seen.add(n); w.append(n)
                    if len(seen) > limit: raise CheckError(f"{self.S.name}: too many paths")
        return seen
    def learn(self, v, x, env, depth=0):
        """a branch on v went the way of x"""
        if depth > 8 or not isinstance(v, int): return
        i = self.fn.inst[v]
        if i.op in ("phi", "load") and v in self.rel: env[("v", v)] = x
        elif i.op in ("call", "invoke") and v in self.rel and i.ty == "ptr": env[("v", v)] = x
        elif i.op in ("zext", "trunc", "freeze"): self.learn(i.ops[0], x, env, depth + 1)
        elif i.op == "xor" and any(isc(o, 1) for o in i.ops if isinstance(o, tuple)): self.learn([o for o in i.ops if not isinstance(o, tuple)][0], not x, env, depth + 1)
        elif i.op == "icmp" and i.d["pred"] in ("eq", "ne"):
            for a, b in ((0, 1), (1, 0)):
                if self.zero(i.ops[b]): self.learn(i.ops[a], x == (i.d["pred"] == "ne"), env, depth + 1); return
    def alive(self, k, b):
        if not hasattr(self, "_use"):
            self._use = {}; fn = self.fn
            users = {}
            for bb in fn.order:
                for i in fn.blocks[bb].insts:
                    ops = [tup(x) for _, x in i.d["in"]] if i.op == "phi" else i.ops
                    for o in ops:
                        if isinstance(o, int): users.setdefault(o, set()).add(i.bb)
                    if i.op == "phi":
                        for pb, x in i.d["in"]:
                            x = tup(x)
                            if isinstance(x, int): users.setdefault(x, set()).add(pb)
            self._users = users; self._reach = {}
        if k[0] == "m": return True
        # transitively used further on (through conversions and compares)
        if k not in self._use:
            out, w = set(), [k[1]]; seen = set()
            while w:
                v = w.pop()
                if v in seen: continue
                seen.add(v); out |= self._users.get(v, set())
                for bb in self._users.get(v, ()):
                    for i in self.fn.blocks[bb].insts:
                        if i.op in ("zext", "sext", "trunc", "freeze", "xor", "and", "or", "icmp", "select") and v in i.ops: w.append(i.id)
            self._use[k] = out
        if b not in self._reach: self._reach[b] = set(self.fn.reach([b])) | {b}
        return bool(self._use[k] & self._reach[b])
