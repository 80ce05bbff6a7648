"""prints one inlined solver: show.py SOLVER CFG [all]"""
import sys
from solverir import *
s, c = sys.argv[1:3]
build_tool()
_, _, p, e = unit((s, c))
m = Module(p)
for f in m.functions.values():
    print("fn", f.base)
    for b in f.order:
        print(f"b{b}: <- {f.blocks[b].preds}")
        for i in f.blocks[b].insts:
            n = f.callee(i) if i.op in ("call", "invoke") else ""
            if n.startswith(("llvm.lifetime", "llvm.experimental", "llvm.dbg")): continue
            def o(x): return "%" + str(x) if isinstance(x, int) else ":".join(map(str, x[:2]))
            x = n + " " if n else ("(indirect %s) " % o(i.d.get("callee")) if i.op in ("call", "invoke") else "")
            x += " ".join(o(y) for y in i.ops)
            for k in ("base", "off", "pred", "succ", "in", "normal", "unwind", "clauses", "aty", "cases", "default", "var", "sret"):
                if i.d.get(k) not in (None, []): x += f" {k}={str(i.d[k])[:60 if k == 'aty' else 200]}"
            l = i.loc
            print(f"   %{i.id} = {i.op} {i.ty} {x}   ; {f.d['vars'].get(str(i.id), [''])[0]} {str(l[0][1]) + ' ' + l[0][2][:24] if l else ''}"[:240])
