"""Every coordinate/index conversion in a search concerns the searched maze."""
from search import *
def unit(S, r):
    n = 0
    for i in S.fn.calls():
        c = S.fn.callee(i)
        if c not in ("chdr::utils::to_1d", "chdr::utils::to_nd"): continue
        k = (1 if 0 in (i.d.get("sret") or []) else 0) + 1
        if S.sem.is_size(i.ops[k], i): r.ok(f"{S.name}: {c.rpartition('::')[2]} with the size of the maze", i.where())
        else: r.bad(f"{S.solver}:{c.rpartition('::')[2]}:size", i.where(), f"{S.name}: {c} is not given the size of the maze that is searched")
    if not r.ob: return "skip"
