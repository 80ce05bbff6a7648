"""Loads the inlined solve() of every solver and configuration."""
from common import *
from ir import Module
KEEP = [r"^chdr::heap::", r"^chdr::existence_set::", r"^chdr::queue::", r"^chdr::stack::", r"_pool::", r"^sa::own_resource::", r"::get_neighbours$", r"^chdr::utils::to_1d$", r"^chdr::utils::to_nd$",
        r"::is_active$", r"^chdr::mazes::grid::", r"^chdr::mazes::graph::", r"^std::vector::", r"^std::pmr::", r"^std::unordered_map::", r"^std::multiset::", r"^std::optional::", r"^std::_Rb_tree", r"^std::_Node_handle",
        r"^std::deque::", r"^std::__exception_ptr", r"^chdr::heuristics::", r"^std::map::", r"^std::set::", r"^std::multimap::", r"^std::unordered_set::",
        r"^std::(find|find_if|find_if_not|reverse)$"]
ALSO = [r"^chdr::", r"::jump$", r"^std::(find|find_if|find_if_not|reverse)$"]
def unit(sc):
    s, c = sc
    bc, err = compile_bc("solver.cpp", (f"SOLVER={s}", f"CFG={c}"))
    if bc is None: return (s, c, None, err)
    return (s, c, dump(bc, ["^root_"], KEEP, also=ALSO), None)
def prepare(tier="quick", extra=()):
    build_tool()
    return pmap(unit, list(solver_units()) + list(extra))

LIBKEEP = [r"^std::"]
def lib(roots=(r"^chdr::",), keep=(), inlines=(), passes=None):
    """the library's own classes, each function with the library's other functions inlined"""
    build_tool()
    bc, err = compile_bc("lib.cpp")
    if bc is None: raise CheckError("lib.cpp does not compile: " + err[:600])
    return Module(dump(bc, list(roots), LIBKEEP + list(keep), [r"^std::(__)?exchange$"] + list(inlines), passes))
