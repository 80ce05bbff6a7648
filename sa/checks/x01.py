"""X01: no hidden mutable state."""
from search import *
from effects import *
import solverir
from checks import x02
RULE = ("In every function of the library that a solve can run (the inlined solve(), all library functions it calls, and every function of the memory resources, containers and mazes), each object of static or thread storage duration that is not "
        "constant is only ever read: no store, block copy or other write reaches it, no function that may write receives its address, and no function-local static is initialised at run time. No library routine with process-wide "
        "modifiable state (default memory resource, locale, environment, random generator, strtok, ...) is called to change it. The maze, which concurrent solves share, is only read as well (rule of X02).")
TECH = "interprocedural may-write analysis over global and thread-local objects"
MIN_OB = 1500
STATEFUL = re.compile(r"^(std::pmr::set_default_resource|std::set_new_handler|std::set_terminate|std::(s?rand|strtok|setlocale|tmpnam|localtime|gmtime|asctime|ctime|signal|atexit|at_quick_exit)|s?rand|[sde]rand48|strtok|setlocale|setenv|putenv|unsetenv|localtime|gmtime|asctime|ctime|signal|atexit|std::locale::global|chdir|umask|mallopt)$")
READERS = re.compile(r"^(llvm\.|__cxa_(throw|allocate_exception|begin_catch|end_catch|rethrow|bad_cast)|std::terminate|__clang_call_terminate|__assert_fail)")

def globals_of(mod):
    g = {}
    for x in mod.globals:
        if x.get("const") or x["name"].startswith(("_ZTV", "_ZTI", "_ZTS", "_ZTT", "llvm.", ".str", "__dso_handle")): continue
        g[x["name"]] = x
    return g
def names(o):
    """global names an operand mentions"""
    if isinstance(o, tuple):
        if o and o[0] in ("g", "goff") and isinstance(o[1], str): yield o[1]
        elif o and o[0] == "ce":
            for m in re.finditer(r"@\"?([\w.$]+)\"?", o[1]): yield m.group(1)
        else:
            for x in o:
                if isinstance(x, tuple): yield from names(x)

def scan(mod, fns, label, r):
    G = globals_of(mod); E = Effects(mod); seen_g = set()
    for f in fns:
        used = set(); clean = True
        for i in f.insts():
            for o in i.ops: used |= {n for n in names(o) if n in G}
            if i.op == "getelementptr": used |= {n for n in names(tup(i.d["base"])) if n in G}
            if i.op == "phi":
                for x in i.d["in"]: used |= {n for n in names(tup(x[1])) if n in G}
            if i.op in ("call", "invoke"):
                n = f.callee(i); raw = i.d.get("fn") or ""
                if raw in ("__cxa_guard_acquire", "__cxa_thread_atexit") or n in ("__cxa_guard_acquire", "__cxa_thread_atexit"):
                    clean = False; r.bad(f"static-init:{f.base}", i.where(), f"{f.base} initialises a static object when it first runs: state that outlives the call and is shared")
                if STATEFUL.match(n) or STATEFUL.match(raw):
                    clean = False; r.bad(f"stateful:{n}:{f.base}", i.where(), f"{f.base} calls {n}, which changes state of the whole process")
        for g in sorted(used):
            seeds = [("g", g)]
            # expression operands mentioning it count as the object itself
            for i in f.insts():
                for o in i.ops:
                    if isinstance(o, tuple) and o and o[0] == "ce" and g in set(names(o)): seeds.append(o)
            w = E.writes(f, seeds, allow=lambda i, n: bool(READERS.match(n or i.d.get("fn") or "")))
            d = G[g].get("dem") or g
            if not w: r.ok(f"{label}: {f.base} only reads {d}", f.sp_where()); continue
            clean = False
            r.bad(f"global-write:{d}", w[0][0].where(), f"{f.base} changes the {'thread-local' if G[g].get('tls') else 'global'} object {d}: {w[0][1]}")
        if clean and not used: r.ok(f"{label}: {f.base} uses no modifiable static object", f.sp_where())

def unit(S, r):
    scan(S.mod, [f for f in S.mod.functions.values()], S.name, r)
    x02.unit(S, r)      # the maze is shared by the solves as well

def run(rep, tier):
    run_units(rep, unit, tier, 5)
    M = solverir.lib()
    scan(M, [f for f in M.functions.values()], "library", rep)
    rep.count("library_functions", len(M.functions))
