"""C05: every public member can be instantiated."""
import re, itertools
from common import *
RULE = ("A witness uses every public member of the containers, memory resources, maze and node classes (explicit instantiation definitions for every non-template member, a call for every member template) and calls every solver in all four documented ways for every kind of maze; both must pass the type checker of g++ and of clang++ in C++17 and C++20 with -fno-rtti. The umbrella header must also pass alone. "
        "That the witness misses nothing is established from the syntax tree: the public members of each class are enumerated and looked up among the definitions that clang instantiated.")
TECH = "compile-fail witnesses (explicit instantiation and calls, type-checked by g++ and clang++ in C++17 and C++20); enumeration of public members from the clang syntax tree"
MIN_OB = 100
CLASSES = ("heap", "queue", "stack", "existence_set", "monotonic_pool", "heterogeneous_pool", "homogeneous_pool", "grid", "graph", "weighted_node", "id_node")
CONF = [(c, s) for c in ("clang++", "g++") for s in (17, 20)]

def compile_one(a):
    cc, std, defs, src = a
    r = sh([cc, f"-std=c++{std}", "-fno-rtti", "-w", "-fsyntax-only", "-I" + REPO, "-I" + os.path.join(SA, "drv"), *["-D" + d for d in defs], "-x", "c++", src], timeout=600)
    return r.returncode, r.stderr
def site(err):
    """the library construct an error is about, and its message"""
    lines = err.split("\n"); first = next((k for k, l in enumerate(lines) if " error: " in l), None)
    if first is None: return "", err[:300], ""
    msg = lines[first].split(" error: ", 1)[1]
    around = [lines[first]] + lines[first + 1:first + 40] + lines[max(0, first - 12):first]
    for l in around:
        m = re.search(r"([^\s:]*%s/(?:include|chdr)[^\s:]*):(\d+)" % re.escape(REPO), l)
        if m: return os.path.relpath(os.path.realpath(m[1]), os.path.realpath(REPO)), msg, m[2]
    return "", msg, ""
def run(rep, tier):
    W = os.path.join(SA, "drv", "witness.cpp")
    todo = [(f"umbrella header", c, s, (), os.path.join(REPO, "chdr.hpp")) for c, s in CONF] + [("library classes", c, s, (), W) for c, s in CONF]
    todo += [(f"solver<{s}, {k}>", c, v, (f"SOLVER={s}", f"CFG={k}"), W) for s, k in solver_units() for c, v in (CONF if tier == "thorough" else [("clang++", 17), ("g++", 20)])]
    res = pmap(lambda t: compile_one((t[1], t[2], t[3], t[4])), todo)
    rep.count("compilations", len(todo))
    for (what, c, s, d, src), (rc, err) in zip(todo, res):
        if rc == 0: rep.ok(f"{what} type-checks with {c}, C++{s}", what)
        else:
            f, msg, line = site(err)
            rep.bad(f"{f or what}:{re.sub('[^a-z ]', '', msg.lower())[:60].strip().replace(' ', '-')}", f"{f}:{line}" if f else what, f"{what} does not compile with {c}, C++{s}: {msg[:200]}")
    if rep.viol: return
    # completeness of the witness
    r = sh([CLANG, "-std=c++17", "-w", "-fsyntax-only", "-I" + REPO, "-I" + os.path.join(SA, "drv"), "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=chdr::", W], timeout=600)
    pub = {}; cls = None; depth = None; access = None
    for l in r.stdout.split("\n"):
        m = re.match(r"([| `-]*)(CXXRecordDecl|AccessSpecDecl|CXXMethodDecl|FunctionTemplateDecl|CXXConversionDecl|ClassTemplateSpecializationDecl)\b(.*)", l)
        if not m: continue
        ind, kind, rest = len(m[1]), m[2], m[3]
        if kind == "CXXRecordDecl" and " definition" in rest:
            n = re.search(r"(class|struct) (\w+) definition", rest)
            if n and n[2] in CLASSES: cls, depth, access = n[2], ind, "private" if n[1] == "class" else "public"
            continue
        if cls is None or ind <= depth: cls = None; continue
        if kind == "ClassTemplateSpecializationDecl": cls = None; continue
        if kind == "AccessSpecDecl" and ind == depth + 2: access = rest.split()[-1]
        elif ind == depth + 2 and access == "public" and " delete" not in rest and " implicit " not in rest.split("'")[0]:
            n = re.search(r"(operator\S*|~?\w+)(?: '|$)", rest.split("> ", 1)[-1]) if kind != "FunctionTemplateDecl" else re.search(r"(\w+)$", rest)
            if n: pub.setdefault(cls, set()).add(n[1])
    bc = sh([CLANG, "-std=c++17", "-w", "-O0", "-S", "-emit-llvm", "-I" + REPO, "-I" + os.path.join(SA, "drv"), W, "-o", "-"], timeout=600).stdout
    names = re.findall(r"^define [^@]*@\"?([\w.$]+)", bc, re.M)
    dem = set()
    for l in sh(["c++filt"], input="\n".join(names)).stdout.split("\n"):
        l = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", l)))
        for m in re.finditer(r"chdr::(?:mazes::)?(\w+)(?:<.*?>)?::(operator\S*?|\w+)(?:<.*?>)?(?:\[abi:\w+\])?\(", l): dem.add((m[1], m[2]))
    miss = []; n = 0
    for c in sorted(pub):
        for m in sorted(pub[c]):
            if (c, m) in dem: n += 1; rep.ok(f"{c}::{m} is instantiated by the witness", c)
            else: miss.append(f"{c}::{m}")
    rep.notes["public members not used by the witness"] = miss
    rep.count("public members used by the witness", n)
    if n < 60: raise CheckError(f"only {n} public members recognised")
