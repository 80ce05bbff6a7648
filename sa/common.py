"""Paths, the build of the analysed IR, evidence and reporting."""
import os, sys, json, hashlib, subprocess, time, shutil, fcntl, traceback
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
SA = os.path.join(VERIF, "sa")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))
TOOL = os.path.join(BUILD, "irdump")
CLANG = "clang++"
JOBS = int(os.environ.get("SA_JOBS", "0")) or min(8, os.cpu_count() or 4)
NTRUNC = 20000

class CheckError(Exception):
    """the check cannot give an answer (an anchor vanished, a build broke): neither pass nor violation"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def fhash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()

def repo_files():
    out = [os.path.join(REPO, "chdr.hpp"), os.path.join(REPO, "stdafx.hpp")]
    for d, _, fs in os.walk(os.path.join(REPO, "include")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".hpp", ".h", ".ipp", ".inl", ".tpp", ".cpp"))]
    return [p for p in out if os.path.exists(p)]

_treehash = None
def tree_hash():
    global _treehash
    if _treehash is None:
        drv = [os.path.join(SA, "drv", f) for f in sorted(os.listdir(os.path.join(SA, "drv")))]
        _treehash = fhash(repo_files() + drv + [os.path.join(SA, "tool", "irdump.cpp")])[:24]
    return _treehash

def build_tool():
    src = os.path.join(SA, "tool", "irdump.cpp")
    os.makedirs(BUILD, exist_ok=True)
    stamp = TOOL + ".sha"
    want = fhash([src])
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want: return
        flags = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
        r = sh([CLANG, "-O1", *flags, "-fexceptions", src, "-o", TOOL + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if r.returncode: raise CheckError("irdump does not build: " + r.stderr[:2000])
        os.rename(TOOL + ".tmp", TOOL)
        with open(stamp, "w") as f: f.write(want)

def cache_dir():
    base = os.path.join(BUILD, "cache"); d = os.path.join(base, tree_hash())
    if not os.path.isdir(d):
        os.makedirs(base, exist_ok=True)
        old = sorted((os.path.join(base, x) for x in os.listdir(base)), key=os.path.getmtime)
        for x in old[:-3]:
            if os.path.realpath(x).startswith(os.path.realpath(base) + os.sep): shutil.rmtree(x, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    else: os.utime(d)
    return d

BASEFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-g", "-w", "-fno-omit-frame-pointer"]

def compile_bc(src, defs=(), extra=()):
    """compile one driver to bitcode; returns (path, None) or (None, diagnostics)"""
    key = hashlib.sha256(json.dumps([src, list(defs), list(extra), BASEFLAGS]).encode()).hexdigest()[:16]
    out = os.path.join(cache_dir(), f"{os.path.splitext(os.path.basename(src))[0]}_{key}.bc")
    if os.path.exists(out): return out, None
    err = out[:-3] + ".err"
    if os.path.exists(err): return None, open(err).read()
    r = sh([CLANG, *BASEFLAGS, *extra, "-I" + REPO, "-emit-llvm", "-c", os.path.join(SA, "drv", src), "-o", out + f".{os.getpid()}.tmp", *["-D" + d for d in defs]], timeout=600)
    if r.returncode:
        with open(err + ".tmp", "w") as f: f.write(r.stderr)
        os.rename(err + ".tmp", err)
        return None, r.stderr
    os.rename(out + f".{os.getpid()}.tmp", out)
    return out, None

def dump(bc, roots, keeps=(), inlines=(), passes=None, dump_kept=False, also=(), raises=False):
    """run irdump; returns the path of the JSON"""
    key = hashlib.sha256(json.dumps([os.path.basename(bc), list(roots), list(keeps), list(inlines), passes, dump_kept, list(also), raises]).encode()).hexdigest()[:16]
    out = bc[:-3] + "_" + key + ".json"
    if os.path.exists(out): return out
    cmd = [TOOL, bc, out + f".{os.getpid()}.tmp"]
    for r in roots: cmd += ["--root", r]
    for k in keeps: cmd += ["--keep", k]
    for k in inlines: cmd += ["--inline", k]
    for k in also: cmd += ["--also", k]
    if passes: cmd += ["--passes", passes]
    if dump_kept: cmd += ["--dump-kept"]
    if raises: cmd += ["--raises"]
    r = sh(cmd, timeout=600)
    if r.returncode: raise CheckError(f"irdump failed on {bc}: {r.stderr[:1000]}")
    os.rename(out + f".{os.getpid()}.tmp", out)
    return out

def pmap(fn, items):
    items = list(items)
    with ThreadPoolExecutor(JOBS) as ex: return list(ex.map(fn, items))
def _ppcall(a):
    fn, x = a
    return fn(x)
def ppmap(fn, items):
    """map in processes (fn must be a module-level function)"""
    items = list(items)
    if len(items) <= 1: return [fn(x) for x in items]
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(JOBS) as ex: return list(ex.map(_ppcall, [(fn, x) for x in items], chunksize=1))

SOLVERS = ["astar", "best_first", "bfs", "dfs", "dijkstra", "eidastar", "eidbest_first", "eiddfs", "flood", "fringe", "gbest_first", "gbfs", "gdfs", "gjps", "gstar",
           "idastar", "idbest_first", "iddfs", "jps", "mgstar", "osmastar", "smastar"]
CFGS = ["PA", "PB", "PC", "PD", "PF", "PG"]
def solver_units():
    """(solver, configuration) pairs that the library supports; jump-point search is for two-dimensional grids only"""
    for s in SOLVERS:
        for c in CFGS:
            if s in ("jps", "gjps") and c in ("PB", "PC", "PF") or s not in ("jps", "gjps") and c == "PG": continue
            yield s, c

# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop): self.prop = prop; self.ob = []; self.viol = []; self.notes = {}; self.assumptions = []
    def ok(self, what, where=""): self.ob.append((what, where, True))
    def bad(self, key, where, why):
        """key identifies the violating construct independently of line numbers"""
        self.ob.append((why, where, False)); self.viol.append((key, where, why))
    def merge(self, d):
        self.ob += d["ob"]; self.viol += d["viol"]
        for k, v in d.get("notes", {}).items():
            if isinstance(v, int): self.notes[k] = self.notes.get(k, 0) + v
            elif isinstance(v, list): self.notes[k] = sorted(set(self.notes.get(k, []) + v))
            else: self.notes[k] = v
    def count(self, k, n=1): self.notes[k] = self.notes.get(k, 0) + n
    def part(self): return {"ob": self.ob, "viol": self.viol, "notes": self.notes}

def load_findings():
    """known-findings.txt: 'finding: property=<id> key=<key> <text>' and 'fixed: property=<id> <commit> <text>'"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                f = dict(x.split("=", 1) for x in l[9:].split(" ")[:2])
                out[(f["property"], f["key"])] = l.split(" ", 3)[3] if l.count(" ") >= 3 else ""
    return out

def finish(rep, t0, rule, technique, min_ob=1):
    EV = os.environ.get("SA_EVID", os.path.join(VERIF, "evidence"))
    os.makedirs(EV, exist_ok=True)
    known = load_findings()
    new, old = {}, {}
    for k, w, y in rep.viol:
        (old if (rep.prop, k) in known else new).setdefault(k, (w, y))
    good = [o for o in rep.ob if o[2]]
    ev = {"property": rep.prop, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": rule, "technique": technique, "obligations_found": len(rep.ob), "obligations_discharged": len(good), "analysed": rep.notes,
                       "samples": [f"{w}: {x}" if w else x for x, w, _ in good[:: max(1, len(good) // 12)][:14]],
                       "violating_constructs": [{"key": k, "where": w, "why": y, "known": k in old} for d in (new, old) for k, (w, y) in d.items()]},
          "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    path = os.path.join(EV, rep.prop + ".json")
    with open(path + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)
    if len(rep.ob) < min_ob and not new:
        print(f"ERROR property={rep.prop}: only {len(rep.ob)} instances of the rule found (at least {min_ob} expected): the analysis lost its anchors")
        return 2
    for k in sorted(old): print(f"KNOWN-FINDING: property={rep.prop} {k}: {known[(rep.prop, k)]}")
    if new:
        rp = os.path.join(EV, rep.prop + ".violation.txt")
        with open(rp, "w") as f:
            for k, (w, y) in new.items(): f.write(f"[{k}]\n  at {w}\n  {y}\n")
        for k, (w, y) in list(new.items())[:20]: print(f"  [{k}] {w}: {y}")
        print(f"VIOLATION property={rep.prop} replay={rp}")
        return 1
    print(f"OK property={rep.prop}: {len(good)} obligations discharged" + (f", {len(old)} known finding(s)" if old else "") + f" ({ev['wall_s']} s)")
    return 0

def run_units(rep, fn, tier, need=1, extra=()):
    """fn(Search) -> Report.part() for every solver and configuration; a unit without obligations counts as a lost anchor"""
    import solverir
    units = solverir.prepare(tier, extra)
    res = ppmap(_unit_call, [(fn.__module__, fn.__name__, rep.prop, u) for u in units])
    lost = []
    for u, p in zip(units, res):
        if isinstance(p, str): raise CheckError(p)
        if p.get("skip"): continue
        if len(p["ob"]) < need: lost.append(f"{u[0]}/{u[1]} ({len(p['ob'])})")
        rep.merge(p); rep.count("units")
    if lost and not rep.viol: raise CheckError("the analysis lost its anchors in " + ", ".join(lost[:12]))
def _unit_call(a):
    import importlib, search
    modname, fname, prop, u = a
    fn = getattr(importlib.import_module(modname), fname)
    r = Report(prop)
    try:
        out = fn(search.load(u), r)
    except CheckError as e: return str(e)
    except Exception: return f"{u[0]}/{u[1]}: " + traceback.format_exc()
    d = r.part()
    if out == "skip": d["skip"] = True
    return d
