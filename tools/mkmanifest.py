#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in sa/checks; the remaining properties are listed as not applicable."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "sa"))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "N01": "path optimality quantifies over costs accumulated in whole search histories; no static argument about the code's shape bounds it (the structural parts - cost bookkeeping, ordering, visited rule - are S06, S09 and S13)",
 "N02": "termination and completeness quantify over all maze contents and search histories; deciding them needs a well-founded measure over runtime sets, beyond dataflow and syntax (the parts visible in the code are S05, S06, S07, S16)",
 "N03": "adjacency of the path's cells is a property of the predecessor relation built up at run time; the structural parts (neighbour records, predecessor links, read-out) are S05, S10, S18 and G03",
 "N04": "that pruning keeps a shortest path of the whole grid is a theorem about all grids and the order in which jump points are found; the local rule it rests on is decided as J01",
 "N05": "admissibility compares closed-form arithmetic with path lengths over all coordinate pairs; the structural parts (dependence on magnitudes of differences only, no wrap-around) are H01",
 "N06": "preservation of distances compares shortest paths before and after; the structural part (edge replacement) is R02",
}
checks = []
for p in props:
    try: m = importlib.import_module("checks." + p.lower())
    except ModuleNotFoundError:
        NA.setdefault(p, "not built yet"); continue
    NA.pop(p, None)
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "technique": m.TECH, "level": "other",
                   "level_note": getattr(m, "NOTE", "static analysis: every instance of the rule in the analysed instantiations is decided from the source; nothing is executed")})
json.dump({"version": 1, "setup_cmd": "python3 -B tools/setup.py", "checks": checks, "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p in NA]}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [p for p in props if NA.get(p) == "not built yet"])
