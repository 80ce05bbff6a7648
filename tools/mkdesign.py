#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_head.md, the properties, the checks' own rules and tools/design_tail.md"""
import ast, json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
man = json.load(open(f"{V}/MANIFEST.json")); na = {n["property"]: n["reason"] for n in man["not_applicable"]}
ev = {}
for f in glob.glob(f"{V}/evidence/*.json"):
    d = json.load(open(f)); ev[d["property"]] = d
out = [open(f"{V}/tools/design_head.md").read().rstrip(), ""]
for p in props:
    out += [f"### {p['id']} {p['title']}", ""]
    if p["id"] in na: out += [f"Not applicable: {na[p['id']]}.", ""]; continue
    d = {}
    for n in ast.parse(open(f"{V}/sa/checks/{p['id'].lower()}.py").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "TECH", "ASSUME", "NOTE", "MIN_OB"):
            try: d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    out += [f"*Method*: {d['TECH']}.", "", f"*Rule decided*: {d['RULE']}", "", f"*Why the tests cannot*: {p['why_tests_cant']}", ""]
    if d.get("ASSUME"): out += ["*Assumes*: " + "; ".join(d["ASSUME"]) + ".", ""]
    if d.get("NOTE"): out += ["*Note*: " + d["NOTE"] + ".", ""]
    out += [f"*Floor*: fewer than {d['MIN_OB']} instances of the rule and no violation is an error (exit 2), not a pass.", ""]
out.append(open(f"{V}/tools/design_tail.md").read().rstrip() + "\n")
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
