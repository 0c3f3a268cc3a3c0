#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = p["prop"]
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks = [dict(property=p["prop"]["id"], quick_cmd=f"python3-vt check.py {p['prop']['id']} quick",
               thorough_cmd=f"python3-vt check.py {p['prop']['id']} thorough", technique=p["technique"], level="other", level_note=p["note"])
          for p in P if not p["na"]]
m = dict(version=1, setup_cmd="python3-vt -c 'import mpmath, numpy'", checks=checks,
         not_applicable=[dict(property=p["prop"]["id"], reason=p["na"]) for p in P if p["na"]],
         notes="Static analysis by abstract interpretation of /repo's Python source; no repository code is executed. See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# ---- DESIGN.md ----
import ast, glob


def const(node):
    return ast.literal_eval(node)


def doc(pid):
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    out = {}
    if os.path.exists(path):
        for n in ast.parse(open(path).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("EXPLANATION", "ASSUMPTIONS"):
                out[n.targets[0].id] = const(n.value)
    return out


lines = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
seeds = {}
for meta in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(meta))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(meta)), m["what_it_breaks"], m["needs"]))
for p in P:
    d = p["prop"]
    if p["na"]:
        continue
    e = doc(d["id"])
    lines += [f"### {d['id']} {d['title']}", "", d["statement"], "", f"*Quantified over*: {d['quantifier']['text']}.", "",
              f"*Decided by*: {p['technique']}. {e.get('EXPLANATION', '')}", "", "*Assumptions and bounds*: " + "; ".join(e.get("ASSUMPTIONS", [])) + ".", "",
              f"*Why tests cannot*: {d['why_tests_cant']}", "", "*Source analysed*: " + ", ".join(d["anchors"]["files"]) + ".", ""]
    for s in seeds.get(d["id"], []):
        lines.append(f"* caught: `{s[0]}` - {s[1]}")
    lines.append("")
lines += ["## Not applicable to this technique", ""]
for p in P:
    if p["na"]:
        lines.append(f"* {p['prop']['id']} {p['prop']['title']}: {p['na']}")
lines += ["", open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(lines))
