#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props*.py (development tool; no check runs it)."""
import json, os, sys, subprocess, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}))
    assert len(p["title"]) <= 80, p["id"]
    if p["id"] in NA: na.append({"property": p["id"], "reason": NA[p["id"]]}); continue
    checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}", "thorough_cmd": f"bash check.sh {p['id']} --thorough",
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
open(root + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the harness compiles /repo/src in place against the stand-ins in /verif/shim", "source_commits": []},
     "notes": "Stateless bounded-exhaustive exploration of the real code: see DESIGN.md"}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1); open(root + "/MANIFEST.json", "a").write("\n")
# DESIGN.md
subprocess.run(["bash", root + "/check.sh", "--build"], check=True, stderr=subprocess.DEVNULL)
sc = {}
for b in ("mcpart", "mc"):
    for l in subprocess.run([f"{root}/target/release/{b}", "list"], capture_output=True, text=True, check=True).stdout.splitlines():
        i, n, a = l.split("\t", 2); sc.setdefault(i, []).append((n, a))
d = [open(here + "/design_head.md").read().rstrip(), "", "## Per property", "",
     "Technique of all: stateless bounded-exhaustive exploration of the real code (above). \"Specified\" is the property; the scenarios are what is enumerated, with alphabets and bounds; the oracle is the definition named in the statement, recomputed independently.", ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    d += [f"### {p['id']} {p['title']}", "", f"*Specified:* {p['statement']}", "", f"*Quantified over:* {p['quantifier']['text']}. *Tests cannot:* {p['why_tests_cant']}", ""]
    for n, a in sc.get(p["id"], []):
        d.append(f"* {'assumption' if n == 'assumption' else '`' + n + '`'}: {a}")
    d += ["", f"*Bounds and trust:* {p['note']}", ""]
d += ["## Planted bugs", "", open(here + "/design_plants.md").read().rstrip() if os.path.exists(here + "/design_plants.md") else "", "", "| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    x = json.load(open(f)); d.append(f"| {os.path.basename(os.path.dirname(f))} | {x['property']} | {x['what_it_breaks']} | {x['needs']} | {x.get('caught_by', 'quick check of ' + x['property'])} |")
open(root + "/DESIGN.md", "w").write("\n".join(d) + "\n")
