#!/usr/bin/env python3
"""Generates properties.jsonl, checks.json and MANIFEST.json from props.py and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
from checks import CHECKS, NOT_APPLICABLE

root = os.path.dirname(here)
ids = {p["id"] for p in PROPS}
assert len(ids) == len(PROPS)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
checks, man = {}, []
for pid in sorted(CHECKS):
    assert pid in ids, pid
    c = CHECKS[pid]
    checks[pid] = {"harnesses": c["harnesses"], "assumptions": c.get("assumptions", []), "outside": c["outside"]}
    man.append({
        "property": pid,
        "quick_cmd": f"bin/gosym check {pid} quick",
        "thorough_cmd": f"bin/gosym check {pid} thorough",
        "technique": "symbolic execution of the Go SSA of /repo with an SMT solver deciding every branch and assertion; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Bounded: " + "; ".join(h["fn"] + ": " + h["bounds"] for h in c["harnesses"]) + ". Outside: " + c["outside"] + ". Trusts the engine's SSA semantics and library models, re-checked every run by native replay of path witnesses; a violation is reported only when it reproduces natively.",
    })
na = []
for p in PROPS:
    if p["id"] not in CHECKS:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")})
with open(os.path.join(root, "checks.json"), "w") as f:
    json.dump(checks, f, indent=1)
    f.write("\n")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": man, "not_applicable": na,
               "notes": "see DESIGN.md; generated by tools/gen.py from tools/props.py and tools/checks.py"}, f, indent=1)
    f.write("\n")
print(len(man), "checks", len(na), "not claimed")

# DESIGN.md = design_head.md + a section per property + the planted bugs (planted.txt, written by catch.sh)
from notes import NOTES
out = open(os.path.join(here, "design_head.md")).read()
out += "\n## Per property\n"
for p in PROPS:
    pid = p["id"]
    out += f"\n### {pid} {p['title']}\n\n{p['statement']}\n\n"
    if pid not in CHECKS:
        out += "Not claimed: " + NOT_APPLICABLE.get(pid, "check not built yet") + "\n"
        continue
    c = CHECKS[pid]
    out += "Code: " + ", ".join(p["anchors"]["files"]) + ". Why tests cannot settle it: " + p["why_tests_cant"] + ".\n\n"
    for h in c["harnesses"]:
        th = h["thorough"]
        out += f"- `{h['pkg']}.{h['fn']}`" + (" (thorough only)" if h["only"] else "") + f": {h['bounds']}" + (f"; thorough: {', '.join(f'{k}={v}' for k, v in th.items())}" if th else "") + ".\n"
    out += f"\nOracle: {NOTES.get(pid, 'the harness computes the expected result from the statement with its own small model and compares.')} Outside the bounds: {c['outside']}.\n"
pl = os.path.join(here, "planted.txt")
if os.path.exists(pl):
    out += "\n## Planted bugs (seeded/) and what catches them\n\nEach compiles, passes the existing tests and has a demonstration. Result of the quick check of the property it was written for:\n\n| bug | property | result | needs |\n|---|---|---|---|\n"
    for l in sorted(open(pl)):
        i, prop, res = l.split()[:3]
        m = os.path.join(root, "seeded", i, "meta.json")
        if os.path.exists(m):
            out += f"| {i} | {prop} | {res} | {json.load(open(m))['needs']} |\n"
with open(os.path.join(root, "DESIGN.md"), "w") as f:
    f.write(out)
