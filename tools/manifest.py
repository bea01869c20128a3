#!/usr/bin/env python3
"""writes MANIFEST.json: one check per property that has harnesses"""
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
have = set()
for f in glob.glob(here + "/harness/props/*.go"):
    have |= set(re.findall(r"^func (C\d\d)_", open(f).read(), re.M))
notes = {}
exec(open(here + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the Go SSA of /repo with an SMT solver (bounded), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": notes.get(i, "") + " " + common,
        })
    else:
        na.append({"property": i, "reason": notes.get(i, "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: /repo carries only fix: commits. The engine (engine/) loads /repo and the harnesses (harness/props) with x/tools go/ssa on every run.",
}, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
