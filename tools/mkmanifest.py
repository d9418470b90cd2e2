#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # noqa: E402

TECH = ("TLA+ specification checked with TLC, bound to the code by trace validation (recorded executions of the real "
        "code are checked step by step against the specification) and by replaying the specification's transitions")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in plan.PLAN:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s quick" % p,
        "thorough_cmd": "./check.sh %s thorough" % p,
        "technique": TECH + ("; concurrent callers run under the Go race detector" if p == "C24" else ""),
        "level": "model_checking",
        "level_note": getattr(plan, "NOTES", {}).get(p, "exhaustive over the small bounds of the model, sampled beyond them by "
                                        "seeded traces of the real code"),
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks build /repo as it is", "source_commits": []},
        "checks": checks,
        "not_applicable": [],
    }, f, indent=1)
    f.write("\n")
