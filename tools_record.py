#!/usr/bin/env python3
"""Rewrites required.json from the evidence of a quick run on the unchanged tree
(run by hand after the workload changes; no check calls it)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
r = {}
for n in range(1, 24):
    p = "C%02d" % n
    c = json.load(open(f"{V}/evidence/{p}.json"))["coverage"]
    r[p] = {"least": c["distinct_nontrivial"] // 2,
            "counters": [k for k, v in c["counters"].items() if v >= 100 and not k.startswith(("max ", "known ", "error "))]}
json.dump(r, open(f"{V}/required.json", "w"), indent=1)
open(f"{V}/required.json", "a").write("\n")
