#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa import registry

NA = {
 "N01": "Convergence of repeated relaxation needs a termination argument over unbounded histories of randomly ordered avalanches (a well-founded measure over the whole terrain); no static dataflow argument in reach bounds it. The step-local parts (C05 each avalanche goes downhill and stops at the slope, C10 flag truth, C11 pass budget) are decided instead.",
 "N02": "Whether the sampled cells are exactly those an oblique surface crosses depends on real-valued geometry (dense sampling, rounding, a 1e-5 offset); a source-level argument cannot bound the sampling error. C17 decides the structural part (nothing stale, every wall, sorted merge).",
 "N03": "Wall-clock performance is not a property of the source that static analysis can bound; the static part is the pass budget and the bounded searches (C11, C24).",
 "N04": "The code documents that the body must stay well inside the grid and has no guard for soil pushed out over the border; whether a column index stays in range depends on runtime positions over a whole history that no sound static argument here bounds. C11 decides the part under the code's control (clamped active areas).",
}
TODO = "no check built for it yet"

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        fn, rule, expl = registry.PROPS[i]
        tech = registry.TECH.get(i, "static analysis: abstract interpretation over the type-checked source (path-sensitive dataflow with linear invariants)")
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech,
            "level": "other",
            "level_note": registry.NOTE.get(i, expl),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, TODO)})
m = {"version": 1, "setup_cmd": "bash tool/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Everything is decided from the type-checked source of /repo (clang front end, tool/sdextract.cpp) by the analyses under sa/; no code of /repo is run and no solver is called."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
