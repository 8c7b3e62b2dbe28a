#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist (lib/checks.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        fn, level, assumptions = checks.CHECKS[i]
        out["checks"].append({
            "property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": checks.TECHNIQUE.get(i, "TLA+ specification checked with TLC; behaviours exported from it are replayed on the code and recorded behaviours of the code are validated against it"),
            "level": level,
            "level_note": (fn.__doc__ or "").strip().replace("\n", " ") + (" Assumes: " + "; ".join(assumptions) + "." if assumptions else "")})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NOT_APPLICABLE.get(i, "the check is not built yet")})
out["notes"] = "Specifications in spec/, driver of the real code in driver/, orchestration in lib/ and bin/. No hooks in /repo are needed: everything is observed at the public API, at the reader or connection given to it, or at system calls."
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
