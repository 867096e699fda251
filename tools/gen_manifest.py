#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = ("symbolic execution of the LLVM IR rustc makes of /repo's current source together with a harness, path conditions and "
        "assertions decided by z3 (bit-vectors), every path and every counterexample replayed on the native code")
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "checks": [
        {
            "property": i,
            "quick_cmd": "./check %s --tier=quick" % i,
            "thorough_cmd": "./check %s --tier=thorough" % i,
            "technique": TECH,
            "level": "model_checking",
            "level_note": "exhaustive within stated bounds: " + props.PROPS[i]["bounds"]["quick"],
        }
        for i in ids if i in props.PROPS
    ],
    "not_applicable": [{"property": i, "reason": props.NOT_YET.get(i, "no harness for it yet; solver-based checking applies")} for i in ids if i not in props.PROPS],
    "notes": "Own symbolic executor (engine/), harnesses (harness/src/pNN.rs) and driver (tools/check.py); see DESIGN.md. No hooks in /repo.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
