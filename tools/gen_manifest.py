#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl and the check modules in props/."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

NOT_APPLICABLE = {}

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if not os.path.exists(os.path.join(ROOT, "props", p + ".py")):
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built yet")})
        continue
    m = importlib.import_module("props." + p)
    kern = getattr(m, "KERNELS", False)
    checks.append(
        {
            "property": p,
            "quick_cmd": f"python3-vt check.py --property {p} --tier quick",
            "thorough_cmd": f"python3-vt check.py --property {p} --tier thorough",
            "technique": "bounded symbolic execution of the real Python/Cython source"
            + (" and of the C kernels' LLVM IR" if kern else "")
            + " with z3; counterexamples replayed on the real build",
            "level": "model_checking",
            "level_note": "Every path within the bounds is explored and every assertion decided for all values on it. Bounds: "
            + m.BOUNDS
            + ". Outside: "
            + m.OUTSIDE
            + ". Trusted: the symbolic stand-ins for Python, Cython"
            + (", numpy, LLVM" if kern else "")
            + " semantics (cross-checked by replaying path witnesses on the real build), real arithmetic for floating point, z3.",
        }
    )
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not claimed")
