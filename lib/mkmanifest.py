#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs
ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = "Every path of the compiled code (LLVM IR of /repo) within the stated bounds; inputs outside the bounds are not covered. "
m = {
    "version": 1,
    "setup_cmd": "python3 lib/setup.py",
    "hooks": {"guard": "cfg(hddl_verif)", "enable": "RUSTFLAGS='--cfg hddl_verif' (lib/build_ir.py)", "source_commits": ["HOOK"]},
    "checks": [], "not_applicable": [],
}
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", "6b3e813"], stdout=subprocess.PIPE, text=True).stdout.strip()]
for p in props:
    i = p["id"]
    if i in specs.PROPS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": "symbolic execution of /repo's LLVM IR; z3 decides branches and assertions; counterexamples replayed natively", "level": "model_checking",
            "level_note": NOTE + specs.PROPS[i].get("note", "Bounds per job are in the evidence and in DESIGN.md.")})
    else:
        m["not_applicable"].append({"property": i, "reason": specs.NOT_APPLICABLE[i]})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
