#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
TECH = "TLA+ model checking (TLC) of a design model; TLC judges traces recorded from the code, executing histories generated by the model and at random"
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
reg = check.registry()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {
        "guard": "meerkat_verif",
        "enable": "cfg(meerkat_verif), set by /verif/harness/build.rs (cargo:rustc-cfg=meerkat_verif) when the harness crate mounts /repo/src/store/mod.rs as a module (meerkat is a binary crate)",
        "source_commits": hook,
    },
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "technique": NOTES.get(p["id"], {}).get("technique", TECH),
            "level": "model_checking",
            "level_note": NOTES.get(p["id"], {}).get("note", NOTES["default"]),
        }
        for p in props if p["id"] in reg
    ],
    "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in reg],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
