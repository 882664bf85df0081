#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import PROPS
from notes import NOTES, TECHNIQUE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" cargo build (done by check.py)",
              "source_commits": ["dc236b7"]},
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECHNIQUE.get(p, "TLA+ specification checked with TLC; trace validation of the real code against it"),
        "level": PROPS[p].get("level", "model_checking"),
        "level_note": NOTES.get(p, "Exhaustive for the small models; on the code, every recorded history is validated step by step. Trusts TLC, the harness and the chosen inputs."),
    } for p in ids if p in PROPS],
    "not_applicable": [{"property": p, "reason": "specification and check not built yet"} for p in ids if p not in PROPS],
    "notes": "TLA+ with TLC. See DESIGN.md.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
