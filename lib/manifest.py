#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from plans import PLANS, NOTES, NOT_APPLICABLE
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = [p for p in props if p not in PLANS]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "hooks": {"guard": "cfg(masstree_verif)", "enable": "RUSTFLAGS=\"--cfg masstree_verif\"",
              "source_commits": [l.strip() for l in open(os.path.join(here, "lib", "hook-commits.txt")) if l.strip()]},
    "checks": [{
        "property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "evidence_file": f"evidence/{p}.json", "technique": NOTES[p][0], "level": "exploration", "level_note": NOTES[p][1],
    } for p in props if p in PLANS],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built yet")} for p in na],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
