#!/usr/bin/env python3
"""Writes MANIFEST.json from the suites that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from suites import SUITES, NOTE, NOT_APPLICABLE
V = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
TR = ("Conformance is checked on the histories generated in the run (TLC behaviours of the specification and seeded longer scripts); "
      "trusted: TLC, the projection in harness/, the compiler. ")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks observe the public API of libraries built from /repo's working tree", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py " + p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": "TLA+ specification model checked with TLC; histories executed on the real code, recorded traces validated against the specification by TLC",
                 "level": "model_checking", "level_note": NOTE.get(p, "") + TR} for p in ids if p in SUITES],
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "The specification of this part is still being written; no check is claimed yet.")} for p in ids if p not in SUITES],
     "notes": "VERIF_TIER selects quick or thorough; VERIF_SEED seeds every random choice. Specifications: spec/; drivers: harness/; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
