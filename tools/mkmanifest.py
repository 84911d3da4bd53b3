#!/usr/bin/env python3
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkprops import P
NOTE = {}
try:
    from notes import NOTE
except ImportError:
    pass
checks, na = [], []
for p in P:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": NOTE.get(i, {}).get("technique", "TLA+ specification model checked with TLC; spec behaviours and random histories replayed in the real code, recorded traces validated by TLC"),
                       "level": "model_checking",
                       "level_note": NOTE.get(i, {}).get("note", "Exhaustive within the TLC bounds for the specification; the implementation is bound by replay of every emitted behaviour and by seeded random histories, so larger inputs are sampled. Trusts TLC, g++, ASan and the harness."),
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import json,sys; json.load(open('MANIFEST.json'))\" && java -version && g++ --version",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: all checks drive the public API. ./check <id> [quick|thorough]; see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
