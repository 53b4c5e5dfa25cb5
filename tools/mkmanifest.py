#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: online comparison with an executable reference model"
NOTE = "Held on the executions of this run (counts in the evidence file); nothing is claimed about patterns and subjects not run. Trusts lib/ref.cpp, an independent naive backtracking engine, and the compiler."
exec(open(os.path.join(V, "tools", "techniques.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i, "thorough_cmd": "python3 checks/run.py %s thorough" % i, "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids if i in T],
     "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in T],
     "notes": "No hooks: the library is header-only and everything observable is reachable through its API, subject types and iterators supplied by the monitors, the compiler's sanitizers and compile-time diagnostics."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
