#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the units that exist."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.realpath(__file__)), "..")
sys.path.insert(0, V)
from vf.units import UNITS
NA = {"P20": "modes.c works on a linked list of suspended events, a parent hierarchy of unbounded depth and the event queue at once; the CBMC contracts at hand cannot quantify over such linked structures, and no bounded contract of it was completed, so nothing is claimed (the part that keeps reactions of inactive modes from running is decided under P15)"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    us = UNITS.get(i, [])
    if not us:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    proof = [u for u in us if u.kind == "proof"]
    b = [u for u in us if u.kind != "proof"]
    if proof and not b: note = "every obligation discharged for all inputs, no bound"
    elif proof: note = f"{len(proof)} units proved without bound; bounded stand-ins (labelled, not counted as proved): " + ", ".join(f"{u.name} ({u.bound})" for u in b)
    else: note = "contracts discharged function by function for all values, with bounded structure sizes: " + "; ".join(sorted({u.bound for u in b}))
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                   "technique": "contract-based deductive verification: contracts on the real functions, every obligation discharged by CBMC (goto-instrument --dfcc / modular callee contracts / loop invariants) on every run",
                   "level": "proof" if proof else "other", "level_note": note[:1500]})
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "VF_HOOKS (unused: no hooks were needed in /repo)", "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
