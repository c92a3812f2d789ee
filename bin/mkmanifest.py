#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from check import FAMILIES
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
SPECS = {"hs": "Handshake", "rec": "Record", "aead": "Aead", "hkdf": "Hkdf", "fp": "Frame", "proxy": "Proxy", "val": "{Options,Tokens,Context,Ticket,Values}", "conc": "Conc", "e2e": "EndToEnd"}
GEN = {"C27": "Resources", "C28": "Secrecy"}
checks = []
for p in props:
    if p in FAMILIES:
        fs = FAMILIES[p]
        checks.append({
            "property": p,
            "quick_cmd": "bin/check.py %s --tier quick" % p,
            "thorough_cmd": "bin/check.py %s --tier thorough" % p,
            "technique": "TLA+ specification (%s) model-checked with TLC; transition tours generated by TLC and seeded scripts run on the real code, recorded traces validated against the specification by TLC" % ", ".join(["spec/%s*.tla" % GEN[p] for _ in "1" if p in GEN] + ["spec/%s*.tla" % SPECS[f] for f in fs]),
            "level": "model_checking",
            "level_note": "exhaustive on the specification within the bounds of the cfg; the binding to the code is by conformance (every explored trace), not by proof",
        })
m = {"version": 1, "setup_cmd": "python3 bin/build.py openssl",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in FAMILIES]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
