#!/usr/bin/env python3
"""replay.py FILE: rebuilds /repo, runs the recorded script on the real code and
validates the trace again. Prints the events and what the specification says."""
import importlib, sys
from vlib import *
r = json.load(open(sys.argv[1]))
F = importlib.import_module("fam_" + r["family"])
w = workdir("replay")
b = B.build(r["variant"], [F.DRIVER]) + "/" + F.DRIVER
ev = run_driver(w, b, r["script"])
for e in ev[-3:]:
    print({k: v for k, v in e.items() if not k.startswith("_")})
    if "_err" in e:
        print(e["_err"])
bad, st = validate(w, F.TRACE[0], F.TRACE[1], ev, 1)
for i, p, why in bad:
    print("%s: %s, at: %s" % (p, why, r["script"][ev[i]["_l"]]))
shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if any(x[1] == r["property"] for x in bad) else 0)
