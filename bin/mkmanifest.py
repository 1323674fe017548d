#!/usr/bin/env python3
"""Regenerates MANIFEST.json from config.PROPS and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, VERIF
NA = {
 "N01": "Purely sequential arithmetic on its arguments: no scheduling, clock, I/O, randomness or fault can change the result, so there is nothing for a simulator to decide (its only concurrency aspect, interference between simultaneous calls, is claimed as C31).",
 "N02": "Pure index arithmetic over inputs; no nondeterminism or fault to simulate.",
 "N04": "The adaptor needs VTK/ParaView Catalyst, which is not installed; it is neither built nor tested here, so there is no code to run under the simulator.",
}
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s" % i, thorough_cmd="python3 bin/check.py %s --thorough" % i,
            evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection: seeded search over %s" % P["faults"],
            level="exploration", level_note=P.get("note", "Seeded random search, not exhaustive. Oracle: %s. Real code: %s. Simulated: %s." % (P["oracle"], "; ".join(P["real"]), "; ".join(P["stub"])))))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Check not built yet.")))
m = dict(version=1, setup_cmd="python3 bin/check.py --self-test", checks=checks, not_applicable=na,
    notes="No hooks were needed in /repo: the seams are compiler instrumentation of the library code (-fsanitize=thread with the simulator's own runtime) and link-time interposition. Each check builds what it needs from /repo's working tree into /verif/build.")
open(os.path.join(VERIF, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
