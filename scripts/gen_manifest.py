#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below and properties.jsonl.
import json, os, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chk = runpy.run_path(V + "/check", run_name="x")
T = {
 "seq": "model-based stateful property testing: random operation histories on real handles against a reference model, with shrinking",
 "sim": "schedule-generating concurrency testing: virtual processes under a drawn schedule, results decided by a linearizability search against the reference model",
 "proc": "stateful property testing with real processes (kill, zombie, pid reuse, other user) against the reference model",
 "bwh": "model-based stateful property testing of the block/wake library",
 "big": "property testing on rings beyond 2 and 4 GiB (sparse files) against the reference model",
}
NOTE = {
 "seq": "Explores tens of thousands of generated histories per quick run, each checked call by call; nothing is proved for histories not generated. Trusts the reference model, the interposition layer and the kernel.",
}
def tech(pid):
    out = []
    for h in chk["HARNESS"][pid]:
        out.append(T.get(h) or "property-based testing of the command-line tool (Hypothesis, generated operation histories) against a reference model")
    return "; ".join(dict.fromkeys(out))
EXTRA = {}
try:
    EXTRA = json.load(open(V + "/scripts/level_notes.json"))
except FileNotFoundError:
    pass
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in chk["HARNESS"]:
        na.append({"property": p, "reason": "no check built yet"})
        continue
    checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech(p), "level": chk["LEVEL"].get(p, "exploration"),
                   "level_note": EXTRA.get(p, NOTE["seq"])})
m = {"version": 1, "setup_cmd": "./check --build-only", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: object files of the working tree are interposed at link level (objcopy --redefine-syms)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
