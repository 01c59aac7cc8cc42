#!/usr/bin/env python3
# Writes /verif/MANIFEST.json and /verif/props.json from the table below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: VCs from go/ssa of /repo, discharged by z3/cvc5; bounded oracle harness for replay and the unproved rest"
C, NA = {}, {}
def claim(id, note, bounded="", level="proof", assumptions=()):
    C[id] = dict(level=level, note=note, bounded=bounded, assumptions=list(assumptions))
def na(id, why):
    NA[id] = why
exec(open(V + "/tools/claims.py").read())
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
pj = {}
for i in ids:
    if i in C:
        c = C[i]
        note = c["note"] + ((" Bounded, not proved: " + c["bounded"]) if c["bounded"] else "")
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": c["level"], "level_note": note})
        pj[i] = {"level": c["level"], "bounded": c["bounded"], "assumptions": c["assumptions"]}
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed yet: contracts for it are still being written")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
json.dump(pj, open(V + "/props.json", "w"), indent=1); open(V + "/props.json", "a").write("\n")
print(len(C), "claimed", len(m["not_applicable"]), "not applicable")
