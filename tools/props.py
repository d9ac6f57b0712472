#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json and props.json; run it after an edit."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []

def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), assumptions=(), note="", technique="", race=False):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      state=state, observe=observe, assumptions=list(assumptions), note=note, technique=technique, race=race))

def na(id, reason):
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                         "observe_at": list(p["observe"]), "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
nas = {n["property"] for n in NA}
TECH = "contract-based deductive verification of /repo's SSA (govc: weakest-precondition style symbolic execution, inductive loop invariants, z3/cvc5); bounded cross-check supplies failing inputs"
man = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"] or TECH,
        "level": "proof",
        "level_note": p["note"] or "Every obligation generated from the current source of the functions under contract is discharged by an SMT solver, for all inputs and iterations; assumptions and trusted contracts are listed in the evidence.",
    } for p in PROPS if p["id"] not in nas],
    "not_applicable": NA,
    "notes": "Contracts are in contracts/*.gvc, the verifier in govc/, the bounded cross-checks in replay/. No hooks in /repo.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
with open(os.path.join(HERE, "props.json"), "w") as f:
    json.dump([dict(id=p["id"], title=p["title"], assumptions=p["assumptions"], **({"race": True} if p["race"] else {})) for p in PROPS], f, indent=1)
    f.write("\n")
