#!/usr/bin/env python3
"""Write MANIFEST.json (properties proved are those with a module in pyvc/checks)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
PART = json.load(open(os.path.join(here, "levels.json")))
checks = []
for p in props:
    i = p["id"]
    proof = os.path.exists(os.path.join(here, "pyvc", "checks", i.lower() + ".py"))
    c = {"property": i, "quick_cmd": f"./check {i} --tier quick",
         "thorough_cmd": f"./check {i} --tier thorough",
         "evidence_file": f"evidence/{i}.json"}
    if proof:
        c["technique"] = ("contract-based deductive verification of the real source: "
                          "verification conditions generated from /repo's Python AST on every "
                          "run, discharged by z3/cvc5; failing obligations replayed by "
                          "evaluating the same contract on the real package")
        c["level"] = "proof"
    else:
        c["technique"] = ("bounded stand-in: the property's contract evaluated on the real "
                          "package for seeded inputs")
        c["level"] = "other"
    c["level_note"] = PART.get(i, "bounded: nothing is proved; contract evaluated on generated "
                                  "inputs only" if not proof else
                               "all obligations discharged for all inputs, over exact reals; "
                               "trusts pyvc, the solvers and the models listed in the evidence")
    checks.append(c)
json.dump({"version": 1,
           "setup_cmd": "chmod +x check && mkdir -p out evidence && . /opt/vp/env.sh && "
                        "PYTHONPATH=$PWD /opt/venv/bin/python -c 'import pyvc, z3, cvc5, pyvc.run'",
           "checks": checks, "not_applicable": [],
           "notes": "See DESIGN.md. known-findings.txt lists findings and repaired defects."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
