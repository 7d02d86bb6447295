"""Write /verif/MANIFEST.json from the obligation table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from engine import obligations as OB

NA = {
    "C39": "quantifies over floating-point results (rounding error, finiteness, positive definiteness of sums): no sound static argument over numpy/jax kernels is in reach; the structural clauses that influence it (double precision, soft clipping, square-root updates) are claimed as C33, C09, C02 and C06",
    "C40": "a statistical property of the estimator and of Monte-Carlo averages over unbounded data; not a fact visible in the shape of the code. The structural clauses (constraints, bounds, distributions used by the simulator) are claimed as C15-C18, C25, C26",
}
TECH = "static analysis: value-graph abstract interpretation of the current source (effects, aliasing, loops in index form), normal form compared with a reference model"
NOTE = ("Decides the property for all inputs at the level of the library primitives: each listed function's result/effects are "
        "shown equal to the reference term. Trusted: the reference models in /verif/specs, the table of numpy/pandas/jax primitive "
        "meanings in engine/lib.py, and the normalisation rules in engine/terms.py. Obligations that the normaliser cannot decide are "
        "reported as undecided in the evidence and raise no alarm.")
EXTRA = getattr(OB, "NOTES", {})

def main():
    pids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in pids:
        if OB.get(p):
            checks.append({"property": p, "quick_cmd": f"python3 engine/check.py {p} --tier quick",
                           "thorough_cmd": f"python3 engine/check.py {p} --tier thorough",
                           "evidence_file": f"evidence/{p}.json",
                           "technique": EXTRA.get(p, (TECH, NOTE))[0], "level": "other", "level_note": EXTRA.get(p, (TECH, NOTE))[1]})
        else:
            na.append({"property": p, "reason": NA.get(p, "not claimed: no static check for this property has been built yet")})
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in na])

main()
