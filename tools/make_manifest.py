"""writes MANIFEST.json: every property in properties.jsonl that has a harness/props/cNN.py is claimed"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "model-based stateful PBT (Hypothesis histories vs dictionary model)",
    "C02": "metamorphic stateful PBT: edit one side, compare the other",
    "C03": "differential PBT vs scipy DOP853 on an independent right-hand side",
    "C04": "differential PBT: evaluation/simulation vs AST interpreter",
    "C05": "model-based stateful PBT vs list model of the program",
    "C06": "differential PBT vs active-set enumeration and KKT residuals",
    "C07": "differential PBT: NLP rows/objective evaluated at generated points vs independent transcription",
    "C08": "differential PBT vs independent QP transcription / feasibility re-check",
    "C09": "differential PBT vs boundary value problem and direct method",
    "C10": "metamorphic stateful PBT: interleaved solves, snapshots of inputs",
    "C11": "invariant PBT over result objects of generated solves",
    "C12": "model-based stateful PBT vs list model",
    "C13": "model-based stateful PBT vs per-variable dictionary",
    "C14": "differential PBT: composed vs parts",
    "C15": "differential PBT vs direct solution; update-law replay of recorded iterates",
    "C16": "differential PBT: parametrized vs substituted problem",
    "C17": "PBT vs set-theoretic / mathematical definitions",
    "C18": "PBT vs moments / exact polynomial reproduction",
    "C19": "model-based stateful PBT: closed loop vs element-wise simulation",
    "C20": "round-trip PBT and fault injection on the timeout context",
    "C21": "PBT: residuals of the defining equations",
    "C22": "random linear models and measurement histories vs the Kalman recursion computed with scipy",
    "C23": "random stochastic problems vs scipy integration of every sample, an independent expansion and a hand-written joint problem",
    "C24": "differential PBT: iterates vs hand-written multiplier method; converged solution vs hand-composed problem",
    "C25": "differential PBT: starting point of the solver vs declared guesses / independent simulation laid out on the grid",
}
NA = {}
NOTE = ("Sampling only: the property held on every generated case (counts in the evidence file). Trusts CasADi's function evaluation and solvers, numpy/scipy, "
        "Hypothesis and the reference code in harness/.")
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid not in NA and os.path.exists(os.path.join(ROOT, "harness", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "./run.sh " + pid, "thorough_cmd": "./run.sh %s --thorough" % pid,
                       "technique": "property-based testing: " + TECH[pid], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. See DESIGN.md."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
