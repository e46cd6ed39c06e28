"""Regenerate MANIFEST.json from properties.jsonl and the checks present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
    "run": "TLA+ state machine of the sampler (Sampler.tla), exhaustively checked small instance, recorded and TLC-generated runs of the real code validated step by step by TLC",
    "case": "TLA+ definition of the operation (fixed-point reals), TLC evaluates it on recorded calls of the real code over enumerated and sampled inputs",
    "hist": "TLA+ state machine, exhaustive enumeration of bounded histories by TLC, each replayed into the real code and the observation judged by TLC",
}
KIND = {"C01": "run", "C02": "run", "C03": "run", "C04": "run", "C05": "run", "C06": "run", "C07": "run", "C08": "hist",
        "C19": "hist", "C21": "run", "C22": "hist", "C14": "hist", "C23": "hist", "C27": "run", "C28": "hist", "C29": "hist"}
NOTE = ("Bounded: the specification is explored exhaustively within its stated constants; the implementation is "
        "bound to it on the executions listed in the evidence (deterministic for a seed). Trusts TLC, the encoding of "
        "numbers (12 decimals), numpy and the third-party transforms.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "harness", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[KIND.get(i, "case")],
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+/TLC. No hooks in /repo: the checks use the public API and intercept numpy.random. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
