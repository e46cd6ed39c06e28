"""PxMALA behaviours generated by the specification (GenRun) and replayed."""
import numpy as np

from .. import enc, problems, runs, tlc
import json
import math
import os
import tempfile


def generate(c, scenarios, balance=False):
    """scenarios: list of dict(p, x0, lmda, delta, mu, tune, steps, g).  Returns list of (scenario, outs, logus)."""
    recs = [{"P": s["p"].record(s["lmda"], s["mu"]), "x0": enc.vec(s["x0"]), "delta0": enc.real(s["delta"]),
             "tune": s["tune"], "steps": s["steps"], "g": enc.rvec(s["g"])} for s in scenarios]
    fd, path = tempfile.mkstemp(prefix="vgen", suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as f:
            for r in recs:
                f.write(json.dumps(r) + "\n")
        res = tlc.run("GenRun", "GenRunBalance" if balance else "GenRun", env={"TRACE": path}, deadlock=False)
    finally:
        os.unlink(path)
    if res.violated:
        raise tlc.TLCError("GenRun: " + res.violated + res.out[-2000:])
    c.states += res.distinct
    c.transitions += res.generated
    c.models.append({"module": "GenRun", "states": res.distinct, "transitions": res.generated})
    out = []
    for m in sorted(res.msgs, key=lambda m: (m["g"], m["outs"])):
        out.append((scenarios[m["g"] - 1], m["outs"], [enc.unreal(l) for l in m["logus"]]))
    c.log(f"GenRun: {len(out)} behaviours of {len(scenarios)} scenarios ({res.distinct} states)")
    return out


def thinned(q, n):
    """schedules of n transitions"""
    all_ = [(ns, nb, ng) for ns in range(1, n + 1) for nb in range(n) for ng in range(0, 4) if runs.transitions(ns, nb, ng) == n]
    ns, nb, ng = all_[(5 * q + q // 7) % len(all_)]
    return dict(nsamples=ns, nburn=nb, ngap=ng, verbosity=[0, 1, 2, 3, 5, 0][q % 6])


def replay(behaviours, track=None, thin=None):
    recs = []
    for q, (s, outs, logus) in enumerate(behaviours):
        n = s["steps"]
        kw = dict(nsamples=n)
        if thin:
            kw = thin(q, n)
        rec, mc = runs.run_recorded("pxmala", s["p"], s["x0"], s["g"], [math.exp(l) for l in logus], lmda=s["lmda"],
                                    delta=s["delta"], mu=s["mu"], tune=s["tune"],
                                    track=track(q) if track else None, **kw)
        rec["_desc"] += f" generated outcomes {outs}"
        recs.append(rec)
    return recs


def scenarios(c, count, steps, tuned=None, hi=1.5, probs=None, lo=0.5):
    r = c.rng
    out = []
    for k, p in enumerate(probs or problems.variety(r, count, big=False)):
        lmda, delta = runs.tuning(r, p, lo=lo, hi=hi)
        tune = bool(k % 2) if tuned is None else tuned
        out.append(dict(p=p, x0=runs.start(r, p), lmda=lmda, delta=delta, mu=float(np.round(r.uniform(0.2, 2), 2)),
                        tune=tune, steps=steps, g=runs.gaussians(r, p, steps)))
    return out
