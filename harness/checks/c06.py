"""Every SKROCK transition is the s-stage SK-ROCK scheme."""
import numpy as np
from .. import enc, problems, runs
from . import steps

CLAUSES = {"raised", "step", "real", "draws", "rows"}


def check(c):
    c.model("MCSampler")
    c.model("MCRock")
    r = c.rng
    recs = []
    stages = c.pick([1, 2, 3, 4, 5, 6, 7, 2, 3, 8], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
    for k, p in enumerate(problems.variety(r, c.pick(70, 420))):
        s = stages[k % len(stages)]
        if p.n > 6 and s > 5:
            s = 5
        lmda, delta = runs.tuning(r, p, lo=0.2, hi=1.5)
        delta = float(np.round(delta * [1, s, 0.4 * s * s][k % 3] if s > 1 else delta, 5)) or 1e-5
        if k % 11 == 7:
            delta = [1e-6, 1e-4][k // 11 % 2]
        n = 1 if s > 7 else 3
        rec, mc = runs.run_recorded("skrock", p, runs.start(r, p), runs.gaussians(r, p, n), [], lmda=lmda, delta=delta,
                                    s=s, mu=float(np.round(r.uniform(0.1, 3), 2)), **runs.mixed(r, n, k))
        rec["rows"] = False
        recs.append(rec)
    for k in range(c.pick(3, 10)):
        p = problems.dense(r, n=2, m=2, npix=2, cplx=bool(k % 2), setting=["synthesis", "analysis"][k // 2 % 2])
        lmda, delta = runs.tuning(r, p)
        n = c.pick(60, 300)
        rec, mc = runs.run_recorded("skrock", p, runs.start(r, p), runs.gaussians(r, p, n), [], lmda=lmda, delta=delta,
                                    nsamples=n, s=2 + k)
        rec["rows"] = False
        recs.append(rec)
    # many stages, many parameters
    for k, s in enumerate(c.pick([9, 10, 12, 13], [9, 10, 11, 12, 13, 14])):
        p = problems.dense(r, n=1 + k % 3, m=2, npix=2, cplx=bool(k % 2), setting=["synthesis", "analysis"][k // 2 % 2])
        lmda, delta = runs.tuning(r, p)
        rec, mc = runs.run_recorded("skrock", p, runs.start(r, p), runs.gaussians(r, p, 1), [], lmda=lmda, delta=delta * s,
                                    nsamples=1, s=s, slack=1, seconds=200)
        rec["rows"] = False
        recs.append(rec)
    # more still: a user's own operator and prior, so that the doubling of the cost with every stage can be borne
    for k, s in enumerate(c.pick([14, 15, 16], [14, 15, 16, 17])):
        p = problems.user(r, ["ridge", "flat", "library"][k % 3] if s < 15 else "flat", "own", n=1, m=1, cplx=bool(k % 2))
        lmda, delta = runs.tuning(r, p)
        rec, mc = runs.run_recorded("skrock", p, runs.start(r, p), runs.gaussians(r, p, 1), [], lmda=lmda, delta=delta * s,
                                    nsamples=1, s=s, slack=1, seconds=400)
        rec["rows"] = False
        recs.append(rec)
    for k in range(c.pick(5, 15)):
        n, cplx, cop = [(33, False, True), (50, True, True), (26, False, False), (45, True, False), (70, False, False)][k % 5]
        p = problems.dense(r, n=n, m=3, npix=5, cplx=cplx, cop=cop, scale=0.2, Tform="vector", setting=["synthesis", "analysis"][k // 2 % 2],
                           psetting="synthesis")
        lmda, delta = runs.tuning(r, p)
        rec, mc = runs.run_recorded("skrock", p, runs.start(r, p), runs.gaussians(r, p, 2), [], lmda=lmda, delta=delta,
                                    nsamples=2, s=1 + k % 4)
        rec["rows"] = False
        recs.append(rec)
    recs += [dict(q, rows=False) for q in problems.wide_runs(r, c.pick([3000, 130000], [3000, 20000, 130000, 400000]), kinds=("skrock",))]
    c.validate("TrRun", recs, label="SKROCK runs", clauses=CLAUSES)
    steps.noise_law(c, kinds=("skrock",))
