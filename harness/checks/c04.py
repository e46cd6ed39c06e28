"""PxMALA accepts by the Metropolis-Hastings rule for its own proposal."""
import numpy as np
from .. import problems, runs
from . import mala, steps

CLAUSES = {"raised", "mh", "kept", "step", "acclen", "draws", "rows"}


def check(c):
    c.model("MCSampler")
    # detailed balance of the specification itself, on a few problems
    mala.generate(c, mala.scenarios(c, 4, 2), balance=True)
    beh = mala.generate(c, mala.scenarios(c, c.pick(26, 150), c.pick(4, 5), hi=1.8))
    recs = mala.replay(beh) + mala.replay(beh[::2], thin=mala.thinned)
    # far proposals: acceptance ratios of many orders of magnitude
    beh = mala.generate(c, mala.scenarios(c, c.pick(8, 40), 3, hi=9.0, lo=3.0))
    recs += mala.replay(beh)
    c.validate("TrRun", recs, label="generated accept/reject paths", clauses=CLAUSES)
    r = c.rng
    # library operators, natural uniform draws
    recs = []
    probs = [problems.wavelet(r, kind=k, setting=s, prior=pr, sigma=sg, cplx=cx)
             for k, s, pr, sg, cx in [("swt", "synthesis", "s2", "vector", True), ("swt", "analysis", "l1", "float", True),
                                      ("path", "synthesis", "l1", "matrix", False), ("path", "analysis", "l1", "vector", True)]]
    probs.append(problems.lensing(r))
    probs += problems.variety(r, c.pick(20, 150), big=False)
    for k, p in enumerate(probs):
        lmda, delta = runs.tuning(r, p, lo=0.4, hi=2.0)
        n = 6
        u = np.round(r.uniform(0.01, 0.99, n), 6)
        rec, mc = runs.run_recorded("pxmala", p, runs.start(r, p), runs.gaussians(r, p, n), u, lmda=lmda, delta=delta,
                                    mu=float(np.round(r.uniform(0.2, 3), 2)), tune=bool(k // 2 % 2), **runs.mixed(r, n, k))
        rec["rows"] = False
        recs.append(rec)
    # long histories
    for k in range(c.pick(3, 10)):
        p = problems.dense(r, n=2, m=2, npix=2, cplx=bool(k % 2))
        lmda, delta = runs.tuning(r, p, lo=0.8, hi=2.5)
        n = c.pick(280, 600)
        rec, mc = runs.run_recorded("pxmala", p, runs.start(r, p), runs.gaussians(r, p, n), np.round(r.uniform(0.01, 0.99, n), 6),
                                    lmda=lmda, delta=delta, nsamples=n, tune=bool(k % 2))
        rec["rows"] = False
        recs.append(rec)
    # many parameters
    for k in range(c.pick(6, 24)):
        n, cplx, cop = [(26, False, False), (48, True, True), (33, False, True), (70, True, False), (45, False, False), (64, False, True)][k % 6]
        p = problems.dense(r, n=n, m=4, npix=6, cplx=cplx, cop=cop, scale=0.2, Tform="vector", setting=["synthesis", "analysis"][k // 2 % 2],
                           psetting="synthesis", sigma=problems.SIGMA_FORMS[k % 6])
        lmda, delta = runs.tuning(r, p, lo=0.4, hi=0.9)
        rec, mc = runs.run_recorded("pxmala", p, runs.start(r, p), runs.gaussians(r, p, 5), np.round(r.uniform(0.01, 0.99, 5), 6),
                                    lmda=lmda, delta=delta / n ** 0.5, nsamples=5, tune=bool(k % 2))
        rec["rows"] = False
        recs.append(rec)
    c.validate("TrRun", recs, label="runs with uniform draws", clauses=CLAUSES)
    steps.transitions(c)
