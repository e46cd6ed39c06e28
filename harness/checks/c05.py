"""PxMALA step-size adaptation follows its rule and bounds."""
import numpy as np
from .. import enc, problems, runs, rng as vrng
from ..core import attempt
from . import mala

CLAUSES = {"raised", "tune", "deltalen", "acclen", "bounds"}
STEP = CLAUSES | {"step", "mh", "kept"}


def check(c):
    c.model("MCSampler")
    r = c.rng
    # the new step size is the one in force: sharp generated histories with tuning on
    beh = mala.generate(c, mala.scenarios(c, c.pick(14, 80), c.pick(4, 5), tuned=True, hi=1.8))
    c.validate("TrRun", mala.replay(beh) + mala.replay(beh[1::2], thin=mala.thinned), label="generated tuned histories", clauses=STEP)
    # long histories of all kinds, only the step-size sequence is judged
    recs = []
    for k in range(c.pick(40, 200)):
        recs.append(history(c, k))
    c.validate("TrTune", recs, label="step-size histories")


def history(c, k):
    """one run; mode decides how one-sided its decisions are"""
    r = c.rng
    mode = ["mixed", "accept", "reject", "stiff", "huge", "off", "below", "above"][k % 8]
    q = (k + k // 8) % 4
    n = c.pick([30, 80, 200 if k // 8 % 2 else 700, 12][q], [100, 400, 900 if k // 8 % 2 else 3000, 30][q])
    if k in (8, 34):
        n = c.pick(6000, 30000)
    p = problems.dense(r, n=int(r.randint(1, 4)), m=2, npix=2, cplx=bool(k // 8 % 2), sig_lo=0.02 if mode == "stiff" else 0.5,
                       sig_hi=0.05 if mode == "stiff" else 1.5)
    lmda, delta = runs.tuning(r, p, lo=0.3, hi=1.5)
    u = r.uniform(0.001, 0.999, n)
    tune = mode != "off"
    if mode == "accept":
        u = np.full(n, 1e-280)
        delta = min(delta, lmda / 3)
    elif mode == "reject":
        u = np.full(n, 1 - 1e-12)
    elif mode == "stiff":
        lmda = float([1e4, 1e5, 3e6][k // 8 % 3])
        delta = 2e-8 * lmda
        u = np.full(n, 1 - 1e-12)
    elif mode == "huge":
        delta = 0.49 * lmda
        u = np.full(n, 1e-280)
    elif mode == "below":
        lmda, delta = 1e5, 1e-4       # starts below the lower bound
    elif mode == "above":
        delta = 5 * lmda
    nburn, ngap = [(0, 1), (3, 2), (n - 1, 0), (0, 4)][q]
    ns = (n - 1 - nburn) // max(ngap, 1) + 1
    tr = runs.transitions(ns, nburn, ngap)
    o = attempt(runs.build, "pxmala", p, lmda=lmda, delta=delta, nsamples=ns, nburn=nburn, ngap=ngap, tune=tune, verbosity=int(r.choice(runs.VERBOSITY)),
                track=None if k % 3 else [t for t in runs.TRACKS if r.rand() < 0.5])
    rec = {"lmda": enc.real(lmda), "delta0": enc.real(delta), "tune": tune, "tr": tr, "exc": o.exc or "", "acc": [],
           "deltas": [], "delta": enc.real(delta), "_text": o.text,
           "_desc": f"{mode} {p.desc} lmda={lmda} delta={delta} transitions={tr} nburn={nburn} ngap={ngap}"}
    if o.exc:
        return rec
    mc = o.value[1]
    vrng.script(np.concatenate([runs.gaussians(r, p, tr + 2)]), u)
    o = attempt(mc.run, runs.start(r, p))
    vrng.off()
    rec["exc"], rec["_text"] = o.exc or "", o.text
    if not o.exc:
        try:
            rec["acc"] = [int(a) if a in (0, 1) else 7 for a in mc.acceptance_trace]
            rec["deltas"] = enc.rvec(mc.deltas_trace)
            rec["delta"] = enc.real(float(mc.delta))
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    return rec
