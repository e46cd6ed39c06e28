"""Everything tracked for a saved sample belongs to that sample."""
import itertools
import numpy as np
from .. import problems, runs
from . import mala, posterior

CLAUSES = {"raised", "tracked", "rows", "preds", "L2", "prior", "logpi"}
SUBSETS = [list(s) for n in range(6) for s in itertools.combinations(runs.TRACKS, n)]


def check(c):
    c.model("MCSampler")
    r = c.rng
    recs = []
    probs = problems.variety(r, c.pick(96, 480))
    for k, p in enumerate(probs):
        kind = ["myula", "pxmala", "skrock"][k % 3]
        lmda, delta = runs.tuning(r, p, hi=1.0)
        ns, nb, ng = [(3, 0, 1), (2, 1, 2), (3, 2, 0), (1, 0, 5)][k % 4]
        if p.n > 6:
            ns, nb, ng = 2, 1, 1
        elif k % 3 == 0:
            ns, nb, ng = int(r.randint(1, 6)), int(r.randint(0, 5)), int(r.randint(0, 4))
        T = runs.transitions(ns, nb, ng)
        track = list(SUBSETS[(k * 7) % 32]) if k % 2 else None
        if track and k % 4 == 1:
            track = track[::-1]
        rec, mc = runs.run_recorded(kind, p, runs.start(r, p), runs.gaussians(r, p, T), np.round(r.uniform(0.01, 0.99, T), 6),
                                    lmda=lmda, delta=delta, mu=float(np.round(10 ** r.uniform(-1, 1), 3)) * (k % 11 != 5), nsamples=ns, nburn=nb,
                                    ngap=ng, s=1 + k % 3, tune=bool(k // 3 % 2), track=track,
                                    verbosity=[0, 1, 2, 3, 7, 100][k // 2 % 6],
                                    warm=runs.start(r, p) if k % 5 == 3 and not (kind == "pxmala" and k // 3 % 2) else None)
        recs.append(rec)
    recs += problems.wide_runs(r, c.pick([2000, 130000], [2000, 20000, 130000, 600000]))
    c.validate("TrRun", recs, label="runs of all samplers", clauses=CLAUSES)
    beh = mala.generate(c, mala.scenarios(c, c.pick(10, 60), 4, hi=2.2))
    c.validate("TrRun", mala.replay(beh) + mala.replay(beh, thin=mala.thinned), label="rows after generated rejections", clauses=CLAUSES)
    recs = []
    for k, p in enumerate(probs[: c.pick(60, 300)]):
        q = None
        if k % 2:
            q = np.round(r.normal(0, 2, p.m), 4)
            if np.iscomplexobj(p.data):
                q = q + 1j * np.round(r.normal(0, 2, p.m), 4)
            q = q + p.data * (np.ndim(p.centre) > 0)
        recs.append(posterior.point(p, runs.start(r, p), q, what=("prior", "logpi"), mu=float(np.round(10 ** r.uniform(-2, 2), 3)) * (k % 11 != 7),
                                    kind=["myula", "pxmala", "skrock"][k % 3]))
    for k in range(c.pick(24, 120)):         # very small and very large L2; many data
        big = k % 4 == 3
        p = problems.dense(r, n=2, m=[30, 45, 60][k // 4 % 3] if big else int(r.randint(1, 5)), npix=2, cplx=bool(k % 2),
                           sigma="matrix" if big else problems.SIGMA_FORMS[k % 6],
                           escale=2.0 ** (0 if big else [12, 20, -9, 26][k // 2 % 4]))
        recs.append(posterior.point(p, runs.start(r, p), what=("prior", "logpi"), mu=float(np.round(10 ** r.uniform(-2, 2), 3))))
    c.validate("TrPosterior", recs, label="logpi calls")
