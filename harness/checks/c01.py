"""Samplers save exactly the scheduled states of their chain."""
import itertools
import numpy as np
from .. import problems, runs
from . import schedule, mala

CLAUSES = {"raised", "rows", "saved", "transitions"}
KINDS = ["myula", "pxmala", "skrock"]
VERBOSITY = [0] + list(range(20)) + [25, 26, 30, 32, 40, 50, 64, 100, 128, 200, 256, 1000]


def check(c):
    c.model("MCSampler", c.pick("MCSampler", "MCSamplerBig"))
    c.model("MCSampler", "MCSamplerLive")
    r = c.rng
    recs = []
    # every small schedule, all samplers
    for kind in KINDS:
        b = schedule.Base(c, kind, c.pick(17, 41), cplx=(kind == "pxmala"))
        for ns, nb, ng in itertools.product(range(0, c.pick(4, 6)), range(0, c.pick(5, 8)), range(0, c.pick(5, 8))):
            if runs.transitions(ns, nb, ng) <= b.length:
                recs.append(schedule.record(b, ns, nb, ng, verbosity=VERBOSITY[(ns + 4 * nb + 7 * ng + KINDS.index(kind)) % 17]))
    c.validate("TrSchedule", recs, label="every small schedule", clauses=CLAUSES)
    # larger ones, other observables, other types of the numbers
    recs = []
    for k in range(c.pick(30, 150)):
        kind = KINDS[k % 3]
        ng = int(r.choice([0, 1, 2, 3, 5, 7, 10, 16, 40]))
        nb = int(r.choice([0, 1, 5, 10, 50, 64, 100, 130]))
        ns = int(r.choice([1, 2, 5, 10, 33, 65, 101]))
        T = runs.transitions(ns, nb, ng)
        if T > c.pick(700, 3000):
            ns = 5
            T = runs.transitions(ns, nb, ng)
        b = schedule.Base(c, kind, T, cplx=bool(k // 3 % 2), n=1 + k % 3, s=1 + k % 3, tune=bool(k // 3 % 3))
        obs = ["chain", "logpi", "l2", "prior", "preds"][k % 5]
        track = None if k % 2 else [runs.ASKED[obs]]
        typ = [int, np.int64, np.int32, float][k // 3 % 4]
        nbv = nb if typ is float else typ(nb)
        if typ is float:
            nbv = float(nb)
        recs.append(schedule.record(b, ns, nbv, ng if typ is float else typ(ng), verbosity=VERBOSITY[k % len(VERBOSITY)], track=track,
                                    observe=obs))
    for kind in KINDS:
        b = schedule.Base(c, kind, c.pick(1600, 6000), n=1, s=2)
        recs.append(schedule.record(b, c.pick(1203, 5001), 300, 0))
        recs.append(schedule.record(b, 12, 1000, 50))
        for ng in (64, 100, 128, 250, 333, 500, 777):
            recs.append(schedule.record(b, min(4, (b.length - 11) // ng + 1), int(r.randint(0, 10)), ng, verbosity=VERBOSITY[ng % len(VERBOSITY)]))
    c.validate("TrSchedule", recs, label="long schedules", clauses=CLAUSES)
    # recomputed from scratch by the specification: thinned runs, each saved value derived from the draws
    recs = []
    for k, p in enumerate(problems.variety(r, c.pick(30, 180), big=False)):
        kind = KINDS[k % 3]
        lmda, delta = runs.tuning(r, p, hi=1.0)
        ns, nb, ng = int(r.randint(1, 5)), int(r.randint(0, 5)), int(r.randint(0, 5))
        T = runs.transitions(ns, nb, ng)
        rec, mc = runs.run_recorded(kind, p, runs.start(r, p), runs.gaussians(r, p, T), np.round(r.uniform(0.01, 0.99, T), 6),
                                    lmda=lmda, delta=delta, nsamples=ns, nburn=nb, ngap=ng, s=1 + k % 3, tune=bool(k % 2),
                                    verbosity=int(r.choice(VERBOSITY)))
        rec["rows"] = False
        recs.append(rec)
    beh = mala.generate(c, mala.scenarios(c, c.pick(6, 40), 5, hi=2.2))
    recs += mala.replay(beh, thin=mala.thinned)
    recs += [dict(q, rows=False) for q in problems.wide_runs(r, c.pick([3000, 130000], [3000, 20000, 130000, 600000]))]
    c.validate("TrRun", recs, label="thinned runs from their draws", clauses={"raised", "rows", "step", "kept", "draws"})
