"""Progress output appears on schedule, with the latest saved values."""
import itertools
import numpy as np
from .. import runs
from . import schedule

CLAUSES = {"raised", "lines"}
KINDS = ["myula", "pxmala", "skrock"]


def check(c):
    c.model("MCSampler", c.pick("MCSampler", "MCSamplerBig"))
    r = c.rng
    recs = []
    tracks = [None, [], ["chain"], ["logposterior"], ["L2"], ["prior"], ["predictions"], ["chain", "L2"],
              ["logposterior", "prior"], ["logposterior", "L2", "prior"]]
    q = 0
    for kind in KINDS:
        b = schedule.Base(c, kind, 13, cplx=(kind == "skrock"), tune=(kind == "pxmala"))
        for ns, nb, ng, v in itertools.product([0, 1, 2, 3], [0, 1, 3, 4], [0, 1, 3], range(0, c.pick(4, 8))):
            T = runs.transitions(ns, nb, ng)
            if T <= b.length:
                q += 1
                recs.append(schedule.record(b, ns, nb, ng, verbosity=v, track=tracks[q % len(tracks)], observe=None, lines=True))
    c.validate("TrSchedule", recs, label="small schedules and verbosities", clauses=CLAUSES)
    recs = []
    for k in range(c.pick(24, 120)):
        kind = KINDS[k % 3]
        ns, nb, ng = int(r.choice([1, 7, 40])), int(r.choice([0, 9, 30])), int(r.choice([0, 1, 4, 6]))
        v = int(r.choice([1, 2, 3, 5, 10, 25, 100, 1000]))
        T = runs.transitions(ns, nb, ng)
        b = schedule.Base(c, kind, T, cplx=bool(k // 3 % 2), s=1 + k % 2, tune=bool(k % 2))
        recs.append(schedule.record(b, ns, nb, ng, verbosity=[v, np.int64(v)][k // 2 % 2], track=tracks[k % len(tracks)],
                                    observe=None, lines=True))
    for kind in KINDS:
        b = schedule.Base(c, kind, c.pick(1300, 3000), n=1, s=2)
        recs.append(schedule.record(b, c.pick(1250, 2900), 30, 1, verbosity=100, observe=None, lines=True))
        recs.append(schedule.record(b, 1200, 0, 1, verbosity=300, observe=None, lines=True))       # a line at the end
        recs.append(schedule.record(b, 250, 51, 4, verbosity=349, observe=None, lines=True))
    c.validate("TrSchedule", recs, label="longer runs", clauses=CLAUSES)
