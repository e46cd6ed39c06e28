"""Runs on different schedules with the same draws, for TrSchedule."""
import re

import numpy as np

from .. import enc, problems, runs, rng as vrng
from ..core import attempt


class Base:
    """an unthinned run with everything tracked"""

    def __init__(self, c, kind, length, cplx=False, n=2, reject=True, prob=None, lmda=None, delta=None, s=3, tune=True):
        r = c.rng
        self.kind, self.length, self.s, self.tune = kind, length, s, tune
        self.p = prob or problems.dense(r, n=n, m=2, npix=2, cplx=cplx, setting=["synthesis", "analysis"][r.randint(2)])
        self.lmda, self.delta = runs.tuning(r, self.p, lo=0.6, hi=1.9 if kind == "pxmala" else 1.0)
        self.mu = float(np.round(r.uniform(0.3, 2), 2))
        self.x0 = runs.start(r, self.p)
        self.per = self.p.n * (2 if self.p.cplx else 1)
        self.g = runs.gaussians(r, self.p, length + 8)
        self.u = np.round(r.uniform(0.01, 0.99, length + 8), 6)
        self.exc = None
        o, mc, tr = self.run(length, 0, 1)
        if o.exc:
            self.exc = o
            return
        self.mc = mc
        self.vals = np.array([mc.logPi, mc.L2s, mc.priors]).T
        self.rows = {k: np.array(getattr(mc, a)).reshape(length, -1) for k, a in runs.ATTR.items()}
        self.acc = [int(bool(a)) for a in mc.acceptance_trace] if kind == "pxmala" else [1] * length

    def run(self, nsamples, nburn, ngap, verbosity=0, track=None):
        o = attempt(runs.build, self.kind, self.p, lmda=self.lmda, delta=self.delta, mu=self.mu, s=self.s,
                    nsamples=nsamples, nburn=nburn, ngap=ngap, verbosity=verbosity, track=track, tune=self.tune)
        if o.exc:
            return o, None, -1
        mc = o.value[1]
        vrng.script(self.g, self.u)
        o = attempt(mc.run, self.x0 * self.p.unit)
        g, u, calls = vrng.drawn()
        vrng.off()
        tr = len(g) // self.per if len(g) % self.per == 0 else -1
        if self.kind == "pxmala" and len(u) > tr:      # certain acceptances may do without
            tr = -1
        return o, mc, tr


def ids_of(base_rows):
    """identity of each row: number of its first occurrence"""
    seen, out = {}, []
    for k, row in enumerate(base_rows):
        out.append(seen.setdefault(row.tobytes(), k + 1))
    return out


def match(row, base_rows, ids, hint):
    scale = 1e-9 * (1 + np.abs(base_rows).max())
    if 0 <= hint < len(base_rows) and np.abs(base_rows[hint] - row).max() <= scale:
        return ids[hint]
    d = np.abs(base_rows - row).max(axis=1)
    k = int(np.argmin(d))
    return ids[k] if d[k] <= scale else 0


PROG = re.compile(r"^\s*([\d,]+)/([\d,]+)\b(.*)$")


def parse_lines(text):
    out = []
    for line in text.splitlines():
        if not line.strip():
            continue
        m = PROG.match(line)
        if line.strip() == "DONE":
            out.append({"t": "done"})
        elif line.strip() == "Burning in...":
            out.append({"t": "burn"})
        elif m:
            d = dict(re.findall(r"(\w+):\s*([-+.\deEnaif]+)", m.group(3)))
            try:
                v = [enc.real(float(d[k])) for k in ("logposterior", "L2", "prior")]
                rate = enc.real(float(d["acceptanceRate"])) if "acceptanceRate" in d else []
            except (KeyError, ValueError, enc.Unencodable):
                v, rate = [], []
            out.append({"t": "progress", "n": int(m.group(1).replace(",", "")), "of": int(m.group(2).replace(",", "")),
                        "v": v, "rate": rate})
        else:
            out.append({"t": "other"})
    return out


def record(base, ns, nburn, ngap, verbosity=0, track=None, observe="chain", lines=False):
    desc = (f"{base.kind} {base.p.desc} s={base.s} nsamples={ns!r} nburn={nburn!r} ngap={ngap!r} "
            f"verbosity={verbosity!r} track={track} observed={observe}")
    rec = {"kind": base.kind, "nsamples": int(ns), "nburn": int(np.ceil(nburn)), "ngap": int(ngap), "verb": int(verbosity),
           "exc": "", "obs": [], "ids": [], "acc": [], "tr": -1, "lines": [], "vals": [], "judgelines": lines,
           "_desc": desc}
    if base.exc:
        rec["exc"], rec["_text"] = base.exc.exc, base.exc.text
        return rec
    T = runs.transitions(int(ns), int(np.ceil(nburn)), int(ngap))
    assert T <= base.length, desc
    o, mc, tr = base.run(ns, nburn, ngap, verbosity, track)
    if o.exc:
        rec["exc"], rec["_text"] = o.exc, o.text
        return rec
    rec["acc"], rec["tr"] = base.acc[:T], tr
    rec["_out"] = o.out[-400:]
    if observe:
        rows = base.rows[observe]
        ids = ids_of(rows)
        rec["ids"] = ids[:T]
        try:
            got = np.array(getattr(mc, runs.ATTR[observe]))
            got = got.reshape(len(got), -1) if len(got) else got
            gap = max(int(ngap), 1)
            rec["obs"] = [match(g, rows, ids, int(np.ceil(nburn)) + k * gap) for k, g in enumerate(got)]
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    else:
        rec["obs"] = rec["ids"] = [0] * max(int(ns), T)
        rec["obs"] = [0] * int(ns)
    if lines:
        rec["lines"] = parse_lines(o.out)
        rec["vals"] = [enc.rvec(v) for v in base.vals[:T]]
    return rec
