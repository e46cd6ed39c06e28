"""Driving the samplers with scripted or recorded random numbers and recording what they report."""
import math
from types import SimpleNamespace

import numpy as np

from pxmcmc.mcmc import PxMCMCParams, MYULA, PxMALA, SKROCK

from . import enc, rng as vrng
from .core import attempt

TRACKS = ["logposterior", "L2", "prior", "chain", "predictions"]
ATTR = {"chain": "chain", "preds": "preds", "l2": "L2s", "prior": "priors", "logpi": "logPi"}
ASKED = {"chain": "chain", "preds": "predictions", "l2": "L2", "prior": "prior", "logpi": "logposterior"}
KINDS = {"myula": MYULA, "pxmala": PxMALA, "skrock": SKROCK}


def build(kind, prob, *, lmda, delta, mu=1.0, s=1, nsamples=4, nburn=0, ngap=1, verbosity=0, track=None, tune=False,
          cplx=None):
    u = prob.unit
    params = PxMCMCParams(lmda=lmda * u * u, delta=delta * u * u, mu=mu / u if u != 1 else mu, s=s, nsamples=nsamples, nburn=nburn, ngap=ngap,
                          complex=prob.cplx if cplx is None else cplx, verbosity=verbosity,
                          track=TRACKS if track is None else track)
    if kind == "pxmala":
        return params, PxMALA(prob.op, prob.prior, params, tune_delta=tune)
    return params, KINDS[kind](prob.op, prob.prior, params)


def transitions(nsamples, nburn, ngap):
    return 0 if nsamples == 0 else int(nburn) + (nsamples - 1) * max(int(ngap), 1) + 1


def gaussians(rng, prob, tr):
    return np.round(rng.normal(0, 1, tr * prob.n * (2 if prob.cplx else 1)), 6)


def run_recorded(kind, prob, x0, gauss, unif, seconds=60, slack=6, warm=None, **kw):
    """One run under a script.  A few spare draws (slack transitions) let a run that goes on too long be seen;
    one that goes on for ever ends with Exhausted.  warm: start of an earlier run of the same object."""
    lmda, delta, mu = kw["lmda"], kw["delta"], kw.get("mu", 1.0)
    o = attempt(build, kind, prob, **kw, seconds=seconds)
    rec = base_record(kind, prob, x0, **kw)
    if o.exc:
        rec["exc"] = o.exc
        rec["_text"] = o.text
        return rec, None
    params, mc = o.value
    spare = np.random.RandomState(0).normal(0, 1, slack * prob.n * 2)
    if warm is not None:
        vrng.script(list(-np.asarray(gauss)[::-1]) + list(spare), list(unif)[::-1] + [0.5] * slack)
        o = attempt(mc.run, warm if prob.unit == 1 else warm * prob.unit, seconds=seconds)
        vrng.off()
        rec["_desc"] += " second run of the object"
        if o.exc:
            fill(rec, mc, o, [], [])
            return rec, mc
    vrng.script(list(gauss) + list(spare), list(unif) + [0.5] * slack)
    o = attempt(mc.run, x0 if prob.unit == 1 else x0 * prob.unit, seconds=seconds)
    g, u, calls = vrng.drawn()
    vrng.off()
    fill(rec, mc, o, g, u, prob.unit)
    return rec, mc


def base_record(kind, prob, x0, *, lmda, delta, mu=1.0, s=1, nsamples=4, nburn=0, ngap=1, tune=False, track=None,
                verbosity=0, cplx=None):
    return {
        "kind": kind, "nsamples": nsamples, "nburn": int(math.ceil(nburn)), "ngap": int(ngap), "tune": bool(tune),
        "s": s,
        "delta0": enc.real(delta), "x0": enc.vec(x0), "P": prob.record(lmda, mu), "exc": "", "rows": True,
        "g": [], "logu": [], "chain": [], "acc": [], "deltas": [], "delta": enc.real(delta),
        "has": {k: False for k in ATTR}, "len": {},
        "asked": {k: (t in (TRACKS if track is None else track)) for k, t in ASKED.items()},
        "preds": [], "l2": [], "prior": [], "logpi": [], "off": {"l2": [], "prior": []}, "galt": [], "whole": True, "pinf": [], "linf": [],
        "_desc": f"{kind} {prob.desc} lmda={lmda} delta={delta} mu={mu} s={s} nsamples={nsamples} nburn={nburn} "
                 f"ngap={ngap} tune={tune} track={track} verbosity={verbosity} x0={np.asarray(x0).tolist()}",
    }


def fill(rec, mc, o, g, u, unit=1.0):
    rec["_out"] = o.out[-500:]
    if o.exc:
        rec["exc"] = o.exc
        rec["_text"] = o.text
        return
    try:
        rec["g"] = enc.rvec(g)
        rec["logu"] = [enc.real(math.log(v)) for v in u]
        if rec["kind"] == "pxmala":
            rec["acc"] = [int(a) if a in (0, 1) else 7 for a in mc.acceptance_trace]
            rec["deltas"] = enc.rvec(np.asarray(mc.deltas_trace) / unit ** 2)
        rec["delta"] = enc.real(float(mc.delta) / unit ** 2)
        for key, attr in ATTR.items():
            if hasattr(mc, attr):
                v = getattr(mc, attr)
                rec["has"][key] = True
                rec["len"][key] = len(v)
                if unit != 1 and key in ("chain", "preds", "prior"):
                    v = np.asarray(v) / unit
                if key in ("prior", "logpi") and rec["P"]["psetting"] == "wall":
                    v = np.asarray(v, dtype=float)
                    rec["pinf" if key == "prior" else "linf"] = [7 if np.isnan(a) else int(np.sign(a)) if np.isinf(a) else 0 for a in v]
                    v = np.where(np.isfinite(v), v, 0)
                rec[key] = enc.mat(v) if key in ("chain", "preds") else enc.rvec(v)
    except (enc.Unencodable, AttributeError, TypeError, ValueError) as e:
        rec["exc"] = "NotRecordable"
        rec["_text"] = repr(e)


def run_projected(kind, full, sub, idx, x0, gauss, unif, seconds=120, **kw):
    """One run on many parameters (each seen by its own datum, whose errors are independent), recorded at the
    coordinates idx only; "off" gives what the others add to L2 and prior."""
    rec = base_record(kind, sub, x0[idx], **kw)
    rec["_desc"] = f"{kind} {full.desc} coordinates {list(map(int, idx))} {kw}"
    o = attempt(build, kind, full, **kw, seconds=seconds)
    if o.exc:
        rec["exc"], rec["_text"] = o.exc, o.text
        return rec
    mc = o.value[1]
    vrng.script(list(gauss) + [0.1] * (4 * full.n), list(unif) + [0.5] * 6)
    o = attempt(mc.run, x0, seconds=seconds)
    g, u, calls = vrng.drawn()
    vrng.off()
    g = np.asarray(g)
    per = full.n * (2 if full.cplx else 1)
    if not o.exc and g.size % per:
        rec["exc"], rec["_text"] = "NotRecordable", f"{g.size} draws for {full.n} parameters"
        return rec
    view = SimpleNamespace(delta=mc.delta, acceptance_trace=getattr(mc, "acceptance_trace", []),
                           deltas_trace=getattr(mc, "deltas_trace", []))
    off = {"l2": [], "prior": []}
    if not o.exc:
        def project():
            for a in ATTR.values():
                if hasattr(mc, a):
                    v = np.asarray(getattr(mc, a))
                    setattr(view, a, v[:, idx] if v.ndim == 2 else v)
            rest = np.ones(full.n, dtype=bool)
            rest[idx] = False
            for x in np.asarray(mc.chain):
                off["l2"].append(math.fsum((np.abs(full.data[rest] - x[rest]) ** 2 * full.icov[rest]).tolist()))
                off["prior"].append(math.fsum(np.abs(x[rest]).tolist()))
        q = attempt(project)
        if q.exc:
            rec["exc"], rec["_text"] = "NotRecordable", q.text
            return rec
        if full.cplx:
            rec["galt"] = enc.rvec(g.reshape(-1, full.n, 2)[:, idx, :])
            g = g.reshape(-1, 2, full.n)[:, :, idx]
        else:
            g = g.reshape(-1, full.n)[:, idx]
    fill(rec, view, o, g.ravel(), u)
    rec["whole"] = False
    rec["off"] = {k: enc.rvec(v) for k, v in off.items()}
    return rec


def lipschitz(prob, lmda):
    M = prob.A @ prob.W if prob.setting == "synthesis" else prob.A
    ic = np.max(np.abs(np.linalg.eigvalsh(prob.icov))) if prob.icov.ndim == 2 else np.max(prob.icov)
    e = 1.0
    if prob.psetting == "analysis":
        e = max(1.0, np.linalg.norm(prob.pF @ prob.pJ, 2))
    return np.linalg.norm(M, 2) ** 2 * ic + e / lmda


def tuning(r, prob, lo=0.05, hi=1.3, lmda=None):
    """lmda, delta that keep the chain in range"""
    lmda = float(np.round(r.uniform(0.15, 1.5), 3)) if lmda is None else lmda
    delta = float(np.round(r.uniform(lo, hi) / lipschitz(prob, lmda), 5)) or 1e-5
    return lmda, delta


VERBOSITY = [0] + list(range(20)) + [25, 26, 30, 32, 40, 50, 64, 100, 128, 200, 256, 1000]


def mixed(r, tr, k=0):
    """a configuration of about tr transitions: schedule, verbosity, tracked quantities (the chain among them)"""
    if k % 2 == 0:
        ns, nb, ng = tr, 0, k // 2 % 2
    else:
        nb, ng = int(r.randint(0, tr)), int(r.randint(0, 4))
        ns = (tr - 1 - nb) // max(ng, 1) + 1
    track = None
    if r.rand() < 0.4:
        track = ["chain"] + [t for t in TRACKS if t != "chain" and r.rand() < 0.5]
        r.shuffle(track)
    return dict(nsamples=ns, nburn=nb, ngap=ng, verbosity=int(r.choice(VERBOSITY)), track=track)


def start(r, prob, scale=1.2):
    x0 = np.round(r.normal(0, scale, prob.n), 4)
    if prob.cplx:
        x0 = x0 + 1j * np.round(r.normal(0, scale, prob.n), 4)
    q = r.rand()
    if q < 0.08:
        x0 = 0 * x0                                 # the natural start of many a run
    elif q < 0.2:
        x0[r.rand(prob.n) < 0.5] = 0
    elif q < 0.25 and prob.cplx:
        x0 = np.real(x0) + 0j
    elif q < 0.3 and prob.cplx:
        x0 = np.real(x0)                            # numbers of real type
    return x0 + prob.centre


