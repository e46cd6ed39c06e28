"""A run cut short, wherever it happens, leaves the samples it had saved, and the sampler can be used again."""
import contextlib
import copy
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np
import pxmcmc
from pxmcmc.saving import save_mcmc
from .. import problems, runs, rng as vrng
from ..core import Timeout, attempt, limit
from ..forks import forked

HOME = os.path.dirname(os.path.realpath(pxmcmc.__file__)) + os.sep
FILES = {"logPi": "logposterior", "preds": "predictions", "chain": "chain", "L2s": "L2s", "priors": "priors",
         "acceptance_trace": "acceptances", "deltas_trace": "deltas"}


class Stop(BaseException):
    pass


def errors():
    return [KeyboardInterrupt(), ValueError("user's part"), MemoryError(), Stop("stop"), FloatingPointError("x"), BrokenPipeError(), SystemExit(3),
            np.linalg.LinAlgError("singular"), AttributeError("attr"), IndexError("index"), TypeError("type"), AssertionError()]


class Countdown:
    """raises error at event number n (from 1); 0: never"""

    def __init__(self):
        self.left, self.error, self.hit = 0, None, False

    def arm(self, n, error):
        self.left, self.error, self.hit = n, error, False

    def tick(self):
        if self.left > 0:
            self.left -= 1
            if self.left == 0:
                self.hit = True
                raise self.error

    def wrap(self, f):
        def g(*a, **k):
            self.tick()
            return f(*a, **k)
        return g


class Out:
    def __init__(self, cd):
        self.cd = cd

    def write(self, s):
        self.cd.tick()
        return len(s)

    def flush(self):
        pass


@contextlib.contextmanager
def sites(cd, lines):
    """events: calls for random numbers and of sys.stdout (those of the operator and prior are wrapped when made), or
    the lines of the library as they are reached"""
    take = vrng._take
    mine = {}

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in mine:
            mine[f] = os.path.realpath(f).startswith(HOME)
        if not mine[f]:
            return None
        frame.f_trace = local
        return local

    def local(frame, event, arg):
        if event == "line":
            cd.tick()
        return local
    out = sys.stdout
    if lines:
        sys.stdout = Out(Countdown())
        sys.settrace(trace)
    else:
        vrng._take = cd.wrap(take)
        sys.stdout = Out(cd)
    try:
        yield
    finally:
        sys.settrace(None)
        sys.stdout = out
        vrng._take = take


def cut_run(mc, start, cd, n, error, lines):
    """-> "" | "same" (the error itself came out) | what else happened; whether it was cut"""
    cd.arm(n, error)
    try:
        with limit(60), np.errstate(all="ignore"), sites(cd, lines and n > 0):
            mc.run(start)
        how = "" if not cd.hit else "returned"
    except Timeout:
        raise
    except BaseException as e:  # noqa
        how = "same" if e is error else f"{type(e).__name__}: {e}"
    cut = cd.hit
    cd.arm(0, None)
    return how, cut


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    with np.errstate(all="ignore"):
        return a.shape == b.shape and bool(np.all((a == b) | (np.abs(a - b) <= 1e-7 * (1 + np.abs(b)))))


class Case:
    def __init__(self, seed, kind, ns, nb, ng, tune, verbosity, track):
        self.__dict__.update(seed=seed, kind=kind, ns=ns, nb=nb, ng=ng, tune=tune, verbosity=verbosity, track=track)
        r = np.random.RandomState(seed)
        p = self.problem()
        self.lmda, self.delta = runs.tuning(r, p, lo=0.5, hi=1.5)
        self.T = runs.transitions(ns, nb, ng)
        self.per = p.n * (2 if p.cplx else 1)
        self.starts = [runs.start(r, p) for _ in range(3)]
        self.g = [np.round(r.normal(0, 1, self.per * (self.T + 3)), 6) for _ in range(3)]
        self.u = [np.round(r.uniform(0.01, 0.99, self.T + 3), 6) for _ in range(3)]
        self.refs = {}

    def problem(self):
        r = np.random.RandomState(self.seed + 1)
        if self.seed % 3 == 0:
            return problems.user(r, ["ridge", "centred", "group", "library"][self.seed // 3 % 4], ["affine", "own"][self.seed // 12 % 2], n=2, m=2, cplx=bool(self.seed // 3 % 2))
        return problems.dense(r, n=2, m=2, npix=2, cplx=bool(self.seed // 3 % 2), setting=["synthesis", "analysis"][self.seed // 2 % 2],
                              sigma=problems.SIGMA_FORMS[self.seed % 6])

    def make(self, p, delta, cd=None):
        if cd is not None:
            for name in ("forward", "calc_gradg"):
                setattr(p.op, name, cd.wrap(getattr(p.op, name)))
            prior = p.prior

            class Seen:
                """the prior, watched"""
            p.prior = Seen()
            for name in ("prior", "proxf"):
                setattr(p.prior, name, cd.wrap(getattr(prior, name)))
        return runs.build(self.kind, p, lmda=self.lmda, delta=delta, mu=0.7, s=1 + self.seed % 3, nsamples=self.ns, nburn=self.nb, ngap=self.ng,
                          verbosity=self.verbosity, track=self.track, tune=self.tune)

    def script(self, d):
        vrng.script(self.g[d], self.u[d])

    def reference(self, d, delta):
        key = (d, delta)
        if key not in self.refs:
            params, mc = self.make(self.problem(), delta)
            self.script(d)
            o = attempt(mc.run, self.starts[d].copy())
            vrng.off()
            if o.exc:
                raise RuntimeError(o.text)
            self.refs[key] = mc
        return self.refs[key]

    def session(self, cuts, lines):
        """cuts: for each run the event at which it is cut (0: not)"""
        cd = Countdown()
        p = self.problem()
        params, mc = self.make(p, self.delta, None if lines else cd)
        rec = {"op": "interrupt", "kind": self.kind, "ns": self.ns, "nb": self.nb, "ng": self.ng, "tune": self.tune, "exc": "", "runs": [],
               "_desc": f"{self.kind} {p.desc} nsamples={self.ns} nburn={self.nb} ngap={self.ng} tune={self.tune} verbosity={self.verbosity} track={self.track} "
                        f"cut at {'line' if lines else 'call'} {cuts}"}
        hits = []
        given = {"data": p.data, "threshold": np.asarray(p.T)}
        for d, n in enumerate(cuts):
            before = {a: np.array(getattr(mc, a)) for a in runs.ATTR.values() if hasattr(mc, a)}
            old = [list(getattr(mc, a, [])) for a in ("acceptance_trace", "deltas_trace")]
            delta = float(mc.delta)
            ref = self.reference(d, delta)
            x0 = self.starts[d].copy()
            keep = {k: np.array(v) for k, v in given.items()}
            pk = copy.deepcopy(vars(params))
            self.script(d)
            error = errors()[(n + self.seed) % 12]
            how, cut = cut_run(mc, x0, cd, n, error, lines)
            g, u, _ = vrng.drawn()
            vrng.off()
            hits.append(cut)
            begun = -(-len(g) // self.per)
            cells = {}
            for a in runs.ATTR.values():
                if a in before and hasattr(mc, a):
                    v = np.asarray(getattr(mc, a))
                    cells[a] = [[near(v[k], getattr(ref, a)[k]), bool(np.array_equal(v[k], before[a][k])), not np.any(v[k])] for k in range(len(v))]
            run = {"cut": bool(cut), "raised": how, "begun": begun, "want": self.T, "cells": cells,
                   "attrs": set(cells) == set(before) == {a for a in runs.ATTR.values() if hasattr(mc, a)},
                   "accOk": True, "deltasOk": True, "deltaOk": True, "accLen": 0, "deltasLen": 1}
            if self.kind == "pxmala":
                acc, deltas = list(getattr(mc, "acceptance_trace", [])), list(getattr(mc, "deltas_trace", [delta]))
                if not (begun == 0 and cut and [acc, deltas] == old):
                    run["accLen"], run["deltasLen"] = len(acc), len(deltas)
                    run["accOk"] = acc == list(ref.acceptance_trace)[:len(acc)]
                    run["deltasOk"] = near(deltas, list(ref.deltas_trace)[:len(deltas)])
                    then = list(ref.deltas_trace) + [ref.delta]
                    run["deltaOk"] = any(abs(mc.delta - v) <= 1e-9 * v for v in then[len(deltas) - 1:len(deltas) + (1 if cut else 0)])
            else:
                run["deltaOk"] = mc.delta == delta
            run["touched"] = [k for k, v in given.items() if not np.array_equal(v, keep[k])] + ([] if np.array_equal(x0, self.starts[d]) else ["start"]) \
                + ([] if all(np.array_equal(pk[k], v) for k, v in vars(params).items()) and set(pk) == set(vars(params)) else ["parameters"])
            run["file"] = True if len(rec["runs"]) + n * 7 + d & 7 else self.saved(mc, params)
            rec["runs"].append(run)
        return rec, hits

    def saved(self, mc, params):
        """what was there when the run was cut short can be saved"""
        d = tempfile.mkdtemp(prefix="c29")
        try:
            o = attempt(save_mcmc, mc, params, d, filename="cut")
            if o.exc:
                return False
            with h5py.File(os.path.join(d, "cut.hdf5"), "r") as f:
                return set(f) == {n for a, n in FILES.items() if hasattr(mc, a)} and all(
                    np.array_equal(f[n][()], np.asarray(getattr(mc, a))) for a, n in FILES.items() if hasattr(mc, a))
        finally:
            shutil.rmtree(d)


def explore(job):
    """the first run cut at every event in turn (or every few), the second somewhere, the third not at all"""
    args, lines, stride, seed = job
    case = Case(*args)
    r = np.random.RandomState(seed)
    recs, n = [], 0
    while n < 4000:
        n += 1 if stride == 1 else int(r.randint(1, 2 * stride))
        second = int(r.randint(0, 4 * (n + 8)))
        o = attempt(case.session, [n, second, 0] if n % 3 else [n, 0], lines, seconds=300)
        if o.exc:
            recs.append({"op": "interrupt", "exc": o.exc, "_text": o.text, "_desc": f"{args} cut at {n} lines={lines}", "kind": case.kind,
                         "ns": 0, "nb": 0, "ng": 0, "tune": False, "runs": []})
            break
        rec, hits = o.value
        recs.append(rec)
        if not hits[0]:
            break
    return recs


def check(c):
    c.model("MCInterrupt", "MCInterruptBig" if c.thorough else None)
    r = c.rng
    jobs = []
    for k in range(c.pick(12, 64)):
        kind = ["myula", "pxmala", "skrock", "pxmala"][k % 4]
        ns, nb, ng = [(3, 1, 1), (2, 2, 2), (4, 0, 0), (2, 0, 3), (1, 0, 1), (3, 2, 1), (2, 3, 1), (5, 0, 1)][(k + k // 4) % 8]
        track = list(runs.TRACKS) if k % 3 else [t for t in runs.TRACKS if r.rand() < 0.6]
        args = (int(r.randint(10 ** 6)), kind, ns, nb, ng, bool(k // 4 % 2) or k % 4 == 3, [0, 1, 2, 3][k // 2 % 4], track)
        jobs += [(args, False, 1, int(r.randint(10 ** 6))), (args, True, c.pick(3, 1), int(r.randint(10 ** 6)))]
    recs = sum(forked(jobs, explore), [])
    c.validate("TrInterrupt", recs, label="interrupted runs")
