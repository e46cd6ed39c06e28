"""Users' own priors, operators, transforms and samplers take the places of the library's."""
import numpy as np

from pxmcmc import mcmc
from pxmcmc.measurements import Measurement
from pxmcmc.transforms import Transform
from .. import enc, problems, runs
from ..core import attempt
from . import posterior


class Own(mcmc.PxMCMC):
    """a user's sampler: inherits the base class, implements run, keeps what is tracked itself"""

    def run(self, start_point=None):
        X = start_point
        preds = self.forward.forward(X)
        i = j = 0
        while j < self.nsamples:
            w = np.random.randn(self.forward.nparams)
            if self.complex:
                w = w + 1j * np.random.randn(self.forward.nparams)
            drift = (self.prior.proxf(X) - X) / self.lmda - self.forward.calc_gradg(preds)
            X = X + self.delta * drift + np.sqrt(2 * self.delta) * w
            if not self.complex:
                X = np.real(X)
            preds = self.forward.forward(X)
            if i >= self.nburn and (self.ngap == 0 or (i - self.nburn) % self.ngap == 0):
                vals = dict(zip(("logPi", "L2s", "priors"), self.logpi(X, preds)), preds=preds, chain=X)
                for t, a in (("logposterior", "logPi"), ("L2", "L2s"), ("prior", "priors"), ("predictions", "preds"), ("chain", "chain")):
                    if t in self.track:
                        getattr(self, a)[j] = vals[a]
                j += 1
            i += 1


runs.KINDS["own"] = Own


def check(c):
    c.model("MCPriors")
    r = c.rng
    recs, calls = [], []
    priors = list(problems.USER_PRIORS) + ["library"]
    for k in range(c.pick(120, 700)):
        prior, operator = priors[k % 6], ["own", "affine", "dense", "affine"][k // 6 % 4]
        kind = ["myula", "pxmala", "skrock", "own"][(k + k // 24) % 4]
        cplx = bool(k // 3 % 2) and prior != "positive"
        p = problems.user(r, prior, operator, n=int(r.randint(1, 6)), m=int(r.randint(1, 5)), cplx=cplx, sigma=problems.SIGMA_FORMS[k % 6],
                          setting=["analysis", "synthesis"][k // 2 % 2])
        lmda, delta = runs.tuning(r, p, hi=1.0)
        cf = runs.mixed(r, 5, k)
        T = runs.transitions(cf["nsamples"], cf["nburn"], cf["ngap"])
        rec, mc = runs.run_recorded(kind, p, runs.start(r, p), runs.gaussians(r, p, T), np.round(r.uniform(0.01, 0.99, T), 6),
                                    lmda=lmda, delta=delta, mu=float(np.round(10 ** r.uniform(-1, 0.5), 3)), s=1 + k % 4, tune=bool(k % 2), **cf)
        if kind == "own":
            rec["kind"] = "myula"
        recs.append(rec)
        what = ("forward", "gradg", "logpi", "prior", "prox")
        calls.append(posterior.point(p, runs.start(r, p), what=what, mu=0.7, kind=kind))
    walls = []
    for k in range(c.pick(48, 300)):          # hard constraints: the log-posterior is minus infinity outside
        p = problems.user(r, "wall", ["own", "affine", "dense"][k % 3], n=1 + k % 3, m=int(r.randint(1, 4)), sigma=problems.SIGMA_FORMS[k % 6],
                          setting=["analysis", "synthesis"][k // 2 % 2])
        lmda, delta = runs.tuning(r, p, hi=1.0)
        kind = "pxmala" if k % 4 else ["myula", "skrock"][k // 4 % 2]
        cf = dict(nsamples=8, nburn=k % 2, ngap=1) if kind == "pxmala" else runs.mixed(r, 5, k)
        T = runs.transitions(cf["nsamples"], cf["nburn"], cf["ngap"])
        step = np.sqrt(2 * delta)
        x0 = np.round(r.uniform(0.05, 2, p.n) * (-1 if k % 3 == 1 else 1) * step, 6)     # so that the chain meets the wall
        rec, mc = runs.run_recorded(kind, p, x0, runs.gaussians(r, p, T), np.round(r.uniform(0.01, 0.99, T), 6), lmda=lmda, delta=delta,
                                    mu=float(np.round(10 ** r.uniform(-1, 0.5), 3)), s=1 + k % 4, tune=bool(k % 2), **cf)
        walls.append(rec)
    c.validate("TrRun", walls, label="runs with hard constraints")
    c.validate("TrRun", recs, label="runs with users' parts")
    c.validate("TrPosterior", calls, label="calls of users' parts")
    parts(c)


class Half(Transform):
    """a transform of which only one direction was written"""

    def inverse(self, X):
        return 2 * X


def parts(c):
    """parts left out say so when they are needed"""
    class Nothing(Measurement):
        pass

    class NoRun(mcmc.PxMCMC):
        pass
    r = c.rng
    recs = []

    def ask(name, f, want):
        o = attempt(f)
        recs.append({"op": "raise", "want": want, "exc": o.exc or "", "_desc": name, "_text": o.text})
    for n, m in ((1, 1), (3, 2), (2, 5)):
        x, y = np.ones(n), np.ones(m)
        ask("Measurement.forward", lambda: Measurement(m, n).forward(x), "NotImplementedError")
        ask("Measurement.adjoint", lambda: Measurement(m, n).adjoint(y), "NotImplementedError")
        for name in ("forward", "inverse", "forward_adjoint", "inverse_adjoint"):
            ask(f"Transform.{name}", lambda: getattr(Transform(), name)(x), "NotImplementedError")
        p = problems.user(r, "ridge", "dense", n=n, m=m)
        A = problems.DenseMeasurement(p.A)
        F = problems.ForwardOperator
        ask("forward operator over a measurement without forward", lambda: F(p.data, p.sig, "analysis", measurement=Nothing(m, n), nparams=n).forward(x),
            "NotImplementedError")
        ask("gradient over a measurement without adjoint", lambda: F(p.data, p.sig, "analysis", measurement=Nothing(m, n), nparams=n).calc_gradg(y),
            "NotImplementedError")
        half = F(p.data, p.sig, "synthesis", transform=Half(), measurement=A, nparams=n)
        ask("predictions over a transform with an inverse only", lambda: half.forward(x), "")
        ask("gradient over a transform with an inverse only", lambda: half.calc_gradg(y), "NotImplementedError")
        ask("a sampler without run", lambda: NoRun(p.op, p.prior, mcmc.PxMCMCParams(nsamples=2)).run(), "NotImplementedError")
        ask("a sampler without run, from a start", lambda: NoRun(p.op, p.prior, mcmc.PxMCMCParams(nsamples=2)).run(x), "NotImplementedError")
    c.validate("TrPosterior", recs, label="parts left out")
