"""A saved run reads back exactly as it was."""
import copy
import itertools
import os
import pathlib
import shutil
import tempfile

import h5py
import numpy as np
from pxmcmc.saving import save_mcmc
from .. import problems, runs, rng as vrng
from ..core import attempt

DS = {"logposterior": "logPi", "predictions": "preds", "chain": "chain", "L2s": "L2s", "priors": "priors",
      "acceptances": "acceptance_trace", "deltas": "deltas_trace"}
PARAMS = ["lmda", "delta", "mu", "s", "nsamples", "nburn", "ngap", "complex", "verbosity", "track"]


class Ids:
    """identities of values: equal exactly when shape, kind and bits are"""

    def __init__(self):
        self.t = {}

    def __call__(self, key):
        return self.t.setdefault(key, len(self.t) + 1)

    def array(self, v):
        a = np.asarray(v)
        if a.dtype.kind in "OUS":
            return self(("text", a.shape, tuple(map(text, a.ravel().tolist()))))
        if a.size == 0:
            return self(("empty", a.shape))
        if a.dtype.kind == "c":
            return self(("c", a.shape, np.ascontiguousarray(a, complex).tobytes()))
        if a.dtype.kind in "iu":
            return self(("r", a.shape, tuple(a.ravel().tolist())))
        f = np.ascontiguousarray(a, float)
        if np.all(np.isfinite(f)) and np.all(f == np.round(f)) and not np.any((f == 0) & np.signbit(f)):
            return self(("r", a.shape, tuple(int(x) for x in f.ravel())))
        return self(("r", a.shape, f.tobytes()))

    def state(self, obj, depth=0):
        """everything reachable from an object's attributes"""
        if isinstance(obj, (np.ndarray, list, tuple)) and not isinstance(obj, (str, bytes)):
            try:
                return self.array(obj)
            except Exception:  # noqa
                return self(tuple(self.state(x, depth + 1) for x in obj))
        if isinstance(obj, (str, bytes, int, float, complex, bool, type(None), np.generic)):
            return self((type(obj).__name__, repr(obj)))
        if isinstance(obj, dict):
            return self(tuple(sorted((str(k), self.state(v, depth + 1)) for k, v in obj.items())))
        if hasattr(obj, "__dict__") and not callable(obj) and depth < 4:
            return self((type(obj).__name__, self.state(vars(obj), depth + 1)))
        return self(("object", id(obj)))


def text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def run(mc, x0, r, n):
    vrng.script(r.normal(0, 1, n), r.uniform(0.01, 0.99, n))
    o = attempt(mc.run, x0)
    vrng.off()
    return o


class Side:
    """a sampler and its parameters"""

    def __init__(self, ids, r, kind, track, nsamples=3, cplx=False, ngap=2, nburn=1, prob=None, odd=None, **kw):
        self.ids, self.r, self.kind, self.track = ids, r, kind, track
        self.p = prob or problems.dense(r, n=2, m=3, npix=2, cplx=cplx)
        self.lmda, self.delta = runs.tuning(r, self.p, lo=0.3, hi=1.2)
        self.T = runs.transitions(nsamples, nburn, ngap)
        self.params, self.mc = runs.build(kind, self.p, lmda=self.lmda, delta=self.delta, mu=0.5 + 0.01 * r.randint(100),
                                          s=int(r.randint(1, 4)), nsamples=nsamples, nburn=nburn, ngap=ngap, verbosity=0,
                                          track=track, tune=kind == "pxmala" and r.rand() < 0.7, **kw)
        self.x0 = runs.start(r, self.p)
        self.odd = odd
        self.mem, self.sid, self.par, self.pid = [], [], [], []
        self.exc = None
        self.run()
        self.param(first=True)

    def run(self):
        o = run(self.mc, self.x0, self.r, self.p.n * 2 * (self.T + 4))
        if o.exc:
            self.exc = o
        if self.odd and hasattr(self.mc, "logPi") and len(self.mc.logPi):
            self.mc.logPi[0] = self.odd
        names = DS if self.kind == "pxmala" else {k: v for k, v in DS.items() if k not in ("acceptances", "deltas")}
        self.mem.append({n: self.ids.array(getattr(self.mc, a)) if hasattr(self.mc, a) else 0 for n, a in names.items()})
        self.sid.append(self.state())

    def state(self):
        return self.ids.state({k: v for k, v in vars(self.mc).items()})

    def param(self, first=False):
        if not first:
            self.params.mu = float(self.params.mu) + 0.125
        self.par.append([[k, self.ids.array(getattr(self.params, k))] for k in PARAMS])
        self.pid.append(self.ids.state(vars(self.params)))


def kwargs_for(r, k):
    pool = {
        "note": ["plain text", "", "naïve – ünïcode", "two\nlines"][k % 4], "seed": int(r.randint(10 ** 6)), "big": 2 ** 40 + k,
        "level": float(r.normal()), "tiny": 1e-300, "flag": bool(k % 2), "single": np.float32(0.1), "count": np.int64(k),
        "shape": (3, 4, k), "limits": [0.1, float(r.rand())], "names": ["a", "bc", f"n{k}"], "vector": r.normal(0, 1, 5),
        "matrix": r.normal(0, 1, (2, 3)), "coefs": r.normal(0, 1, 2) + 1j * r.normal(0, 1, 2), "z": complex(0.1, k), "ints": np.arange(k + 1),
        "title": "t", "L": 2 + k, "B": 1.5, "J_min": 0, "setting": "synthesis", "time": 12.5, "sig_d": 0.6, "name": f"x{k}", "data": r.normal(0, 1, 2),
        "noise": r.normal(0, 1, [9000, 3, 20000][k % 3]), "log": "line\n" * [2, 20000][k % 2], "frames": r.normal(0, 1, (40, 400)),
        "path": "/tmp/x", "chain": 3, "priors": "L1", "mode": "a", "f": 1, "attr": 2, "k": 3, "v": 4, "key": "k",
    }
    keys = list(pool)
    r.shuffle(keys)
    n = [0, 1, 2, 5, 9, len(keys)][k % 6]
    return {q: pool[q] for q in keys[:n]}


def look(ids, path):
    if not os.path.exists(path):
        return {"present": False, "ds": [], "at": []}
    try:
        with h5py.File(path, "r") as f:
            ds = []
            f.visititems(lambda n, o: ds.append([n, ids.array(o[()])]) if isinstance(o, h5py.Dataset) else ds.append([n + "/", 0]))
            at = [[k, ids.array(f.attrs[k])] for k in f.attrs]
        return {"present": True, "ds": ds, "at": at}
    except Exception as e:  # noqa
        return {"present": True, "ds": [["unreadable " + type(e).__name__, 0]], "at": []}


def replay(c, ids, ops, sides, names, styles, k0):
    """names: the three (subdirectory, filename or None) in play"""
    d = tempfile.mkdtemp(prefix="vstore")
    try:
        paths = []
        for sub, fn in names:
            os.makedirs(os.path.join(d, sub), exist_ok=True)
            paths.append(os.path.join(d, sub, ("outputs" if fn is None else fn) + ".hdf5"))
        other = {os.path.join(d, "notes.txt"): b"keep me", os.path.join(d, names[0][0], "outputs"): b"not hdf5",
                 os.path.join(d, names[0][0], "spare.hdf5"): b"junk"}
        for q, b in other.items():
            with open(q, "wb") as f:
                f.write(b)
        kws, obs, saves = [], [], 0
        for op, s, f in ops:
            exc, txt = "", ""
            if op == "run":
                sides[s - 1].run()
                if sides[s - 1].exc:
                    exc, txt = sides[s - 1].exc.exc, sides[s - 1].exc.text
            elif op == "param":
                sides[s - 1].param()
            else:
                saves += 1
                kw = kwargs_for(c.rng, k0 + saves)
                kws.append([[q, ids.array(v)] for q, v in kw.items()])
                sub, fn = names[f - 1]
                out = os.path.join(d, sub)
                out = {"str": out, "path": pathlib.Path(out), "slash": out + os.sep, "rel": os.path.relpath(out)}[styles[saves % len(styles)]]
                sd = sides[s - 1]
                if fn is None:
                    o = attempt(lambda: save_mcmc(sd.mc, sd.params, out, **kw))
                elif saves % 2:
                    o = attempt(lambda: save_mcmc(sd.mc, sd.params, out, fn, **kw))
                else:
                    o = attempt(lambda: save_mcmc(sd.mc, sd.params, outpath=out, filename=fn, **kw))
                exc, txt = o.exc or "", o.text
            obs.append({"exc": exc, "files": [look(ids, q) for q in paths], "sid": [x.state() for x in sides],
                        "pid": [ids.state(vars(x.params)) for x in sides],
                        "others": all(open(q, "rb").read() == b for q, b in other.items()), "_": txt})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    txt = "; ".join(o.pop("_") for o in obs)
    return {"ops": [list(o) for o in ops], "obs": obs, "kw": kws, "kind": [x.kind for x in sides], "track": [list(x.track) for x in sides],
            "mem": [x.mem for x in sides], "par": [x.par for x in sides], "sid": [x.sid for x in sides], "pid": [x.pid for x in sides],
            "_desc": f"{ops} files {names} samplers {[(x.kind, x.track, x.p.desc) for x in sides]}", "_text": txt}


NAMES = [[("a", None), ("a", "run.v2"), ("b", None)], [("", "x"), ("deep/er", "x"), ("deep", "x.hdf5")], [("a b", "o 1"), ("a b", None), ("", None)]]
STYLES = ["str", "path", "slash", "rel"]


def check(c):
    r = c.rng
    g = c.model("GenStore", c.pick("GenStore", "GenStoreBig"))
    recs = []
    subsets = [list(t) for n in range(6) for t in itertools.combinations(runs.TRACKS, n)]
    kinds = ["pxmala", "myula", "skrock"]

    def history(ops, q, kk, tracks, **kw):
        ids = Ids()
        a = Side(ids, r, kk[0], tracks[0], **kw)
        b = Side(ids, r, kk[1], tracks[1], cplx=bool(q % 2))
        recs.append(replay(c, ids, ops, [a, b], NAMES[q % 3], STYLES, q))

    hist = [[tuple(o) for o in m["ops"]] for m in g.msgs]
    for q, ops in enumerate(hist):
        history(ops, q, (kinds[q % 3], kinds[(q // 3) % 3]), (subsets[(q * 7) % 32], subsets[(q * 5 + 3) % 32]))
    c.log(f"{len(hist)} histories")
    # every kind with every subset of tracked quantities, in several orders and forms; unusual sizes and values
    for q, (kind, t) in enumerate(itertools.product(kinds, subsets)):
        t = list(t)
        r.shuffle(t)
        history([("save", 1, 1), ("save", 2, 1), ("save", 1, 1)], q, (kind, "myula"), ([t, tuple(t)][q % 2], subsets[31]), cplx=bool(q // 2 % 2),
                nsamples=[3, 1, 0, 7][q % 4], odd=[None, np.nan, np.inf, -0.0][q % 4])
    for q in range(c.pick(20, 200)):
        ops = []
        for _ in range(c.pick(9, 14)):
            w = r.choice(["run", "param", "save"], p=[.25, .15, .6])
            ops.append((str(w), int(r.randint(1, 3)), int(r.randint(1, 4)) if w == "save" else 0))
        history(ops, q, (kinds[q % 3], kinds[q // 3 % 3]), (subsets[r.randint(32)], subsets[r.randint(32)]), nsamples=int(r.randint(0, 6)), cplx=bool(r.randint(2)))
    big = problems.wavelet(r, "swt", L=3)
    history([("save", 1, 1)], 5, ("pxmala", "myula"), (runs.TRACKS, []), prob=big, nsamples=200, ngap=1)
    # long and wide chains, awkward numbers
    for q, (kind, cplx, ns) in enumerate([("pxmala", False, 60), ("myula", True, 60), ("skrock", False, 60), ("myula", False, c.pick(300, 2000))]):
        p = problems.dense(r, n=[90, 80, 90, 40][q], m=2, npix=3, cplx=cplx)
        history([("save", 1, 1), ("run", 1, 0), ("save", 1, 1)], q, (kind, kinds[q % 3]), (runs.TRACKS, ["logposterior"]), prob=p, nsamples=ns, ngap=1, nburn=0)
    # long histories of acceptances and step sizes
    for q, n in enumerate(c.pick([9000, 36000], [9000, 36000, 140000])):
        history([("save", 1, 1), ("save", 1, 2)], q, ("pxmala", "myula"), (["chain", "logposterior"], ["L2"]), nsamples=2, ngap=n, nburn=0)
    c.validate("TrStore", recs, label="histories of runs and saves")
