"""Runs are isolated, repeatable and undisturbed by observation."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from pxmcmc.mcmc import PxMCMCParams
from pxmcmc.saving import save_mcmc
from .. import problems, runs, rng as vrng
from ..core import attempt
from ..forks import forked

QUANT = dict(runs.ATTR, acc="acceptance_trace", deltas="deltas_trace", delta="delta")
SUBSETS = [list(t) for n in range(6) for t in itertools.combinations(runs.TRACKS, n)]


class Values:
    """identities of results, up to rounding"""

    def __init__(self):
        self.known = {}

    def __call__(self, v):
        a = np.asarray(v, dtype=complex if np.iscomplexobj(v) else float)
        group = self.known.setdefault(a.shape, [])
        with np.errstate(all="ignore"):
            for k, b in group:
                if a.size == 0 or np.array_equal(a, b) or np.max(np.abs(a - b)) <= 1e-8 * (1 + np.max(np.abs(b))):
                    return k
        k = sum(len(g) for g in self.known.values()) + 1
        group.append((k, a.copy()))
        return k


class Setup:
    """how the two objects of a session are made; everything is a function of seed, so it can be made again"""

    def __init__(self, seed, kinds, adapts, family, share=True):
        self.seed, self.kinds, self.adapts, self.family, self.share = seed, kinds, adapts, family, share
        r = np.random.RandomState(seed + 17)
        p = self.problem(0)
        self.lmda, self.delta = runs.tuning(r, p, lo=0.5, hi=1.6)
        self.mu = float(np.round(r.uniform(0.3, 2), 2))
        self.ns, self.nb, self.ng, self.s = int(r.randint(1, 5)), int(r.randint(0, 4)), int(r.randint(0, 3)), int(r.randint(1, 4))
        if seed % 5 == 3:
            self.ns, self.nb, self.ng = [(17, 0, 1), (40, 5, 0), (6, 9, 2), (2, 30, 1), (3, 0, 20), (65, 0, 1), (5, 6, 7)][seed // 5 % 7]
            self.s = 1 + seed // 35 % 6
        self.T = runs.transitions(self.ns, self.nb, self.ng)
        self.start = runs.start(r, p)
        self.per = p.n * (2 if p.cplx else 1)
        self.g = {d: np.round(r.normal(0, 1, self.per * (self.T + 3)), 6) for d in (1, 2)}
        self.u = {d: np.round(r.uniform(0.01, 0.99, self.T + 3), 6) for d in (1, 2)}

    def problem(self, q):
        r = np.random.RandomState(self.seed + (0 if self.share else q))
        f = self.family
        if f == "wavelet":
            return problems.wavelet(r, ["swt", "path"][self.seed % 2], L=2, setting="synthesis", prior=["s2", "l1"][self.seed // 2 % 2], cplx=bool(self.seed // 4 % 2))
        if f == "lensing":
            return problems.lensing(r, L=2)
        return problems.dense(r, n=2, m=9 if self.seed % 4 == 1 else 2, npix=2, setting=["synthesis", "analysis"][self.seed % 2],
                              psetting=["synthesis", "analysis"][self.seed // 2 % 2], cplx=bool(self.seed // 4 % 2), Tform=["vector", "scalar"][self.seed // 8 % 2],
                              sigma=problems.SIGMA_FORMS[self.seed % 6])

    def params(self, p, delta=None, view=1):
        v, t = (0, list(runs.TRACKS)) if view == 1 else ((self.seed * 3 + 1) % 5, list(SUBSETS[self.seed * 5 % 32]))
        return PxMCMCParams(lmda=self.lmda, delta=self.delta if delta is None else delta, mu=self.mu, s=self.s, nsamples=self.ns, nburn=self.nb, ngap=self.ng,
                            complex=p.cplx, verbosity=v, track=t)

    def make(self, q, p, params):
        k = self.kinds[q]
        if k == "pxmala":
            return runs.KINDS[k](p.op, p.prior, params, tune_delta=self.adapts[q])
        return runs.KINDS[k](p.op, p.prior, params)

    def run(self, mc, d, start):
        np.random.seed(100 + d)
        vrng.script(self.g[d], self.u[d])
        o = attempt(mc.run, start) if d == 1 else attempt(mc.run)
        g, u, _ = vrng.drawn()
        vrng.off()
        return o, len(g) * 1000 + len(u)

    def results(self, mc):
        return {k: np.array(getattr(mc, a)) for k, a in QUANT.items() if hasattr(mc, a)}

    def reference(self, q, term, delta):
        """results of a fresh object on a fresh problem; its step size is the one the earlier runs ended with"""
        p = self.problem(q)
        o = attempt(self.make, q, p, self.params(p, delta))
        if not o.exc:
            mc = o.value
            o, n = self.run(mc, term[-1], self.start.copy())
        if o.exc:
            return {}, -1, delta, o.text
        return self.results(mc), n, float(mc.delta), ""

    def terms(self, ops):
        t = [(), ()]
        for op, q, a in ops:
            if op == "new":
                t[q - 1] = ()
            elif op == "run":
                t[q - 1] = t[q - 1] + (a,) if self.adapts[q - 1] else (a,)
                yield q - 1, t[q - 1]


def ident(vals, res):
    return {k: vals(v) for k, v in res.items()}


def judge_records(c, work):
    """work: [(setup, [ops])].  Every reference and every setup's histories run in a process of their own."""
    need = {}
    for k, (st, hs) in enumerate(work):
        for ops in hs:
            for q, t in st.terms(ops):
                for n in range(1, len(t) + 1):
                    need.setdefault(n, {})[k, q, t[:n]] = None
    ref = {}
    for n in sorted(need):
        keys = list(need[n])
        got = forked(keys, lambda key: work[key[0]][0].reference(key[1], key[2], ref[key[0], key[1], key[2][:-1]][2] if len(key[2]) > 1 else None))
        ref.update(zip(keys, got))
    c.log(f"{len(ref)} isolated reference runs")
    recs = []
    for k, hs in enumerate(forked(work, lambda w: [replay(w[0], ops) for ops in w[1]])):
        vals = Values()
        table, text = [[], []], ""
        for (kk, q, t), v in ref.items():
            if kk == k:
                table[q].append([list(t), dict(ident(vals, v[0]), draws=v[1])])
                text = text or v[3]
        for rec in hs:
            for o in rec["obs"]:
                o["res"] = [ident(vals, x) for x in o["res"]]
            rec["ref"], rec["_text"] = table, text
            recs.append(rec)
    return recs


def snapshot(setup, ps, par, start):
    s = {"parameters": [{k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in vars(x).items()} for x in par], "start point": start.tolist()}
    s["data"] = [p.data.tolist() for p in ps]
    s["arrays' protection"] = [[a.flags.writeable for a in (p.data, np.asarray(p.sig), np.asarray(p.T), p.A, p.W if p.W is not None else p.A)] for p in ps]
    s["data error"] = [np.asarray(p.sig).tolist() for p in ps]
    s["thresholds"] = [np.asarray(p.T).tolist() for p in ps]
    s["prior's thresholds"] = [np.asarray(p.prior.T).tolist() if hasattr(p.prior, "T") else 0 for p in ps]
    s["operator"] = [[p.A.tolist(), p.W.tolist() if p.W is not None else 0, np.asarray(p.op.data).tolist()] for p in ps]
    return s


def replay(setup, ops):
    st = setup
    ps = [st.problem(0)]
    ps.append(ps[0] if st.share else st.problem(1))
    par = {(q, v): st.params(ps[q], view=v) for q in (0, 1) for v in (1, 2)}
    if st.share:
        for v in (1, 2):
            par[1, v] = par[0, v]
    start = st.start.copy()
    d = tempfile.mkdtemp(prefix="vsess")
    obs, terms, objs = [], [(), ()], [None, None]
    used = [par[0, 1], par[1, 1]]
    exc0 = ""
    try:
        for q in (0, 1):
            o = attempt(st.make, q, ps[q], par[q, 1])
            objs[q] = o.value
            exc0 = exc0 or o.exc or ""
        before = snapshot(st, ps, par.values(), start)
        before["arrays' protection"] = [[True] * len(x) for x in before["arrays' protection"]]
        er = np.random.RandomState(5)
        for op, q, a in ops:
            o, n = attempt(lambda: None), 0
            gen = np.random.get_state()
            if exc0:
                obs.append({"exc": exc0, "res": [{}, {}], "draws": 0, "touched": []})
                continue
            if op == "new":
                used[q - 1] = par[q - 1, a]
                o = attempt(st.make, q - 1, ps[q - 1], par[q - 1, a])
                objs[q - 1] = o.value or objs[q - 1]
                terms[q - 1] = ()
            elif op == "run":
                o, n = st.run(objs[q - 1], a, start)
                terms[q - 1] = terms[q - 1] + (a,) if st.adapts[q - 1] else (a,)
            elif op == "save":
                o = attempt(save_mcmc, objs[q - 1], used[q - 1], d, f"f{q}")
            else:
                p = ps[er.randint(2)]
                x = er.normal(0, 1, p.n)
                if p.cplx:
                    x = x + 1j * er.normal(0, 1, p.n)
                o = attempt(lambda: (p.op.calc_gradg(p.op.forward(x)), p.prior.prior(x), p.prior.proxf(x)))
            now = snapshot(st, ps, par.values(), start)
            if op != "run" and any(np.any(x != y) for x, y in zip(gen, np.random.get_state())):
                now["random numbers"], before["random numbers"] = 1, 0
            obs.append({"exc": o.exc or "", "res": [st.results(m) if t else {} for m, t in zip(objs, terms)], "draws": n,
                        "touched": [k for k in before if before[k] != now.get(k, before[k])]})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"op": "history", "ops": [list(o) for o in ops], "obs": obs, "adapts": st.adapts,
            "_desc": f"{ops} kinds {st.kinds} adapts {st.adapts} {ps[0].desc} shared={st.share} nsamples={st.ns} nburn={st.nb} ngap={st.ng} s={st.s} seed={st.seed}"}


PAIRS = [("pxmala", "pxmala"), ("pxmala", "myula"), ("myula", "skrock"), ("skrock", "pxmala"), ("myula", "myula"), ("skrock", "skrock")]

FRESH = r"""
import sys, json, hashlib
sys.path.insert(0, sys.argv[1])
import numpy as np
from pxmcmc.mcmc import MYULA, PxMALA, SKROCK, PxMCMCParams
from pxmcmc.forward import ForwardOperator
from pxmcmc.measurements import Identity
from pxmcmc.transforms import IdentityTransform
from pxmcmc.prior import L1
import io, contextlib
out = {}
for name, cls in (("myula", MYULA), ("pxmala", PxMALA), ("skrock", SKROCK)):
    for cplx in (False, True):
        for given in (False, True):
            op = ForwardOperator(np.ones(3) + (1j if cplx else 0), 0.7, "synthesis", transform=IdentityTransform(), measurement=Identity(3, 3), nparams=3)
            par = PxMCMCParams(lmda=0.5, delta=0.1, nsamples=6, nburn=0, ngap=1, complex=cplx, verbosity=0, s=2, track=["chain"])
            new = lambda: cls(op, L1("synthesis", None, None, 0.2), par)
            x0 = (np.zeros(3) + (0j if cplx else 0)) if given else None
            def go(mc):
                with contextlib.redirect_stdout(io.StringIO()):
                    mc.run(x0)
                return hashlib.sha1(np.ascontiguousarray(mc.chain).tobytes()).hexdigest()
            try:
                np.random.seed(11)
                a = new()
                ids = [go(a), go(a), go(new()), go(a), go(new())]
                np.random.seed(11)
                b = new()
                again = [go(b), go(b), go(new())] == ids[:3]
                out[f"{name} complex={cplx} start given={given}"] = [ids, again, ""]
            except Exception as e:
                out[f"{name} complex={cplx} start given={given}"] = [[], True, type(e).__name__]
print("@" + json.dumps(out))
"""


def fresh():
    """consecutive runs under numpy's own, unintercepted generator"""
    repo = os.environ.get("PXMCMC_REPO", "/repo")
    p = subprocess.run([sys.executable, "-B", "-c", FRESH, repo], capture_output=True, text=True, timeout=300, cwd=tempfile.gettempdir())
    line = [x for x in p.stdout.splitlines() if x.startswith("@")]
    if not line:
        return [{"op": "fresh", "ids": [], "again": True, "exc": "no result", "_desc": "runs in a process of their own", "_text": p.stderr[-1500:]}]
    return [{"op": "fresh", "ids": v[0], "again": v[1], "exc": v[2], "_desc": "consecutive runs, numpy's generator: " + k} for k, v in json.loads(line[0][1:]).items()]


def check(c):
    r = c.rng
    g = c.model("GenSession", c.pick("GenSession", "GenSessionBig"))
    hist = [[tuple(o) for o in m["ops"]] for m in g.msgs]
    recs = fresh()
    setups = []
    for k, kinds in enumerate(PAIRS):
        for j in range(c.pick(1, 2)):
            setups.append(Setup(1000 * c.seed + 7 * k + 13 * j, kinds, [q == "pxmala" and (i + j + k) % 3 != 2 for i, q in enumerate(kinds)], "dense", share=True))
    work = []
    for k, st in enumerate(setups):
        work.append((st, [ops for i, ops in enumerate(hist) if len(hist) < 1000 or i % len(setups) == k or i % 7 == 0]))
    c.log(f"{len(hist)} histories, {len(setups)} pairs of objects")
    # longer walks, more kinds of problem, everything that can be observed
    for q in range(c.pick(120, 900)):
        kinds = [["pxmala", "myula", "skrock"][r.randint(3)] for _ in (0, 1)]
        fam = ["dense", "dense", "dense", "wavelet", "lensing"][q % 5]
        st = Setup(int(r.randint(10 ** 6)), kinds, [k == "pxmala" and r.rand() < 0.8 for k in kinds], fam, share=bool(q % 4))
        ops = []
        for _ in range(c.pick(10, 16)):
            w = str(r.choice(["new", "run", "save", "eval"], p=[.25, .5, .1, .15]))
            o = int(r.randint(1, 3))
            ops.append((w, 0 if w == "eval" else o, int(r.randint(1, 3)) if w in ("new", "run") else 0))
        work.append((st, [ops]))
    # one object, every subset of tracked quantities and several verbosities
    for k, kind in enumerate(["myula", "pxmala", "skrock"]):
        for j, t in enumerate(SUBSETS):
            for v in (range(4) if c.thorough else [j % 4]):
                st = Setup(500 * c.seed + k, [kind, kind], [kind == "pxmala"] * 2, "dense")
                full = st.params
                st.params = lambda p, delta=None, view=1, t=t, v=v, full=full: _view(full(p, delta), t, v) if view == 2 else full(p, delta)
                work.append((st, [[("new", 1, 2), ("run", 1, 1), ("run", 1, 2), ("run", 2, 1)]]))
    recs += judge_records(c, work)
    c.validate("TrSession", recs, label="sessions of several samplers")


def _view(p, t, v):
    p.track, p.verbosity = list(t), v
    return p
