"""An example's run samples the posterior its options ask for, and its file says so."""
import os
import importlib.util
import sys
import warnings

import h5py
import numpy as np
import pyssht
from scipy import sparse

from .. import enc, rng
from ..core import attempt
from ..forks import forked
from . import examples as ex
from .layout import total
import pxmcmc.mcmc as mcmc_module
from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
from pxmcmc.measurements import WeakLensing
from pxmcmc.mcmc import MYULA, PxMALA, SKROCK
from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights
from pxmcmc.transforms import SphericalWaveletTransform
from pxmcmc.utils import build_mask, calc_pixel_areas

Params = mcmc_module.PxMCMCParams
WANT = {"earthtopography": ["L", "nparams", "setting", "delta", "mu", "sigma", "scaleafrica"],
        "phasevel": ["L", "nparams", "setting", "delta", "mu", "eta", "nsim"],
        "weaklensing": ["L", "nparams", "setting", "delta", "mu"]}


def cases(c):
    r = c.rng
    pick = lambda *v: v[r.randint(len(v))]
    for k in range(c.pick(36, 140)):
        name = ["earthtopography", "phasevel", "weaklensing"][k % 3]
        i = k // 3
        yield {"k": k, "example": name, "L": pick(6, 7, 8), "algo": ["myula", "pxmala", "skrock"][i % 3],
               "mu": pick(None, 2.5, 0.5, 3), "delta": pick(None, 2e-8, 1e-7), "jobid": pick(None, "7", "a-b"), "outdir": pick(None, "out", "ABS"),
               "setting": pick(None, "synthesis"), "sigma": pick(None, 2.0, 0.5), "noise": i % 4 in (1, 2), "africa": pick(0, 5) if i % 4 == 1 else 3,
               "mw": i % 4 in (2, 3), "nsim": pick(True, False), "eta": pick(None, 0.5, 2.0), "cached": pick(True, False), "neg": pick(True, False),
               "ns": pick(1, 2, 3), "nb": pick(0, 2), "ng": pick(0, 1, 2), "seed": int(r.randint(1, 10 ** 6))}


def africa(L):
    b = np.zeros((L, 2 * L - 1), bool)
    for theta in np.deg2rad(np.linspace(60, 120, 150)):
        for phi in np.deg2rad(np.linspace(-30, 30, 150)):
            b[pyssht.theta_to_index(theta, L), pyssht.phi_to_index(phi, L)] = True
    return b


def canon(v):
    if isinstance(v, bytes):
        v = v.decode()
    if isinstance(v, str):
        return v
    return repr(float(v))


def one(t):
    r = np.random.RandomState(t["seed"])
    name, L, algo = t["example"], t["L"], t["algo"]
    npix = L * (2 * L - 1)
    rec = {"op": "run", "exc": "", "attrs": [], "wantattrs": [], "named": False, "nsamples": t["ns"], "chain": [], "l2": [], "logpi": [], "prior": [],
           "refchain": [], "refprior": [], "datasets": [], "refdatasets": [], "data": [], "w": [], "preds": [], "mu": enc.real(t["mu"] or 1.0), "digits": 7,
           "noisy": False, "noise": [], "level": [], "z": [], "_desc": f"run {t}", "_text": ""}
    gauss, unif = r.normal(0, 1, 60000), r.rand(500)
    with ex.scratch() as here:
        out = {"ABS": os.path.join(here, "far", "away")}.get(t["outdir"], t["outdir"])
        if out:
            os.makedirs(out)
        args = ["--L", L, "--algo", algo] if algo != "myula" or t["seed"] % 2 else ["--L", L]
        for opt in ("mu", "delta", "jobid", "setting"):
            if t[opt] is not None:
                args += [f"--{opt}", t[opt]]
        if out:
            args += ["--outdir", out]
        want = {"L": L, "mu": t["mu"] or 1, "delta": t["delta"] or 1e-6, "setting": "synthesis"}
        sig, level = 1.0, None
        extra = set()
        if name == "earthtopography":
            if t["mw"]:
                infile, topo = "in_mw_.npy", np.round(r.normal(0, 2500, (L, 2 * L - 1)), 3)
                np.save(infile, topo if t["seed"] % 2 else topo.ravel())
                data = topo.ravel()
            else:
                infile, topo = [ex.TOPO, "x_hpx_8.fits"][t["seed"] % 2], ex.topo_map(r, 8)
                ex.write_map(infile, topo)
                data = ex.topo_mw(topo, L)
            if infile != ex.TOPO or t["seed"] % 4 > 1:
                args += ["--infile", infile]
            sig = t["sigma"] or 1
            if t["sigma"]:
                args += ["--sigma", t["sigma"]]
            want.update(sigma=sig, scaleafrica=0)
            if t["noise"]:
                args += ["--makenoise"]
                level = np.sqrt(sig ** 2 / calc_pixel_areas(L))
                level = np.broadcast_to(level, (L, 2 * L - 1)).copy() if np.ndim(level) == 2 else np.asarray(level).reshape(L, 2 * L - 1).copy()
                if t["africa"]:
                    args += ["--scaleafrica", t["africa"]]
                    want["scaleafrica"] = t["africa"]
                    level[africa(L)] *= t["africa"]
                level = level.ravel()
                sig = level
        elif name == "phasevel":
            n = 11
            table = ex.paths_table(r, n, t["neg"])
            np.savetxt("paths.txt", table, fmt="%.4f")
            data, sig = table[:, 4], np.abs(table[:, 5])
            if t["nsim"]:
                args += ["--nsim"]
                sig = sig * np.sqrt(table[:, 7])
            if t["eta"]:
                args += ["--eta", t["eta"]]
            want.update(eta=t["eta"] or 1, nsim=t["nsim"])
            if t["cached"]:
                A = np.round(np.where(r.rand(n, npix) < 0.2, r.rand(n, npix), 0), 5)
                sparse.save_npz("mat.npz", sparse.csr_matrix(A))
            else:
                A = ex.path_rows(table, L)
                extra = {"mat.npz"}
            args += ["paths.txt", "mat.npz"]
        else:
            kappa = np.round(r.normal(0, 0.5, 12 * 64), 4)
            ex.write_map("kappa.fits", kappa)
            args = ["kappa.fits"] + args
            mask = build_mask(L, size=10)
            wl = WeakLensing(L, mask, ngal=np.full_like(mask, 30))
            data = wl.forward(ex.kappa_mw(kappa, L))
            sig = np.full(len(data), 0.37 / np.sqrt(60))
        before = ex.files()
        ex.shorten(t["ns"], t["nb"], t["ng"])
        ex.deterministic_seeds()
        rng.script(gauss, unif)
        o = ex.execute(ex.script(name, "main"), args, seconds=200)
        drawn = rng.drawn()[0]
        rec["exc"], rec["_text"] = o.exc or "", o.text
        if o.exc:
            return rec
        try:
            after = ex.files()
            new = [k for k in after if k not in before and k not in extra]
            ok = len(new) == 1 and all(after.get(k) == v for k, v in before.items()) and extra <= set(after)
            base = os.path.basename(new[0]) if new else ""
            rec["named"] = bool(ok and os.path.realpath(os.path.dirname(new[0]) or ".") == os.path.realpath(out or ".")
                                and base.startswith(f"{algo}_synthesis_") and base.endswith(f"_{t['jobid'] or '0'}.hdf5"))
            with h5py.File(new[0], "r") as f:
                a = {k: f.attrs[k] for k in f.attrs}
                sets = {k: f[k][()] for k in f}
            want["nparams"] = total(L, a["B"].item(), int(a["J_min"]))
            rec["attrs"] = [[k, canon(a[k])] for k in WANT[name]]
            rec["wantattrs"] = [[k, canon(want[k])] for k in WANT[name]]
            skip = 0
            data = np.asarray(data).ravel()
            if name == "earthtopography":
                if t["noise"]:
                    noise = np.asarray(a["noise"]).ravel()
                    z = np.array(drawn[:npix])
                    per = a["nparams"] * (t["nb"] + 1 + (t["ns"] - 1) * max(t["ng"], 1))
                    if algo != "skrock" and len(drawn) != npix + per or algo == "skrock" and (len(drawn) - npix) % a["nparams"]:
                        z = noise / level          # not drawn through numpy.random: at least of the right size
                        if np.abs(z).max() > 6 or not 0.6 < np.mean(z ** 2) < 1.5:
                            z = 0 * z
                    else:
                        skip = npix
                    rec.update(noisy=True, noise=enc.rvec(noise), level=enc.rvec(level), z=enc.rvec(z))
                    data = data + noise
                data = data / 1000
            # the same run, from the library
            mcmc_module.PxMCMCParams = Params
            p = Params(nsamples=t["ns"], nburn=t["nb"], ngap=t["ng"], delta=a["delta"].item(), lmda=a["lmda"].item(), mu=a["mu"].item(), complex=False,
                       verbosity=0, s=int(a["s"]))
            B, J0 = a["B"].item(), int(a["J_min"])
            tr = SphericalWaveletTransform(L, B, J0)
            kw = dict(L=L, B=B, J_min=J0)
            if name == "earthtopography":
                op = SphericalWaveletTransformOperator(data, sig, "synthesis", L, B, J0)
                pred = lambda x: ex.image(x, L, B, J0)
            elif name == "phasevel":
                if not t["cached"]:
                    got = sparse.load_npz("mat.npz").toarray()
                    if got.shape != A.shape or not np.allclose(got, A, atol=1e-9):
                        rec["named"] = False
                op = PathIntegralOperator(sparse.csr_matrix(A), data, sig, "synthesis", L, B, J0)
                pred = lambda x: A @ ex.image(x, L, B, J0)
            else:
                op = ForwardOperator(data, sig, "synthesis", transform=tr, measurement=wl, nparams=tr.ncoefs)
                pred = lambda x: wl.forward(ex.image(x, L, B, J0).reshape(L, 2 * L - 1))
            T = p.lmda * p.mu
            if name == "phasevel":
                prior = S2_Wavelets_L1_Power_Weights("synthesis", tr.inverse, tr.inverse_adjoint, T, eta=t["eta"] or 1, **kw)
            else:
                prior = S2_Wavelets_L1("synthesis", tr.inverse, tr.inverse_adjoint, T, **kw)
            mc = {"myula": MYULA, "skrock": SKROCK}[algo](op, prior, p) if algo != "pxmala" else PxMALA(op, prior, p, tune_delta=True)
            rng.script(gauss[skip:], unif)
            np.random.seed(12345)
            ref = attempt(mc.run, seconds=200)
            if ref.exc:
                rec["exc"], rec["_text"] = ref.exc, ref.text
                return rec
            names = {"logposterior": "logPi", "chain": "chain", "L2s": "L2s", "priors": "priors", "acceptances": "acceptance_trace", "deltas": "deltas_trace"}
            rec["datasets"] = sorted(sets)
            rec["refdatasets"] = sorted(k for k, v in names.items() if hasattr(mc, v))
            x = sets["chain"]
            u = max(1.0, float(np.abs(sets["L2s"]).max()) / 1e6)          # statistics in units that fit
            var = np.broadcast_to(np.asarray(sig, float) ** 2, data.shape)
            g = float(np.sqrt(u))
            rec.update(chain=[enc.rvec(row) for row in x], refchain=[enc.rvec(row) for row in mc.chain], prior=enc.rvec(sets["priors"] / u),
                       refprior=enc.rvec(np.asarray(mc.priors) / u), l2=enc.rvec(sets["L2s"] / u), logpi=enc.rvec(sets["logposterior"] / u),
                       data=enc.vec(data / g / np.sqrt(var)), w=enc.rvec(np.ones(len(data))), preds=[enc.vec(pred(row) / g / np.sqrt(var)) for row in x])
            if algo == "pxmala" and not (np.array_equal(sets["acceptances"], mc.acceptance_trace) and np.allclose(sets["deltas"], mc.deltas_trace, rtol=1e-9, atol=0)):
                rec["refdatasets"] = ["other acceptances or step sizes"]
        except Exception as e:  # noqa
            import traceback
            rec["exc"], rec["_text"] = "NotRecordable", traceback.format_exc()[-1500:]
    return rec


def functions(k):
    """read_datafile and get_path_matrix by themselves"""
    r = np.random.RandomState(k + 100)
    recs = []
    with ex.scratch():
        spec = importlib.util.spec_from_file_location("phasevel_main", ex.script("phasevel", "main"))
        mod = sys.modules["phasevel_main"] = importlib.util.module_from_spec(spec)
        o = attempt(spec.loader.exec_module, mod)
        if o.exc:
            return [{"op": "paths", "exc": o.exc, "rows": [], "want": [], "_desc": "importing phasevel/main.py", "_text": o.text}]
        n, L = [1, 2, 7, 20][k % 4], [4, 6, 9][k % 3]
        table = ex.paths_table(r, max(n, 2), negative=bool(k % 2))
        np.savetxt("t.txt", table, fmt="%.4f")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            o = attempt(mod.read_datafile, "t.txt")
        rc = {"op": "datafile", "exc": o.exc or "", "rows": enc.mat(table), "start": [], "stop": [], "data": [], "sig": [], "nsim": [], "warned": bool(w),
              "_desc": f"read_datafile {table.tolist()[:2]}", "_text": o.text}
        if not o.exc:
            s, e, d, g, _, m = o.value
            rc.update(start=enc.mat(s), stop=enc.mat(e), data=enc.rvec(d), sig=enc.rvec(g), nsim=enc.rvec(m))
        recs.append(rc)
        kw = {} if k % 2 else {"processes": [1, 3][k // 2 % 2]}
        o = attempt(mod.get_path_matrix, table[:, :2], table[:, 2:4], L, **kw)
        rc = {"op": "paths", "exc": o.exc or "", "rows": [], "want": enc.mat(ex.path_rows(table, L)), "_desc": f"get_path_matrix {n} paths L={L}", "_text": o.text}
        if not o.exc:
            rc["rows"] = enc.mat(o.value.toarray())
        recs.append(rc)
    return recs


def check(c):
    c.model("MCReport")
    c.validate("TrReport", forked(cases(c), one), label="runs of the examples", heap="10g")
    c.validate("TrReport", sum(forked(range(c.pick(6, 24)), functions), []), label="reading paths")
