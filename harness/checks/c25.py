"""An example's report says what its saved run says."""
import os
from fractions import Fraction

import h5py
import numpy as np
import pyssht
from scipy import sparse

from .. import enc
from ..forks import forked
from . import examples as ex
from .layout import bandlimits, total, j_max
from pxmcmc.measurements import WeakLensing
from pxmcmc.utils import build_mask

NPY = ["mean", "MAP", "CI", "diff", "diff_mean"]
PNG = {
    "earthtopography": ["evolution", "truth", "MAP", "diff", "MAP_wvlt", "ci_map", "mean", "diff_mean"],
    "phasevel": ["evolution", "MAP", "diff", "MAP_wvlt", "ci_map", "mean", "mean_scale0"],
    "weaklensing": ["evolution", "MAP", "diff", "MAP_wvlt", "ci_map", "mean", "diffmean"],
}


def cases(c):
    r = c.rng
    confs = [(4, 2, 0), (4, 2, 1), (5, 1.5, 1), (6, 2, 2), (5, 3, 0), (6, 1.5, 2), (8, 2, 2)]
    for k in range(c.pick(36, 150)):
        name = ["earthtopography", "phasevel", "weaklensing"][k % 3]
        L, B, J0 = confs[(k // 3 + k // 2) % len(confs)]
        n = [5, 1, 3, 8, 2, 12, 4][(k // 3) % 7]
        pick = lambda *v: v[r.randint(len(v))]
        yield {"k": k, "example": name, "L": L, "B": B, "J0": J0, "n": n, "burn": min(max(pick(0, n - 1, n // 2, 1), 0), n - 1),
               "best": ["burnt", "late", "tie", "any"][(k // 3) % 4], "npy": pick(True, True, False), "suffix": pick("", "", "_b", ".v2"),
               "dir": pick(".", "out", "a/b", "ABS"), "setting": pick("synthesis", "synthesis", "analysis") if name != "phasevel" else "synthesis",
               "noise": ["array", "scalar", "none"][(k // 3) % 3], "nomask": pick(True, False), "flag": pick(True, False),
               "seed": int(r.randint(1, 10 ** 6)), "dtype": "f8", "swap": pick(True, False)}


def one(t):
    r = np.random.RandomState(t["seed"])
    L, B, J0, n, burn = t["L"], t["B"], t["J0"], t["n"], t["burn"]
    npix = L * (2 * L - 1)
    ncoef = total(L, B, J0)
    synth = t["setting"] == "synthesis"
    size = ncoef if synth else npix
    chain = np.round(r.normal(0, 1, (n, size)) * (1 + np.arange(n))[:, None], 6).astype(t["dtype"])
    logpi = np.round(-np.abs(r.normal(60, 20, n)) - 1, 4)
    if t["best"] == "burnt":
        logpi[0] = -0.25
    elif t["best"] == "late":
        logpi[-1] = 0.5
    elif t["best"] == "tie" and n > 2:
        logpi[1] = logpi[2] = -0.125
    L2s, L1s = np.abs(r.normal(5, 2, n)), np.abs(r.normal(9, 2, n))
    x = chain.astype(float)
    images = [ex.image(row, L, B, J0) for row in x] if synth else list(x)
    coefs = list(x) if synth else [ex.wavelets(row, L, B, J0) for row in x]
    noise = np.round(r.normal(0, 300, npix), 3)
    rec = {"op": "report", "exc": "", "images": [enc.rvec(i) for i in images], "coefs": [enc.rvec(q) for q in coefs], "logpis": enc.rvec(logpi),
           "burn": burn, "alpha": enc.real(0.05), "wavalpha": enc.real(0.05), "digits": 4 if t["dtype"] == "f4" else 7, "truth": [], "npy": [], "png": [],
           "npynames": NPY if t["npy"] else [], "pngnames": list(PNG[t["example"]]), "strays": False, "absdiff": t["example"] != "earthtopography",
           "dmname": "diffmean" if t["example"] == "weaklensing" else "diff_mean", "keep": [True] * npix, "every": [True] * npix,
           "mapsnr": {}, "meansnr": {}, "noisesnr": {}, "r2e": False, "mapr2e": {}, "meanr2e": {}, "preds": [], "obs": [], "meanpreds": [],
           "noisy": False, "noise": [], "scales": [], "offsets": [], "evolution": False, "same": False, "_desc": f"report {t}", "_text": ""}
    with ex.scratch() as here:
        d = {"ABS": os.path.join(here, "far", "away")}.get(t["dir"], t["dir"])
        os.makedirs(d, exist_ok=True)
        with h5py.File("run.hdf5", "w") as f:
            for name, v in (("chain", chain), ("logposterior", logpi), ("L2s", L2s), ("priors", L1s)):
                f.create_dataset(name, data=v)
            attrs = dict(L=L, B=B, J_min=J0, setting=t["setting"], nsamples=n, nburn=3, ngap=7, delta=1e-6, lmda=1e-6, mu=1, nparams=size,
                         complex=False, time="0:00:01")
            if t["example"] == "earthtopography":
                attrs.update(sigma=1, scaleafrica=0)
                if t["noise"] == "array":
                    attrs["noise"] = noise
                elif t["noise"] == "scalar":
                    attrs["noise"] = 0
            for a, v in attrs.items():
                f.attrs[a] = v
        args = ["run.hdf5", d]
        if t["suffix"]:
            args += ["--suffix", t["suffix"]]
        if burn or t["example"] != "earthtopography" or t["flag"]:
            args += ["--burn", burn]
        if t["npy"]:
            args += ["--save_npy"]
        bls = bandlimits(L, B, J0)
        if t["example"] == "earthtopography":
            topo = ex.topo_map(r, 8)
            ex.write_map(ex.TOPO, topo)
            truth = ex.topo_mw(topo, L).real / 1000
            rec["noisy"] = t["noise"] == "array"
            if rec["noisy"]:
                rec["pngnames"].append("noise")
                rec["noise"] = enc.rvec(noise / 1000)
        elif t["example"] == "phasevel":
            truth = np.round(r.normal(0, 3, (L, 2 * L - 1)), 5)
            np.save("GDM40_L28.npy", truth)
            table = ex.paths_table(r, 9)
            np.savetxt("synthetic_GDM40_0S254_L28.txt", table)
            A = np.round(np.where(r.rand(9, npix) < 0.3, r.rand(9, npix), 0), 4)
            sparse.save_npz("0S254L28.npz", sparse.csr_matrix(A))
            rec.update(r2e=True, obs=enc.rvec(np.loadtxt("synthetic_GDM40_0S254_L28.txt")[:, 4]), preds=[enc.rvec(A @ i) for i in images],
                       meanpreds=enc.rvec(A @ np.mean(images[burn:], axis=0)))
            rec["pngnames"] += [f"ci_map_scale{i}" for i in range(len(bls))] + [f"mean_scale{i}" for i in range(len(bls))]
            rec["offsets"] = [sum(b * (2 * b - 1) for b in bls[:i]) for i in range(len(bls))]
        else:
            kappa = np.round(r.normal(0, 2, 12 * 64), 4)
            ex.write_map(ex.KAPPA, kappa)
            truth = ex.kappa_mw(kappa, L).real
            if t["nomask"]:
                args += ["--no-mask"]
                mask = np.ones((L, 2 * L - 1), bool)
            else:
                mask = build_mask(L, size=20).astype(bool)
            rec["keep"] = [bool(b) for b in mask.ravel()]
            wl = WeakLensing(L, mask)

            def shear(v):
                z = wl.forward(np.asarray(v, complex).ravel())
                return enc.rvec(np.concatenate([z.real, z.imag]))
            rec.update(r2e=True, obs=shear(truth), preds=[shear(i) for i in images], meanpreds=shear(np.mean(images[burn:], axis=0)))
        rec["truth"] = enc.rvec(truth)
        before = ex.files()
        ex.record_figures(len(bls))
        if t["swap"]:          # options may come first
            args = args[2:] + args[:2]
        o = ex.execute(ex.script(t["example"], "plot"), args)
        rec["exc"], rec["_text"] = o.exc or "", o.text
        if o.exc:
            return rec
        try:
            after = ex.files()
            rec["same"] = all(after.get(k) == v for k, v in before.items())
            new = {os.path.normpath(k) for k in after if k not in before}
            own = lambda p: os.path.realpath(os.path.dirname(p) or ".") == os.path.realpath(d)
            strip = lambda p, e: os.path.basename(p)[:-len(t["suffix"] + e)] if os.path.basename(p).endswith(t["suffix"] + e) else None
            for p in sorted(new):
                nm = strip(p, ".npy")
                if not own(p) or nm is None:
                    rec["strays"] = True
                else:
                    rec["npy"].append({"name": nm, "v": ex.flat(np.load(p))})
            scales = {}
            for p, arrays in ex.Figure.log:
                nm = strip(p, ".png")
                if not own(p) or nm is None:
                    rec["strays"] = True
                    continue
                if nm == "evolution":
                    rec["evolution"] = len(arrays) == 3 and all(np.array_equal(u, v) for u, v in zip(arrays, (logpi, L2s, L1s)))
                    rec["png"].append({"name": nm, "v": []})
                elif nm.startswith("ci_map_scale"):
                    scales[int(nm[len("ci_map_scale"):])] = ex.flat(arrays[0])
                    rec["png"].append({"name": nm, "v": []})
                elif len(arrays) == 1:
                    rec["png"].append({"name": nm, "v": ex.flat(arrays[0])})
            rec["scales"] = [scales[i] for i in sorted(scales)] if t["example"] == "phasevel" else []
            for key, label, kind in (("mapsnr", "MAP SNR", "db"), ("meansnr", "Mean SNR", "db"), ("noisesnr", "Input SNR", "db"),
                                     ("mapr2e", "MAP R2E", "e"), ("meanr2e", "Mean R2E", "e")):
                need = key in ("mapsnr", "meansnr") or key == "noisesnr" and rec["noisy"] or key.endswith("r2e") and rec["r2e"]
                if need:
                    p = ex.printed(o.out, label, kind)
                    if p is None:
                        rec["exc"], rec["_text"] = "NotReported", label + "\n" + o.out[-1500:]
                        return rec
                    rec[key] = p
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    return rec


def check(c):
    c.model("MCReport", c.pick("MCReport", "MCReportBig"))
    recs = forked(cases(c), one)
    c.validate("TrReport", recs, label="reports on saved runs", heap="10g")
