"""Running the scripts in /repo/experiments in scratch directories and recording what they say."""
import contextlib
import hashlib
import os
import re
import runpy
import shutil
import sys
import tempfile

import healpy as hp
import numpy as np
import pys2let
import pyssht

from .. import enc
from ..core import attempt
import pxmcmc.mcmc as mcmc_module
with __import__("contextlib").redirect_stdout(__import__("io").StringIO()):
    import pxmcmc.plotting as plotting

REPO = os.environ.get("PXMCMC_REPO", "/repo")
KAPPA = "takahasi_4096_000_zs16_kappa.fits"
TOPO = "ETOPO1_Ice_hpx_256.fits"


def script(example, name):
    return os.path.join(os.path.abspath(REPO), "experiments", example, name + ".py")


@contextlib.contextmanager
def scratch():
    """an empty working directory"""
    d = tempfile.mkdtemp(dir=os.environ.get("VCHK_TMP"))
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, True)


def execute(path, args, seconds=120):
    def f():
        old = sys.argv
        sys.argv = [path] + [str(a) for a in args]
        try:
            return runpy.run_path(path, run_name="__main__")
        except SystemExit as e:
            if e.code not in (None, 0):
                raise
        finally:
            sys.argv = old
    return attempt(f, seconds=seconds)


def files(d="."):
    """every file below d with a digest of its contents"""
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            out[os.path.relpath(q, d)] = hashlib.sha256(open(q, "rb").read()).hexdigest()
    return out


def image(coefs, L, B, J0):
    """wavelet coefficients (scaling function first) to pixels, by pys2let itself"""
    b = pys2let.pys2let_j_max(B, L, J0)
    bl = min(int(np.ceil(B ** J0 - 1e-9)), L)
    ns = bl * (2 * bl - 1)
    x = np.asarray(coefs).astype(complex)
    return pys2let.synthesis_wav2px(np.ascontiguousarray(x[ns:]), np.ascontiguousarray(x[:ns]), B, L, J0, 1, 0, upsample=0).real


def wavelets(pixels, L, B, J0):
    w, s = pys2let.analysis_px2wav(np.asarray(pixels).astype(complex), B, L, J0, 1, 0, upsample=0)
    return np.concatenate([s, w]).real


# -- figures are recorded, not drawn
class Figure:
    log = []

    def __init__(self, *arrays):
        self.arrays = [np.array(a) for a in arrays]

    def savefig(self, name, *a, **k):
        Figure.log.append((str(name), self.arrays))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


def record_figures(nscales):
    Figure.log = []
    plotting.plot_map = lambda f, *a, **k: Figure(f)
    plotting.mollview = lambda f, *a, **k: Figure(f)
    plotting.plot_evolution = lambda logpi, L2s, L1s, *a, **k: Figure(logpi, L2s, L1s)
    plotting.plot_chain_sample = lambda s, *a, **k: Figure(s)
    plotting.plot_wavelet_maps = lambda f, *a, **k: [Figure(f) for _ in range(nscales)]
    plotting._oversample = lambda f, L: f


# -- the runs are shortened
def shorten(ns, nb, ng):
    orig = mcmc_module.PxMCMCParams

    def build(*a, **k):
        p = orig(*a, **k)
        p.nsamples, p.nburn, p.ngap, p.verbosity = ns, nb, ng, 0
        return p
    mcmc_module.PxMCMCParams = build
    return orig


def deterministic_seeds():
    """unseeding numpy's generator makes it deterministic here"""
    orig = np.random.seed
    np.random.seed = lambda s=None: orig(12345 if s is None else s)
    orig(12345)


# -- inputs
def topo_map(r, nside):
    return np.round(r.normal(0, 2500, 12 * nside ** 2), 3)


def topo_mw(topo, L):
    return pys2let.alm2map_mw(pys2let.lm_hp2lm(hp.map2alm(topo, L - 1), L), L, 0)


def kappa_mw(kappa, L):
    lmax = L - 1
    k = hp.alm2map(hp.map2alm(kappa, lmax=lmax), nside=3 * lmax - 1)
    k = hp.smoothing(k, sigma=np.radians(50 / 60))
    return pyssht.inverse(pys2let.lm_hp2lm(hp.map2alm(k, lmax), L), L)


def write_map(name, m):
    attempt(hp.write_map, name, m, dtype=np.float64, overwrite=True)


def paths_table(r, n, negative=False):
    t = np.c_[r.uniform(-80, 80, n), r.uniform(-175, 175, n), r.uniform(-80, 80, n), r.uniform(-175, 175, n),
              r.normal(0, 2, n), r.uniform(.5, 1.5, n), r.choice([1, 2], n), r.randint(1, 6, n)]
    if negative:
        t[::3, 5] *= -1
    return np.round(t, 4)


def path_rows(table, L):
    from greatcirclepaths import GreatCirclePath
    out = []
    for row in table:
        p = GreatCirclePath(row[:2], row[2:4], "MW", L=L, weighting="average", latlon=True)
        p.get_points(points_per_rad=160)
        p.fill()
        out.append(np.asarray(p.map, float))
    return np.array(out)


def flat(a):
    """the real part of an array, as recorded reals"""
    a = np.asarray(a)
    if np.iscomplexobj(a):
        if a.size and np.abs(a.imag).max() > 1e-7 * max(1.0, np.abs(a).max()):
            raise enc.Unencodable("not real")
        a = a.real
    return enc.rvec(a)


def printed(out, name, kind):
    """the interval in which the printed number lies: as an amplitude ratio for dB, as it is otherwise"""
    m = re.search(re.escape(name) + r"\s*:?\s*([-+0-9.einfa]+)", out)
    if not m:
        return None
    v, digits = float(m.group(1)), m.group(1)
    if kind == "db":
        h = 0.5 * 10.0 ** -len(digits.split(".")[1] if "." in digits else "")
        return {"lo": enc.real(10 ** ((v - h * 1.0001) / 20)), "hi": enc.real(10 ** ((v + h * 1.0001) / 20))}
    man = digits.lower().split("e")[0]
    e = int(digits.lower().split("e")[1]) if "e" in digits.lower() else 0
    h = 0.50001 * 10.0 ** (e - (len(man.split(".")[1]) if "." in man else 0))
    return {"lo": enc.real(v - h), "hi": enc.real(v + h)}
