"""Plotting returns its figures and leaves its data alone."""
import io
import warnings

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pys2let
import pyssht
from matplotlib.figure import Figure

from .. import enc
from ..core import attempt
from ..forks import forked

with __import__("contextlib").redirect_stdout(io.StringIO()):
    from pxmcmc import plotting
from pxmcmc.plotting import plot_map, plot_wavelet_maps, plot_evolution, plot_chain_sample, mollview

warnings.simplefilter("ignore")
_moll = pyssht.mollweide_projection
_idx = {}


def index_map(L):
    """which map pixel each picture element of the projection shows (-1: none), from pyssht itself"""
    if L not in _idx:
        a, rest = _moll(np.arange(float(L * (2 * L - 1))).reshape(L, 2 * L - 1), L)
        _idx[L] = (np.where(np.isnan(a), -1, a).astype(int), rest)
    return _idx[L]


def fast_moll(f, L, *a, **k):
    """the same projection, without doing the geometry again for every map"""
    if a or k or not isinstance(f, np.ndarray) or f.dtype != float or f.shape != (L, 2 * L - 1) or not f.flags.c_contiguous:
        return _moll(f, L, *a, **k)
    idx, rest = index_map(L)
    return np.where(idx < 0, np.nan, f.ravel()[idx]), rest


def up(f, L):
    """f at bandlimit L"""
    n = f.shape[0]
    if L <= n:
        return f
    flm = pyssht.forward(np.ascontiguousarray(f), n, Reality=True)
    return pyssht.inverse(np.concatenate([flm, np.zeros(L * L - n * n)]), L, Reality=True)


def picture(fig):
    ims = [(ax, im) for ax in fig.axes for im in ax.images if np.ndim(im.get_array()) == 2 and im.get_array().shape[0] > 1]
    return ims[0]


def drawn(fig, f, mask, over, rng, bl=None):
    """the recorded picture of one map"""
    L = max(256, f.shape[0]) if over else f.shape[0]
    want = up(f, L) if over else f
    hidden = np.zeros(want.shape, bool) if mask is None else np.asarray(mask).astype(bool)
    ax, im = picture(fig)
    arr = np.ma.filled(np.ma.asarray(im.get_array()).astype(float), np.nan)
    idx, _ = index_map(L)
    if arr.shape != idx.shape:
        raise ValueError("picture of another size")
    inside = idx >= 0
    flat, h = want.ravel(), hidden.ravel()
    blank = np.isnan(arr)
    seen = np.zeros(flat.size, bool)
    seen[np.unique(idx[inside])] = True
    vis = flat[seen & ~h]
    sample = np.arange(flat.size) if flat.size <= 130 else np.unique(np.concatenate([
        rng.randint(0, flat.size, 25), rng.permutation(np.flatnonzero(h))[:12], [0, flat.size - 1, int(np.argmax(flat)), int(np.argmin(flat))]]))
    pix = []
    for p in sample:
        v = arr[idx == p]
        pix.append({"want": enc.real(float(flat[p])), "masked": bool(h[p]), "shown": [enc.real(float(x)) for x in np.unique(v[~np.isnan(v)])[:3]]})
    hm = np.zeros(idx.shape, bool)
    hm[inside] = h[idx[inside]]
    lo, hi = im.get_clim()
    rgba = im.cmap(im.norm(np.ma.masked_invalid(np.array([np.nan]))))
    return {"pix": pix, "maskedshown": int(np.sum(hm & ~blank)), "openblank": int(np.sum(inside & ~hm & blank)), "visible": bool(vis.size), "anymasked": bool(h.any()),
            "transparent": bool(np.all(np.asarray(rgba)[..., 3] == 0)), "least": enc.real(float(vis.min())) if vis.size else enc.real(0),
            "greatest": enc.real(float(vis.max())) if vis.size else enc.real(0), "bound": enc.real(float(np.abs(flat).max())),
            "lo": enc.real(float(lo if lo is not None else 0)), "hi": enc.real(float(hi if hi is not None else 0)), "bl": int(f.shape[0])}


def make_map(r, kind, L):
    f = r.normal(0, 1, (L, 2 * L - 1))
    f = np.round({"mixed": f, "positive": np.abs(f) + 0.3, "negative": -np.abs(f) - 0.2, "large": 1e4 * f, "constant": 0 * f + 1.5, "skew": f - 0.6 + 3 * (f > 1.2)}[kind], 4)
    return np.ascontiguousarray(f)


def text_of(fig):
    return [t.get_text() for ax in fig.axes for t in [ax.title, ax._left_title, ax._right_title, ax.xaxis.label, ax.yaxis.label]] + [t.get_text() for t in fig.texts]


def map_case(job):
    seed, o = job
    r = np.random.RandomState(seed)
    kinds = ["mixed", "skew"] if "zero" in (o["vmin"], o["vmax"]) else ["mixed", "positive", "negative", "large", "skew", "constant"]
    kind = kinds[seed % len(kinds)]
    for _ in range(200):
        L = int(r.choice([2, 3, 5, 8])) if r.rand() < 0.9 or "zero" in (o["vmin"], o["vmax"]) else 1
        f = make_map(r, kind, L)
        over = o["over"]
        shape = (256, 511) if over else f.shape
        mask = {"none": None, "empty": np.zeros(shape), "all": np.ones(shape), "some": (r.rand(*shape) < 0.4).astype(float)}[o["mask"]]
        if o["mask"] == "some":
            mask.ravel()[r.randint(mask.size)] = 1
            if r.rand() < 0.5:
                mask[r.randint(shape[0])] = 1
            mask = [mask, mask.astype(bool), mask.astype(int)][seed % 3]
        vis = f.ravel() if over or mask is None else f.ravel()[~np.asarray(mask).astype(bool).ravel()]
        if "zero" not in (o["vmin"], o["vmax"]) or o["mask"] == "all" or (vis.size and vis.min() < -0.1 and vis.max() > 0.1):
            break
    span = float(np.abs(f).max())
    vals = {"none": None, "zero": 0, "value": 1}
    vmin, vmax = vals[o["vmin"]], vals[o["vmax"]]
    # asked-for ends leave room on the other side
    if vmin == 1:
        vmin = float(np.round(f.min() - 0.37 * span, 3))
    if vmax == 1:
        vmax = float(np.round(f.max() + 0.23 * span, 3))
    if o["mask"] == "all":          # no data: an end asked for must leave room for the other
        vmin, vmax = (-2.0 if o["vmin"] == "value" else vmin), (3.0 if o["vmax"] == "value" else vmax)
    title = f"map {seed}" if o["title"] else None
    kw = dict(cbar=o["cbar"], oversample=over, centre0=o["centre"])
    label = ["", "mK", "velocity"][seed % 3]
    if title or seed % 2:
        kw["title"] = title
    if vmin is not None or seed % 3:
        kw["vmin"] = vmin
    if vmax is not None or seed % 3:
        kw["vmax"] = vmax
    if mask is not None or seed % 5:
        kw["mask"] = mask
    if label:
        kw["cbar_label"] = label
    if seed % 4 == 1:
        kw["cmap"] = ["viridis", "RdBu", "jet"][seed // 4 % 3]
    keep = (f.copy(), None if mask is None else mask.copy())
    f.setflags(write=bool(seed % 2))
    out = attempt(lambda: plot_map(f, **kw), seconds=120)
    rec = {"op": "map", "exc": out.exc or "", "o": dict(o, lo=enc.real(vmin or 0), hi=enc.real(vmax or 0)), "figure": isinstance(out.value, Figure),
           "same": bool(np.array_equal(f, keep[0]) and (mask is None or (np.array_equal(mask, keep[1]) and mask.dtype == keep[1].dtype))), "printed": bool(out.out), "axes": 0,
           "titled": False, "labelled": True, "m": {}, "_text": out.text, "_desc": f"plot_map {kind} L={L} {o} {({k: v for k, v in kw.items() if k != 'mask'})} seed={seed}"}
    if rec["figure"]:
        try:
            fig = out.value
            rec["axes"] = len(fig.axes)
            txt = text_of(fig)
            rec["titled"] = bool(title in txt) if title else any(t.startswith("map ") for t in txt)
            rec["labelled"] = label in txt
            rec["m"] = drawn(fig, keep[0], mask, over, r)
            if seed % 8 == 0:
                o2 = attempt(fig.canvas.draw)
                rec["exc"], rec["_text"] = o2.exc or "", o2.text
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    plt.close("all")
    return rec


def wav_case(job):
    seed, (L, bn, bd, J), o, dirs = job
    r = np.random.RandomState(seed)
    B = bn if bd == 1 else bn / bd
    f = up(make_map(r, "mixed", L), L)
    f = pyssht.inverse(pyssht.forward(f, L, Reality=True), L, Reality=True)
    kw = {"oversample": o["over"], "centre0": o["centre"]}
    lo, hi = {"value": -2.25, "zero": 0}.get(o["vmin"]), {"value": 3.5, "zero": 0}.get(o["vmax"])
    if lo is not None:
        kw["vmin"] = lo
    if hi is not None:
        kw["vmax"] = hi
    if "zero" in (o["vmin"], o["vmax"]):  # leave something to show on the other side of 0
        s = pys2let.analysis_px2wav(f.flatten().astype(complex), B, L, J, dirs, 0, upsample=0)[1].real
        if (s.max() < 0.02 and o["vmin"] == "zero") or (s.min() > -0.02 and o["vmax"] == "zero"):
            f = -f
    if seed % 5 == 2:                     # a complex field: its real part is shown
        f = f + 1j * pyssht.inverse(pyssht.forward(make_map(r, "mixed", L), L, Reality=True), L, Reality=True)
    if seed % 2:
        kw["cbar"] = False
    if seed % 3:
        kw["title"] = "field"
    keep = f.copy()
    args = dict(kw)
    out = attempt(lambda: plot_wavelet_maps(f, L, B, J, dirs, 0, same_scale=o["samescale"], **kw), seconds=300)
    rec = {"op": "wavelets", "exc": out.exc or "", "_text": out.text, "L": L, "bn": bn, "bd": bd, "J": J, "figures": -1, "same": bool(np.array_equal(f, keep) and kw == args), "m": [],
           "o": dict(o, lo=enc.real(lo or 0), hi=enc.real(hi or 0)), "_desc": f"plot_wavelet_maps L={L} B={bn}/{bd} J_min={J} dirs={dirs} {o}"}
    if not out.exc:
        try:
            figs = list(out.value)
            rec["figures"] = len(figs) if all(isinstance(x, Figure) for x in figs) and len(set(map(id, figs))) == len(figs) else -2
            w, s = pys2let.analysis_px2wav(keep.flatten().astype(complex), B, L, J, dirs, 0, upsample=0)
            bls = [min(int(np.ceil(bn ** j / bd ** j - 1e-9)), L) for j in [J] + list(range(J + 1, J + len(figs)))]
            at = 0
            for k, (fig, bl) in enumerate(zip(figs, bls)):
                n = bl * (2 * bl - 1)
                v = (s if k == 0 else w[at:at + n]).real.reshape(bl, 2 * bl - 1).copy()
                at += 0 if k == 0 else n * (2 * dirs - 1)
                rec["m"].append(drawn(fig, v, None, o["over"], r))
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    plt.close("all")
    return rec


def marks_of(ax, y):
    """(curve found, marked positions)"""
    data, marks = False, []
    for ln in ax.lines:
        x, v = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
        if not data and len(v) == len(y) and np.allclose(v, y) and (len(v) > 1 or True) and np.allclose(x, np.arange(len(y))):
            data = True
        elif len(x) and np.all(x == x[0]):
            marks.append(x[0])
        else:
            marks += x.tolist()
    for col in ax.collections:
        if hasattr(col, "get_segments"):
            marks += [s[0][0] for s in col.get_segments()]
        else:
            marks += [p[0] for p in col.get_offsets()]
    return data, [int(m) if float(m).is_integer() else -1 for m in marks]


def evo_case(job):
    seed, lp, scale = job
    r = np.random.RandomState(seed)
    n = len(lp)
    a = np.array(lp, dtype=float) * scale[0] + scale[1]
    L2, L1 = np.round(np.abs(r.normal(0, 5, n)), 3), np.round(np.abs(r.normal(0, 2, n)), 3)
    if seed % 3 == 0:
        for v in (a, L2, L1):
            v.setflags(write=False)
    if seed % 5 == 0:
        a = np.repeat(a, 2)[::2]
    keep = a.copy(), L2.copy(), L1.copy()
    out = attempt(lambda: plot_evolution(a, L2, L1) if seed % 2 else plot_evolution(a, L2, L1, figsize=(4, 4)))
    rec = {"op": "evolution", "exc": out.exc or "", "_text": out.text, "lp": [int(x) for x in lp], "same": all(np.array_equal(x, y) for x, y in zip((a, L2, L1), keep)), "panels": [],
           "_desc": f"plot_evolution {a.tolist() if n < 12 else n}"}
    if not out.exc:
        try:
            axes = out.value.axes
            ys = [-keep[0], keep[1], keep[2]]
            rec["panels"] = [dict(zip(("data", "marks"), marks_of(ax, y))) for ax, y in zip(axes, ys)] if len(axes) == 3 else []
            if seed % 6 == 0:
                o2 = attempt(out.value.canvas.draw)
                rec["exc"], rec["_text"] = o2.exc or "", o2.text
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    plt.close("all")
    return rec


def sample_case(job):
    seed, n, cplx = job
    r = np.random.RandomState(seed)
    X = np.round(r.normal(0, 1, n) + (1j * r.normal(0, 1, n) if cplx else 0), 4)
    keep = X.copy()
    X.setflags(write=bool(seed % 2))
    out = attempt(lambda: plot_chain_sample(X) if seed % 3 else plot_chain_sample(X, figsize=(3, 3)))
    rec = {"op": "sample", "exc": out.exc or "", "_text": out.text, "figure": isinstance(out.value, Figure), "same": bool(np.array_equal(X, keep)), "curves": [],
           "_desc": f"plot_chain_sample n={n} complex={cplx}"}
    if rec["figure"]:
        try:
            rec["curves"] = [any(len(l.get_ydata()) == n and np.allclose(l.get_ydata(), y) for l in ax.lines) for ax, y in zip(out.value.axes, (keep.real, keep.imag))]
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    plt.close("all")
    return rec


def content(fig):
    return [(len(ax.lines), len(ax.images), ax.get_title(), [np.asarray(l.get_ydata(), float).tobytes() for l in ax.lines]) for ax in fig.axes]


def session_case(job):
    """a sequence of plotting calls; the user owns a few figures too"""
    seed, n = job
    r = np.random.RandomState(seed)
    own = [plt.figure(num=k) for k in r.choice(1000, 3, replace=False)] + [plt.figure()]
    for f in own:
        f.add_subplot().plot([1, 2, 3])
    figs = list(own)
    calls = [{"fig": k, "kept": True, "same": True, "printed": False} for k in range(len(own))]
    rec = {"op": "session", "exc": "", "calls": calls, "_desc": ""}
    names = []
    for _ in range(n):
        w = int(r.choice([0, 1, 2, 3, 4]))
        before = [content(f) for f in figs]
        if w == 0:
            a = np.round(r.normal(0, 1, (3, 5)), 3)
            fn = lambda: [plot_map(a, oversample=False)]
        elif w == 1:
            a = np.round(r.normal(0, 1, 6), 3)
            fn = lambda: [plot_evolution(a, np.abs(a), a ** 2)]
        elif w == 2:
            a = np.round(r.normal(0, 1, 6), 3) + 1j
            fn = lambda: [plot_chain_sample(a)]
        elif w == 3:
            a = np.round(r.normal(0, 1, 48), 3)
            if r.rand() < 0.5:      # as after a script's np.random.seed
                np.random.seed(3)
            kw = [{}, {"title": "m"}, {"cbar": False}, {"min": -1, "max": 1}][r.randint(4)]
            fn = lambda: [mollview(a, **kw)] if r.rand() < 0.5 else [mollview(a, (4, 3), **kw)]
        else:
            a = np.round(r.normal(0, 1, (2, 3)), 3)
            a = pyssht.inverse(pyssht.forward(a, 2, Reality=True), 2, Reality=True)
            fn = lambda: plot_wavelet_maps(a, 2, 2, 0, oversample=False)
        names.append(["plot_map", "plot_evolution", "plot_chain_sample", "mollview", "plot_wavelet_maps"][w])
        keep = a.copy()
        o = attempt(fn, seconds=120)
        if o.exc or not all(isinstance(f, Figure) for f in o.value):
            rec["exc"], rec["_text"] = o.exc or "NoFigure", o.text
            break
        kept = before == [content(f) for f in figs]
        for f in o.value:
            k = next((i for i, g in enumerate(figs) if g is f), len(figs))
            if k == len(figs):
                figs.append(f)
            calls.append({"fig": k, "kept": kept, "same": bool(np.array_equal(a, keep)), "printed": bool(o.out)})
    rec["_desc"] = f"plotting session seed={seed} {names}"
    plt.close("all")
    return rec


def work(job):
    return job[0](job[1])


def check(c):
    g = c.model("MCPlot", c.pick("MCPlot", "MCPlotBig"))
    opts, lps = [], []
    for m in g.msgs:
        if "opt" in m and m["opt"] not in opts:
            opts.append(m["opt"])
        elif "lp" in m and m["lp"] not in lps:
            lps.append(m["lp"])
    pyssht.mollweide_projection = fast_moll
    for L in (1, 2, 3, 4, 5, 6, 8, 256):
        index_map(L)
    r = c.rng
    jobs = []
    for k, o in enumerate(opts):
        for j in range(c.pick(1, 3)):
            jobs.append((map_case, (1000 * c.seed + 3 * k + j, o)))
    index_map(300)
    wopts = [dict(over=over, centre=ce, samescale=ss, vmin=a, vmax=b) for over in (False, True) for ce in (False, True) for ss in (True, False)
             for a, b in (("none", "none"), ("value", "none"), ("none", "value"), ("value", "value"), ("zero", "none"), ("none", "zero"), ("zero", "value"))]
    confs = [(2, 2, 1, 0), (3, 2, 1, 0), (4, 2, 1, 0), (4, 2, 1, 1), (4, 3, 1, 0), (5, 3, 2, 1), (6, 2, 1, 1), (8, 2, 1, 2)]
    wopts = [o for o in wopts if o["samescale"] or "zero" not in (o["vmin"], o["vmax"])]
    for k, o in enumerate(wopts):
        for j in range(c.pick(2, 8)):
            if o["over"] and j > c.pick(0, 3):
                continue
            jobs.append((wav_case, (7000 * c.seed + 8 * k + j, confs[(k + j * 3) % len(confs)], o, [1, 1, 1, 2, 1, 3][(k + j) % 6])))
    for k, lp in enumerate(lps):
        jobs.append((evo_case, (k, lp, [(1.0, 0.0), (-0.0 + 2.5, -40.0), (100.0, 7.0)][k % 3])))
    for k in range(c.pick(6, 40)):
        n = int(r.choice([20, 300]))
        jobs.append((evo_case, (k + 5000, r.randint(-5, 3, n).tolist(), (1.5, -9.0))))
    for k in range(c.pick(16, 60)):
        jobs.append((sample_case, (k, [1, 2, 5, 64][k % 4], bool(k // 4 % 2))))
    for k in range(c.pick(24, 120)):
        jobs.append((session_case, (100 * c.seed + k, c.pick(8, 16))))
    # several cases per child: what one plot leaves behind in pyplot is there for the next
    r.shuffle(jobs)
    groups = [jobs[k::c.pick(64, 200)] for k in range(c.pick(64, 200))]
    recs = [x for grp in forked(groups, lambda js: [work(j) for j in js], seconds=800) for x in grp]
    recs.append(big_case())
    c.log(f"{len(recs)} plotting calls")
    c.validate("TrPlot", recs, label="plots")


def big_case():
    r = np.random.RandomState(3)
    f = up(make_map(r, "mixed", 4), 300)
    keep = f.copy()
    out = attempt(lambda: plot_map(f), seconds=300)
    o = {"cbar": True, "over": True, "centre": False, "title": False, "vmin": "none", "vmax": "none", "mask": "none", "lo": enc.real(0), "hi": enc.real(0)}
    rec = {"op": "map", "exc": out.exc or "", "o": o, "figure": isinstance(out.value, Figure), "same": bool(np.array_equal(f, keep)), "printed": False,
           "axes": 2, "titled": False, "labelled": True, "m": {}, "_text": out.text, "_desc": "plot_map L=300"}
    if rec["figure"]:
        rec["m"] = drawn(out.value, keep, None, True, r)
    plt.close("all")
    return rec
