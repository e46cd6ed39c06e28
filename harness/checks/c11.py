"""Every measurement operator is linear and its adjoint is exact."""
import numpy as np
from scipy import sparse
from pxmcmc.measurements import Identity, PathIntegral, WeakLensing, WeakLensingHarmonic
from ..core import attempt
from .ops import matrix_record, pairs_record, SHORT


def built(recs, desc, f, *a, **k):
    o = attempt(f, *a, **k)
    if o.exc:
        recs.append({"op": "construct", "exc": o.exc, "_text": o.text, "_desc": desc})
        return None
    return o.value


def refuse(recs, f, x, desc):
    o = attempt(f, x)
    recs.append({"op": "refuse", "exc": o.exc or "", "_desc": desc})


def masks(r, L):
    sh = (L, 2 * L - 1)
    yield "no mask", None, None
    yield "bool mask", r.rand(*sh) < 0.6, None
    yield "int mask", (r.rand(*sh) < 0.5).astype(int), r.randint(1, 40, sh)
    yield "float mask", (r.rand(*sh) < 0.7).astype(float), np.round(r.uniform(0, 9, sh), 2)
    yield "ngal only", None, np.where(r.rand(*sh) < 0.3, 0, r.randint(1, 30, sh))
    one = np.zeros(sh, dtype=bool)
    one[r.randint(L), r.randint(2 * L - 1)] = True
    yield "one pixel", one, np.full(sh, 30)
    row = np.ones(sh, dtype=bool)
    row[r.randint(L)] = False
    yield "a ring masked", np.asfortranarray(row), np.asfortranarray(np.round(r.uniform(1, 9, sh), 2))
    yield "all masked", np.zeros(sh), None


def check(c):
    r = c.rng
    c.model("MCOperator", c.pick("MCOperator", "MCOperatorBig"))
    recs, big = [], []
    for n in range(1, c.pick(7, 10)):
        for m in range(1, c.pick(7, 10)):
            I = built(recs, f"Identity({m}, {n})", Identity, m, n)
            if I is None:
                continue
            rc = matrix_record(r, I.forward, I.adjoint, n, m, f"Identity ndata={m} npix={n}", known="identity")
            if (I.ndata, I.npix) != (m, n):
                rc["m"] = -1
            recs.append(rc)
            for k in (n + 1, n - 1, n + 3):
                if k >= 0:
                    refuse(recs, I.forward, np.ones(k), f"Identity({m},{n}).forward of length {k}")
            for k in (m + 1, m - 1, m + 3):
                if k >= 0:
                    refuse(recs, I.adjoint, np.ones(k), f"Identity({m},{n}).adjoint of length {k}")
    fmts = ["csr", "csc", "coo", "lil", "bsr", "dia", "dok"]
    for k in range(c.pick(60, 200)):
        m, n = int(r.randint(1, 9)), int(r.randint(1, 9))
        M = np.round(r.normal(0, 1, (m, n)), 3) * (r.rand(m, n) < r.choice([0.2, 0.5, 1.0]))
        if k % 3 == 0:
            M = M + 1j * np.round(r.normal(0, 1, (m, n)), 3) * (r.rand(m, n) < 0.5)
        if k % 7 == 3:
            M = np.rint(M.real * 3).astype(int)
        if k % 8 == 5:
            M = (np.rint(M.real * 2048) / 2048).astype(np.float32) if k % 16 == 5 else np.rint(M.real * 20).astype([np.int8, np.int16, np.int32][k // 16 % 3])
        elif k % 24 == 7:
            M = M != 0
        fmt = fmts[k % 7]
        S = getattr(sparse, fmt + "_matrix")(M)
        P = built(recs, f"PathIntegral({fmt} {M.shape})", PathIntegral, S)
        if P is None:
            continue
        keep = S.toarray().copy()
        rc = matrix_record(r, P.forward, P.adjoint, n, m, f"PathIntegral {fmt} {m}x{n} {M.dtype} {M.tolist()}", known="matrix", M=M.T)
        if (P.ndata, P.npix) != (m, n):
            rc["m"] = -1
        rc["same"] = rc["same"] and bool(np.array_equal(keep, S.toarray()))
        recs.append(rc)
        for f, d, nm in ((P.forward, n, "forward"), (P.adjoint, m, "adjoint")):
            for q in (d + 1, d - 1, 2 * d + 1):
                refuse(recs, f, np.ones(q), f"PathIntegral {fmt} {m}x{n} {nm} of length {q}")
    for L in range(1, c.pick(6, 9)):
        H = built(recs, f"WeakLensingHarmonic({L})", WeakLensingHarmonic, L)
        if H is not None:
            recs.append(matrix_record(r, H.forward, H.adjoint, L * L, L * L, f"WeakLensingHarmonic L={L}"))
    for L in range(1, c.pick(6, 7)):
        for name, mask, ngal in masks(r, L):
            if L == 5 and not c.thorough and name in ("bool mask", "ngal only", "a ring masked"):
                continue
            W = built(recs, f"WeakLensing({L}) {name}", WeakLensing, L, mask=mask, ngal=ngal)
            if W is None:
                continue
            m = L * (2 * L - 1) if mask is None else int(np.count_nonzero(mask))
            big.append(matrix_record(r, W.forward, W.adjoint, L * (2 * L - 1), m, f"WeakLensing L={L} {name}", forms=SHORT, tol=8))
    for L in c.pick([8, 12], [7, 8, 10, 12, 16, 20]):
        H = built(recs, f"WeakLensingHarmonic({L})", WeakLensingHarmonic, L)
        if H is not None:
            recs.append(pairs_record(r, H.forward, H.adjoint, L * L, L * L, f"WeakLensingHarmonic L={L}"))
        for name, mask, ngal in masks(r, L):
            if name == "all masked":
                continue
            W = built(recs, f"WeakLensing({L}) {name}", WeakLensing, L, mask=mask, ngal=ngal)
            m = L * (2 * L - 1) if mask is None else int(np.count_nonzero(mask))
            if W is not None:
                big.append(pairs_record(r, W.forward, W.adjoint, L * (2 * L - 1), m, f"WeakLensing L={L} {name}", tol=7))
    # as large as in use
    for m, n in c.pick([(1100, 1100), (1500, 1030), (700, 2600)], [(1100, 1100), (1500, 1030), (700, 2600), (5000, 5000), (4, 9000), (9000, 5)]):
        I = built(recs, f"Identity({m}, {n})", Identity, m, n)
        if I is not None:
            recs.append(pairs_record(r, I.forward, I.adjoint, n, m, f"Identity ndata={m} npix={n}", known="identity"))
    for k, (m, n) in enumerate(c.pick([(300, 1100), (1050, 400), (1030, 1030)], [(300, 1100), (1050, 400), (1030, 1030), (20, 6000), (4000, 30), (3000, 3000)])):
        M = sparse.random(m, n, density=6 / n, random_state=np.random.RandomState(r.randint(2 ** 31)), format="csr")
        M.data = np.round(M.data * 4 - 2, 4) + 1j * (k % 2) * np.round(M.data, 4) if k % 2 else np.round(M.data * 4 - 2, 4)
        P = built(recs, f"PathIntegral({m}x{n})", PathIntegral, getattr(M, "to" + fmts[k % 3])())
        if P is None:
            continue
        rows = [(i, M[i].indices, M[i].data) for i in r.choice(m, min(m, 40), replace=False)]
        recs.append(pairs_record(r, P.forward, P.adjoint, n, m, f"PathIntegral {m}x{n} {M.dtype}", rows=rows))
    c.validate("TrOperator", recs, label="identity, path integral, harmonic lensing")
    c.validate("TrOperator", big, label="pixel lensing", heap="12g")
