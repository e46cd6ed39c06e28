"""Suppressing standard output always restores it."""
import io
import sys

import healpy as hp
import numpy as np
from pxmcmc.utils import suppress_stdout, map2alm, alm2map
from .. import enc
from ..core import Timeout, limit


class Odd(Exception):
    def __bool__(self):
        return False


class Plain:
    """a minimal stand-in for a stream"""

    def __init__(self):
        self.text = ""

    def write(self, t):
        self.text += t
        return len(t)

    def flush(self):
        pass

    def getvalue(self):
        return self.text


EXCS = [ValueError("v"), KeyboardInterrupt(), SystemExit(3), StopIteration(1), GeneratorExit(), Odd("odd"), RuntimeError("generator raised StopIteration"),
        OSError(5, "x"), AssertionError(), StopAsyncIteration(), BaseException("b"), RuntimeError("generator didn't stop")]


class Thrown(BaseException):
    pass


def replay(ops, exc, make):
    """Run a history with real nested with-blocks.  Returns the observations after each operation."""
    real = sys.stdout
    caller, user = make(), make()
    obs = []
    pos = [0]
    entries = []

    def probe():
        a, b = caller.getvalue(), user.getvalue()
        token = f"<{len(obs)}>"
        err = ""
        try:
            print(token, "\u00e9\u2713\U0001d49c" * (1 + 999 * (len(obs) % 5 == 4)), flush=True)
        except Exception as e:  # noqa
            err = type(e).__name__
        ga, gb = caller.getvalue()[len(a):], user.getvalue()[len(b):]
        return ("caller" if token in ga else "user" if token in gb else "null"), err

    def note(restored=True, samexc=True, leak=False, exc=""):
        seen, err = probe()
        obs.append({"restored": bool(restored), "samexc": bool(samexc), "leak": bool(leak), "exc": exc or err, "seen": seen})

    def body():
        """runs operations until the current context is left; returns the number of further levels to unwind normally"""
        while pos[0] < len(ops):
            op, k = ops[pos[0]]
            pos[0] += 1
            if op == "enter":
                block()
            elif op == "leave":
                return
            elif op == "swap":
                sys.stdout = user
                note()
            elif op == "call":
                before = caller.getvalue()
                err = ""
                try:
                    m = alm2map(np.array([1.0 + 0j, 0.5, 0.25j]), 1)
                    map2alm(m, 1)
                except Exception as e:  # noqa
                    err = type(e).__name__
                note(leak=caller.getvalue() != before, exc=err)
            elif op == "throw":
                raise Throw(k)

    class Throw(Exception):
        def __init__(self, k):
            self.k = k

    def block():
        entry = sys.stdout
        try:
            with suppress_stdout():
                note()
                try:
                    body()
                except Throw as t:
                    left[0] = t.k
                    raise exc
        except BaseException as e:  # noqa
            left[0] -= 1
            if left[0] > 0 and e is exc:
                raise
            left[0] = 0
            note(restored=sys.stdout is entry, samexc=e is exc)
            return
        if left[0]:
            left[0] = 0
            note(restored=sys.stdout is entry, samexc=False)      # the exception was swallowed
            return
        if pos[0] <= len(ops) and ops[pos[0] - 1][0] == "leave":
            note(restored=sys.stdout is entry)

    left = [0]
    sys.stdout = caller
    try:
        body()
    except Exception as e:  # noqa
        obs.append({"restored": False, "samexc": False, "leak": False, "exc": type(e).__name__, "seen": "caller"})
    finally:
        sys.stdout = real
    return obs


def noisy(f):
    def g(*a, **k):
        print("noise from healpy: \u03b8, \u03c6")
        sys.stdout.write("more noise\n")
        return f(*a, **k)
    return g


def wrap_cases(c, recs):
    r = c.rng
    real = sys.stdout
    true = hp.map2alm, hp.alm2map
    cases = []
    for nside in (1, 2, 4, 8):
        m = np.round(r.normal(0, 1, 12 * nside ** 2), 5)
        tqu = np.round(r.normal(0, 1, (3, 12 * nside ** 2)), 5)
        for lmax in (0, 1, 2, 3 * nside - 1) if nside < 8 else (23,):
            cases.append(("map2alm", (m, lmax), {}))
            cases.append(("map2alm", (m, lmax), dict(iter=0)))
            cases.append(("map2alm", (m.astype(np.float32), lmax), dict(mmax=lmax // 2)))
            cases.append(("map2alm", (tqu, lmax), dict(pol=False)))
            if lmax >= 2:
                cases.append(("map2alm", (tqu, lmax), {}))
            alm = r.normal(0, 1, hp.Alm.getsize(lmax)) + 1j * r.normal(0, 1, hp.Alm.getsize(lmax))
            alm = np.round(alm, 5)
            cases.append(("alm2map", (alm, nside), {}))
            cases.append(("alm2map", (alm, nside), dict(lmax=lmax)))
            cases.append(("alm2map", (alm, nside), dict(fwhm=0.1)))
            if lmax >= 2:
                cases.append(("alm2map", (np.array([alm, alm * 0.5, alm * 2]), nside), {}))
                cases.append(("alm2map", ([alm, alm * 0.5, alm * 2], nside), dict(pol=False)))
    cases += [("map2alm", (np.ones(13), 2), {}), ("map2alm", (np.ones(12), 2), dict(nonsense=1)), ("alm2map", (np.ones(4) + 0j, 3.5), {}),
              ("alm2map", (np.ones(5) + 0j, 1), {}), ("alm2map", (np.ones(3) + 0j, 1), dict(nonsense=2))]
    for name, a, kw in cases:
        ref = true[0] if name == "map2alm" else true[1]
        want, refv = "", None
        try:
            refv = ref(*[np.array(x) if isinstance(x, np.ndarray) else x for x in a], **kw)
        except Exception as e:  # noqa
            want = type(e).__name__
        keep = [np.array(x) for x in a]
        for noise in (False, True):
            cap = io.StringIO()
            exc, text, out = "", "", None
            hp.map2alm, hp.alm2map = (noisy(true[0]), noisy(true[1])) if noise else true
            sys.stdout = cap
            try:
                with limit(60):
                    out = (map2alm if name == "map2alm" else alm2map)(*a, **kw)
            except Timeout as e:
                exc = "Timeout"
            except Exception as e:  # noqa
                exc, text = type(e).__name__, repr(e)
            finally:
                restored = sys.stdout is cap
                sys.stdout = real
                hp.map2alm, hp.alm2map = true
            rc = {"op": "wrapper", "want": want, "exc": exc, "leak": cap.getvalue() != "", "restored": bool(restored), "out": [], "ref": [],
                  "same": all(np.array_equal(x, np.array(y)) for x, y in zip(keep, a)), "_text": text,
                  "_desc": f"{name} nside/lmax {a[1]} {kw} shape {np.shape(a[0])} healpy prints: {noise}"}
            if not want:
                rc["ref"] = [enc.vec(x) for x in np.atleast_2d(refv)]
                if not exc:
                    try:
                        rc["out"] = [enc.vec(x) for x in np.atleast_2d(out)]
                    except Exception as e:  # noqa
                        rc["exc"], rc["_text"] = "NotRecordable", repr(e)
            recs.append(rc)


def check(c):
    g = c.model("GenStdout", c.pick("GenStdout", "GenStdoutBig"))
    recs = []
    seen = set()
    k = 0
    for m in g.msgs:
        ops = [tuple(o) for o in m["ops"]]
        if tuple(ops) in seen:
            continue
        seen.add(tuple(ops))
        threw = any(o[0] == "throw" for o in ops)
        for e in ([EXCS[(k + i) % len(EXCS)] for i in range(c.pick(2, 3))] if threw else [EXCS[0]]):
            k += 1
            make = (io.StringIO, Plain)[k % 2]
            obs = replay(ops, e, make)
            recs.append({"op": "history", "ops": [list(o) for o in ops], "obs": obs, "_desc": f"history {ops} exception {type(e).__name__} stream {make.__name__}"})
    c.log(f"{len(seen)} histories")
    # longer random walks of the same machine
    for q in range(c.pick(150, 1500)):
        ops, depth = [], 0
        while len(ops) < 24 or depth:
            o = c.rng.choice(["enter", "leave", "throw", "swap", "call"], p=[.35, .25, .2, .1, .1])
            if len(ops) >= 24:
                o = "leave"
            if o == "enter" and depth < 3:
                depth += 1
                ops.append(("enter", 0))
            elif o == "leave" and depth:
                depth -= 1
                ops.append(("leave", 0))
            elif o == "throw" and depth:
                j = int(c.rng.randint(1, depth + 1))
                depth -= j
                ops.append(("throw", j))
            elif o == "swap" and depth or o == "call":
                ops.append((o, 0))
        e = EXCS[q % len(EXCS)]
        recs.append({"op": "history", "ops": [list(o) for o in ops], "obs": replay(ops, e, (io.StringIO, Plain)[q % 2]), "_desc": f"walk {ops} exception {type(e).__name__}"})
    wrap_cases(c, recs)
    c.validate("TrStdout", recs, label="suppress_stdout histories, healpix wrappers")
