"""The ray-tracing map download: converted faithfully, and unharmed by runs that were cut short."""
import contextlib
import io
import logging
import os
import re
import runpy
import shutil
import sys
import tempfile
import types
import warnings

import healpy as hp
import numpy as np

from .. import enc
from ..core import attempt, limit
from ..forks import forked

SCRIPT = os.path.join(os.path.realpath(os.environ.get("PXMCMC_REPO", "/repo")), "experiments", "weaklensing", "download_takahasi.py")
NAME = "allskymap_nres12r000.zs16.mag.dat"
FINAL = "takahasi_4096_000_zs16_kappa.fits"


class Cut(Exception):
    """a run cut short"""


class World:
    """stand-ins for the network and for the end of a run: they only touch the scratch directory"""

    def __init__(self, content, event="ok"):
        self.content, self.event, self.fired, self.urls = content, event, "ok", []

    def modules(self):
        w = self

        class Raw:
            def __init__(self, body):
                self.f = io.BytesIO(body)
                self.left = len(w.content) // 2

            def read(self, n=-1, *a, **k):
                n = 64 if n is None or n < 0 else min(n, 64)
                if w.event in ("drop", "short") and self.left <= 0:
                    w.fired = w.event
                    if w.event == "drop":
                        raise Cut("connection lost")
                    return b""
                out = self.f.read(n if w.event not in ("drop", "short") else min(n, self.left))
                self.left -= len(out)
                return out

            def stream(self, *a, **k):
                return iter(lambda: self.read(64), b"")

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        class Response:
            def __init__(self, url):
                w.urls.append(url)
                body = w.content
                self.status_code, self.reason, self.url = 200, "OK", url
                if w.event == "refused":
                    w.fired = "refused"
                    self.status_code, self.reason, body = 404, "Not Found", b"<html>Not Found</html>"
                self.ok = self.status_code == 200
                self.headers = {"Content-Length": str(len(body)), "content-length": str(len(body))}
                self.raw = Raw(body)

            def raise_for_status(self):
                if not self.ok:
                    raise RuntimeError("404 Client Error")

            def iter_content(self, chunk_size=1, **k):
                return self.raw.stream()

            @property
            def content(self):
                return b"".join(self.raw.stream())

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

        class Bar:
            def __init__(self, it=None, *a, **k):
                self.it = it

            def __iter__(self):
                return iter(self.it)

            def update(self, *a):
                pass

            close = update

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            @staticmethod
            @contextlib.contextmanager
            def wrapattr(stream, method, total=None, **k):
                yield stream
        requests, tqdm = types.ModuleType("requests"), types.ModuleType("tqdm")
        requests.get = lambda url, *a, **k: Response(url)
        tqdm.tqdm = Bar
        return {"requests": requests, "tqdm": tqdm}

    @contextlib.contextmanager
    def entered(self, cwd):
        w = self
        saved = {m: sys.modules.get(m) for m in ("requests", "tqdm")}
        funcs = [(hp, "write_map"), (hp.fitsfunc, "write_map"), (os, "rename"), (os, "replace"), (shutil, "move")]
        old = [getattr(m, a) for m, a in funcs]
        here = os.getcwd()
        write = hp.fitsfunc.write_map

        def dying(name, m, *a, **k):
            w.fired = "write"
            exists = os.path.exists(name)
            if exists and not k.get("overwrite"):
                return write(name, m, *a, **k)
            with open(name, "wb") as f:
                f.write(b"SIMPLE  =                    T" + b" " * 500)
            raise Cut("killed while writing")

        def naming(f):
            def g(src, dst, *a, **k):
                if str(dst).endswith(".fits"):
                    w.fired = "name"
                    raise Cut("killed before naming")
                return f(src, dst, *a, **k)
            return g
        sys.modules.update(self.modules())
        if self.event == "write":
            hp.write_map = hp.fitsfunc.write_map = dying
        if self.event == "name":
            for (m, a), f in list(zip(funcs, old))[2:]:
                setattr(m, a, naming(f))
        os.chdir(cwd)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                yield
        finally:
            os.chdir(here)
            for (m, a), f in zip(funcs, old):
                setattr(m, a, f)
            for m, v in saved.items():
                if v is None:
                    sys.modules.pop(m, None)
                else:
                    sys.modules[m] = v


def ray_file(r, nside):
    """the 4-byte words of a ray-tracing file, as numbers and as bytes"""
    npix = 12 * nside ** 2
    maps = [np.asarray(np.round(r.normal(0, s, npix) * 1024) / 1024, dtype="float32") for s in (1, 30, 0.1, 5)]
    body = b""

    def u(v):
        return np.array([v], dtype="uint32").tobytes()
    body = u(12) + np.array([nside], dtype="int32").tobytes() + np.array([npix], dtype="int64").tobytes() + u(12)
    words = [enc.real(12), enc.real(nside), int(npix), 0, enc.real(12)]
    for m in maps:
        body += u(4 * npix) + m.tobytes() + u(4 * npix)
        words += [enc.real(4 * npix)] + enc.rvec(m) + [enc.real(4 * npix)]
    return words, body, maps[0]


def read(path):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return np.asarray(hp.read_map(path, dtype=float))


def main(world, cwd):
    def go():
        with world.entered(cwd):
            runpy.run_path(SCRIPT, run_name="__main__")
    return attempt(go, seconds=120)


def killed(world, cwd, n, near):
    """the script in a process of its own, killed at the n-th line it reaches: of the script itself and of shutil (near),
    or of anything it uses.  n = 0: not killed -> (killed, raised, addresses asked for, lines reached)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        count = [0]

        def tell(text):
            os.write(wr, (text + "\n").encode())

        class Told(list):
            def append(self, u):
                tell(u)
        world.urls = Told()
        files = {SCRIPT, shutil.__file__}

        def line(frame, event, arg):
            if event == "line":
                count[0] += 1
                if count[0] == n:
                    os._exit(99)
            return line

        def trace(frame, event, arg):
            return line if not near or frame.f_code.co_filename in files else None
        code = 1
        try:
            sys.stdout = open(os.devnull, "w")
            sys.stderr = sys.stdout
            with limit(120), world.entered(cwd):
                sys.settrace(trace)
                runpy.run_path(SCRIPT, run_name="__main__")
                code = 0
        finally:
            sys.settrace(None)
            tell(f"#{count[0]}")
            os._exit(code)
    os.close(wr)
    data = b""
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        data += b
    os.close(rd)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    lines = data.decode().split("\n")[:-1]
    return code == 99, code != 0, [x for x in lines if x[0] != "#"], sum(int(x[1:]) for x in lines if x[0] == "#")


def cut_anywhere(job):
    base, seed, bin0, kills, near = job
    logging.getLogger("healpy").setLevel(logging.ERROR)
    return history(np.random.RandomState(seed), base, bin0, [("kill", k, near) for k in kills] + ["ok"], 1 + seed % 2)


def lines_reached(job):
    base, bin0, near = job
    words, body, kappa = ray_file(np.random.RandomState(1), 1)
    cwd = tempfile.mkdtemp(dir=base)
    if bin0:
        with open(os.path.join(cwd, NAME), "wb") as f:
            f.write(body)
    return killed(World(body), cwd, 0, near)[3]


def kills(c, base):
    r = c.rng
    jobs = []
    for bin0 in (False, True):
        for near in (True, False):
            n = forked([(base, bin0, near)], lines_reached)[0]
            c.log(f"{n} lines with the binary file {'there' if bin0 else 'absent'}, {'script and shutil' if near else 'all'}")
            at = list(range(1, min(n, 400) + 3)) if near else sorted(set(int(x) for x in r.randint(1, n + 2, c.pick(60, 400))))
            for q, k in enumerate(at):
                jobs.append((base, int(r.randint(10 ** 6)), bin0, [k] if q % 3 else [k, int(r.randint(1, n + 2))], near))
    return forked(jobs, cut_anywhere)


def history(r, base, bin0, ops, nside):
    words, body, kappa = ray_file(r, nside)
    cwd = tempfile.mkdtemp(dir=base)
    if bin0:
        with open(os.path.join(cwd, NAME), "wb") as f:
            f.write(body)
    obs = []
    for e in ops:
        w = World(body, e if isinstance(e, str) else "ok")
        if isinstance(e, str):
            o = main(w, cwd)
        else:
            cut, failed, w.urls, _ = killed(w, cwd, e[1], e[2])
            w.fired = "kill" if cut else "ok"
            o = types.SimpleNamespace(exc="failed" if failed else "")
        b, f = os.path.join(cwd, NAME), os.path.join(cwd, FINAL)
        rec = {"event": w.fired, "raised": bool(o.exc), "got": bool(w.urls), "url": w.urls[0] if w.urls else "", "bin": "none", "fits": "none"}
        if os.path.exists(b):
            with open(b, "rb") as g:
                rec["bin"] = "whole" if g.read() == body else "part"
        if os.path.exists(f):
            q = attempt(read, f)
            rec["fits"] = "whole" if not q.exc and np.array_equal(q.value, kappa.astype(float)) else "bad"
        obs.append(rec)
    shutil.rmtree(cwd)
    return {"op": "history", "bin": bool(bin0), "len": len(ops), "obs": obs, "nres": 12, "name": NAME,
            "_desc": f"binary file there: {bin0}, runs {ops}, observed {[(o['event'], o['raised'], o['bin'], o['fits']) for o in obs]}"}


def check(c):
    r = c.rng
    g = c.model("GenFetch", c.pick("GenFetch", "GenFetchBig"))
    logging.getLogger("healpy").setLevel(logging.ERROR)
    base = tempfile.mkdtemp(prefix="c28")
    try:
        recs = [history(r, base, m["bin"], list(m["ops"]), [1, 2][k % 2]) for k, m in enumerate(g.msgs)]
        for k in range(c.pick(10, 60)):
            ops = [str(e) for e in r.choice(["drop", "short", "refused", "write", "name"], 6)] + ["ok", "ok"]
            recs.append(history(r, base, bool(k % 2), ops, 2))
        recs += kills(c, base)
        recs += choices(c, base)
        recs += [convert(c, base, k) for k in range(c.pick(18, 60))]
        recs += [download(c, base, k) for k in range(c.pick(24, 120))]
        c.validate("TrFetch", recs, label="downloads and conversions")
    finally:
        shutil.rmtree(base, ignore_errors=True)


def choices(c, base):
    """the script with another map chosen, as its user is told to: by editing the three numbers"""
    with open(SCRIPT) as f:
        text = f.read()
    out = []
    for nres, real, z in [(12, 0, 16), (12, 107, 66), (13, 7, 1), (13, 0, 30), (14, 0, 9), (14, 0, 66), (12, 108, 16), (11, 0, 16), (12, -1, 16),
                          (12, 0, 0), (12, 0, 67), (14, 1, 16), (13, 200, 3), (15, 0, 2)]:
        src = text
        for name, v in (("nres", nres), ("realisation", real), ("redshift_id", z)):
            src, n = re.subn(rf"(?m)^(\s+{name} = )\d+", rf"\g<1>{v}", src)
            if n != 1:
                return out
        words, body, kappa = ray_file(c.rng, 1)
        cwd = tempfile.mkdtemp(dir=base)
        path = os.path.join(cwd, "script.py")
        with open(path, "w") as f:
            f.write(src)
        w = World(body)
        def go():
            with w.entered(cwd):
                runpy.run_path(path, run_name="__main__")
        o = attempt(go)
        final = os.path.join(cwd, f"takahasi_{2 ** nres}_{real:03}_zs{z}_kappa.fits")
        q = attempt(read, final)
        out.append({"op": "choice", "nres": nres, "real": real, "z": z, "name": f"allskymap_nres{nres}r{real:03}.zs{z}.mag.dat", "exc": o.exc or "",
                    "url": w.urls[0] if w.urls else "", "done": bool(not q.exc and np.array_equal(q.value, kappa.astype(float))), "_text": o.text,
                    "_desc": f"map nres={nres} realisation={real} redshift_id={z}"})
        shutil.rmtree(cwd)
    return out


def functions(world, cwd):
    with world.entered(cwd):
        return runpy.run_path(SCRIPT, run_name="takahasi")


def convert(c, base, k):
    nside = [1, 2, 4, 8, 16, 32][k % 6]
    words, body, kappa = ray_file(c.rng, nside)
    cwd = tempfile.mkdtemp(dir=base)
    name = ["map.dat", NAME, os.path.join(cwd, "x y.bin")][k % 3]
    path = os.path.join(cwd, name)
    with open(path, "wb") as f:
        f.write(body)
    w = World(b"")
    rec = {"op": "convert", "words": words, "map": [], "same": True, "exc": "", "_desc": f"binary_to_fits nside={nside} {name}"}

    def go():
        ns = functions(w, cwd)
        with w.entered(cwd):
            ns["binary_to_fits"](name)
        return read(os.path.join(cwd, "output.fits"))
    o = attempt(go)
    rec["exc"], rec["_text"] = o.exc or "", o.text
    if not o.exc:
        try:
            rec["map"] = enc.rvec(o.value)
            with open(path, "rb") as f:
                rec["same"] = f.read() == body
        except Exception as e:  # noqa
            rec["exc"], rec["_text"] = "NotRecordable", repr(e)
    shutil.rmtree(cwd)
    return rec


def download(c, base, k):
    r = c.rng
    nres = [12, 13, 14][k % 3]
    name = f"allskymap_nres{nres}r{int(r.randint(0, 108)):03d}.zs{int(r.randint(1, 67))}.mag.dat"
    body = r.bytes(int(r.choice([1, 63, 64, 65, 1000, 70000])))
    cwd = tempfile.mkdtemp(dir=base)
    w = World(body)
    rec = {"op": "download", "nres": nres, "name": name, "url": "", "same": False, "exc": "", "_desc": f"download_binary {name} {len(body)} bytes"}

    def go():
        ns = functions(w, cwd)
        with w.entered(cwd):
            ns["download_binary"](name)
        with open(os.path.join(cwd, name), "rb") as f:
            return f.read()
    o = attempt(go)
    rec["exc"], rec["_text"] = o.exc or "", o.text
    rec["same"] = o.value == body
    rec["url"] = w.urls[0] if w.urls else ""
    shutil.rmtree(cwd)
    return rec
