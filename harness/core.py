"""One property check: cases driven against the code in /repo, judged by TLC with the specification."""
import contextlib
import io
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

from . import tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    def fire(signum, frame):
        raise Timeout(f"no result after {seconds} s")
    old = signal.signal(signal.SIGALRM, fire)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Outcome:
    """what a call of the code under test did: a value or an exception class name"""

    def __init__(self, value=None, exc=None, text="", out=""):
        self.value, self.exc, self.text, self.out = value, exc, text, out


def attempt(f, *a, seconds=60, **k):
    """Call code under test; exceptions and non-termination become data."""
    buf = io.StringIO()
    try:
        with limit(seconds), contextlib.redirect_stdout(buf):
            with np.errstate(all="ignore"):
                v = f(*a, **k)
        return Outcome(v, out=buf.getvalue())
    except Timeout as e:
        return Outcome(exc="Timeout", text=str(e), out=buf.getvalue())
    except SystemExit as e:
        return Outcome(exc="SystemExit", text=str(e), out=buf.getvalue())
    except Exception as e:  # noqa
        return Outcome(exc=type(e).__name__, text="".join(traceback.format_exception(e))[-1500:], out=buf.getvalue())


def known_findings():
    """property -> list of (key, text); lines 'finding: property=<id> key=<key> <text>'"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "finding:":
                out.setdefault(w[1].split("=", 1)[1], []).append((w[2].split("=", 1)[1], w[3].strip()))
    return out


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = np.random.RandomState((self.seed * 7919 + int(pid[1:])) % (2 ** 32 - 1))
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.models, self.batches, self.samples = [], [], []
        self.violations, self.known = [], []
        self.listed = known_findings().get(pid, [])

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- the specification alone
    def model(self, module, cfg=None, **kw):
        r = tlc.run(module, cfg, **kw)
        if r.violated:
            raise tlc.TLCError(f"{cfg or module}: {r.violated}\n" + r.out[-4000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": cfg or module, "states": r.distinct, "transitions": r.generated})
        self.log(f"model {cfg or module}: {r.distinct} states, {r.generated} transitions")
        return r

    # -- executions of the code
    def validate(self, module, records, cfg=None, label=None, clauses=None, **kw):
        """records: dicts; the keys '_key' and '_desc' are for people and known findings, not TLC.
        clauses: the clauses that belong to this property (None: all); others are judged by other checks"""
        if not records:
            return
        clean = [{k: v for k, v in r.items() if not k.startswith("_")} for r in records]
        verd, res = tlc.traces(module, clean, cfg, **kw)
        if clauses is not None:
            verd = {k: [[x for x in f if x in clauses or x == "out of range"] for f in v] for k, v in verd.items()}
        self.states += res.distinct
        self.transitions += res.generated
        self.validated += len(records)
        bad = 0
        for k, r in enumerate(records):
            if any(not f for f in verd[k]):
                continue
            fails = min(verd[k], key=len)
            bad += self.reject(r, fails, label or module)
        self.batches.append({"module": cfg or module, "label": label or "", "executions": len(records), "rejected": bad})
        if len(self.samples) < 6:
            r = records[len(records) // 2]
            self.samples.append({"module": cfg or module, "case": _short(r.get("_desc") or r)})
        self.log(f"{label or module}: {len(records)} executions judged, {bad} rejected "
                 f"({res.distinct} states)")
        return verd

    def reject(self, rec, fails, label):
        key = rec.get("_key")
        for k, text in self.listed:
            if key is not None and key == k:
                if k not in [x[0] for x in self.known]:
                    self.known.append((k, text))
                return 0
        self.violations.append({"label": label, "clauses": fails, "desc": rec.get("_desc"), "key": key, "record": rec})
        return 1

    def finish(self):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for k, text in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}: {text}")
        path = None
        if self.violations:
            path = os.path.join(EVID, "replay", f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1, default=str)
            for v in self.violations[:5]:
                print(f"rejected by {v['label']}: clauses {v['clauses']} case {_short(v['desc'], 600)}")
            print(f"VIOLATION property={self.pid} replay={path}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or ["none"],
                "models": self.models, "batches": self.batches,
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log(f"{self.validated} executions, {self.states} states, {len(self.violations)} violations")
        return 1 if self.violations else 0


ASSUMPTIONS = [
    "numpy, scipy, h5py, pyssht, pys2let, healpy, astropy and matplotlib as installed are right",
    "random numbers are drawn through numpy.random (intercepted) or scipy.stats",
    "real arithmetic is compared up to the stated tolerance; TLC evaluates it in fixed point with 12 decimals",
]


def _short(x, n=900):
    s = x if isinstance(x, str) else json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def main(argv):
    pid = argv[0]
    if len(argv) > 1:
        os.environ["VERIF_TIER"] = argv[1]
    import importlib
    c = Check(pid)
    try:
        mod = importlib.import_module(f"harness.checks.{pid.lower()}")
        mod.check(c)
        return c.finish()
    except tlc.TLCError as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        return 2
    except Exception as e:  # noqa
        # an exception that came out of the code under test where none belongs is a finding, not a broken check
        text = "".join(traceback.format_exception(e))
        print(text, file=sys.stderr)
        repo = os.path.join(os.path.realpath(os.environ.get("PXMCMC_REPO", "/repo")), "pxmcmc") + os.sep
        if repo in text:
            c.violations.append({"label": "driver", "clauses": ["raised"], "desc": text[-1500:], "key": None, "record": {}})
            return c.finish()
        return 2
    except BaseException:
        traceback.print_exc()
        return 2
