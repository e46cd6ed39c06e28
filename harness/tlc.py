"""Running TLC and reading its verdicts."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


CHUNK = 24_000_000      # characters of recorded executions per run of TLC


class TLCError(Exception):
    pass


class Killed(TLCError):
    pass


class Range(TLCError):
    pass


class Result:
    def __init__(self):
        self.generated = self.distinct = 0
        self.msgs = []          # decoded JSON messages printed by the specification
        self.violated = None    # name of a violated invariant/property, or None
        self.out = ""
        self.coverage_zero = []


def run(module, cfg=None, env=None, workers="auto", simulate=None, timeout=800, deadlock=True, heap="6g",
        depth=None, seed=None, extra=()):
    """deadlock=True: deadlock is an error"""
    tmp = tempfile.mkdtemp(prefix="vtlc")
    try:
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(tmp, "meta"), "-workers", str(workers),
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        out_path = os.path.join(tmp, "out")
        with open(out_path, "w") as fo:
            try:
                p = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=tmp, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        out = open(out_path, errors="replace").read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    r = Result()
    r.out = out
    for line in out.splitlines():
        if line.startswith('"@'):
            s = json.loads(line)
            r.msgs.append(json.loads(s[1:]))
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
        r.generated, r.distinct = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    if simulate:
        m = re.findall(r"(?:Progress|The number of states generated): ?([\d,]+)", out)
        if m:
            r.generated = int(m[-1].replace(",", ""))
    m = re.search(r"(?:Invariant|Property|Action property|Temporal properties?) ?(\S*) ?(?:is|was|were) violated", out)
    if m:
        r.violated = m.group(1) or "temporal"
    elif "Deadlock reached" in out:
        r.violated = "deadlock"
    elif rc != 0 and not (simulate and rc == 0):
        over = re.search(r"[Oo]verflow when computing|attempted to compare|out of the range of|value too large", out)
        raise (Killed if rc == -9 else Range if over else TLCError)(f"TLC {module} rc={rc}\n" + out[-4000:])
    return r


def traces(module, records, cfg=None, timeout=800, **kw):
    """Validate recorded executions: returns ({index: [verdict, ...]}, Result).

    A verdict is the list of failing clauses; a record may get several verdicts (one per admissible
    reading), and is accepted when one of them is empty."""
    lines = [json.dumps(r) + "\n" for r in records]
    env0 = dict(kw.pop("env", {}))
    verd, total, at = {}, Result(), 0
    while at < len(lines):
        end, size = at, 0
        while end < len(lines) and (end == at or size + len(lines[end]) <= CHUNK):
            size += len(lines[end])
            end += 1
        def judge(part):
            fd, path = tempfile.mkstemp(prefix="vtrace", suffix=".ndjson")
            try:
                with os.fdopen(fd, "w") as f:
                    f.writelines(part)
                for again in (False, True):
                    try:
                        return run(module, cfg, env=dict(env0, TRACE=path), deadlock=False, timeout=timeout, **kw)
                    except Killed:          # memory ran out, perhaps because of something else
                        if again:
                            raise
            finally:
                os.unlink(path)
        try:
            res = judge(lines[at:end])
        except Range:
            # one of the recorded values is so large that the specification's arithmetic cannot judge it:
            # the cases are chosen well inside its range, so the code left it.  Find the execution.
            lo, hi = at, end
            while hi - lo > 1:
                mid = (lo + hi) // 2
                try:
                    judge(lines[lo:mid])
                    lo = mid
                except Range:
                    hi = mid
            return {k: [["out of range"] if k == lo else []] for k in range(len(lines))}, total
        if res.violated:
            raise TLCError(f"{module}: {res.violated} violated on the model side\n" + res.out[-3000:])
        for m in res.msgs:
            if "t" in m:
                verd.setdefault(at + m["t"] - 1, []).append(sorted(m["f"]))
        missing = [k for k in range(at, end) if k not in verd]
        if missing:
            raise TLCError(f"{module}: no verdict for {len(missing)} traces, first {missing[:5]}\n" + res.out[-3000:])
        total.distinct += res.distinct
        total.generated += res.generated
        at = end
    return verd, total
