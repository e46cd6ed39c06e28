"""Evaluate functions in forked children, so that nothing they do to module or class state is seen by the next."""
import os
import pickle
import select
import signal
import traceback


def forked(items, f, procs=8, seconds=600):
    """[f(x) for x in items], each in a child of its own; an exception in the harness part is raised here"""
    items = list(items)
    out = [None] * len(items)
    live = {}
    nxt = 0
    while nxt < len(items) or live:
        while nxt < len(items) and len(live) < procs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for fd in live:
                        os.close(fd)
                    signal.alarm(seconds)
                    try:
                        v = (True, f(items[nxt]))
                    except BaseException:  # noqa
                        v = (False, traceback.format_exc())
                    with os.fdopen(w, "wb") as h:
                        pickle.dump(v, h)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = [pid, nxt, b""]
            nxt += 1
        for fd in select.select(list(live), [], [])[0]:
            b = os.read(fd, 1 << 20)
            if b:
                live[fd][2] += b
                continue
            pid, k, data = live.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            if not data:
                raise RuntimeError(f"child {k} ended without a result")
            ok, v = pickle.loads(data)
            if not ok:
                raise RuntimeError("in child: " + v)
            out[k] = v
    return out
