"""Interception of numpy's random numbers.  install() must run before pxmcmc is imported.

Gaussian draws and uniform draws come from separate streams, so what a run computes under a script
does not depend on the order in which the two kinds are asked for."""
import numpy as np

_G, _U = [], []          # scripted values (queues)
_g, _u = [], []          # draws handed out: flat lists
_calls = []              # (kind, number) per call
_state = {"script": False, "fallback": None}
_orig = {}


class Exhausted(Exception):
    """the code under test asked for more random numbers than any run of this length needs"""


def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


def _count(shape):
    n = 1
    for s in shape or ():
        n *= s
    return n


def _take(kind, shape):
    n = _count(shape)
    queue, log, orig = (_G, _g, "standard_normal") if kind == "g" else (_U, _u, "random_sample")
    if _state["script"]:
        if len(queue) < n:
            raise Exhausted(kind)
        vals = np.array(queue[:n], dtype=float)
        del queue[:n]
    else:
        vals = np.atleast_1d(_orig[orig](n)).astype(float)
    log.extend(vals.tolist())
    _calls.append((kind, n))
    return float(vals[0]) if shape is None else vals.reshape(shape)


def randn(*dims):
    return _take("g", tuple(int(d) for d in dims) if dims else None)


def standard_normal(size=None, dtype=float, out=None):
    return _take("g", _shape(size))


def normal(loc=0.0, scale=1.0, size=None):
    if size is None and (np.ndim(loc) or np.ndim(scale)):
        size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
    return loc + scale * standard_normal(size)


def rand(*dims):
    return _take("u", tuple(int(d) for d in dims) if dims else None)


def random(size=None, dtype=float, out=None):
    return _take("u", _shape(size))


def uniform(low=0.0, high=1.0, size=None):
    if size is None and (np.ndim(low) or np.ndim(high)):
        size = np.broadcast(np.asarray(low), np.asarray(high)).shape
    return low + (high - low) * random(size)


def standard_exponential(size=None, dtype=float, method=None, out=None):
    return -np.log(_take("u", _shape(size)))


def exponential(scale=1.0, size=None):
    if size is None and np.ndim(scale):
        size = np.shape(scale)
    return scale * standard_exponential(size)


_TABLE = {
    "randn": randn, "standard_normal": standard_normal, "normal": normal,
    "rand": rand, "random": random, "random_sample": random, "ranf": random, "sample": random,
    "uniform": uniform, "standard_exponential": standard_exponential, "exponential": exponential,
}


def _methods():
    return {k: (lambda self, *a, _f=f, **kw: _f(*a, **kw)) for k, f in _TABLE.items()}


# stand-ins for a Generator and for numpy's global state, sharing the bits of the original
_Gen = type("_Gen", (np.random.Generator,), _methods())
_State = type("_State", (np.random.RandomState,), _methods())


def install():
    if _orig:
        return
    for k in list(_TABLE) + ["default_rng", "RandomState"]:
        _orig[k] = getattr(np.random, k)
    for k, f in _TABLE.items():
        setattr(np.random, k, f)
    np.random.default_rng = lambda *a, **k: a[0] if a and isinstance(a[0], _Gen) else _Gen(_orig["default_rng"](*a, **k).bit_generator)
    real = np.random.mtrand._rand
    np.random.mtrand._rand = mine = _State(real._bit_generator)          # scipy's default
    _orig["standard_normal"] = super(_State, mine).standard_normal
    _orig["random_sample"] = super(_State, mine).random_sample
    for k, f in list(vars(np.random).items()):
        if getattr(f, "__self__", None) is real:
            setattr(np.random, k, getattr(mine, k))
    import scipy.stats
    for d in vars(scipy.stats).values():
        if getattr(d, "_random_state", None) is real:
            d._random_state = mine


def script(gauss, unif):
    _G[:] = list(map(float, gauss))
    _U[:] = list(map(float, unif))
    _state["script"] = True
    _g.clear(), _u.clear(), _calls.clear()


def record(seed):
    _G.clear(), _U.clear()
    _state["script"] = False
    _g.clear(), _u.clear(), _calls.clear()
    np.random.seed(seed)


def drawn():
    return list(_g), list(_u), list(_calls)


def off():
    _state["script"] = False
