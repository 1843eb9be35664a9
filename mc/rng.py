"""Interposed random number generation.

The normal mode reproduces the distributions from a reseeded stream (truncated normals through a fast inverse-CDF
sampler); the scripted modes return chosen outcomes, so that all (or all extreme) outcomes can be enumerated.
"""
import numpy as np

_orig = {}
mode = "seed"  # seed | lo | hi | mix
script = None  # callable(kind, info) -> array or None
calls = None  # list: recorded truncnorm calls


DONE = object()  # returned by a script that did the work in place


def reset():
    global mode, script, calls
    mode, script, calls = "seed", None, None


def _truncnorm_rvs(*args, **kw):
    from scipy.special import ndtr, ndtri

    names = ["a", "b", "loc", "scale", "size", "random_state"]
    p = dict(zip(names, args))
    p.update(kw)
    if "a" not in p or "b" not in p:
        return _orig["truncnorm_rvs"](*args, **kw)
    a, b = np.asarray(p["a"], dtype=float), np.asarray(p["b"], dtype=float)
    loc, scale = np.asarray(p.get("loc", 0.0), dtype=float), np.asarray(p.get("scale", 1.0), dtype=float)
    size = p.get("size", 1)
    shape = size if size is not None else np.broadcast(a, b, loc, scale).shape
    if np.any(~(b > a)) or np.any(~(scale > 0)):
        return _orig["truncnorm_rvs"](*args, **kw)  # let scipy report it
    if calls is not None:
        calls.append((a.copy(), b.copy(), loc.copy(), scale.copy(), shape))
    if script is not None:
        r = script("truncnorm", dict(a=a, b=b, loc=loc, scale=scale, shape=shape))
        if r is not None:
            return r
    d = np.minimum(1e-9 * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))), 0.25 * (b - a))
    lo, hi = loc + (a + d) * scale, loc + (b - d) * scale  # the extreme outcomes (an ulp inside the interval)
    if mode == "lo":
        return np.broadcast_to(lo, shape).copy()
    if mode == "hi":
        return np.broadcast_to(hi, shape).copy()
    u = np.random.random_sample(shape)
    if mode == "mix":
        pick = np.random.random_sample(shape)
        return np.where(pick < 0.4, lo, np.where(pick < 0.8, hi, lo + (hi - lo) * u))
    # sample in the tail that keeps precision
    neg = a > 0
    aa, bb = np.where(neg, -b, a), np.where(neg, -a, b)
    z = ndtri(ndtr(aa) + u * (ndtr(bb) - ndtr(aa)))
    z = np.where(neg, -z, z)
    z = np.where(np.isfinite(z), z, np.clip(0.0, a, b))
    return np.clip(z, a + d, b - d) * scale + loc


def install():
    import scipy.stats as st

    if "truncnorm_rvs" in _orig:
        return
    _orig["truncnorm_rvs"] = st.truncnorm.rvs
    st.truncnorm.rvs = _truncnorm_rvs
    for name in ["rand", "randn", "random", "random_sample", "uniform", "randint", "shuffle", "permutation", "choice", "normal", "RandomState"]:
        _orig[name] = getattr(np.random, name)
    _orig["default_rng"] = np.random.default_rng

    def wrap(name):
        f = _orig[name]

        def g(*args, **kw):
            if script is not None:
                r = script(name, (args, kw))
                if r is not None:
                    return None if r is DONE else r
            if mode in ("lo", "hi", "mix"):
                return _extreme(name, f, args, kw)
            return f(*args, **kw)

        g.__name__ = name
        return g

    for name in ["rand", "randn", "random", "random_sample", "uniform", "randint", "shuffle", "permutation", "choice", "normal"]:
        setattr(np.random, name, wrap(name))

    # Generators created without a seed continue the reseeded stream
    class RandomState(_orig["RandomState"]):
        def __init__(self, seed=None):
            super().__init__(_orig["randint"](2 ** 31 - 1) if seed is None else seed)

    def default_rng(seed=None):
        return _orig["default_rng"](_orig["randint"](2 ** 31 - 1) if seed is None else seed)

    np.random.RandomState, np.random.default_rng = RandomState, default_rng


def real(name):
    return _orig.get(name) or getattr(np.random, name)


ONE = np.nextafter(1.0, 0.0)


def _extreme(name, f, args, kw):
    r = f(*args, **kw)
    if name in ("shuffle", "permutation", "choice", "RandomState") or r is None:
        return r
    sel = _orig["random_sample"](np.shape(r))
    if mode == "lo":
        take = sel < 0.8
        toward = np.zeros_like(sel)
    elif mode == "hi":
        take = sel < 0.8
        toward = np.ones_like(sel)
    else:
        take = sel < 0.7
        toward = (_orig["random_sample"](np.shape(r)) < 0.5).astype(float)
    if name in ("rand", "random", "random_sample"):
        ext = np.where(toward > 0, ONE, 0.0)
    elif name == "randn":
        ext = np.where(toward > 0, 6.0, -6.0)
    elif name == "uniform":
        lo = args[0] if len(args) > 0 else kw.get("low", 0.0)
        hi = args[1] if len(args) > 1 else kw.get("high", 1.0)
        lo, hi = np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)
        ext = np.where(toward > 0, np.nextafter(hi, lo), lo)
    else:
        return r
    out = np.where(take, ext, r)
    return out if np.ndim(r) else type(r)(out)
