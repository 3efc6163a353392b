"""Uniform access to all analyzers: valid (problem, X, Y, options) sets and flattened results."""
import importlib

import numpy as np
from . import gen as G

ALL = ["sobol", "morris", "fast", "rbd_fast", "delta", "dgsm", "ff", "pawn", "rsa", "discrepancy", "hdmr", "enhanced_hdmr"]
NO_X = {"sobol", "fast"}
GIVEN = {"rbd_fast", "delta", "pawn", "rsa", "discrepancy", "hdmr", "enhanced_hdmr"}  # any (X, Y) sample
GROUPED = {"sobol", "morris", "pawn", "rsa", "discrepancy", "delta", "dgsm", "rbd_fast"}  # accept problems with groups
WIDE = {"sobol", "morris", "fast", "rbd_fast", "delta", "dgsm", "ff", "pawn", "rsa", "discrepancy"}
RANDOM = {"sobol", "morris", "fast", "rbd_fast", "delta", "dgsm", "hdmr", "enhanced_hdmr"}


def fn(name):
    return importlib.import_module("SALib.analyze." + name).analyze


def setup(rng, name, group=False, D=None, style=None, small=True, names=None):
    """-> JSON-able spec of one analysis."""
    r = lambda *v: v[int(rng.integers(len(v)))]
    if D is None:
        D = r(2, 3, 4, 5)
        if names is None and rng.random() < 0.02 and name in WIDE:  # now and then many parameters
            D = r(13, 16, 17) if name in ("sobol", "delta") else r(13, 17, 33, 65)
    pr = G.problem(rng, D, group=group and name in GROUPED, style=style)
    if names:
        pr["names"] = names
    s = {"method": name, "problem": pr, "xseed": G.seed(rng), "aseed": G.seed(rng), "kw": {}, "skw": {}}
    kw, sk = s["kw"], s["skw"]
    if name == "sobol":
        kw["calc_second_order"] = sk["calc_second_order"] = r(True, False)
        kw["num_resamples"] = r(10, 25)
        sk["N"] = r(8, 16)
        s["sampler"] = r("sobol", "saltelli")
    elif name == "morris":
        s["sampler"] = "morris"
        sk.update(N=r(3, 5, 8), num_levels=r(4, 6))
        kw.update(num_levels=sk["num_levels"], num_resamples=r(10, 20), scaled=r(False, False, True))
    elif name == "fast":
        s["sampler"] = "fast_sampler"
        M = r(1, 2, 4)
        sk.update(N=max(4 * M * M, 40) + r(1, 4, 31), M=M)
        kw.update(M=M, num_resamples=r(10, 20))
    elif name == "dgsm":
        s["sampler"] = "finite_diff"
        sk.update(N=r(8, 20), delta=0.01)
        kw.update(num_resamples=r(10, 20))
    elif name == "ff":
        s["sampler"] = "ff"
        kw["second_order"] = r(True, False)
    else:
        s["sampler"] = "latin"
        sk["N"] = {"hdmr": 320, "enhanced_hdmr": 320, "rbd_fast": r(100, 131)}.get(name, r(40, 65, 100))
        if name == "rbd_fast":
            kw.update(M=r(4, 6, 10), num_resamples=r(5, 10))
        elif name == "delta":
            kw.update(num_resamples=r(5, 8), method=r("all", "all", "delta", "sobol"))
        elif name == "pawn":
            kw["S"] = r(5, 7, 10)
        elif name == "rsa":
            kw.update(bins=r(4, 6), target=r("X", "Y"))
        elif name == "discrepancy":
            kw["method"] = r("WD", "CD", "MD", "L2-star")
        elif name == "hdmr":
            kw.update(maxorder=r(1, 2), K=r(1, 2, 3), m=r(1, 2))
        elif name == "enhanced_hdmr":
            kw.update(max_order=r(1, 2), poly_order=2, bootstrap=r(1, 2, 3))
    return s


def ref_model(X, pr):
    """A smooth, generic model, cheap and defined for every input."""
    z = np.empty_like(X)
    for j, b in enumerate(pr["bounds"][: X.shape[1]]):
        z[:, j] = (X[:, j] - b[0]) / (b[1] - b[0]) - 0.5
    w = np.arange(1, X.shape[1] + 1)
    return (z * w).sum(1) + np.sin(3 * z[:, 0]) + 2 * z[:, 0] * z[:, -1] + z[:, -1] ** 2 + 0.3


def data(s, mon=None):
    """-> (problem, X, Y); the problem is the one to analyse (padded for ff)."""
    from . import samplers

    q = G.copy(s["problem"])
    kw = dict(s["skw"])
    pos = [kw.pop("N")] if "N" in kw else []
    if s["sampler"] in samplers.SEEDED:
        kw["seed"] = s["xseed"]
    f = samplers.fn(s["sampler"])
    X = mon.call(f, q, *pos, **kw) if mon else f(q, *pos, **kw)
    X = np.array(X, dtype=float)
    Y = ref_model(X[:, : s["problem"]["num_vars"]], s["problem"])
    if s["sampler"] == "ff":
        q.pop("sample_scaled", None)
        return q, X, Y
    return G.copy(s["problem"]), X, Y


def call(s, pr, X, Y, seed="spec", **more):
    """Arguments for the analyzer: -> (fn, args, kwargs)."""
    name = s["method"]
    kw = G.copy(s["kw"])  # fresh options for every call
    kw["seed"] = s["aseed"] if isinstance(seed, str) else seed
    kw.update(more)
    return fn(name), ((pr, Y) if name in NO_X else (pr, X, Y)), kw


def flat(R, prefix=""):
    """Numeric content of a result as {key: float array} (timings left out)."""
    out = {}
    for k, v in R.items():
        k2 = f"{prefix}{k}"
        if k in ("RT", "names", "Term", "notes", "hdmr", "target", "outputs"):
            continue
        if isinstance(v, dict):
            out.update(flat(v, k2 + "."))
            continue
        try:
            a = np.asarray(v, dtype=float)
        except (TypeError, ValueError):
            if isinstance(v, np.ndarray):
                a = np.ma.filled(np.ma.asarray(v), np.nan)
                try:
                    a = a.astype(float)
                except (TypeError, ValueError):
                    continue
            else:
                continue
        out[k2] = a
    return out
