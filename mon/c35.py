"""C35: results depend on the values given, not on how they are stored."""
import collections

import numpy as np
from . import gen as G
from . import entry as EN
from . import samplers as SM
from .c29 import lakes

RULE = ("Random samplings, analyses, ProblemSpec runs and test functions are repeated with the same values stored otherwise: Fortran order, "
        "strides, negative strides, read-only, other byte order, whole numbers as integers, single precision, views into larger arrays, "
        "problems as ProblemSpec, ordered dict, with tuples, arrays, extra entries, another order of entries, options as NumPy scalars.")
LAYOUT = ["fortran", "strided", "reversed", "window", "swapped", "single", "integer", "small"]
PROBLEM = ["spec", "ordered", "tuples", "array_bounds", "extra", "int_bounds"]
REQUIRED = [f"analyze:{m}:{k}" for m in EN.ALL for k in LAYOUT if not (m == "morris" and k in ("swapped", "single", "integer", "small"))] + \
           ["problem:" + k for k in PROBLEM] + ["options"] + ["sample:" + m for m in SM.ALL] + ["function:" + k for k in LAYOUT[:7]] + ["specdata"]
CASE_LIMIT = 120
FUNCS = ["Ishigami", "Sobol_G", "linear_model_1", "linear_model_2", "oakley2004", "lake_problem"]


def gen(rng, tier):
    n = 90 if tier == "quick" else 900
    for m in EN.ALL:
        slow = m in ("hdmr", "enhanced_hdmr", "delta")
        for i in range(n // 2 if slow else n):
            s = EN.setup(rng, m, group=rng.random() < 0.3)
            if m == "hdmr":
                s["kw"]["K"] = 1
            if m == "enhanced_hdmr":
                s["kw"]["bootstrap"] = 1
            lay = LAYOUT[i % len(LAYOUT)]
            if m == "morris" and lay in ("swapped", "single", "integer", "small"):  # documented to take double precision only
                lay = "reversed"
            yield {"kind": "analyze", "spec": s, "layout": lay, "which": str(rng.choice(["X", "Y", "XY", "XY"])),
                   "problem": str(rng.choice(PROBLEM)), "npopts": bool(rng.integers(2)), "seed": G.seed(rng)}
    for m in SM.ALL:
        for i in range(n):
            D = int(rng.choice([2, 3, 5]))
            yield {"kind": "sample", "method": m, "problem": G.problem(rng, D, group=rng.random() < 0.4 and m != "fast_sampler",
                                                                      dists=rng.random() < 0.3 or None),
                   "kw": SM.args(rng, m, D), "form": PROBLEM[i % len(PROBLEM)], "seed": G.seed(rng)}
    for f in FUNCS:
        for i in range(n // 2):
            yield {"kind": "function", "f": f, "layout": LAYOUT[i % 7], "N": int(rng.choice([1, 2, 7, 30])), "seed": G.seed(rng)}


def store(A, how, rng):
    """The values of A, stored in another way."""
    A = np.asarray(A)
    if how == "fortran":
        return np.asfortranarray(A) if A.ndim == 2 else np.array(A, order="F")
    if how == "strided":
        b = np.full((3 * len(A),) + A.shape[1:], np.nan)
        b[1::3] = A
        return b[1::3]
    if how == "reversed":
        return np.array(A[::-1])[::-1]
    if how == "window":
        b = np.full((len(A) + 3,) + tuple(v + 2 for v in A.shape[1:]), -7e77)
        w = b[2:-1, 1:-1] if A.ndim == 2 else b[2:-1]
        w[...] = A
        w.setflags(write=False)
        return w
    if how == "swapped":
        return A.astype(A.dtype.newbyteorder())
    if how == "single":
        return A.astype(np.float32)
    if how == "integer":
        return A.astype(np.int64)
    if how == "small":  # the types of flags, counts and classes
        return A.astype([np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint64][int(rng.integers(6))])
    raise KeyError(how)


def hold(pr, how):
    from SALib import ProblemSpec

    q = G.copy(pr)
    if how == "spec":
        return ProblemSpec(q)
    if how == "ordered":
        return collections.OrderedDict(reversed(list(q.items())))
    if how == "tuples":
        for k in ("names", "groups", "dists"):
            if q.get(k):
                q[k] = tuple(q[k])
        q["bounds"] = tuple(tuple(b) for b in q["bounds"])
    if how == "array_bounds" and not q.get("dists"):
        q["bounds"] = np.array(q["bounds"], dtype=float)
    if how == "extra":
        q["my notes"] = {"a": [1, 2]}
        q["num_vars"] = np.int64(q["num_vars"])
    if how == "int_bounds":
        q["bounds"] = [[int(v) if float(v).is_integer() else v for v in b] for b in q["bounds"]]
    return q


def npify(v):
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v)
    return np.float64(v) if isinstance(v, float) else v


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"analyze": analyze, "sample": sample, "function": function}[case["kind"]](case, mon, rng)


def compare(mon, F, B, what, loose):
    mon.eq(sorted(F), sorted(B), f"{what}: keys")
    for k in B:
        if loose is True and (k.startswith("Em.") or k in ("select", "Signf", "Y_em")):
            continue
        sc = float(np.nanmax(np.abs(B[k]))) if B[k].size and np.isfinite(B[k]).any() else 1.0
        if loose == "small":  # spectra of narrow integers are taken in single precision
            mon.close(F[k], B[k], f"{what}: {k}", rtol=1e-5, atol=1e-5 * (1e-3 + sc))
        elif loose:
            mon.close(F[k], B[k], f"{what}: {k}", rtol=2e-3, atol=2e-3 * max(1.0, sc))
        else:
            mon.close(F[k], B[k], f"{what}: {k}", rtol=1e-7, atol=1e-9 * (1e-3 + sc))


def analyze(case, mon, rng):
    from SALib import ProblemSpec

    s, lay = case["spec"], case["layout"]
    m = s["method"]
    pr, X, Y = EN.data(s, mon)
    which = case["which"]
    if lay == "single":
        which = "Y"  # rounding the inputs changes them
        Y = Y.astype(np.float32).astype(float)
    if lay in ("integer", "small"):
        which = "Y"
        Y = np.round(Y * 20)
        if lay == "small":  # from 0 to 120
            Y = np.round((Y - Y.min()) / (Y.max() - Y.min()) * int(rng.choice([5, 30, 120])))
        if m == "rbd_fast" and lay == "integer" and case["npopts"]:  # without ties, whose order depends on the sorting of each type
            X = np.argsort(np.argsort(X, axis=0), axis=0) * 7.0
            which = "XY"
        elif m in ("pawn", "rsa", "discrepancy", "hdmr", "enhanced_hdmr") and case["npopts"]:  # inputs of whole numbers too
            lo, hi = X.min(0), X.max(0)
            X = np.round((X - lo) / (hi - lo) * 1000)
            pr = G.copy(pr)
            pr["bounds"] = [[0, 1000]] * pr["num_vars"]
            which = "XY"
            if lay == "small":
                X, pr["bounds"] = np.round(X / 8), [[0, 125]] * pr["num_vars"]
    f, a, kw = EN.call(s, G.copy(pr), X.copy(), Y.copy())
    B = EN.flat(mon.call(f, *a, **kw))
    mon.observe(*B.values())
    x = store(X, lay, rng) if "X" in which else X.copy()
    y = store(Y, lay, rng) if "Y" in which else Y.copy()
    kn = {k: npify(v) if k != "seed" else v for k, v in kw.items()} if case["npopts"] else kw
    if case["npopts"]:
        mon.hit("options")
    q = hold(pr, case["problem"])
    if m == "ff" and case["problem"] == "spec":
        q = G.copy(pr)
    mon.hit("problem:" + case["problem"])
    a2 = (q, y) if m in EN.NO_X else (q, x, y)
    loose = "small" if lay == "small" and m in ("rbd_fast", "fast") else lay == "single"
    what = f"{m} with {which} {lay}, problem {case['problem']}" + (", NumPy options" if case["npopts"] else "")
    compare(mon, EN.flat(mon.call(f, *a2, **kn)), B, what, loose)
    mon.hit(f"analyze:{m}:{lay}")
    if m != "ff" and "dists" not in pr:
        sp = ProblemSpec(G.copy(pr))
        sp.samples = x
        sp.results = y
        mon.call(sp.analyze, f, **kn)
        compare(mon, EN.flat(sp.analysis), B, what + " (through a ProblemSpec)", loose)
        mon.hit("specdata")


def sample(case, mon, rng):
    m, kw = case["method"], case["kw"]
    base = SM.draw(mon, m, G.copy(case["problem"]), kw, seed=case["seed"])
    mon.observe(np.array(base, float))
    form = case["form"]
    pr = case["problem"]
    if m == "ff" and form in ("spec", "array_bounds", "tuples"):
        form = "ordered"
    got = SM.draw(mon, m, hold(pr, form), {k: npify(v) if k != "optimal_trajectories" else v for k, v in kw.items()} if rng.random() < 0.5 else kw, seed=case["seed"])
    mon.close(got, np.array(base, float), f"{m}.sample of a problem held as {form}", rtol=1e-12, atol=1e-300)
    mon.hit("problem:" + form)
    mon.hit("sample:" + m)


def function(case, mon, rng):
    import importlib

    M = importlib.import_module("SALib.test_functions." + case["f"])
    N, lay, name = case["N"], case["layout"], case["f"]
    D = {"Ishigami": 3, "Sobol_G": 8, "linear_model_1": 5, "linear_model_2": 5, "oakley2004": 15, "lake_problem": 7}[name]
    X = rng.random((N, D))
    if name == "lake_problem":
        X = lakes(rng, N)
    if name == "lake_problem" and lay in ("single", "integer", "small"):
        lay = "fortran"
    if lay == "single":
        X = X.astype(np.float32).astype(float)
    if lay in ("integer", "small"):
        X = np.round(X)
    args = ()
    if name == "oakley2004":
        args = (rng.normal(size=(3, 15)), rng.normal(size=(15, 15)))
    kw = {"nvars": 20} if name == "lake_problem" else {}
    b = np.asarray(mon.call(M.evaluate, X.copy(), *args, **kw), float)
    mon.observe(b)
    g = np.asarray(mon.call(M.evaluate, store(X, lay, rng), *[store(v, lay if lay not in ("single", "integer", "small") else "fortran", rng) for v in args], **kw), float)
    tol = 2e-4 if lay == "single" else 1e-9
    mon.close(g, b, f"{name} of {lay} inputs", rtol=tol, atol=tol * (1 + float(np.max(np.abs(b)))))
    mon.hit("function:" + lay)
