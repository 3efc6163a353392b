"""C29: built-in test functions."""
import itertools

import numpy as np
from scipy.optimize import brentq
from . import gen as G

RULE = ("Random input matrices (inside and at the edges of the domains, one row upwards, Fortran-ordered, strided, read-only) and parameter "
        "vectors: every function is recomputed row by row from its published formula with math-library scalars, rows are permuted and "
        "split, the analytic G-function and Ishigami indices are compared with exact quadrature of the function itself, malformed input "
        "must raise the documented error, and the lake problem is simulated step by step.")
REQUIRED = ["ishigami", "sobol_g", "sobol_g:delta", "sobol_g:alpha", "sobol_g:default", "linear1", "linear2", "oakley", "lake_step", "lake_sim",
            "lake_eval", "analytic", "ishigami_indices", "rejected_value", "rejected_type", "edges", "one_row"]
CASE_LIMIT = 60


def gen(rng, tier):
    n = 2000 if tier == "quick" else 40000
    for k in ("ishigami", "sobol_g", "linear1", "linear2", "oakley", "lake_step", "lake_sim", "lake_eval", "analytic", "reject"):
        for i in range(n if k != "ishigami_indices" else 3):
            yield {"kind": k, "N": int(rng.choice([1, 1, 2, 3, 7, 20])) if i % 50 else int(rng.choice([65, 130, 300])),
                   "D": G.wide(rng, int(rng.integers(1, 11))), "seed": G.seed(rng), "i": i}
    for i in range(5):
        yield {"kind": "ishigami_indices", "seed": G.seed(rng)}
    yield {"kind": "lake_share", "seed": 5}


def arr(rng, A):
    k = int(rng.integers(4))
    A = np.array(A, float)
    if k == 1:
        A = np.asfortranarray(A)
    elif k == 2:
        B = np.zeros((A.shape[0] * 2, A.shape[1] + 1))
        B[::2, :-1] = A
        A = B[::2, :-1]
    elif k == 3:
        A.flags.writeable = False
    return A


def judge(mon, f, X, ref, what, rng, *a, tol=1e-10, **k):
    """f on all rows, on permuted rows and on single rows against the scalar reference."""
    X0 = np.array(X)
    Y = np.asarray(mon.call(f, X, *a, **k))
    mon.observe(Y)
    want = np.array([ref([float(v) for v in r]) for r in X0])
    mon.eq(Y.shape, want.shape, f"{what}: shape of the output for {X0.shape}")
    mon.close(Y, want, what, rtol=tol, atol=tol * max(1.0, float(np.abs(want).max())))
    mon.same(X, X0, f"{what}: inputs after the call")
    p = rng.permutation(len(X0))
    mon.same(np.asarray(mon.call(f, X0[p], *a, **k)), np.asarray(mon.call(f, np.ascontiguousarray(X0[p]), *a, **k)), f"{what}: repeated call")
    mon.close(mon.call(f, X0[p], *a, **k), Y[p], f"{what}: rows in another order", rtol=1e-12, atol=1e-13 * max(1.0, float(np.abs(want).max())))
    i = int(rng.integers(len(X0)))
    mon.close(np.asarray(mon.call(f, X0[i:i + 1], *a, **k))[0], Y[i], f"{what}: row {i} alone", rtol=1e-12, atol=1e-13 * max(1.0, float(np.abs(want).max())))
    mon.hit("one_row", len(X0) == 1)


def run(case, mon):
    globals()["k_" + case["kind"]](case, mon, np.random.default_rng(case["seed"]))
    if case["kind"] != "reject":
        mon.hit(case["kind"])


def k_ishigami(case, mon, rng):
    from math import sin
    from SALib.test_functions import Ishigami
    X = arr(rng, rng.uniform(-np.pi, np.pi, (case["N"], 3)) * rng.choice([1, 5]))
    k = {}
    if rng.random() < 0.7:
        k["A"] = float(rng.normal() * 10)
    if rng.random() < 0.7:
        k["B"] = float(rng.normal())
    A, B = k.get("A", 7.0), k.get("B", 0.1)
    judge(mon, Ishigami.evaluate, X, lambda x: sin(x[0]) + A * sin(x[1]) ** 2 + B * x[2] ** 4 * sin(x[0]), f"Ishigami {k}", rng, **k)


def gpar(rng, D):
    a = rng.choice([0, 0.5, 1, 4.5, 9, 99, 3.3], D).astype(float)
    delta = rng.choice([0.0, 1.0, 0.3, 0.9, 0.5], D) if rng.random() < 0.5 else None
    alpha = rng.choice([0.5, 1.0, 2.0, 0.25, 3.7], D) if rng.random() < 0.5 else None
    return a, delta, alpha


def k_sobol_g(case, mon, rng):
    from math import floor
    from SALib.test_functions import Sobol_G
    D = case["D"]
    a, delta, alpha = gpar(rng, D)
    k = {}
    if rng.random() < 0.25:
        D, a = 8, np.array([0, 1, 4.5, 9, 99, 99, 99, 99])
        delta = alpha = None
        mon.hit("sobol_g:default")
    else:
        k["a"] = a
    if delta is not None:
        k["delta"] = delta
        mon.hit("sobol_g:delta")
    if alpha is not None:
        k["alpha"] = alpha
        mon.hit("sobol_g:alpha")
    X = rng.random((case["N"], D))
    if rng.random() < 0.4:
        X[rng.random(X.shape) < 0.3] = rng.choice([0.0, 1.0, 0.5])
        mon.hit("edges")
    dl = delta if delta is not None else np.zeros(D)
    al = alpha if alpha is not None else np.ones(D)

    def ref(x):
        y = 1.0
        for j in range(D):
            u = x[j] + float(dl[j])
            u -= floor(u)
            y *= ((1 + float(al[j])) * abs(2 * u - 1) ** float(al[j]) + float(a[j])) / (1 + float(a[j]))
        return y

    judge(mon, Sobol_G.evaluate, arr(rng, X), ref, f"G-function {k}", rng, **k)


def k_linear1(case, mon, rng):
    from SALib.test_functions import linear_model_1 as f
    X = rng.normal(size=(case["N"], 5)) * 10.0 ** rng.integers(-2, 4)
    judge(mon, f.evaluate, arr(rng, X), lambda x: x[0] + x[1] + x[2] + x[3] + x[4], "linear model 1", rng)


def k_linear2(case, mon, rng):
    from SALib.test_functions import linear_model_2 as f
    X = rng.normal(size=(case["N"], 5)) * 10.0 ** rng.integers(-2, 4)
    judge(mon, f.evaluate, arr(rng, X), lambda x: 5 * x[0] + 4 * x[1] + 3 * x[2] + 2 * x[3] + x[4], "linear model 2", rng)


def k_oakley(case, mon, rng):
    from math import sin, cos
    from SALib.test_functions import oakley2004
    D = case["D"]
    A, M = rng.normal(size=(3, D)), rng.normal(size=(D, D))
    X = rng.normal(size=(case["N"], D)) * 2

    def ref(x):
        return (sum(A[0, j] * x[j] + A[1, j] * sin(x[j]) + A[2, j] * cos(x[j]) for j in range(D)) +
                sum(x[i] * M[i, j] * x[j] for i in range(D) for j in range(D)))

    A2 = (A[0], A[1], A[2]) if rng.random() < 0.5 else A
    judge(mon, oakley2004.evaluate, arr(rng, X), ref, "Oakley-O'Hagan function", rng, A2, M)


# ------------------------------------------------------------------ lake problem
def step(x, a, q, b, e):
    return x + a + x ** q / (1 + x ** q) - b * x + e


def lakes(rng, n):
    return np.column_stack([rng.uniform(0, 0.1, n), rng.uniform(2, 4.5, n), rng.uniform(0.1, 0.45, n), rng.uniform(0.01, 0.05, n),
                            rng.uniform(0.001, 0.005, n), rng.uniform(0.93, 0.99, n), rng.uniform(0.2, 0.5, n)])


def k_lake_step(case, mon, rng):
    from SALib.test_functions.lake_problem import lake_problem
    n = case["N"]
    X, P = rng.uniform(0, 2, n), lakes(rng, n)
    e = rng.uniform(0, 0.1, n)
    if rng.random() < 0.2:
        got = mon.call(lake_problem, float(X[0]))
        mon.close(got, step(X[0], 0.1, 2.0, 0.42, 0.02), "lake problem step with defaults", rtol=1e-13)
        mon.observe(np.array(got))
        return
    got = np.asarray(mon.call(lake_problem, X, P[:, 0], P[:, 1], P[:, 2], e))
    mon.observe(got)
    mon.close(got, [step(X[i], P[i, 0], P[i, 1], P[i, 2], e[i]) for i in range(n)], "lake problem step", rtol=1e-12)


def inflow(seed, mean, sd, n):
    """Lognormal inflows of the given mean and standard deviation."""
    s2 = np.log1p((np.asarray(sd) / mean) ** 2)
    return np.random.default_rng(seed).lognormal(np.log(mean) - s2 / 2, np.sqrt(s2), size=n)


def k_lake_sim(case, mon, rng):
    from SALib.test_functions.lake_problem import evaluate_lake
    n = case["N"]
    P = lakes(rng, n)[:, :5]
    seed = int(rng.integers(1000))
    k = {} if seed % 3 == 0 else {"seed": seed}
    e = inflow(k.get("seed", 101), P[:, 3], P[:, 4], n)
    Y = np.asarray(mon.call(evaluate_lake, arr(rng, P), **k))
    mon.observe(Y)
    x, want = np.zeros(n), []
    for t in range(n):
        x = np.array([step(x[i], P[i, 0], P[i, 1], P[i, 2], e[i]) for i in range(n)])
        want.append(x)
    mon.close(Y, np.array(want), "simulated phosphorus", rtol=1e-9)


def one_lake(row, nvars, seed):
    a, q, b, mean, sd, dl, al = [float(v) for v in row]
    e = inflow(seed, mean, sd, 5)
    x, S = np.zeros(5), []
    for t in range(5):
        x = step(x, a, q, b, e)
        S.append(x)
    S = np.array(S)
    util = sum(al * a * dl ** t for t in range(nvars))
    return S.max(), util, float(a < 0.02), S, crit_of(q, b)


def crit_of(q, b):
    """Smallest positive root of x^q / (1 + x^q) = b x by scan and bisection."""
    f = lambda z: z ** (q - 1) - b * (1 + z ** q)
    z = np.linspace(0.01, 1.5, 3000)
    v = f(z)
    i = int(np.argmax(v > 0))
    return brentq(f, z[i - 1], z[i], xtol=1e-14)


def k_lake_eval(case, mon, rng):
    from SALib.test_functions.lake_problem import evaluate
    n = case["N"]
    P = lakes(rng, n)
    k = {}
    if rng.random() < 0.5:
        k["nvars"] = int(rng.choice([5, 10, 100, 37]))
    if rng.random() < 0.5:
        k["seed"] = int(rng.integers(1000))
    nv, seed = k.get("nvars", 100), k.get("seed", 101)
    P0 = P.copy()
    Y = np.asarray(mon.call(evaluate, arr(rng, P), **k))
    mon.observe(Y)
    mon.eq(Y.shape, (n, 4), "shape of the lake outputs")
    mon.same(P, P0, "lake inputs after the call")
    for i in range(n):
        mx, util, inert, S, crit = one_lake(P[i], nv, seed)
        mon.close(Y[i, 0], mx, "largest phosphorus", rtol=1e-9)
        mon.close(Y[i, 1], util, "discounted utility", rtol=1e-9)
        mon.close(Y[i, 2] * nv, inert, "inertia count", rtol=1e-9)
        if np.min(np.abs(S - crit)) > 1e-6:
            mon.close(Y[i, 3] * nv, float((S < crit).sum()), f"number of states below the critical phosphorus {crit:.4g}", rtol=1e-9)


def k_lake_share(case, mon, rng):
    """Probe of a known finding: reliability is not normalised by the number of simulated states."""
    from SALib.test_functions.lake_problem import evaluate
    row = np.array([[0.0, 4.0, 0.42, 0.01, 0.001, 0.95, 0.4]])
    Y = np.asarray(mon.call(evaluate, row))
    mon.observe(Y)
    mx, _, _, S, crit = one_lake(row[0], 100, 101)
    mon.ok((S < crit).all(), "probe: every state is below the threshold")
    mon.close(Y[0, 3], 1.0, "reliability of a lake that never exceeds its threshold", mech="lake:reliability")


# ------------------------------------------------------------------ analytic indices
def k_analytic(case, mon, rng):
    from SALib.test_functions import Sobol_G as f
    D = case["D"]
    a, delta, alpha = gpar(rng, D)
    al = alpha if alpha is not None else np.ones(D)
    args = (a,) if alpha is None else (a, alpha)
    S1, ST = np.asarray(mon.call(f.sensitivity_index, *args)), np.asarray(mon.call(f.total_sensitivity_index, *args))
    mon.observe(S1, ST)
    # exact variances of the factors by quadrature of the code's own function, on each smooth piece
    V = np.empty(D)
    t, w = np.polynomial.legendre.leggauss(40)
    for j in range(D):
        d = float(delta[j]) if delta is not None else 0.0
        brk = sorted({0.0, 1.0} | {v for v in (1 - d, 0.5 - d, 1.5 - d) if 0 < v < 1})
        s1 = s2 = 0.0
        for lo, hi in zip(brk[:-1], brk[1:]):
            # |2u-1|^alpha has a power singularity at the middle: substitute from both ends
            for (p, sgn) in ((lo, 1), (hi, -1)):
                h = (hi - lo) / 2
                u = (t + 1) / 2
                x = p + sgn * h * u ** 4
                jac = h * 4 * u ** 3 * w / 2
                X = np.full((len(x), 1), 0.0)
                X[:, 0] = np.clip(x, 0, 1)
                y = np.asarray(mon.call(f.evaluate, X, a=a[j:j + 1], delta=np.array([d]), alpha=al[j:j + 1]))
                s1 += float((y * jac).sum())
                s2 += float((y * y * jac).sum())
        mon.close(s1, 1.0, "mean of a G-function factor", rtol=1e-6)
        V[j] = s2 - s1 * s1
    P = np.prod(1 + V)
    mon.close(S1, V / (P - 1), f"analytic first-order indices for a={a}, alpha={al}", rtol=1e-4, atol=1e-9)
    mon.close(ST, V * P / (1 + V) / (P - 1), f"analytic total indices for a={a}, alpha={al}", rtol=1e-4, atol=1e-9)
    if D == 1:
        mon.close(S1, [1.0], "index of a single parameter")


def k_ishigami_indices(case, mon, rng):
    """The documented first-order indices are those of the function (exact quadrature on a product rule)."""
    from SALib.test_functions import Ishigami
    t, w = np.polynomial.legendre.leggauss(32)
    w = w / 2
    g = np.array(list(itertools.product(range(32), repeat=3)))
    Y = np.asarray(mon.call(Ishigami.evaluate, t[g] * np.pi)).reshape(32, 32, 32)
    mon.observe(Y)
    W = w[:, None, None] * w[None, :, None] * w[None, None, :]
    m = (Y * W).sum()
    V = ((Y - m) ** 2 * W).sum()
    S = [((((Y - m) * W).sum(axis=tuple(k for k in range(3) if k != i)) / w) ** 2 * w).sum() / V for i in range(3)]
    mon.close(S, [0.3139, 0.4424, 0.0], "first-order indices of Ishigami", rtol=0, atol=1e-4)


def k_reject(case, mon, rng):
    from SALib.test_functions import Sobol_G as f
    D = max(case["D"], 1)
    X = rng.random((max(case["N"], 1), D))
    a = np.full(D, 1.0)
    i, j = int(rng.integers(len(X))), int(rng.integers(D))
    k = case["i"] % 7
    mon.observe((k, D))
    if k == 0:
        X[i, j] = -rng.choice([1e-9, 0.5, 3])
        mon.raises(ValueError, f.evaluate, X, a, _what="input below zero")
    elif k == 1:
        X[i, j] = 1 + rng.choice([1e-9, 0.5, 3])
        mon.raises(ValueError, f.evaluate, X, a, _what="input above one")
    elif k == 2:
        mon.raises(TypeError, f.evaluate, X.tolist(), a, _what="inputs that are no array")
    elif k == 3:
        d = rng.random(D)
        d[j] = rng.choice([-0.1, 1.1])
        mon.raises(ValueError, f.evaluate, X, a, d, _what="shift outside [0, 1]")
    elif k == 4:
        al = np.ones(D)
        al[j] = rng.choice([0.0, -1.0])
        mon.raises(ValueError, f.evaluate, X, a, None, al, _what="curvature not positive")
    elif k == 5:
        mon.raises(TypeError, f.evaluate, X, a, [0.1] * D, _what="shift that is no array")
    else:
        mon.raises(TypeError, f.evaluate, X, a, None, [1.0] * D, _what="curvature that is no array")
    mon.hit("rejected_type" if k in (2, 5, 6) else "rejected_value")
