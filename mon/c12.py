"""C12: eFAST and RBD-FAST."""
import math
import numpy as np
from . import gen as G

RULE = ("Arbitrary outputs (normal, heavy tailed, pure harmonics, trends, integers) for many N, M, D and seeds: eFAST S1/ST "
        "are recomputed from an explicit discrete Fourier sum, RBD-FAST S1 from an explicit triangle-wave sort and "
        "periodogram with bias correction; row permutation invariance; inconsistent lengths must raise.")
REQUIRED = ["fast", "rbd", "odd_N", "even_N", "rowperm", "length_rejected", "harmonic", "D=1", "monotone"]
ASSUMPTIONS = ["RBD-FAST exactness and row-order independence are judged on inputs without ties"]


def gen(rng, tier):
    q = tier == "quick"
    for _ in range(700 if q else 9000):
        M = int(rng.choice([1, 2, 3, 4, 4, 6, 8]))
        D = G.wide(rng, int(rng.choice([1, 2, 3, 5, 8])))
        yield {"kind": "fast", "problem": G.problem(rng, D), "M": M,
               "N": 4 * M * M + int(rng.choice([1, 2, 3, 4, 7, 16, 50, 101, 300])),
               "y": str(rng.choice(["normal", "heavy", "harm", "offset", "int", "bool"])), "seed": G.seed(rng)}
    for _ in range(700 if q else 9000):
        M = int(rng.choice([1, 2, 3, 6, 10, 10]))
        D = G.wide(rng, int(rng.choice([1, 2, 3, 5, 8])))
        yield {"kind": "rbd", "problem": G.problem(rng, D), "M": M,
               "N": int(rng.choice([2 * M + 3, 4 * M + 2, 50, 51, 100, 101, 257, 500])) + 2 * M,
               "y": str(rng.choice(["normal", "heavy", "func", "offset", "int"])), "seed": G.seed(rng)}
    for D, N, M in [(30, 700, 4), (3, 20011, 4), (2, 5000, 10)]:
        yield {"kind": "fast", "problem": G.problem(rng, D), "M": M, "N": N, "y": "normal", "seed": G.seed(rng)}
        yield {"kind": "rbd", "problem": G.problem(rng, D), "M": M, "N": N, "y": "func", "seed": G.seed(rng)}


def power(y, ks):
    """|DFT|^2 / N^2 at the given harmonics; explicit sums for short blocks, rfft otherwise."""
    n = len(y)
    y = np.asarray(y, float)
    y = y - y.mean()
    if n <= 400:
        t = np.arange(n)
        ph = 2 * np.pi * (np.outer(ks, t) % n) / n
        return ((np.cos(ph) @ y) ** 2 + (np.sin(ph) @ y) ** 2) / n ** 2
    return np.abs(np.fft.rfft(y)[np.asarray(ks)]) ** 2 / n ** 2


def fast_ref(y, M):
    n = len(y)
    om = (n - 1) // (2 * M)
    ks = np.arange(1, (n - 1) // 2 + 1)
    P = power(y, ks)
    V = P.sum()
    return sum(P[om * m - 1] for m in range(1, M + 1)) / V, 1 - P[: om // 2].sum() / V


def rbd_ref(x, y, M):
    n = len(y)
    order = sorted(range(n), key=lambda i: x[i])
    tri = order[0::2] + order[1::2][::-1]
    ks = np.arange(1, n // 2 + 1)
    P = power(np.asarray(y, float)[tri], ks)
    wgt = np.where(2 * ks == n, 1.0, 2.0)
    s = (P * wgt)[:M].sum() / (P * wgt).sum()
    lam = 2 * M / n
    return s - lam / (1 - lam) * (1 - s)


def run(case, mon):
    pr, N, M = case["problem"], case["N"], case["M"]
    D = pr["num_vars"]
    rng = np.random.default_rng(case["seed"])
    mon.hit("odd_N" if N % 2 else "even_N")
    if D == 1:
        mon.hit("D=1")
    if case["kind"] == "fast":
        from SALib.analyze import fast

        n = N * D
        Y = rng.normal(size=n)
        om = (N - 1) // (2 * M)
        if case["y"] == "heavy":
            Y = np.exp(1.5 * Y)
        elif case["y"] == "offset":
            Y += 1e3
        elif case["y"] == "int":
            Y = rng.integers(-4, 5, n)
        elif case["y"] == "bool":
            Y = (Y > 0).astype(float)
        elif case["y"] == "harm":
            s = 2 * np.pi * np.arange(N) / N
            k = [int(v) for v in rng.integers(1, M + 1, D)]
            Y = np.concatenate([np.cos(om * k[i] * s + 0.3) for i in range(D)])
        ks = np.arange(1, (N - 1) // 2 + 1)
        if any(power(Y[i * N:(i + 1) * N], ks).sum() < 1e-12 * np.mean(np.square(Y, dtype=float)) for i in range(D)):
            return  # (nearly) no spectral variance below the Nyquist frequency
        S = mon.call(fast.analyze, G.copy(pr), Y.copy(), M=M, num_resamples=3, seed=1)
        mon.observe(np.asarray(S["S1"], float), np.asarray(S["ST"], float))
        want = [fast_ref(Y[i * N:(i + 1) * N], M) for i in range(D)]
        tol = dict(rtol=1e-7, atol=1e-9 if case["y"] != "offset" else 1e-7)
        mon.close(S["S1"], [w[0] for w in want], f"eFAST S1 (N={N}, M={M})", **tol)
        mon.close(S["ST"], [w[1] for w in want], f"eFAST ST (N={N}, M={M})", **tol)
        if case["y"] == "harm":
            mon.close(S["S1"], np.ones(D), "S1 of a pure harmonic", rtol=1e-9)
            mon.close(S["ST"], np.ones(D), "ST of a pure harmonic", rtol=1e-9)
            mon.hit("harmonic")
        mon.eq(list(S["names"]), list(pr["names"]), "names")
        for k in ("S1", "ST", "S1_conf", "ST_conf"):
            mon.eq(len(S[k]), D, f"length of {k}")
        if D > 1:
            for m in (n - 1, n + 1):
                mon.raises(ValueError, fast.analyze, G.copy(pr), np.resize(Y, m), M=M, num_resamples=2,
                           _what=f"{m} outputs for {D} parameters")
                mon.hit("length_rejected")
        mon.hit("fast")
        return
    from SALib.analyze import rbd_fast

    X = G.ref_scale(rng.uniform(size=(N, D)), pr)
    if any(len(np.unique(X[:, j])) < N for j in range(D)):
        return
    U = (X - X.min(0)) / np.ptp(X, axis=0)
    Y = rng.normal(size=N)
    if case["y"] == "heavy":
        Y = np.exp(1.5 * Y)
    elif case["y"] == "offset":
        Y += 1e3
    elif case["y"] == "int":
        Y = rng.integers(-4, 5, N)
    elif case["y"] == "func":
        Y = np.sin(6 * U[:, 0]) + 0.3 * U.sum(1) + 0.01 * Y
    S = mon.call(rbd_fast.analyze, G.copy(pr), X.copy(), Y.copy(), M=M, num_resamples=3, seed=1)
    S1 = np.asarray(S["S1"], float)
    mon.observe(S1)
    tol = dict(rtol=1e-7, atol=1e-9 if case["y"] != "offset" else 1e-7)
    mon.close(S1, [rbd_ref(X[:, j], Y, M) for j in range(D)], f"RBD-FAST S1 (N={N}, M={M})", **tol)
    mon.eq(list(S["names"]), list(pr["names"]), "names")
    perm = rng.permutation(N)
    S2 = mon.call(rbd_fast.analyze, G.copy(pr), X[perm], Y[perm], M=M, num_resamples=3, seed=1)
    mon.close(S2["S1"], S1, "S1 after permuting the rows", rtol=1e-8, atol=1e-9)
    mon.hit("rowperm")
    W = np.exp(2 * U)
    if all(len(np.unique(W[:, j])) == N for j in range(D)):
        S3 = mon.call(rbd_fast.analyze, G.copy(pr), W, Y, M=M, num_resamples=3, seed=1)
        mon.close(S3["S1"], S1, "S1 after an increasing map of the inputs", rtol=1e-8, atol=1e-9)
        mon.hit("monotone")
    mon.hit("rbd")
