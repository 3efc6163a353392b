"""C16: regional sensitivity analysis."""
import numpy as np
from . import gen as G

RULE = ("Random given-data samples (continuous, tied, discrete), every bin count 1..60 and both targets: every entry is "
        "recomputed from an independent Cramer-von Mises statistic (mid-ranks) between the rows inside and outside the "
        "quantile bin; degenerate bins must be NaN; row permutations and increasing maps; group means; bin labels.")
REQUIRED = ["target_X", "target_Y", "ties", "nan_bins", "grouped", "rowperm", "monotone", "bins=1", "float_sensitive_bins"]
ASSUMPTIONS = ["an edge that coincides with a data value up to rounding may fall on either side of it"]
SENS = [49, 98, 103, 107]


def gen(rng, tier):
    for b in list(range(1, 61)) + SENS:
        yield {"kind": "rsa", "problem": G.problem(rng, int(rng.choice([1, 2, 3]))), "bins": b, "N": int(rng.choice([64, 151, 200])),
               "x": "continuous", "y": "normal", "target": str(rng.choice(["X", "Y"])), "seed": G.seed(rng)}
    for _ in range(500 if tier == "quick" else 8000):
        D = G.wide(rng, int(rng.choice([1, 2, 3, 4, 6])))
        yield {"kind": "rsa", "problem": G.problem(rng, D, group=rng.random() < 0.35),
               "bins": int(rng.choice([1, 2, 3, 5, 10, 20, 20, 7, 49])), "N": int(rng.choice([3, 5, 13, 50, 101, 200, 333])),
               "x": str(rng.choice(["continuous", "continuous", "ties", "binary", "const", "single"])),
               "y": str(rng.choice(["normal", "heavy", "func", "int", "const"])), "target": str(rng.choice(["X", "Y"])),
               "seed": G.seed(rng)}


def cvm(a, b):
    """Two-sample Cramer-von Mises T (Anderson 1962) with mid-ranks."""
    n, m = len(a), len(b)
    z = np.concatenate([a, b])
    s = np.sort(z)
    r = (np.searchsorted(s, z, "left") + np.searchsorted(s, z, "right") + 1) / 2
    rx, ry = np.sort(r[:n]), np.sort(r[n:])
    U = n * np.sum((rx - np.arange(1, n + 1)) ** 2) + m * np.sum((ry - np.arange(1, m + 1)) ** 2)
    return U / (n * m * (n + m)) - (4 * n * m - 1) / (6 * (n + m))


def matrix(X, Y, bins, target, variant):
    q = [np.linspace(0, 1, bins + 1), np.append(np.arange(bins) * (1 / bins), 1.0)][variant]
    out = np.full((bins, X.shape[1]), np.nan)
    for j in range(X.shape[1]):
        t, m = (X[:, j], Y) if target == "X" else (Y, X[:, j])
        e = np.quantile(t, q)
        for s in range(bins):
            b = (t > e[s]) & (t <= e[s + 1]) if s else (t >= e[0]) & (t <= e[1])
            if 1 < b.sum() < len(b) and len(np.unique(Y[b])) > 1:
                n2 = (~b).sum()
                if n2 > 1:
                    out[s, j] = cvm(m[b], m[~b])
                else:
                    pass  # the statistic needs two samples on each side
    return out


def run(case, mon):
    from SALib.analyze import rsa

    pr, N, bins, target = case["problem"], case["N"], case["bins"], case["target"]
    D = pr["num_vars"]
    rng = np.random.default_rng(case["seed"])
    X = G.ref_scale(rng.uniform(size=(N, D)), pr)
    if case["x"] == "ties":
        X = np.round(rng.normal(size=(N, D)) * 2)
    elif case["x"] == "binary":
        X = rng.integers(0, 2, (N, D)).astype(float)
    elif case["x"] == "single":  # one row apart from all others
        X[:, 0] = 2.0
        X[int(rng.integers(N)), 0] = float(rng.choice([-1.0, 5.0]))
    elif case["x"] == "const":
        X[:, 0] = 3.25
    z = (X - X.mean(0)) / np.where(X.std(0) > 0, X.std(0), 1)
    Y = rng.normal(size=N)
    if case["y"] == "heavy":
        Y = np.exp(2 * Y)
    elif case["y"] == "func":
        Y = z[:, 0] ** 2 + z.sum(1) + 0.1 * Y
    elif case["y"] == "int":
        Y = rng.integers(0, 4, N).astype(float)
    elif case["y"] == "const":
        Y = np.full(N, 1.5)
    Y = Y * 10.0 ** int(rng.choice([0, 0, 0, -12, 9, -200]))
    w = [matrix(X, Y, bins, target, v) for v in (0, 1)]
    R = mon.call(rsa.analyze, G.copy(pr), X.copy(), Y.copy(), bins=bins, target=target)
    grp = pr.get("groups") and len(set(pr["groups"])) > 1
    labels = G.ugroups(pr) if grp else list(pr["names"])
    mem = G.members(pr) if grp else [np.array([j]) for j in range(D)]
    mon.eq([str(v) for v in R["names"]], labels, "names")
    got = np.array([np.asarray(R[k], float) for k in labels]).T
    mon.observe(got)
    mon.eq(got.shape, (bins, len(labels)), "one row per bin and one column per parameter")
    mon.eq(np.shape(R["bins"]), (bins,), "number of bin labels")
    mon.close(R["bins"], np.arange(bins) / bins, "bin labels")
    mon.eq(R["target"], target, "target")
    for i, m in enumerate(mem):
        a, b = np.nanmean(w[0][:, m], axis=1), np.nanmean(w[1][:, m], axis=1)
        ok = np.isclose(got[:, i], a, rtol=1e-8, atol=1e-9, equal_nan=True) | \
            np.isclose(got[:, i], b, rtol=1e-8, atol=1e-9, equal_nan=True)
        mon.ok(ok.all(), lambda: f"{labels[i]} (bins={bins}, N={N}, target={target}, X {case['x']}, Y {case['y']}): bin "
                                 f"{np.argmin(ok)}: got {got[np.argmin(ok), i]!r}, expected {a[np.argmin(ok)]!r}")
    if np.isnan(got).any():
        mon.hit("nan_bins")
    mon.hit("target_" + target)
    if case["x"] in ("ties", "binary", "single"):
        mon.hit("ties")
    if grp:
        mon.hit("grouped")
    if bins == 1:
        mon.hit("bins=1")
    if bins in SENS:
        mon.hit("float_sensitive_bins")
    df = mon.call(R.to_df)
    mon.same(df.to_numpy(), got, "DataFrame")
    mon.eq([str(c) for c in df.columns], labels, "columns of the DataFrame")
    p = rng.permutation(N)
    R2 = mon.call(rsa.analyze, G.copy(pr), X[p], Y[p], bins=bins, target=target)
    mon.close(np.array([np.asarray(R2[k], float) for k in labels]).T, got, "result after permuting rows", rtol=1e-8, atol=1e-9)
    mon.hit("rowperm")
    if case["y"] in ("normal", "func", "int") and np.allclose(w[0], w[1], equal_nan=True):
        f = lambda v: np.where(v > 0, v * 3, v / 7)
        if target == "Y":  # map the inputs: ranks, hence the statistics, do not change
            X3, Y3 = f(z), Y
        else:
            X3, Y3 = X, f(Y)
        if all(len(np.unique(X3[:, j])) == len(np.unique(X[:, j])) for j in range(D)):
            R3 = mon.call(rsa.analyze, G.copy(pr), X3, Y3, bins=bins, target=target)
            mon.close(np.array([np.asarray(R3[k], float) for k in labels]).T, got, "result after an increasing map",
                      rtol=1e-8, atol=1e-9)
            mon.hit("monotone")
