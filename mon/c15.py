"""C15: PAWN."""
import numpy as np
from . import gen as G

RULE = ("Random given-data samples (continuous, tied, discrete, binary inputs; arbitrary outputs, NaN outputs), every slice "
        "count 1..60: all six statistics are recomputed from an independent two-sample Kolmogorov-Smirnov distance over the "
        "quantile slices; row permutations and increasing maps of Y; group means.")
REQUIRED = ["continuous", "ties", "binary", "grouped", "nan", "rowperm", "monotone", "S=1", "S>N", "float_sensitive_S"]
ASSUMPTIONS = ["an edge that coincides with a data value up to rounding may fall on either side of it"]
SENS = [6, 9, 21, 24, 28, 29, 30, 38, 46, 49, 54, 57]


def gen(rng, tier):
    for S in range(1, 61):
        yield {"kind": "pawn", "problem": G.problem(rng, int(rng.choice([1, 2, 3]))), "S": S, "N": int(rng.choice([40, 97, 200])),
               "x": "continuous", "y": "normal", "nan": 0, "seed": G.seed(rng)}
    for _ in range(500 if tier == "quick" else 8000):
        D = G.wide(rng, int(rng.choice([1, 2, 3, 4, 6])))
        yield {"kind": "pawn", "problem": G.problem(rng, D, group=rng.random() < 0.35),
               "S": int(rng.choice([1, 2, 3, 5, 10, 10, 7, 20] + SENS[:4])), "N": int(rng.choice([1, 2, 5, 13, 50, 101, 200, 333])),
               "x": str(rng.choice(["continuous", "continuous", "ties", "binary", "const"])),
               "y": str(rng.choice(["normal", "heavy", "func", "int", "const"])), "nan": int(rng.choice([0, 0, 0, 1, 4])),
               "seed": G.seed(rng)}


def ks(a, b):
    """sup |F_a - F_b| by direct counting."""
    z = np.unique(np.concatenate([a, b]))
    fa = np.searchsorted(np.sort(a), z, side="right") / len(a)
    fb = np.searchsorted(np.sort(b), z, side="right") / len(b)
    return np.abs(fa - fb).max()


def slices(x, S):
    """Membership of every slice, one list per admissible rounding of the edges."""
    out = []
    for q in (np.linspace(0, 1, S + 1), np.append(np.arange(S) * (1 / S), 1.0)):
        e = np.nanquantile(x, q)
        out.append([(x >= e[s]) & ((x <= e[s + 1]) if s == S - 1 else (x < e[s + 1])) for s in range(S)])
    return out


def stats(x, Y, S, variant):
    v = []
    for m in slices(x, S)[variant]:
        y = Y[m]
        y = y[~np.isnan(y)]
        if len(y):
            v.append(ks(y, Y[~np.isnan(Y)]))
    if not v:
        return np.full(6, np.nan)
    v = np.array(v)
    sd = np.sqrt(np.mean((v - v.mean()) ** 2))
    return np.array([v.min(), v.mean(), np.median(v), v.max(), sd / v.mean() if v.mean() > 0 else np.nan, sd])


def run(case, mon):
    from SALib.analyze import pawn

    pr, N, S = case["problem"], case["N"], case["S"]
    D = pr["num_vars"]
    rng = np.random.default_rng(case["seed"])
    X = G.ref_scale(rng.uniform(size=(N, D)), pr)
    if case["x"] == "ties":
        X = np.round(rng.normal(size=(N, D)) * 2)
    elif case["x"] == "binary":
        X = rng.integers(0, 2, (N, D)).astype(float)
    elif case["x"] == "const":
        X[:, 0] = 3.25
    z = (X - X.mean(0)) / np.where(X.std(0) > 0, X.std(0), 1)
    Y = rng.normal(size=N)
    if case["y"] == "heavy":
        Y = np.exp(2 * Y)
    elif case["y"] == "func":
        Y = z[:, 0] ** 2 + z.sum(1) + 0.1 * Y
    elif case["y"] == "int":
        Y = rng.integers(0, 4, N).astype(float)
    elif case["y"] == "const":
        Y = np.full(N, 1.5)
    nan = 0 if N < 10 else case["nan"]
    if nan:
        Y[rng.choice(N, nan, replace=False)] = np.nan
        mon.hit("nan")
    R = mon.call(pawn.analyze, G.copy(pr), X.copy(), Y.copy(), S=S)
    keys = ["minimum", "mean", "median", "maximum", "CV", "stdev"]
    got = np.array([np.asarray(R[k], float) for k in keys]).T
    mon.observe(got)
    grp = pr.get("groups") and len(set(pr["groups"])) > 1
    mem = G.members(pr) if grp else [np.array([j]) for j in range(D)]
    mon.eq(got.shape, (len(mem), 6), "shape of the statistics")
    mon.eq([str(v) for v in R["names"]], G.ugroups(pr) if grp else list(pr["names"]), "names")
    w0 = [stats(X[:, j], Y, S, 0) for j in range(D)]
    w1 = [stats(X[:, j], Y, S, 1) for j in range(D)]
    for i, m in enumerate(mem):
        a = np.mean([w0[j] for j in m], axis=0)
        b = np.mean([w1[j] for j in m], axis=0)
        for c, k in enumerate(keys):
            if k == "CV" and not (a[1] > 0 and b[1] > 0 and all(w0[j][1] > 1e-12 for j in m)):
                continue  # 0/0
            mon.ok(np.isclose(got[i, c], a[c], rtol=1e-9, atol=1e-10, equal_nan=True)
                   or np.isclose(got[i, c], b[c], rtol=1e-9, atol=1e-10, equal_nan=True),
                   lambda: f"{k} of {R['names'][i]} (S={S}, N={N}, X {case['x']}): got {got[i, c]!r}, expected {a[c]!r}")
        fin = got[i][[0, 1, 2, 3, 5]]
        mon.ok(np.all(np.isnan(fin) | ((fin >= 0) & (fin <= 1))), "a KS statistic outside [0,1]")
    mon.hit("binary" if case["x"] == "binary" else "ties" if case["x"] == "ties" else "continuous")
    if grp:
        mon.hit("grouped")
    if S == 1:
        mon.hit("S=1")
    if S > N:
        mon.hit("S>N")
    if S in SENS:
        mon.hit("float_sensitive_S")
    p = rng.permutation(N)
    R2 = mon.call(pawn.analyze, G.copy(pr), X[p], Y[p], S=S)
    mon.close(np.array([np.asarray(R2[k], float) for k in keys]).T, got, "statistics after permuting rows", rtol=1e-9)
    mon.hit("rowperm")
    if case["y"] in ("normal", "func", "int"):
        Y3 = np.where(Y > 0, Y * 3 + 1, Y / 7)
        R3 = mon.call(pawn.analyze, G.copy(pr), X, Y3, S=S)
        mon.close(np.array([np.asarray(R3[k], float) for k in keys]).T, got, "statistics after an increasing map of Y", rtol=1e-9)
        mon.hit("monotone")
