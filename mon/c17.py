"""C17: discrepancy indices."""
import numpy as np
from . import gen as G

RULE = ("Random samples inside random uniform bounds, arbitrary outputs, all four measures: each share is recomputed from "
        "explicit double sums for the 2-D discrepancy; unit changes of X and Y, parameter permutation, row permutation; "
        "samples outside the bounds must be rejected.")
REQUIRED = ["WD", "CD", "MD", "L2-star", "grouped", "units", "rowperm", "colperm", "outside_rejected", "default"]


def gen(rng, tier):
    for _ in range(600 if tier == "quick" else 8000):
        D = G.wide(rng, int(rng.choice([1, 2, 3, 4, 6, 10])))
        yield {"kind": "disc", "problem": G.problem(rng, D, group=rng.random() < 0.3),
               "N": int(rng.choice([2, 3, 5, 10, 33, 100, 200])), "method": str(rng.choice(["WD", "CD", "MD", "L2-star", "default"])),
               "y": str(rng.choice(["normal", "heavy", "func", "int"])), "grid": bool(rng.random() < 0.2), "seed": G.seed(rng)}


def disc(P, method):
    """Squared (or for L2-star plain) discrepancy of a 2-D point set, written out."""
    n, d = P.shape
    a, b = P[:, None, :], P[None, :, :]
    c = np.abs(P - 0.5)
    ca, cb = c[:, None, :], c[None, :, :]
    diff = np.abs(a - b)
    if method == "WD":
        return -(4 / 3) ** d + np.sum(np.prod(1.5 - diff * (1 - diff), axis=2)) / n ** 2
    if method == "CD":
        return ((13 / 12) ** d - 2 / n * np.sum(np.prod(1 + 0.5 * c - 0.5 * c ** 2, axis=1))
                + np.sum(np.prod(1 + 0.5 * ca + 0.5 * cb - 0.5 * diff, axis=2)) / n ** 2)
    if method == "MD":
        return ((19 / 12) ** d - 2 / n * np.sum(np.prod(5 / 3 - 0.25 * c - 0.25 * c ** 2, axis=1))
                + np.sum(np.prod(15 / 8 - 0.25 * ca - 0.25 * cb - 0.75 * diff + 0.5 * diff ** 2, axis=2)) / n ** 2)
    s = 3.0 ** -d - 2.0 ** (1 - d) / n * np.sum(np.prod(1 - P ** 2, axis=1)) \
        + np.sum(np.prod(1 - np.maximum(a, b), axis=2)) / n ** 2
    return np.sqrt(s)


def run(case, mon):
    from SALib.analyze import discrepancy

    pr, N = case["problem"], case["N"]
    D = pr["num_vars"]
    rng = np.random.default_rng(case["seed"])
    b = np.array(pr["bounds"], float)
    U = rng.uniform(1e-6, 1 - 1e-6, (N, D))
    if case["grid"]:
        U = np.round(U * 4) / 4 * 0.999 + 0.0005
    X = b[:, 0] + U * (b[:, 1] - b[:, 0])
    U = (X - b[:, 0]) / (b[:, 1] - b[:, 0])
    Y = rng.normal(size=N)
    if case["y"] == "heavy":
        Y = np.exp(2 * Y)
    elif case["y"] == "func":
        Y = np.sin(5 * U[:, 0]) + 0.2 * U.sum(1)
    elif case["y"] == "int":
        Y = rng.integers(0, 4, N).astype(float)
    if np.ptp(Y) <= 1e-9 * np.abs(Y).max():  # constant, but for rounding
        return
    kw = {} if case["method"] == "default" else {"method": case["method"]}
    meth = "WD" if case["method"] == "default" else case["method"]
    R = mon.call(discrepancy.analyze, G.copy(pr), X.copy(), Y.copy(), **kw)
    got = np.asarray(R["s_discrepancy"], float)
    mon.observe(got)
    V = (Y - Y.min()) / (Y.max() - Y.min())
    raw = np.array([disc(np.column_stack([U[:, j], V]), meth) for j in range(D)])
    share = raw / raw.sum()
    grp = pr.get("groups") and len(set(pr["groups"])) > 1
    mem = G.members(pr) if grp else [np.array([j]) for j in range(D)]
    want = np.array([share[m].mean() for m in mem])
    mon.close(got, want, f"discrepancy shares ({meth})", rtol=1e-6, atol=1e-9)
    mon.eq([str(v) for v in R["names"]], G.ugroups(pr) if grp else list(pr["names"]), "names")
    mon.ok(np.all(got >= 0), "negative share")
    if not grp:
        mon.close(got.sum(), 1.0, "sum of the shares")
    else:
        mon.hit("grouped")
    mon.hit(case["method"])
    # units of X and Y
    a, s = rng.normal(size=D) * 10, 10 ** rng.uniform(-2, 2, D)
    q = G.copy(pr)
    q["bounds"] = [[float(a[j] + s[j] * lo), float(a[j] + s[j] * hi)] for j, (lo, hi) in enumerate(pr["bounds"])]
    qb = np.array(q["bounds"])
    X2 = np.clip(a + s * X, qb[:, 0], qb[:, 1])
    R2 = mon.call(discrepancy.analyze, q, X2, 7 + 0.01 * Y, **kw)
    tol = 1e-6 if np.max(np.abs(qb).max(1) / (qb[:, 1] - qb[:, 0])) < 1e6 else 1e-2
    mon.close(R2["s_discrepancy"], got, "shares in other units", rtol=tol, atol=tol * 1e-2)
    mon.hit("units")
    p = rng.permutation(N)
    R3 = mon.call(discrepancy.analyze, G.copy(pr), X[p], Y[p], **kw)
    mon.close(R3["s_discrepancy"], got, "shares after permuting rows", rtol=1e-7, atol=1e-10)
    mon.hit("rowperm")
    if not grp:
        c = rng.permutation(D)
        q = {"num_vars": D, "names": [pr["names"][i] for i in c], "bounds": [pr["bounds"][i] for i in c]}
        R4 = mon.call(discrepancy.analyze, q, X[:, c], Y, **kw)
        mon.close(R4["s_discrepancy"], got[c], "shares after permuting parameters", rtol=1e-8, atol=1e-10)
        mon.hit("colperm")
    Z = X.copy()
    j, side = int(rng.integers(D)), int(rng.integers(2))
    Z[int(rng.integers(N)), j] = b[j, side] + (1 if side else -1) * 0.01 * (b[j, 1] - b[j, 0])
    mon.raises(ValueError, discrepancy.analyze, G.copy(pr), Z, Y, **kw, _what="a sample outside the bounds")
    mon.hit("outside_rejected")
