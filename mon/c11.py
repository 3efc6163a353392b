"""C11: Morris measures."""
import numpy as np
from . import gen as G

RULE = ("Designs from the Morris sampler (plain, optimised, grouped, any levels, bounds and distributions) and hand-made "
        "one-at-a-time trajectories with arbitrary steps, arbitrary outputs, scaled or not: mu, mu_star and sigma are "
        "recomputed trajectory by trajectory by walking the design; bad lengths, integer arrays and levels must raise.")
REQUIRED = ["plain", "optimised", "handmade", "grouped", "scaled", "constant_trajectory", "length_rejected", "int_rejected",
            "level_rejected", "N=1", "tiny_outputs", "huge_outputs", "additive_exact"]


def gen(rng, tier):
    for i in range(1200 if tier == "quick" else 15000):
        kind = str(rng.choice(["plain", "plain", "optimised", "handmade"]))
        D = G.wide(rng, int(rng.choice([2, 3, 4, 5, 6, 8, 12] if kind == "optimised" else [1, 2, 3, 4, 5, 8, 12, 20])))
        N = int(rng.choice([5, 6, 9])) if kind == "optimised" else int(rng.choice([1, 2, 3, 4, 7, 10, 30]))
        pr = G.problem(rng, D, group=rng.random() < 0.5,
                       dists=["unif", "logunif", "triang", "truncnorm"] if rng.random() < 0.2 else None)
        yield {"kind": kind, "problem": pr, "N": N, "p": int(rng.choice([2, 4, 4, 6, 8, 10, 20])),
               "k": int(rng.integers(2, 5)), "local": bool(rng.integers(2)), "scaled": bool(rng.random() < 0.45),
               "y": str(rng.choice(["normal", "heavy", "offset", "add", "const1", "int"])),
               "f32": bool(rng.random() < 0.05), "seed": G.seed(rng), "checks": i % 20 == 0,
               "ys": int(rng.choice([0, 0, 0, -40, 40, -80]))}
    for D, N in [(30, 200), (60, 20), (3, 3000)]:
        yield {"kind": "plain", "problem": G.problem(rng, D, group=D == 60), "N": N, "p": 6, "k": 2, "local": True,
               "scaled": D == 30, "y": "normal", "f32": False, "seed": G.seed(rng), "checks": False}


def handmade(rng, pr, N):
    mem = G.members(pr)
    b = np.array([e[:2] for e in pr["bounds"]], float)
    w = b[:, 1] - b[:, 0]
    rows = []
    for _ in range(N):
        x = b[:, 0] + rng.uniform(0.3, 0.6, len(b)) * w
        rows.append(x.copy())
        for g in rng.permutation(len(mem)):
            m = mem[g]
            x[m] += rng.choice([-1, 1], len(m)) * rng.uniform(0.05, 0.25, len(m)) * w[m]
            rows.append(x.copy())
    return np.array(rows)


def effects(X, Y, mem, delta, scaled):
    """Elementary effect of every factor in every trajectory, by walking it."""
    g, D = len(mem), X.shape[1]
    N = len(Y) // (g + 1)
    E = np.empty((N, D))
    for r in range(N):
        x, y = X[r * (g + 1):(r + 1) * (g + 1)], Y[r * (g + 1):(r + 1) * (g + 1)]
        for j in range(D):
            t = [s for s in range(g) if x[s + 1, j] != x[s, j]]
            if len(t) != 1:
                raise AssertionError(f"factor {j} moves {len(t)} times in trajectory {r}")
            t = t[0]
            up = 1.0 if x[t + 1, j] > x[t, j] else -1.0
            if not scaled:
                E[r, j] = up * (y[t + 1] - y[t]) / delta
            else:
                sy = np.sqrt(np.mean((y - y.mean()) ** 2))
                sx = np.sqrt(np.mean((x[:, j] - x[:, j].mean()) ** 2))
                E[r, j] = up * (y[t + 1] - y[t]) / (x[:, j].max() - x[:, j].min()) * (sx / sy if sy > 0 else 0.0)
    return E


def run(case, mon):
    from SALib.analyze import morris as A
    from SALib.sample import morris as S

    pr, N, p, kind = case["problem"], case["N"], case["p"], case["kind"]
    rng = np.random.default_rng(case["seed"])
    mem = G.members(pr)
    g = len(mem)
    if kind == "handmade":
        X = handmade(rng, pr, N)
    elif kind == "optimised":
        X = np.asarray(mon.call(S.sample, G.copy(pr), N, num_levels=p, optimal_trajectories=case["k"],
                                local_optimization=case["local"], seed=case["seed"]), float)
        N = case["k"]
    else:
        X = np.asarray(mon.call(S.sample, G.copy(pr), N, num_levels=p, seed=case["seed"]), float)
    n = N * (g + 1)
    mon.eq(len(X), n, "rows of the design")
    add = None
    if case["y"] == "add":
        U = (X - X.min(0)) / np.maximum(np.ptp(X, axis=0), 1e-300)
        add = rng.normal(size=X.shape[1])
        Y = U @ add
    else:
        Y = rng.normal(size=n)
        if case["y"] == "heavy":
            Y = np.exp(2 * Y)
        elif case["y"] == "offset":
            Y = Y + 1e4
        elif case["y"] == "int":
            Y = rng.integers(-3, 4, n).astype(float)
        elif case["y"] == "const1":
            Y[: g + 1] = 2.5
            mon.hit("constant_trajectory")
    if case["f32"]:
        case = dict(case, ys=0)
    Y = Y * 2.0 ** case.get("ys", 0)  # any units
    mon.hit("tiny_outputs", case.get("ys", 0) < 0)
    mon.hit("huge_outputs", case.get("ys", 0) > 0)
    if case["f32"]:
        Y = Y.astype(np.float32)
    delta = p / (2.0 * (p - 1))
    try:
        E = effects(X, np.asarray(Y, float), mem, delta, case["scaled"])
    except AssertionError as e:
        mon.fail(str(e))
    kw = dict(num_levels=p, scaled=case["scaled"], num_resamples=5, seed=1)
    R = mon.call(A.analyze, G.copy(pr), X.copy(), Y.copy(), **kw)
    mon.observe(np.asarray(R["mu"], float), np.asarray(R["mu_star"], float))
    scale = np.abs(E).max()
    tol = dict(rtol=1e-7, atol=(1e-4 if case["f32"] else 1e-9) * max(scale, 1e-300) + 1e-9 * np.abs(Y).max())
    if case["scaled"]:
        tol["atol"] *= 1 + 1e-2 * np.abs(Y).max() / max(np.std(Y), 1e-300)
    # rounding of constant outputs may leave a standard deviation of 1e-17 in one computation only
    mu, ms, sg = E.mean(0), np.abs(E).mean(0), (E.std(0, ddof=1) if N > 1 else np.full(E.shape[1], np.nan))
    mon.close(R["mu_star"], [ms[m].mean() for m in mem], "mu_star", **tol)
    mon.close(R["mu"], [mu[m].mean() for m in mem], "mu", **tol)
    mon.close(R["sigma"], [sg[m[0]] if len(m) == 1 else np.nan for m in mem], "sigma", **tol)
    mon.eq(list(R["names"]), G.ugroups(pr), "names")
    mon.eq(np.shape(R["mu_star_conf"]), (g,), "shape of mu_star_conf")
    for k in R:
        mon.ok(not np.ma.is_masked(R[k]), f"{k} has masked entries")
    mon.hit(kind)
    if pr.get("groups"):
        mon.hit("grouped")
    if case["scaled"]:
        mon.hit("scaled")
    if N == 1:
        mon.hit("N=1")
    if add is not None and kind == "plain" and not case["scaled"] and not pr.get("dists") and p == 2 and N > 3:
        # additive model on a two-level grid: effects are the coefficients
        one = [m[0] for m in mem if len(m) == 1 and np.ptp(X[:, m[0]]) > 0]
        pos = [i for i, m in enumerate(mem) if len(m) == 1]
        for i, j in zip(pos, one):
            mon.close(np.asarray(R["mu"], float)[i] * 2.0 ** -case.get("ys", 0), add[j], "mu of an additive model", rtol=1e-6, atol=1e-6)
            mon.hit("additive_exact")
    if case["checks"]:
        for m in range(1, 3 * (g + 1) + 1):
            if m % (g + 1):
                mon.raises(ValueError, A.analyze, G.copy(pr), np.resize(X, (m, X.shape[1])), np.resize(Y, m), **kw,
                           _what=f"{m} outputs for trajectories of {g + 1}")
                mon.hit("length_rejected")
        mon.raises(ValueError, A.analyze, G.copy(pr), X, np.ones(n, int), **kw, _what="integer outputs")
        mon.raises(ValueError, A.analyze, G.copy(pr), np.ones(X.shape, int), Y, **kw, _what="integer inputs")
        mon.hit("int_rejected")
        for lv in (0, 1, -0.1, 95):
            mon.raises(ValueError, A.analyze, G.copy(pr), X, Y, conf_level=lv, **kw, _what=f"level {lv}")
            mon.hit("level_rejected")
