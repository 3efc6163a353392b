"""C01: layout of the Saltelli-type samples."""
import numpy as np
from . import gen as G

RULE = ("Problems are (a) every set partition of 1..5 parameters into groups, for both samplers and both orders, and "
        "(b) random ones (1..60 parameters, random non-contiguous groups, bounds, distributions, N, skip, scramble, "
        "seed); the returned matrix is compared row by row with an independently built layout over SciPy's Sobol' "
        "points.")
REQUIRED = ["saltelli", "sobol", "grouped", "second", "first_only", "skip", "scrambled", "unscrambled", "dists",
            "odd_N", "default_skip"]
EXHAUSTIVE = "all set partitions of D = 1..5 parameters x {saltelli, sobol} x {first order, second order}"


def partitions(n):
    def rec(i, cur, mx):
        if i == n:
            yield list(cur)
            return
        for v in range(mx + 2):
            yield from rec(i + 1, cur + [v], max(mx, v))
    yield from rec(0, [], -1)


def gen(rng, tier):
    lab = ["m", "b", "zz", "a", "k"]
    for D in range(1, 6):
        for part in partitions(D):
            if D > 1 and len(set(part)) == 1:
                continue  # one group over everything is documented as meaningless
            for second in (True, False):
                for which in ("saltelli", "sobol"):
                    pr = {"num_vars": D, "names": [f"p{i}" for i in range(D)][::-1],
                          "bounds": [[0.0, 1.0]] * D, "groups": [lab[v] for v in part]}
                    if len(set(part)) == D:
                        pr["groups"] = None if rng.random() < 0.5 else pr["groups"]
                    yield {"kind": "partition", "which": which, "problem": pr, "N": int(rng.choice([1, 2, 3, 4])),
                           "second": second, "skip": None, "scramble": bool(rng.integers(2)), "seed": G.seed(rng)}
    # documented defaults at every size: the default skip is the power of two at or above N, at least 16
    sizes = sorted({int(v) for v in rng.integers(1, 1500, 60)}
                   | {2 ** e + o for e in range(3, 13) for o in (-1, 0, 1, 1 + 2 ** max(0, e - 6))})
    for N in sizes:
        for which in ("saltelli", "sobol"):
            yield {"kind": "sizes", "which": which, "problem": G.problem(rng, 1, group=False, dists=None), "N": N,
                   "second": bool(rng.integers(2)), "skip": None, "scramble": bool(rng.integers(2)), "seed": G.seed(rng)}
    for _ in range(900 if tier == "quick" else 7000):
        D = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20, 33, 60]))
        N = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 128, 130, 256]))
        if D > 20:
            N = min(N, 33)
        which = str(rng.choice(["saltelli", "sobol"]))
        pr = G.problem(rng, D, group=rng.random() < 0.5, dists=True if rng.random() < 0.3 else None)
        far = D <= 4 and rng.random() < 0.05
        if pr.get("dists") and which == "saltelli" and rng.random() < 0.3:
            pr.pop("dists")
            pr["bounds"] = G.ubounds(rng, D)
        skip = None
        if rng.random() < 0.5:
            skip = int(rng.choice([0, 1, 2, 3, 5, 7, 8, 16, 17, 64, 100, 128, 512, 1000, 1024, 1025]))
            if far:
                skip = int(rng.choice([16384, 65536, 65537, 70000, 131072, 200001]))
        yield {"kind": "random", "which": which, "problem": pr, "N": N, "second": bool(rng.integers(2)), "skip": skip,
               "scramble": bool(rng.integers(2)), "seed": int(rng.choice([0, 1, 12345, G.seed(rng)])),
               "generator": bool(rng.random() < 0.3)}


def base_points(case, D):
    from scipy.stats import qmc

    N, skip = case["N"], case["skip"]
    if case["which"] == "saltelli":
        if skip is None:
            p = 1
            while p < N:
                p *= 2
            skip = max(16, p)
        eng = qmc.Sobol(d=2 * D, scramble=False)
    else:
        skip = skip or 0
        seed = np.random.default_rng(case["seed"]) if case.get("generator") else case["seed"]
        eng = qmc.Sobol(d=2 * D, scramble=case["scramble"], seed=seed)
    return eng.random(N + skip)[skip:]


def layout(U, pr, second):
    D = pr["num_vars"]
    A, B = U[:, :D], U[:, D:]
    mem = G.members(pr)
    rows = []
    for i in range(len(U)):
        rows.append(A[i])
        for m in mem:
            r = A[i].copy()
            r[m] = B[i][m]
            rows.append(r)
        if second:
            for m in mem:
                r = B[i].copy()
                r[m] = A[i][m]
                rows.append(r)
        rows.append(B[i])
    return np.array(rows)


def draw(mon, case, pr):
    from SALib.sample import saltelli, sobol

    if case["which"] == "saltelli":
        kw = {} if case["skip"] is None else {"skip_values": case["skip"]}
        return mon.call(saltelli.sample, pr, case["N"], calc_second_order=case["second"], **kw)
    seed = case["seed"]
    if case.get("generator"):
        seed = np.random.default_rng(seed)
    kw = {} if case["skip"] is None else {"skip_values": case["skip"]}
    return mon.call(sobol.sample, pr, case["N"], calc_second_order=case["second"], scramble=case["scramble"],
                    seed=seed, **kw)


def alike(u, v):
    """Same values, up to the last digits that scaling in another order may change."""
    return np.allclose(u, v, rtol=1e-14, atol=0, equal_nan=True)


def run(case, mon):
    pr = case["problem"]
    D, N = pr["num_vars"], case["N"]
    Dg = len(G.ugroups(pr))
    U = base_points(case, D)
    want = layout(U, pr, case["second"])
    unit = G.unit(pr)
    got = draw(mon, case, unit)
    mon.observe(got)
    mon.eq(np.shape(got), (N * ((2 if case["second"] else 1) * Dg + 2), D), "sample shape")
    mon.close(got, want, "unit-cube Saltelli layout (rows x parameters)", rtol=0, atol=1e-9)
    X = draw(mon, case, G.copy(pr))
    mon.observe(X)
    mon.eq(np.shape(X), np.shape(want), "scaled sample shape")
    ref = G.ref_scale(want, pr)
    tol = G.scale_tol(pr)
    fin = np.isfinite(ref)
    mon.ok(np.array_equal(np.isfinite(X), fin), "non-finite values differ from the quantile map")
    err = np.abs(np.where(fin, X, 0) - np.where(fin, ref, 0))
    mon.ok(np.all(err <= tol + 1e-6 * np.abs(np.where(fin, ref, 0))), lambda: f"scaled layout differs by {err.max()}")
    # structure seen in the returned rows themselves (no reference sequence): A/B exchange of exactly one group
    step = len(want) // N
    for i in range(min(N, 8)):
        blk = X[i * step:(i + 1) * step]
        a, b = blk[0], blk[-1]
        for k, m in enumerate(G.members(pr)):
            o = [j for j in range(D) if j not in set(m.tolist())]
            mon.ok(alike(blk[1 + k][m], b[m]) and alike(blk[1 + k][o], a[o]),
                   lambda: f"A_B row {k} of base point {i} does not take exactly group {k} from B")
            if case["second"]:
                mon.ok(alike(blk[1 + Dg + k][m], a[m]) and alike(blk[1 + Dg + k][o], b[o]),
                       lambda: f"B_A row {k} of base point {i} does not take exactly group {k} from A")
    mon.hit(case["which"])
    mon.hit("second" if case["second"] else "first_only")
    if pr.get("groups"):
        mon.hit("grouped")
    if case["skip"]:
        mon.hit("skip")
    if case["skip"] is None and case["which"] == "saltelli":
        mon.hit("default_skip")
    if case["which"] == "sobol":
        mon.hit("scrambled" if case["scramble"] else "unscrambled")
    if pr.get("dists"):
        mon.hit("dists")
    if N % 2:
        mon.hit("odd_N")
