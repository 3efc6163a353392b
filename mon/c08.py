"""C08: finite-difference (DGSM) samples."""
import numpy as np
from . import gen as G

RULE = ("Random problems with bounds of any sign and magnitude (and non-uniform distributions), N, relative steps "
        "(tiny, negative, so large that they clip) and skips: every block is compared with the scaled Sobol' base point "
        "plus one clipped step per parameter, in order.")
REQUIRED = ["base", "steps", "clipped_hi", "clipped_lo", "negative_bounds", "skip", "dists", "seed_free"]


def gen(rng, tier):
    for _ in range(900 if tier == "quick" else 9000):
        D = G.wide(rng, int(rng.choice([1, 2, 3, 4, 5, 8, 12, 20])))
        pr = G.problem(rng, D, dists=True if rng.random() < 0.3 else None, group=rng.random() < 0.1)
        yield {"kind": "fd", "problem": pr, "N": int(rng.choice([1, 2, 3, 5, 8, 13, 32])),
               "delta": float(rng.choice([0.01, 0.01, 0.001, 1e-6, 0.1, 0.5, 2.0, -0.01, -0.5])),
               "skip": None if rng.random() < 0.4 else int(rng.choice([0, 1, 2, 7, 16, 100, 1000, 1025])),
               "seed": int(rng.choice([0, 1, G.seed(rng)]))}


def run(case, mon):
    from scipy.stats import qmc
    from SALib.sample import finite_diff

    pr, N, delta = case["problem"], case["N"], case["delta"]
    D = pr["num_vars"]
    kw = {} if case["skip"] is None else {"skip_values": case["skip"]}
    skip = 1024 if case["skip"] is None else case["skip"]
    X = np.asarray(mon.call(finite_diff.sample, G.copy(pr), N, delta=delta, seed=case["seed"], **kw))
    mon.observe(X)
    mon.eq(X.shape, (N * (D + 1), D), "shape")
    U = qmc.Sobol(d=D, scramble=False).random(skip + N)[skip:]
    dists = pr.get("dists") or ["unif"] * D
    blk = X.reshape(N, D + 1, D)
    base = blk[:, 0, :]
    for j in range(D):
        b = pr["bounds"][j]
        ref = G.ref_quantile(U[:, j], dists[j], b)
        fin = np.isfinite(ref)
        tol = 1e-9 * max(abs(float(v)) for v in b) if dists[j] == "unif" else 1e-7 * np.abs(np.where(fin, ref, 0)) + 1e-7
        mon.ok(np.array_equal(np.isfinite(base[:, j]), fin) and np.all(np.abs(np.where(fin, base[:, j] - ref, 0)) <= tol),
               f"base points of parameter {j} are not the scaled Sobol' points after {skip} skipped")
    mon.hit("base")
    inf = float("inf")
    for j in range(D):
        b = pr["bounds"][j]
        lo, hi = {"unif": (b[0], b[1]), "logunif": (b[0], b[1]), "truncnorm": (b[0], b[1]),
                  "triang": (b[0], b[1]) if len(b) == 3 else (0, b[0]), "norm": (-inf, inf), "lognorm": (0, inf),
                  "weibull": (b[2] if len(b) == 3 else 0, inf)}[dists[j]]
        x0 = base[:, j]
        raw = x0 + x0 * delta
        want = np.clip(raw, lo, hi)
        got = blk[:, 1 + j, j]
        fin = np.isfinite(x0)
        tol = 1e-12 * np.abs(want[fin]) + 1e-300
        mon.ok(np.all(np.abs(got[fin] - want[fin]) <= tol),
               lambda: f"step of parameter {j} ({dists[j]} {b}): x0={x0[fin][0]!r}, got {got[fin].tolist()[:3]}, "
                       f"expected {want[fin].tolist()[:3]}")
        if dists[j] == "unif":
            mon.ok(np.all(got >= lo) and np.all(got <= hi), "a stepped row leaves the bounds")
        oth = [i for i in range(D) if i != j]
        mon.ok(np.allclose(blk[:, 1 + j][:, oth], base[:, oth], rtol=1e-14, atol=0, equal_nan=True), f"row {1 + j} of a block changes another parameter too")
        if np.any(raw > hi):
            mon.hit("clipped_hi")
        if np.any(raw < lo):
            mon.hit("clipped_lo")
        if lo < 0 and dists[j] == "unif":
            mon.hit("negative_bounds")
    mon.hit("steps", N * D)
    Z = np.asarray(mon.call(finite_diff.sample, G.copy(pr), N, delta=delta, **kw))
    mon.same(Z, X, "design with and without a seed")
    mon.hit("seed_free")
    if case["skip"] is not None:
        mon.hit("skip")
    if pr.get("dists"):
        mon.hit("dists")
