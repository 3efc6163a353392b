"""C14: DGSM."""
import numpy as np
from . import gen as G

RULE = ("Random problems with uniform bounds, finite-difference designs from the sampler or hand-made (own step per row, "
        "any sign), arbitrary outputs: vi, vi_std and dgsm are recomputed from the actual X and Y; inconsistent sizes and "
        "confidence levels outside (0,1) must raise.")
REQUIRED = ["sampler", "handmade", "size_rejected", "level_rejected", "D=1", "linear_exact"]


def gen(rng, tier):
    for _ in range(1200 if tier == "quick" else 15000):
        D = G.wide(rng, int(rng.choice([1, 2, 3, 4, 5, 8, 12])))
        yield {"kind": str(rng.choice(["sampler", "handmade", "handmade"])),
               "problem": G.problem(rng, D, group=rng.random() < 0.1),
               "N": int(rng.choice([2, 3, 5, 8, 33])), "delta": float(rng.choice([0.01, 0.001, 0.1, -0.02])),
               "y": str(rng.choice(["normal", "linear", "smooth", "int"])), "seed": G.seed(rng),
               "resamples": int(rng.choice([2, 10, 30]))}


def run(case, mon):
    from SALib.analyze import dgsm
    from SALib.sample import finite_diff

    pr, N = case["problem"], case["N"]
    D = pr["num_vars"]
    rng = np.random.default_rng(case["seed"])
    b = np.array(pr["bounds"], float)
    w = b[:, 1] - b[:, 0]
    if case["kind"] == "sampler":
        X = np.asarray(mon.call(finite_diff.sample, G.copy(pr), N, delta=case["delta"]))
        mon.hit("sampler")
    else:
        base = b[:, 0] + rng.uniform(0.1, 0.9, (N, D)) * w
        T = np.repeat(base[:, None, :], D + 1, axis=1)
        for j in range(D):
            T[:, j + 1, j] += rng.choice([-1, 1], N) * rng.uniform(1e-3, 0.1, N) * w[j]
        X = T.reshape(-1, D)
        mon.hit("handmade")
    n = N * (D + 1)
    c = rng.normal(size=D) + 2
    if case["y"] == "normal":
        Y = rng.normal(size=n)
    elif case["y"] == "int":
        Y = rng.integers(-9, 10, n)
    elif case["y"] == "linear":
        Y = ((X - b[:, 0]) / w) @ c
    else:
        Y = np.exp(((X - b[:, 0]) / w) @ c / D) + 3
    T, y = X.reshape(N, D + 1, D), np.asarray(Y, float).reshape(N, D + 1)
    step = np.column_stack([T[:, j + 1, j] - T[:, 0, j] for j in range(D)])
    if np.any(step == 0) or np.ptp(y[:, 0]) == 0:
        return
    S = mon.call(dgsm.analyze, G.copy(pr), X.copy(), Y.copy(), num_resamples=case["resamples"], seed=5)
    mon.observe(np.asarray(S["vi"]))
    g2 = np.column_stack([((y[:, j + 1] - y[:, 0]) / step[:, j]) ** 2 for j in range(D)])
    vi = g2.mean(0)
    mon.close(S["vi"], vi, "vi", rtol=1e-8, atol=0)
    mon.close(S["vi_std"], np.sqrt(((g2 - vi) ** 2).mean(0)), "vi_std", rtol=1e-6, atol=1e-7 * vi.max())
    base = y[:, 0]
    var = ((base - base.mean()) ** 2).mean()
    mon.close(S["dgsm"], vi * w ** 2 / (np.pi ** 2 * var), "dgsm", rtol=1e-7, atol=0)
    mon.eq(list(S["names"]), list(pr["names"]), "names")
    if case["y"] == "linear":
        mon.close(np.asarray(S["vi"]) * w ** 2, c ** 2, "vi of a linear model", rtol=1e-3)
        mon.hit("linear_exact")
    if D == 1:
        mon.hit("D=1")
    for m in (n - 1, n + 1):
        if m % (D + 1):
            mon.raises(RuntimeError, dgsm.analyze, G.copy(pr), X, np.resize(Y, m), num_resamples=2, _what=f"{m} outputs")
            mon.hit("size_rejected")
    for lv in (0, 1, -0.5, 1.2, 95):
        mon.raises(RuntimeError, dgsm.analyze, G.copy(pr), X, Y, num_resamples=2, conf_level=lv, _what=f"level {lv}")
        mon.hit("level_rejected")
