"""C07: eFAST search curves."""
import math

import numpy as np
from . import gen as G

RULE = ("All M in 1..8 with N from the minimum up, D from 1 to 70 (so that complementary frequencies are spread or "
        "cycled), random seeds: the block phase is recovered from the sample's first row and the whole block compared "
        "with the documented curve; recovered phases are pooled over seeds and tested for uniformity/independence.")
REQUIRED = ["spread", "cycled", "rejected", "pool", "min_N", "M!=4", "generator", "scaled"]


def gen(rng, tier):
    for M in range(1, 9):
        for extra in (1, 2, 3, 50):
            for D in (1, 2, 3, 6, 12):
                yield {"kind": "curve", "D": D, "M": M, "N": 4 * M * M + extra, "seed": G.seed(rng), "gen": False}
    for _ in range(500 if tier == "quick" else 5000):
        M = int(rng.choice([1, 2, 3, 4, 4, 5, 6, 8, 10]))
        D = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 25, 40, 70]))
        N = 4 * M * M + int(rng.integers(1, 1500 if D < 20 else 300))
        yield {"kind": "curve", "D": D, "M": M, "N": N, "seed": int(rng.choice([0, 7, G.seed(rng)])),
               "gen": bool(rng.integers(2))}
    for M in range(1, 9):
        for N in (4 * M * M, 4 * M * M - 1, 2 * M, 1):
            yield {"kind": "reject", "D": int(rng.integers(1, 5)), "M": M, "N": N}
    yield {"kind": "reject", "D": 3, "M": None, "N": 64}
    for D in (1, 2, 4):
        yield {"kind": "pool", "D": D, "M": 2, "N": 17, "reps": 6000 if tier == "quick" else 60000, "seed": G.seed(rng)}


def freqs(N, M, D):
    w0 = (N - 1) // (2 * M)
    m = w0 // (2 * M)
    if m >= D - 1:
        rest = [int(math.floor(v)) for v in np.linspace(1, m, D - 1)]
    else:
        rest = [j % m + 1 for j in range(D - 1)]
    return w0, rest


def curve(w, N, phi):
    s = 2 * math.pi / N * np.arange(N)
    return 0.5 + np.arcsin(np.sin(np.outer(s, w) + phi)) / math.pi


def phase(mon, blk, w, N, what):
    a = math.asin(max(-1.0, min(1.0, math.sin(math.pi * (blk[0, 0] - 0.5)))))
    cand = [a % (2 * math.pi), (math.pi - a) % (2 * math.pi)]
    errs = [np.abs(blk - curve(w, N, c)).max() for c in cand]
    k = int(np.argmin(errs))
    mon.ok(errs[k] < 1e-6, lambda: f"{what}: rows do not follow the search curve for frequencies {w} "
                                   f"(best max deviation {errs[k]:.2e})")
    return cand[k]


def sample(mon, pr, case, seed):
    from SALib.sample import fast_sampler

    return np.asarray(mon.call(fast_sampler.sample, pr, case["N"], M=case["M"], seed=seed))


def run(case, mon):
    from SALib.sample import fast_sampler

    D, M, N = case["D"], case["M"], case["N"]
    unit = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[0, 1]] * D}
    if case["kind"] == "reject":
        kw = {} if M is None else {"M": M}
        mon.raises(ValueError, fast_sampler.sample, unit, N, _what=f"fast_sampler.sample(N={N}, M={M})", **kw)
        mon.observe(N, M)
        mon.hit("rejected")
        return
    w0, rest = freqs(N, M, D)

    def phases(seed):
        X = sample(mon, G.copy(unit), case, seed)
        mon.eq(X.shape, (N * D, D), "shape")
        out = []
        for i in range(D):
            w = rest[:i] + [w0] + rest[i:]
            out.append(phase(mon, X[i * N:(i + 1) * N], np.array(w), N, f"block {i}"))
        return X, out

    if case["kind"] == "pool":
        from scipy import stats

        base = np.random.default_rng(case["seed"])
        P = np.array([phases(int(base.integers(2**40)))[1] for _ in range(case["reps"])])
        mon.observe(P)
        for j in range(D):
            pv = stats.kstest(P[:, j] / (2 * math.pi), "uniform").pvalue
            mon.ok(pv > 1e-9, f"phase of block {j} not uniform on [0, 2 pi) (p={pv:.1e})")
            for i in range(j):
                tab = np.bincount((P[:, i] / (2 * math.pi) * 8).astype(int) * 8 + (P[:, j] / (2 * math.pi) * 8).astype(int),
                                  minlength=64)
                pv = stats.chisquare(tab).pvalue
                mon.ok(pv > 1e-9, f"phases of blocks {i},{j} not independent (p={pv:.1e})")
        mon.hit("pool")
        return
    seed = np.random.default_rng(case["seed"]) if case["gen"] else case["seed"]
    X, ph = phases(seed)
    mon.observe(X)
    if D > 1:
        mon.ok(len({round(v, 9) for v in ph}) == D, "blocks share a phase")
    rng = np.random.default_rng([case["seed"], D])
    pr = {"num_vars": D, "names": unit["names"], "bounds": G.ubounds(rng, D)}
    Y = sample(mon, G.copy(pr), case, np.random.default_rng(case["seed"]) if case["gen"] else case["seed"])
    ref = G.ref_scale(X, pr)
    mon.ok(np.all(np.abs(Y - ref) <= G.scale_tol(pr)), "scaled curve differs from the affine image of the unit curve")
    mon.hit("scaled")
    m = w0 // (2 * M)
    mon.hit("spread" if m >= D - 1 else "cycled")
    if N == 4 * M * M + 1:
        mon.hit("min_N")
    if M != 4:
        mon.hit("M!=4")
    if case["gen"]:
        mon.hit("generator")
