"""C04: Latin hypercube stratification."""
import numpy as np
from . import gen as G

RULE = ("All N in 1..64 (plus random large N) against random D, groupings, bounds and distributions, checking one point "
        "per stratum and identical within-group positions in every row; pooled draws over many seeds are tested for "
        "uniform, independent permutations and jitter (significance 1e-9).")
REQUIRED = ["strata", "grouped", "singleton_groups", "one_group", "pooled_perm", "pooled_jitter", "N=1", "big_N", "dists", "mixed"]


def gen(rng, tier):
    for N in range(1, 65):
        for _ in range(2 if tier == "quick" else 10):
            D = int(rng.integers(1, 9))
            pr = G.problem(rng, D, group=rng.random() < 0.5, dists=True if rng.random() < 0.4 else None)
            if rng.random() < 0.15:
                pr["groups"] = ["one"] * D
            yield {"kind": "strata", "problem": pr, "N": N, "seed": G.seed(rng), "gen": bool(rng.integers(2))}
    for _ in range(200 if tier == "quick" else 1500):
        D = int(rng.choice([1, 2, 3, 7, 12, 30, 75]))
        N = int(np.exp(rng.uniform(np.log(65), np.log(20000 if D < 10 else 2000))))
        pr = G.problem(rng, D, group=rng.random() < 0.5, dists=True if rng.random() < 0.4 else None)
        if rng.random() < 0.2:
            pr["groups"] = [f"s{i}" for i in rng.permutation(D)]
        yield {"kind": "strata", "problem": pr, "N": N, "seed": G.seed(rng), "gen": bool(rng.integers(2))}
    for N in (20000, 70001) if tier == "quick" else (20000, 33000, 70001, 140000, 300000):
        yield {"kind": "strata", "problem": G.problem(rng, 2, group=False, dists=None), "N": N, "seed": G.seed(rng), "gen": False}
        yield {"kind": "strata", "problem": {"num_vars": 3, "names": list("pqr"), "bounds": [[0, 1]] * 3, "groups": ["g", "h", "g"]},
               "N": N, "seed": G.seed(rng), "gen": False}
    for D, grp in [(2, None), (3, None), (4, ["a", "b", "a", "c"]), (5, ["y", "x", "y", "x", "z"]), (6, None)]:
        for N in (1, 2, 3, 4):
            yield {"kind": "pool", "problem": {"num_vars": D, "names": [f"x{i}" for i in range(D)],
                   "bounds": [[0, 1]] * D, "groups": grp}, "N": N, "seed": G.seed(rng),
                   "reps": 3000 if tier == "quick" else 30000}


def sample(mon, pr, N, seed, gen=False):
    from SALib.sample import latin

    return np.asarray(mon.call(latin.sample, pr, N, seed=np.random.default_rng(seed) if gen else seed))


def run(case, mon):
    pr, N = case["problem"], case["N"]
    D = pr["num_vars"]
    mem = G.members(pr)
    if case["kind"] == "strata":
        U = sample(mon, G.unit(pr), N, case["seed"], case["gen"])
        X = sample(mon, G.copy(pr), N, case["seed"], case["gen"])
        mon.observe(X)
        mon.eq(U.shape, (N, D), "shape")
        mon.eq(X.shape, (N, D), "shape")
        k = np.arange(N)[:, None]
        s = np.sort(U, axis=0)
        mon.ok(np.all(s >= k / N - 1e-12) and np.all(s <= (k + 1) / N + 1e-12),
               lambda: f"N={N}: column {np.argmax(((s < k / N - 1e-12) | (s > (k + 1) / N + 1e-12)).any(0))} "
                       "does not have exactly one point per stratum")
        mon.hit("strata", D)
        for m in mem:
            mon.ok(np.all(U[:, m] == U[:, m[:1]]), f"members {m.tolist()} of one group do not move together")
        # ranks of the user-space sample are those of the unit design
        for j in range(D):
            o = np.argsort(U[:, j], kind="stable")
            mon.ok(np.all(np.diff(X[o, j]) >= 0), f"column {j}: user-space ranks differ from the design")
        # strata in user space, through the reference quantiles of the stratum edges
        dists = pr.get("dists") or ["unif"] * D
        xs = np.sort(X, axis=0)
        for j in range(D):
            lo = G.ref_quantile(np.arange(N) / N, dists[j], pr["bounds"][j])
            hi = G.ref_quantile((np.arange(N) + 1) / N, dists[j], pr["bounds"][j])
            e = 1e-7 * (np.where(np.isfinite(lo), np.abs(lo), 0) + np.where(np.isfinite(hi), np.abs(hi), 0)) + 1e-12
            mon.ok(np.all(xs[:, j] >= lo - e) and np.all(xs[:, j] <= hi + e),
                   f"column {j} ({dists[j]}): not one point in every equal-probability stratum")
        ug = len(mem)
        if pr.get("groups"):
            mon.hit("grouped")
            if ug == D:
                mon.hit("singleton_groups")
            if ug == 1:
                mon.hit("one_group")
        if pr.get("dists"):
            mon.hit("dists")
        if N == 1:
            mon.hit("N=1")
        if N > 64:
            mon.hit("big_N")
        if N >= 200:  # order of the rows, and of one group relative to another, is that of random permutations
            reps = [m[0] for m in mem][:6]
            st = np.column_stack([np.arange(N)] + [np.argsort(np.argsort(U[:, r])) for r in reps])
            for q in (8, 3):
                cell = st * q // N
                for a in range(st.shape[1]):
                    for b in range(a):
                        tab = np.bincount(cell[:, a] * q + cell[:, b], minlength=q * q).reshape(q, q)
                        e = np.outer(tab.sum(1), tab.sum(0)) / N
                        x2 = ((tab - e) ** 2 / e).sum()
                        df = (q - 1) ** 2
                        mon.ok(x2 < df + 12 * np.sqrt(2 * df) + 40, lambda: f"N={N}: {'rows' if b == 0 else 'group ' + str(b - 1)} and "
                               f"group {a - 1} are not permuted independently (chi-square {x2:.1f} on {df} degrees of freedom)")
            mon.hit("mixed")
        if ug > 1 and N >= 30:  # different groups must not share positions
            reps = [m[0] for m in mem]
            st = np.floor(U[:, reps] * N)
            for a in range(ug):
                for b in range(a):
                    mon.ok(not np.array_equal(st[:, a], st[:, b]), "two groups share one permutation")
                    mon.ok(not np.any(U[:, reps[a]] == U[:, reps[b]]), "two groups share a value")
        return
    # pooled statistics
    from itertools import permutations
    from scipy import stats

    base = np.random.default_rng(case["seed"])
    reps = [m[0] for m in mem]
    R = case["reps"]
    perms = {p: i for i, p in enumerate(permutations(range(N)))}
    P = np.empty((R, len(reps)), int)
    J = np.empty((R, N, len(reps)))
    for r in range(R):
        U = sample(mon, G.copy(pr), N, int(base.integers(2**40)))[:, reps]
        st = np.minimum(np.floor(U * N).astype(int), N - 1)
        for c in range(len(reps)):
            key = tuple(st[:, c].tolist())
            mon.ok(key in perms, "strata are not a permutation")
            P[r, c] = perms[key]
        J[r] = U * N - st
    mon.observe(P, J)
    K = len(perms)
    for c in range(len(reps)):
        cnt = np.bincount(P[:, c], minlength=K)
        pv = stats.chisquare(cnt).pvalue if K > 1 else 1.0
        mon.ok(pv > 1e-9, f"column {c}: permutations not uniform (p={pv:.2e}, counts {cnt.tolist()})")
        for b in range(c):
            tab = np.bincount(P[:, c] * K + P[:, b], minlength=K * K)
            if K > 1 and R / (K * K) >= 5:
                pv = stats.chisquare(tab).pvalue
                mon.ok(pv > 1e-9, f"columns {b},{c}: permutations not independent (p={pv:.2e})")
        for i in range(N):
            pv = stats.kstest(J[:, i, c], "uniform").pvalue
            mon.ok(pv > 1e-9, f"column {c}: jitter within stratum not uniform (p={pv:.2e})")
    mon.hit("pooled_perm")
    F = J.reshape(R, -1)
    C = np.corrcoef(F.T)
    np.fill_diagonal(C, 0)
    mon.ok(np.abs(C).max() < 6.5 / np.sqrt(R), f"jitters are correlated ({np.abs(C).max():.3f})")
    mon.hit("pooled_jitter")
