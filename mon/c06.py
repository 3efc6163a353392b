"""C06: optimised Morris designs."""
from itertools import combinations

import numpy as np
from . import gen as G

RULE = ("Random pools small enough to enumerate: the optimised sample is matched as whole trajectories against the pool "
        "the same seed gives without optimisation, and its spread (float64 reference) is compared with the maximum over "
        "all k-subsets (brute force) or with an independent, tie-aware run of Ruano's local search.")
REQUIRED = ["brute", "local", "grouped", "local_exact", "rejected", "ties", "big_local", "scaled"]


def gen(rng, tier):
    n = 420 if tier == "quick" else 5000
    for i in range(n):
        local = i % 2 == 0
        D = G.wide(rng, int(rng.choice([1, 2, 3, 4, 5, 7])))
        pr = G.problem(rng, D, group=rng.random() < 0.5,
                       dists=["unif", "logunif", "triang", "truncnorm"] if rng.random() < 0.15 else None)
        N = int(rng.integers(3, 13))
        k = int(rng.integers(2, N)) if local else int(rng.integers(2, min(N, 11)))
        yield {"kind": "opt", "problem": pr, "N": N, "k": k, "p": int(rng.choice([2, 4, 4, 6, 8])), "local": local,
               "seed": int(rng.choice([0, 3, G.seed(rng)]))}
    for i in range(24 if tier == "quick" else 200):
        D = int(rng.choice([3, 5, 8, 15]))
        yield {"kind": "opt", "problem": G.problem(rng, D, group=rng.random() < 0.5), "N": int(rng.choice([20, 30, 40])),
               "k": int(rng.choice([2, 3, 4, 6, 10, 15, 19])), "p": int(rng.choice([4, 6])), "local": True, "seed": G.seed(rng)}
    for N, k in ((30, 27), (40, 28), (45, 33), (60, 20), (34, 32)) if tier == "quick" else ((30, 27), (40, 28), (45, 33), (60, 20), (34, 32), (70, 45), (90, 30), (50, 49)):
        yield {"kind": "opt", "problem": G.problem(rng, int(rng.choice([3, 5])), group=rng.random() < 0.3), "N": N, "k": k,
               "p": 6, "local": True, "seed": G.seed(rng)}
    for i in range(6 if tier == "quick" else 40):
        yield {"kind": "opt", "problem": G.problem(rng, int(rng.choice([2, 4, 6])), group=rng.random() < 0.5),
               "N": int(rng.choice([20, 25, 50])), "k": int(rng.choice([2, 3])), "p": 4, "local": False, "seed": G.seed(rng)}
    # more subsets than are scored at once (up to millions)
    for N, k in ((80, 3), (34, 4), (23, 6), (30, 5)) if tier == "quick" else ((80, 3), (34, 4), (23, 6), (30, 5), (215, 3), (24, 7), (20, 10), (72, 4)):
        yield {"kind": "opt", "problem": G.problem(rng, int(rng.choice([2, 4, 6])), group=rng.random() < 0.3),
               "N": N, "k": k, "p": 6, "local": False, "seed": G.seed(rng)}
    for local in (True, False):
        for N in (3, 4, 8):
            bad = [1, N, N + 1, N + 5, -1, 2.5, 2.0, "2"]
            if not local:
                bad = [1, N, N + 1, -1, 2.5]
            for k in bad:
                yield {"kind": "reject", "N": N, "k": k, "local": local, "D": int(rng.integers(1, 4)), "seed": 1}
    for k in (11, 12, 15):
        yield {"kind": "reject", "N": 20, "k": k, "local": False, "D": 3, "seed": 1}


def dist_matrix(T):
    """Sum of Euclidean distances between all point pairs of two trajectories (0 when identical)."""
    n = len(T)
    d = np.zeros((n, n))
    for a in range(n):
        for b in range(a):
            if not np.array_equal(T[a], T[b]):
                d[a, b] = d[b, a] = np.sqrt(((T[a][:, None, :] - T[b][None, :, :]) ** 2).sum(-1)).sum()
    return d


def score(idx, d):
    return np.sqrt(sum(d[a, b] ** 2 for a, b in combinations(idx, 2)))


def tails(D2, head, s, lo, k):
    """Largest sum of squared distances of the k-subsets starting with each `head`."""
    n = len(D2)
    left = k - len(head)
    if left == 2:  # the last two at once
        if n - lo < 2:
            return
        gain = D2[list(head), lo:].sum(0) if head else np.zeros(n - lo)
        both = D2[lo:, lo:] + gain[:, None] + gain[None, :]
        yield s + both[np.triu_indices(n - lo, 1)].max()
        return
    for i in range(lo, n - left + 1):
        yield from tails(D2, head + (i,), s + sum(D2[j, i] for j in head), i + 1, k)


REL = 3e-6  # float32 distances inside the library


def local_bounds(d, k, cap=400):
    """Set of scores reachable by Ruano's local search for every way of breaking near-ties.
    Returns (lowest, highest) or None when there are too many ways."""
    n = len(d)
    lows, highs = [], []

    def best_sets(cands):
        sc = np.array([score(c, d) for c in cands])
        m = sc.max()
        return [c for c, s in zip(cands, sc) if s >= m * (1 - REL) - 1e-9]

    for i in range(1, k):
        cands, floor = set(), -np.inf
        for r in range(n):
            mine = set()
            o = np.argsort(d[r])[::-1]
            cut = d[r][o[i - 1]]
            sure = [int(x) for x in o if d[r][x] > cut * (1 + REL) + 1e-9]
            tied = [int(x) for x in o if abs(d[r][x] - cut) <= cut * REL + 1e-9]
            need = i - len(sure)
            if need < 0 or len(tied) > 12:
                return None
            for extra in combinations(tied, need):
                mine.add(tuple(sorted(sure + list(extra) + [r])))
            if len(mine) > cap:
                return None
            # a row offers one of its tied sets: the winner is at least as good as the worst one of every row
            floor = max(floor, min(score(c, d) for c in mine))
            cands |= mine
            if len(cands) > 3 * cap:
                return None
        front = sorted(c for c in cands if score(c, d) >= floor * (1 - REL) - 1e-9)
        if len(front) > cap:
            return None
        for _ in range(k - i - 1):
            nxt = set()
            for f in front:
                for x in best_sets([tuple(sorted(f + (j,))) for j in range(n) if j not in f]):
                    nxt.add(x)
            front = sorted(nxt)
            if len(front) > cap:
                return None
        sc = [score(f, d) for f in front]
        lows.append(min(sc))
        highs.append(max(sc))
    return max(lows), max(highs)


def run(case, mon):
    from SALib.sample import morris

    if case["kind"] == "reject":
        pr = {"num_vars": case["D"], "names": [f"x{i}" for i in range(case["D"])], "bounds": [[0, 1]] * case["D"]}
        mon.raises((ValueError, AssertionError, TypeError), morris.sample, pr, case["N"],
                   optimal_trajectories=case["k"], local_optimization=case["local"], seed=1,
                   _what=f"morris.sample(N={case['N']}, optimal_trajectories={case['k']!r}, local={case['local']})")
        mon.observe(case["k"], case["N"], case["local"])
        mon.hit("rejected")
        return
    pr, N, k, p, local = case["problem"], case["N"], case["k"], case["p"], case["local"]
    unit = G.unit(pr)
    pool = np.asarray(mon.call(morris.sample, G.copy(unit), N, num_levels=p, seed=case["seed"]))
    opt = np.asarray(mon.call(morris.sample, G.copy(unit), N, num_levels=p, optimal_trajectories=k,
                              local_optimization=local, seed=case["seed"]))
    mon.observe(opt)
    g = len(G.members(pr))
    D = pr["num_vars"]
    mon.eq(opt.shape, (k * (g + 1), D), "shape of the optimised sample")
    T = pool.reshape(N, g + 1, D)
    O = opt.reshape(k, g + 1, D)
    avail = list(range(N))
    picked = []
    for t in range(k):
        f = [i for i in avail if np.array_equal(T[i], O[t])]
        mon.ok(f, f"optimised trajectory {t} is not an (unused) trajectory of the pool")
        picked.append(f[0])
        avail.remove(f[0])
    d = dist_matrix(T)
    if len(np.unique(d[np.tril_indices(N, -1)].round(5))) < N * (N - 1) // 2:
        mon.hit("ties")
    got = score(picked, d)
    X = np.asarray(mon.call(morris.sample, G.copy(pr), N, num_levels=p, optimal_trajectories=k,
                            local_optimization=local, seed=case["seed"]))
    ref = G.ref_scale(np.clip(opt, 0, 1), pr)
    mon.eq(X.shape, ref.shape, "shape")
    mon.ok(np.all(np.abs(X - ref) <= G.scale_tol(pr) + 1e-7 * np.abs(ref) * bool(pr.get("dists"))),
           "bounds/distributions change which trajectories are chosen")
    mon.hit("scaled")
    if pr.get("groups"):
        mon.hit("grouped")
    if N <= 12 or not local:
        best = -1.0
        D2 = d ** 2
        if k == 2:
            best = d.max()
        elif k == 3 and N > 12:
            best = max(np.sqrt(D2[a, b] + (D2[a] + D2[b])[b + 1:].max(initial=-np.inf)) if b + 1 < N else -1
                       for a in range(N) for b in range(a + 1, N))
        else:
            best = np.sqrt(max(tails(D2, (), 0.0, 0, k)))
        mon.ok(got <= best * (1 + 1e-5) + 1e-9, "harness bug: better than the maximum")
        if not local:
            mon.ok(got >= best * (1 - 1e-5) - 1e-9,
                   f"brute force chose a set of spread {got:.6f}, maximum over all {k}-subsets is {best:.6f}")
            mon.hit("brute")
    if local:
        mon.hit("local")
        if N > 12:
            mon.hit("big_local")
        b = local_bounds(d, k)
        if b is None:
            return
        lo, hi = b
        mon.ok(lo * (1 - 1e-5) - 1e-9 <= got <= hi * (1 + 1e-5) + 1e-9,
               f"local search chose a set of spread {got:.6f}; Ruano's procedure reaches between {lo:.6f} and {hi:.6f}")
        mon.hit("local_exact")
