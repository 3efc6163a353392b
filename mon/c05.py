"""C05: Morris trajectories."""
import numpy as np
from . import gen as G

RULE = ("Random problems, groupings, even level counts 2..40, N and seeds: every trajectory returned is walked point by "
        "point (grid membership, exactly one group moves, exact step, every group once); pooled trajectories are tested "
        "for uniform and independent start levels and move orders (significance 1e-9).")
REQUIRED = ["moves", "grouped", "group_mixed_direction", "pool_levels", "pool_orders", "p=2", "bounds", "dists"]


def gen(rng, tier):
    for p in range(2, 42, 2):
        for D in (1, 2, 3, 5, 8):
            yield {"kind": "walk", "problem": G.problem(rng, D, group=rng.random() < 0.5), "N": int(rng.integers(1, 25)),
                   "p": p, "seed": G.seed(rng), "gen": bool(rng.integers(2))}
    for _ in range(500 if tier == "quick" else 5000):
        D = int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 40]))
        p = int(rng.choice([2, 4, 4, 6, 8, 10, 12, 20, 100]))
        pr = G.problem(rng, D, group=rng.random() < 0.6,
                       dists=["unif", "logunif", "triang", "truncnorm"] if rng.random() < 0.25 else None)
        yield {"kind": "walk", "problem": pr, "N": int(rng.choice([1, 2, 3, 4, 7, 10, 50])), "p": p,
               "seed": G.seed(rng), "gen": bool(rng.integers(2))}
    for p, D, grp in [(2, 3, None), (4, 1, None), (4, 3, None), (6, 2, None), (4, 5, ["b", "a", "b", "c", "a"]),
                      (8, 4, ["z", "y", "z", "x"]), (4, 4, None), (10, 2, None), (40, 1, None),
                      (4, 24, None), (6, 60, [f"g{(7 * i) % 31}" for i in range(60)])]:
        pr = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[0, 1]] * D, "groups": grp}
        yield {"kind": "pool", "problem": pr, "N": (12000 if tier == "quick" else 100000) // (1 if D < 20 else 5), "p": p, "seed": G.seed(rng)}


def walk(mon, U, pr, N, p):
    """Check every trajectory; returns (start levels, order of group moves)."""
    D = pr["num_vars"]
    mem = G.members(pr)
    g = len(mem)
    mon.eq(U.shape, (N * (g + 1), D), "shape of the Morris sample")
    mon.ok(U.min() >= -1e-12 and U.max() <= 1 + 1e-12, "sample leaves the unit cube")
    lev = U * (p - 1)
    mon.ok(np.abs(lev - np.rint(lev)).max() < 1e-9, "points off the p-level grid")
    L = np.rint(lev).astype(int).reshape(N, g + 1, D)
    d = np.diff(L, axis=1)
    gi = np.empty(D, int)
    for k, m in enumerate(mem):
        gi[m] = k
    moved = d != 0
    mon.ok(np.all(np.abs(d[moved]) == p // 2), f"a move is not +-p/(2(p-1)) (levels moved {np.unique(np.abs(d[moved]))})")
    order = np.empty((N, g), int)
    for r in range(N):
        for t in range(g):
            ks = np.unique(gi[moved[r, t]])
            mon.ok(len(ks) == 1, f"trajectory {r} step {t} moves {len(ks)} factors/groups")
            mon.ok(moved[r, t][mem[ks[0]]].all(), f"trajectory {r} step {t}: only part of group {ks[0]} moves")
            order[r, t] = ks[0]
        mon.ok(len(set(order[r].tolist())) == g, f"trajectory {r} does not move every factor/group exactly once")
    mon.hit("moves", N * g)
    mixed = sum(1 for m in mem if len(m) > 1 and np.any(np.ptp(np.sign(d.sum(1))[:, m], axis=1) > 0))
    mon.hit("group_mixed_direction", mixed)
    return L[:, 0, :], order


def sample(mon, pr, case):
    from SALib.sample import morris

    seed = np.random.default_rng(case["seed"]) if case.get("gen") else case["seed"]
    return np.asarray(mon.call(morris.sample, pr, case["N"], num_levels=case["p"], seed=seed))


def run(case, mon):
    pr, N, p = case["problem"], case["N"], case["p"]
    U = sample(mon, G.unit(pr), case)
    mon.observe(U)
    start, order = walk(mon, U, pr, N, p)
    g = order.shape[1]
    if case["kind"] == "walk":
        X = sample(mon, G.copy(pr), case)
        ref = G.ref_scale(np.clip(U, 0, 1), pr)
        tol = G.scale_tol(pr) + 1e-7 * np.abs(ref) * bool(pr.get("dists"))
        mon.eq(X.shape, U.shape, "shape")
        mon.ok(np.all(np.abs(X - ref) <= tol), "user-space trajectories are not the scaled grid trajectories")
        mon.hit("bounds")
        if pr.get("groups"):
            mon.hit("grouped")
        if pr.get("dists"):
            mon.hit("dists")
        if p == 2:
            mon.hit("p=2")
        return
    from scipy import stats

    D = pr["num_vars"]
    for j in range(D):
        c = np.bincount(start[:, j], minlength=p)
        pv = stats.chisquare(c).pvalue
        mon.ok(pv > 1e-9, f"start levels of parameter {j} not uniform (p={pv:.1e}, {c.tolist()})")
        for i in range(j):
            tab = np.bincount(start[:, j] * p + start[:, i], minlength=p * p)
            pv = stats.chisquare(tab).pvalue
            mon.ok(pv > 1e-9, f"start levels of parameters {i},{j} not independent (p={pv:.1e})")
        for t in range(g):
            tab = np.bincount(start[:, j] * g + order[:, t], minlength=p * g)
            pv = stats.chisquare(tab).pvalue
            mon.ok(pv > 1e-9, f"move order depends on start level of {j} (p={pv:.1e})")
        if N > 1:  # consecutive trajectories independent
            tab = np.bincount(start[1:, j] * p + start[:-1, j], minlength=p * p)
            mon.ok(stats.chisquare(tab).pvalue > 1e-9, "consecutive trajectories are dependent")
    if D > 2:  # taken together: how many parameters start in the upper half, and how many at each level
        from collections import Counter
        for what, v, q in (("in the upper half", start >= p // 2, 0.5), ("at the lowest level", start == 0, 1 / p)):
            c = Counter(v.sum(1).tolist())
            e = stats.binom.pmf(np.arange(D + 1), D, q) * N
            keep = e >= 5
            obs = np.array([c.get(k, 0) for k in range(D + 1)], float)
            o, x = np.append(obs[keep], obs[~keep].sum()), np.append(e[keep], e[~keep].sum())
            if x[-1] < 5:
                o, x = np.append(o[:-2], o[-2] + o[-1]), np.append(x[:-2], x[-2] + x[-1])
            if len(x) > 1:
                pv = stats.chisquare(o, x * o.sum() / x.sum()).pvalue
                mon.ok(pv > 1e-9, f"number of parameters starting {what} is not binomial (p={pv:.1e}, {obs.astype(int).tolist()})")
    mon.hit("pool_levels")
    if g > 7:  # too many orders to count: place of each group, and place of the next mover
        place = np.argsort(order, axis=1)
        for k in range(g):
            pv = stats.chisquare(np.bincount(place[:, k], minlength=g)).pvalue
            mon.ok(pv > 1e-9, f"group {k} does not move equally often at every step (p={pv:.1e})")
            for i in range(k):
                gap = np.bincount((place[:, k] - place[:, i]) % g, minlength=g)[1:]
                pv = stats.chisquare(gap).pvalue
                mon.ok(pv > 1e-9, f"groups {i},{k} do not move independently of each other (p={pv:.1e})")
        mon.hit("pool_orders")
    elif g > 1:
        from math import factorial

        code = np.zeros(N, int)
        for t in range(g):
            code = code * g + order[:, t]
        u, c = np.unique(code, return_counts=True)
        full = factorial(g)
        c = np.concatenate([c, np.zeros(full - len(c), int)])
        pv = stats.chisquare(c).pvalue
        mon.ok(pv > 1e-9, f"orders of moves not uniform over {full} permutations (p={pv:.1e})")
        mon.hit("pool_orders")
