"""C31: sample - evaluate - analyze against analytically known indices."""
import itertools
import os

import numpy as np
from scipy import stats
from scipy.special import ndtri
from . import gen as G

RULE = ("Random models Y = c + sum over parameter subsets t of c_t prod_{j in t} g_j(F_j(x_j)), g_j orthonormal functions of the quantile of the "
        "input under its declared distribution (so every Sobol' index of every parameter and group is known exactly), with random bounds, "
        "distributions, groups, inert parameters and options, run through every sampler/analyzer pair (functions or ProblemSpec chain); "
        "estimates must lie within 9 standard errors (own Monte Carlo of the estimator's summands) or the calibrated bias bound of the method; "
        "Morris, DGSM, PAWN, delta and RSA against exact enumeration, derivatives and large-sample references. Ishigami, the G-function and "
        "linear models of SALib.test_functions are included.")
PAIRS = ["sobol:sobol", "saltelli:sobol", "fast_sampler:fast", "latin:rbd_fast", "latin:delta", "morris:morris",
         "finite_diff:dgsm", "ff:ff", "latin:pawn", "latin:rsa", "latin:discrepancy", "latin:hdmr", "latin:enhanced_hdmr"]
REQUIRED = PAIRS + ["groups", "dists", "chain", "inert", "second", "ishigami", "sobol_g", "converges", "optimal"]
CASE_LIMIT = 200
TECHNIQUE = "runtime monitoring: complete sample-evaluate-analyze runs on random models with exact analytic indices, judged at calibrated error bounds"
BOUNDED = ["unif", "logunif", "triang", "triang2", "truncnorm"]
MILD = ["unif", "triang", "triang2", "norm", "truncnorm"]  # delta's equal-width classes fail on long tails
LOG = None  # calibration: list of (what, error / tolerance)


def gen(rng, tier):
    n = 10 if tier == "quick" else 150
    heavy = {"latin:hdmr", "latin:enhanced_hdmr", "latin:delta"}
    for _ in range(n):
        for p in PAIRS:
            for _ in range(1 if p in heavy else 4):
                D = int(rng.choice([2, 3, 4, 5])) if p not in ("latin:hdmr",) else int(rng.choice([2, 3]))
                grp = p in ("sobol:sobol", "saltelli:sobol", "morris:morris") and rng.random() < 0.4
                di = rng.random() < 0.6 and p not in ("finite_diff:dgsm", "ff:ff", "latin:hdmr", "latin:enhanced_hdmr")
                pr = G.problem(rng, D, group=grp, dists=(BOUNDED if p == "morris:morris" else MILD if p == "latin:delta" else True) if di else None,
                               style=None)
                yield {"kind": "pair", "pair": p, "problem": pr, "N": int(rng.choice([1, 2, 4])), "seed": G.seed(rng), "sseed": G.seed(rng),
                       "chain": bool(rng.random() < 0.4), "so": bool(rng.random() < 0.5)}
        for f in ("ishigami", "sobol_g", "sobol_g2"):
            yield {"kind": f, "seed": G.seed(rng), "sseed": G.seed(rng), "chain": bool(rng.random() < 0.5), "D": int(rng.integers(2, 9))}
        yield {"kind": "converges", "problem": G.problem(rng, 3, dists=True), "seed": G.seed(rng), "sseed": G.seed(rng)}


# ------------------------------------------------------------------ models
def ref_cdf(x, dist, b):
    if dist == "unif":
        return (x - b[0]) / (b[1] - b[0])
    if dist == "logunif":
        return (np.log(x) - np.log(b[0])) / (np.log(b[1]) - np.log(b[0]))
    if dist == "triang":
        lo, hi, c = (b[0], b[1], b[2]) if len(b) == 3 else (0.0, b[0], b[1])
        return stats.triang.cdf(x, c, loc=lo, scale=hi - lo)
    if dist == "norm":
        return stats.norm.cdf(x, b[0], b[1])
    if dist == "truncnorm":
        lo, hi, m, s = b
        return stats.truncnorm.cdf(x, (lo - m) / s, (hi - m) / s, loc=m, scale=s)
    if dist == "lognorm":
        return stats.norm.cdf(np.log(x), b[0], b[1])
    if dist == "weibull":
        loc = b[2] if len(b) == 3 else 0.0
        return 1 - np.exp(-(((x - loc) / b[1]) ** b[0]))


def quantiles(X, pr):
    d = pr.get("dists") or ["unif"] * pr["num_vars"]
    return np.clip(np.column_stack([ref_cdf(X[:, j], d[j], pr["bounds"][j]) for j in range(pr["num_vars"])]), 0, 1)


GFUN = {"lin": lambda u: np.sqrt(12) * (u - 0.5), "quad": lambda u: np.sqrt(5) * (6 * u * u - 6 * u + 1),
        "cos": lambda u: np.sqrt(2) * np.cos(2 * np.pi * u), "step": lambda u: np.where(u < 0.5, -1.0, 1.0)}


class Model:
    def __init__(self, rng, D, kinds, terms2=0.5, inert=0.3, terms3=0.0):
        self.D = D
        self.g = [str(rng.choice(kinds)) for _ in range(D)]
        act = [j for j in range(D) if rng.random() > inert] or [int(rng.integers(D))]
        self.act = act
        self.c = {}
        for j in act:
            self.c[(j,)] = float(rng.choice([-1, 1]) * rng.uniform(0.3, 1.5))
        for t in itertools.combinations(act, 2):
            if rng.random() < terms2:
                self.c[t] = float(rng.choice([-1, 1]) * rng.uniform(0.2, 1.0))
        for t in itertools.combinations(act, 3):
            if rng.random() < terms3:
                self.c[t] = float(rng.uniform(0.2, 0.8))
        self.c0 = float(rng.choice([0.0, 1.0, -20.0]))
        self.scale = float(rng.choice([1.0, 1.0, 1e-3, 1e4]))
        self.V = sum(v * v for v in self.c.values())

    def u(self, U):
        z = [GFUN[k](U[:, j]) for j, k in enumerate(self.g)]
        return self.scale * (self.c0 + sum(v * np.prod([z[j] for j in t], axis=0) for t, v in self.c.items()))

    def part(self, keep):
        """Share of the variance in the subsets selected."""
        return sum(v * v for t, v in self.c.items() if keep(set(t))) / self.V


def indices(m, mem):
    sets = [set(int(v) for v in g) for g in mem]
    S1 = np.array([m.part(lambda t: t <= s) for s in sets])
    ST = np.array([m.part(lambda t: bool(t & s)) for s in sets])
    S2 = np.full((len(sets),) * 2, np.nan)
    for a, b in itertools.combinations(range(len(sets)), 2):
        S2[a, b] = m.part(lambda t: t <= sets[a] | sets[b] and not t <= sets[a] and not t <= sets[b])
    return S1, ST, S2


def within(mon, what, got, want, tol):
    got, want, tol = np.asarray(got, float), np.asarray(want, float), np.broadcast_to(np.asarray(tol, float), np.shape(want))
    mon.eq(got.shape, want.shape, f"{what}: shape")
    k = ~np.isnan(want)
    e = np.abs(got - want)
    if LOG is not None:
        LOG.append((what.split(" [")[0], float(np.max(e[k] / tol[k])) if k.any() else 0.0))
        return
    mon.ok(np.all(e[k] <= tol[k]), lambda: f"{what}: estimates {np.array2string(got[k], precision=4)}, exact values "
           f"{np.array2string(want[k], precision=4)}, accepted error {np.array2string(tol[k], precision=3)}")
    mon.observe(got[k], want[k])


# ------------------------------------------------------------------ running a pipeline
def pipeline(mon, case, pr, f, sampler, analyzer, N, skw, akw, X_needed=True):
    """-> (X, Y, result)"""
    import SALib.analyze  # noqa
    from SALib import ProblemSpec
    from . import samplers, entry

    skw = dict(skw)
    if sampler in samplers.SEEDED:
        skw["seed"] = case["sseed"] % 100000
    akw = dict(akw, seed=case["seed"] % 100000)
    pos = [] if sampler == "ff" else [N]
    if case.get("chain") and sampler != "ff":
        sp = mon.call(ProblemSpec, G.copy(pr))
        seen = []

        def model(X):
            seen.append(np.array(X))
            return f(X)

        mon.call(getattr(sp, "sample_" + sampler.replace("fast_sampler", "fast")), *pos, **skw)
        mon.call(sp.evaluate, model)
        mon.call(getattr(sp, "analyze_" + analyzer), **akw)
        mon.hit("chain")
        return seen[0], np.asarray(sp.results), sp.analysis
    q = G.copy(pr)
    X = mon.call(samplers.fn(sampler), q, *pos, **skw)
    Y = f(np.array(X))
    fn = entry.fn(analyzer)
    R = mon.call(fn, q, Y, **akw) if analyzer in entry.NO_X else mon.call(fn, q, X, Y, **akw)
    return np.asarray(X), Y, R


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "pair":
        s, a = case["pair"].split(":")
        globals()["p_" + a](case, mon, rng, case["problem"], s)
        mon.hit(case["pair"])
        mon.hit("groups", bool(case["problem"].get("groups")))
        mon.hit("dists", bool(case["problem"].get("dists")))
    else:
        globals()["k_" + case["kind"]](case, mon, rng)
        mon.hit(case["kind"])


def of(m, pr):
    return lambda X: m.u(quantiles(X, pr))


def se_sobol(rng, fu, mem, D, N, so):
    """Standard errors of the (centred) estimators for N independent points."""
    n = 8192
    A, B = rng.random((n, D)), rng.random((n, D))
    fA, fB = fu(A), fu(B)
    mu, V = np.mean(np.r_[fA, fB]), np.var(np.r_[fA, fB])
    fA, fB = fA - mu, fB - mu
    s1, sT, s2 = [], [], np.full((len(mem),) * 2, np.nan)
    ab, ba = [], []
    for g in mem:
        AB, BA = A.copy(), B.copy()
        AB[:, g], BA[:, g] = B[:, g], A[:, g]
        ab.append(fu(AB) - mu)
        ba.append(fu(BA) - mu)
        p = fB * (ab[-1] - fA)
        s1.append(np.std(p - p.mean() / V * (fA ** 2 + fB ** 2) / 2))
        p = 0.5 * (fA - ab[-1]) ** 2
        sT.append(np.std(p - p.mean() / V * (fA ** 2 + fB ** 2) / 2))
    for a, b in itertools.combinations(range(len(mem)), 2):
        p = ba[a] * ab[b] - fA * fB - fB * (ab[a] - fA) - fB * (ab[b] - fA)
        s2[a, b] = np.std(p - p.mean() / V * (fA ** 2 + fB ** 2) / 2)
    q = V * np.sqrt(N)
    return np.array(s1) / q, np.array(sT) / q, s2 / q


def p_sobol(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    m = Model(rng, D, ["lin", "quad", "cos", "step"], terms3=0.3)
    N = 256 * case["N"]
    mem = G.members(pr)
    skw = {"calc_second_order": case["so"]}
    if sampler == "sobol":
        skw["scramble"] = bool(rng.random() < 0.7)
    if rng.random() < 0.3:
        skw["skip_values"] = int(rng.choice([N, 2 * N, 1024]))
    X, Y, R = pipeline(mon, case, pr, of(m, pr), sampler, "sobol", N, skw, {"calc_second_order": case["so"], "num_resamples": 5})
    compare_sobol(mon, rng, m.u, *indices(m, mem), mem, D, N, R, case["so"], 9)
    mon.hit("second", case["so"])
    mon.hit("inert", len(m.act) < D)


def compare_sobol(mon, rng, fu, S1, ST, S2, mem, D, N, R, so, k):
    e1, eT, e2 = se_sobol(rng, fu, mem, D, N, so)
    within(mon, "Sobol S1", R["S1"], S1, k * e1 + 1e-3)
    within(mon, "Sobol ST", R["ST"], ST, k * eT + 1e-3)
    if so:
        within(mon, "Sobol S2", R["S2"], S2, k * e2 + 1e-3)
    for j in range(len(S1)):  # a parameter the model does not use has no effect at all
        if ST[j] == 0:
            mon.ok(abs(R["ST"][j]) < 1e-10, f"total effect {R['ST'][j]} of an unused parameter")


def p_fast(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    # beyond three parameters the method's complementary frequencies resonate (2 x 16 = 32): odd, additive models only
    m = Model(rng, D, ["lin", "quad"], terms2=0.4) if D <= 3 else Model(rng, D, ["lin"], terms2=0.0)
    M = 4
    N = 513 * case["N"]
    X, Y, R = pipeline(mon, case, pr, of(m, pr), sampler, "fast", N, {"M": M}, {"M": M, "num_resamples": 3})
    S1, ST, _ = indices(m, [np.array([j]) for j in range(D)])
    within(mon, "eFAST S1", R["S1"], S1, 0.1)
    within(mon, "eFAST ST", R["ST"], ST, 0.15)


def p_rbd_fast(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    m = Model(rng, D, ["lin", "quad", "cos"])
    N = 1000 * case["N"]
    X, Y, R = pipeline(mon, case, pr, of(m, pr), sampler, "rbd_fast", N, {}, {"M": 8, "num_resamples": 3})
    S1, _, _ = indices(m, [np.array([j]) for j in range(D)])
    within(mon, "RBD-FAST S1", R["S1"], S1, 0.02 + 5 / np.sqrt(N))


def p_delta(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    m = Model(rng, D, ["lin", "quad", "cos"])
    N = 1000
    X, Y, R = pipeline(mon, case, pr, of(m, pr), sampler, "delta", N, {}, {"num_resamples": 5, "method": "all"})
    S1, _, _ = indices(m, [np.array([j]) for j in range(D)])
    failed = lambda R: np.array(["Insufficient" in str(t) for t in R["notes"]])  # reported as such in the notes (C13)
    within(mon, "delta S1", R["S1"], np.where(failed(R), np.nan, S1), 0.03 + 6 / np.sqrt(N))
    # moment-independent measure of a smooth model, from a large independent sample with fine classes and cells
    c = rng.uniform(0.3, 1.5, D)
    f = lambda U: ndtri(np.clip(U, 1e-9, 1 - 1e-9)) @ c
    X, Y, R = pipeline(mon, case, pr, lambda X: f(quantiles(X, pr)), sampler, "delta", N, {}, {"num_resamples": 20, "method": "delta"})
    ref = np.array([ref_delta(rng, f, D, j) for j in range(D)])
    within(mon, "delta raw", R["delta_raw"], np.where(failed(R), np.nan, ref), 0.15)
    within(mon, "delta balanced", R["delta_balanced"], np.where(failed(R), np.nan, ref), 0.3)


def ref_delta(rng, f, D, j, n=200000, nb=24, cells=60):
    U = rng.random((n, D))
    y = f(U)
    e = np.quantile(y, np.linspace(0, 1, cells + 1))
    e = np.unique(e)
    b = np.searchsorted(e[1:-1], y)
    f = np.bincount(b, minlength=len(e) - 1) / n
    out = 0.0
    k = np.minimum((U[:, j] * nb).astype(int), nb - 1)
    for i in range(nb):
        q = b[k == i]
        out += np.abs(np.bincount(q, minlength=len(e) - 1) / len(q) - f).sum() / 2 / nb
    return out


def p_morris(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    grp = pr.get("groups")
    m = Model(rng, D, ["lin"] if grp else ["lin", "quad", "cos"], terms2=0.0 if grp else 0.4)
    p = int(rng.choice([4, 6, 8] if D < 5 else [4, 6]))
    dl = p / (2.0 * (p - 1))
    N = 50 * case["N"]
    X, Y, R = pipeline(mon, case, pr, of(m, pr), sampler, "morris", N, {"num_levels": p}, {"num_levels": p, "num_resamples": 5})
    lev = np.arange(p) / (p - 1)
    sc = m.scale
    if grp:
        mu_s, sd = [], []
        for g in G.members(pr):
            a = [abs(sum(s * m.c.get((int(j),), 0.0) for s, j in zip(sg, g))) * np.sqrt(12) for sg in itertools.product((-1, 1), repeat=len(g))]
            mu_s.append(np.mean(a))
            sd.append(np.std(a))
        within(mon, "Morris group mu_star", np.asarray(R["mu_star"], float) / sc, mu_s, 6 * np.array(sd) / np.sqrt(N) + 1e-9 * (1 + abs(m.c0)) / sc * max(1, sc))
        return
    mu, ms, sg, s_mu, s_ms = [], [], [], [], []
    for j in range(D):
        other = np.array(list(itertools.product(lev, repeat=D - 1)))
        E = []
        for b in lev[: p // 2]:
            lo = np.insert(other, j, b, axis=1)
            hi = np.insert(other, j, b + dl, axis=1)
            E.append((m.u(hi) - m.u(lo)) / dl)
        E = np.concatenate(E) / sc
        mu.append(E.mean()); ms.append(np.abs(E).mean()); sg.append(E.std())
        s_mu.append(E.std()); s_ms.append(np.abs(E).std())
    eps = 1e-9 * (1 + abs(m.c0))
    within(mon, "Morris mu", num(R["mu"]) / sc, mu, 6.5 * np.array(s_mu) / np.sqrt(N) + eps)
    within(mon, "Morris mu_star", num(R["mu_star"]) / sc, ms, 6.5 * np.array(s_ms) / np.sqrt(N) + eps)
    within(mon, "Morris sigma", num(R["sigma"]) / sc, sg, 6.5 * np.array(sg) * np.sqrt(2.0 / N) + eps)
    if D > 2 and case["seed"] % 3 == 0:  # an optimised subset sees the same kind of effects
        k = 4
        _, _, R = pipeline(mon, dict(case, chain=False), pr, of(m, pr), sampler, "morris", 12,
                           {"num_levels": p, "optimal_trajectories": k, "local_optimization": True}, {"num_levels": p, "num_resamples": 5})
        add = [j for j in range(D) if m.g[j] == "lin" and all(len(t) == 1 for t in m.c if j in t)]
        for j in add:
            within(mon, "Morris optimised additive", [R["mu_star"][j] / sc], [abs(m.c.get((j,), 0.0)) * np.sqrt(12)], [eps])
        mon.hit("optimal")


def num(v):
    return np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)


def p_dgsm(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    m = Model(rng, D, ["lin", "quad", "cos"])
    N = 256 * case["N"]
    dl = 1e-4
    b = np.array(pr["bounds"], float)
    w = b[:, 1] - b[:, 0]
    X, Y, R = pipeline(mon, case, pr, of(m, pr), sampler, "dgsm", N, {"delta": dl}, {"num_resamples": 5})
    n = 20000
    for j in range(D):
        U = rng.random((n, D))
        U[:, j] *= 1 - dl
        H = U.copy()
        H[:, j] += dl
        d2 = ((m.u(H) - m.u(U)) / dl) ** 2 / m.scale ** 2
        vi, se = d2.mean(), d2.std()
        tol = 7 * se * np.sqrt(1 / N + 1 / n) + 0.02 * vi + 1e-6
        within(mon, "DGSM vi", [R["vi"][j] * w[j] ** 2 / m.scale ** 2], [vi], [tol / 2])
        ey = m.u(U) / m.scale
        V = m.V
        rv = np.std((ey - ey.mean()) ** 2) / V / np.sqrt(N)
        want = vi / (np.pi ** 2 * V)
        within(mon, "DGSM dgsm", [R["dgsm"][j]], [want], [want * 7 * rv + tol / (np.pi ** 2 * V) * (1 + 7 * rv)])
    mon.ok(np.all(num(R["dgsm"]) * (1 + 0.6) + 1e-6 >= indices(m, [np.array([j]) for j in range(D)])[1] * 0.4), "DGSM bound below the total index")


def p_ff(case, mon, rng, pr, sampler):
    """Main effects and (unaliased) interactions of multilinear models are exact."""
    D = pr["num_vars"]
    b = np.array(pr["bounds"], float)
    c = rng.normal(size=D)
    so = case["so"]

    def f(X):
        z = (X[:, :D] - b[:, 0]) / (b[:, 1] - b[:, 0]) * 2 - 1
        return 3.0 + z @ c

    X, Y, R = pipeline(mon, case, pr, f, sampler, "ff", None, {}, {"second_order": so})
    want = np.zeros(len(R["ME"]))
    want[:D] = c
    within(mon, "fractional factorial main effects", R["ME"], want, 1e-9)


def ks_slices(x, y, S):
    o = np.argsort(x, kind="stable")
    s = np.sort(y)
    F = np.arange(1, len(y) + 1) / len(y)
    out = []
    for part in np.array_split(o, S):
        q = np.sort(y[part])
        out.append(np.abs(np.searchsorted(q, s, side="right") / len(q) - F).max())
    return np.array(out)


def p_pawn(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    m = Model(rng, D, ["lin", "quad", "cos"])
    N, S = 1000 * case["N"], int(rng.choice([4, 8, 10]))
    X, Y, R = pipeline(mon, case, pr, of(m, pr), sampler, "pawn", N, {}, {"S": S})
    U = rng.random((100000, D))
    y = m.u(U)
    noise = 1.2 / np.sqrt(N / S)
    for j in range(D):
        ref = ks_slices(U[:, j], y, S)
        for k, v, t in (("minimum", ref.min(), 1.6), ("mean", ref.mean(), 1.2), ("median", np.median(ref), 1.5), ("maximum", ref.max(), 1.6), ("stdev", ref.std(), 1.0)):
            within(mon, "PAWN " + k, [R[k][j]], [v], [1.6 * t * noise])


def p_rsa(case, mon, rng, pr, sampler):
    """The parameter that decides the output has the largest statistic; an unused one a small one."""
    D = pr["num_vars"]
    j = int(rng.integers(D))
    w = rng.uniform(0, 0.05, D)
    w[j] = 1.0
    N = 1000 * case["N"]
    X, Y, R = pipeline(mon, case, pr, lambda X: quantiles(X, pr) @ w, sampler, "rsa", N, {}, {"bins": 5, "target": "Y"})
    v = np.array([np.nanmean(np.asarray(R[n], float)) for n in pr["names"]])
    if LOG is not None:
        LOG.append(("RSA ratio", float(np.delete(v, j).max() / v[j])))
    mon.ok(np.all(np.delete(v, j) < 0.3 * v[j]), f"RSA: mean statistics {v}, the output is decided by parameter {j}")
    mon.observe(v)


def p_discrepancy(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    j = int(rng.integers(D))
    w = rng.uniform(0, 0.05, D)
    w[j] = 1.0
    N = 500
    me = str(rng.choice(["WD", "CD", "MD", "L2-star"]))
    if pr.get("dists"):
        pr = {k: v for k, v in pr.items() if k != "dists"}
        pr["bounds"] = [[-2.0, 3.0]] * D
    X, Y, R = pipeline(mon, case, pr, lambda X: quantiles(X, pr) @ w, sampler, "discrepancy", N, {}, {"method": me})
    v = num(R["s_discrepancy"])
    within(mon, "discrepancy sum", [v.sum()], [1.0], [1e-9])
    if LOG is not None:
        LOG.append(("discrepancy ratio " + me, float(np.delete(v, j).max() / v[j])))
    mon.ok(np.all(np.delete(v, j) < v[j]), f"discrepancy {me}: indices {v}, the output is decided by parameter {j}")
    mon.observe(v)


def p_hdmr(case, mon, rng, pr, sampler):
    D = pr["num_vars"]
    m = Model(rng, D, ["lin", "quad"])
    terms(case, mon, pr, m, sampler, "hdmr", {"maxorder": 2, "maxiter": 100, "m": 2, "K": 1}, 0.1)


def p_enhanced_hdmr(case, mon, rng, pr, sampler):
    D = min(pr["num_vars"], 4)
    for k in ("names", "bounds"):
        pr[k] = pr[k][:D]
    pr["num_vars"] = D
    m = Model(rng, D, ["lin", "quad"])
    terms(case, mon, pr, m, sampler, "enhanced_hdmr", {"max_order": 2, "poly_order": 3, "bootstrap": 1, "extended_base": True}, 0.12)


def terms(case, mon, pr, m, sampler, an, kw, tol):
    D = pr["num_vars"]
    X, Y, R = pipeline(mon, case, pr, of(m, pr), sampler, an, 1200, {}, kw)
    T = [t for o in (1, 2) for t in itertools.combinations(range(D), o)]
    want = np.array([m.c.get(t, 0.0) ** 2 / m.V for t in T])
    _, ST, _ = indices(m, [np.array([j]) for j in range(D)])
    within(mon, an + " S", num(R["S"])[:len(T)].ravel(), want, tol)
    within(mon, an + " ST", num(R["ST"])[:D].ravel(), ST, tol)


# ------------------------------------------------------------------ built-in models
def k_ishigami(case, mon, rng):
    from SALib.test_functions import Ishigami

    A, B = float(rng.uniform(1, 9)), float(rng.uniform(0.05, 0.2))
    pr = {"num_vars": 3, "names": ["a", "b", "c"], "bounds": [[-np.pi, np.pi]] * 3}
    N = 1024
    f = lambda X: Ishigami.evaluate(X, A, B)
    _, _, R = pipeline(mon, case, pr, f, "sobol", "sobol", N, {}, {"num_resamples": 5})
    V1 = 0.5 * (1 + B * np.pi ** 4 / 5) ** 2
    V2 = A * A / 8
    V13 = B * B * np.pi ** 8 * (1 / 18 - 1 / 50)
    V = V1 + V2 + V13
    S2 = np.full((3, 3), np.nan)
    S2[0, 1], S2[0, 2], S2[1, 2] = 0, V13 / V, 0
    compare_sobol(mon, rng, lambda U: f(U * 2 * np.pi - np.pi), np.array([V1, V2, 0]) / V, np.array([V1 + V13, V2, V13]) / V, S2,
                  [np.array([j]) for j in range(3)], 3, N, R, True, 9)
    _, _, R = pipeline(mon, case, pr, f, "fast_sampler", "fast", 2049, {}, {"num_resamples": 3})
    within(mon, "eFAST Ishigami S1", R["S1"], np.array([V1, V2, 0]) / V, 0.12)
    within(mon, "eFAST Ishigami ST", R["ST"], np.array([V1 + V13, V2, V13]) / V, 0.25)


def k_sobol_g(case, mon, rng):
    from SALib.test_functions import Sobol_G

    D = case["D"]
    a = rng.choice([0.0, 0.5, 1.0, 3.0, 9.0, 99.0], D)
    pr = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[0.0, 1.0]] * D}
    Vi = 1 / (3 * (1 + a) ** 2)
    V = np.prod(1 + Vi) - 1
    N = 1024
    f = lambda X: Sobol_G.evaluate(X, a=a)
    _, _, R = pipeline(mon, case, pr, f, "saltelli" if case["seed"] % 2 else "sobol", "sobol", N, {}, {"num_resamples": 5})
    S2 = np.full((D, D), np.nan)
    for i, j in itertools.combinations(range(D), 2):
        S2[i, j] = Vi[i] * Vi[j] / V
    compare_sobol(mon, rng, f, Vi / V, np.array([Vi[j] * np.prod(1 + np.delete(Vi, j)) for j in range(D)]) / V, S2,
                  [np.array([j]) for j in range(D)], D, N, R, True, 9)


def k_sobol_g2(case, mon, rng):
    """Documented analytic indices of the G-function of the package itself."""
    from SALib.test_functions import Sobol_G

    D = case["D"]
    a, dl, al = rng.choice([0.0, 0.5, 1.0, 3.0, 9.0], D), rng.random(D), rng.uniform(0.5, 2, D)
    pr = {"num_vars": D, "names": [f"x{i}" for i in range(D)], "bounds": [[0.0, 1.0]] * D}
    N = 1024
    f = lambda X: Sobol_G.evaluate(X, a, dl, al)
    _, _, R = pipeline(mon, case, pr, f, "sobol", "sobol", N, {"calc_second_order": False}, {"num_resamples": 5, "calc_second_order": False})
    S1, ST = mon.call(Sobol_G.sensitivity_index, a, al), mon.call(Sobol_G.total_sensitivity_index, a, al)
    compare_sobol(mon, rng, f, np.asarray(S1), np.asarray(ST), None, [np.array([j]) for j in range(D)], D, N, R, False, 9)


def k_converges(case, mon, rng):
    """Errors shrink as N grows (scrambled Sobol' sample: at least like the standard Monte Carlo rate, over 4 doublings)."""
    pr = case["problem"]
    m = Model(rng, 3, ["lin", "quad"], inert=0.0)
    S1, ST, _ = indices(m, [np.array([j]) for j in range(3)])
    err = []
    for N in (64, 4096):
        _, _, R = pipeline(mon, case, pr, of(m, pr), "sobol", "sobol", N, {"calc_second_order": False}, {"num_resamples": 2, "calc_second_order": False})
        err.append(max(np.abs(R["S1"] - S1).max(), np.abs(R["ST"] - ST).max()))
    if LOG is not None:
        LOG.append(("error at 4096", err[1] / 0.06))
        return
    mon.ok(err[1] < 0.06, f"largest error {err[0]:.4f} at N=64 and {err[1]:.4f} at N=4096")
    mon.observe(err)
