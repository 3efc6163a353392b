"""C03: declared bounds / distributions are honoured through exact quantile maps."""
import numpy as np
from . import gen as G
from . import samplers as S

RULE = ("Every sampler x every distribution kind x positions: the sample for the problem is compared column by column "
        "with textbook quantile formulas applied to the sample the same call returns for the unit-cube problem; plus "
        "illegal specifications at random positions, which must raise ValueError.")
REQUIRED = ["dist:" + d for d in G.DISTS] + ["sampler:" + s for s in S.ALL] + ["uniform_only", "illegal", "support"]
ASSUMPTIONS = ["SciPy special functions ndtri/ndtr are correct"]

ILLEGAL = [
    ("unif", [2.0, 1.0]), ("unif", [1.0, 1.0]), ("norm", [0.0, 0.0]), ("norm", [1.0, -1.0]),
    ("lognorm", [0.0, 0.0]), ("lognorm", [0.0, -0.5]), ("truncnorm", [0.0, 1.0, 0.5, 0.0]),
    ("truncnorm", [0.0, 1.0, 0.5, -1.0]), ("truncnorm", [1.0, 0.0, 0.5, 1.0]), ("truncnorm", [1.0, 1.0, 0.5, 1.0]),
    ("weibull", [0.0, 1.0]), ("weibull", [1.0, 0.0]), ("weibull", [-1.0, 1.0]), ("weibull", [1.0, -2.0, 0.0]),
    ("weibull", [0.0, 1.0, 3.0]), ("triang", [0.0, 1.0, 1.0]), ("triang", [0.0, 1.0, -0.1]),
    ("triang", [2.0, 1.0, 0.5]), ("triang", [1.0, 1.0, 0.5]), ("triang", [1.0, 1.5]), ("triang", [-1.0, 0.5]),
    ("logunif", [0.0, 1.0]), ("logunif", [-1.0, 1.0]), ("logunif", [2.0, 1.0]), ("logunif", [2.0, 2.0]),
    ("uniform", [0.0, 1.0]), ("Norm", [0.0, 1.0]), ("", [0.0, 1.0]), ("beta", [1.0, 2.0]),
]

EXTREME = [("logunif", [1e-10, 1e6]), ("logunif", [1e-30, 1e-3]), ("logunif", [3.0, 3.0000001]), ("logunif", [1e5, 1e20]),
           ("truncnorm", [12.0, 15.0, 0.0, 1.0]), ("truncnorm", [-30.0, -9.5, 1.0, 1.0]), ("truncnorm", [0.0, 1.0, 25.0, 2.0]),
           ("truncnorm", [-1e3, 1e3, 5.0, 0.1]), ("truncnorm", [5.0, 5.000001, 5.0, 10.0]), ("truncnorm", [0.0, 1e-6, 0.0, 1.0]),
           ("norm", [1e6, 1e-3]), ("norm", [-3e-7, 1e-8]), ("norm", [0.0, 1e9]),
           ("lognorm", [0.0, 4.0]), ("lognorm", [-20.0, 0.01]), ("lognorm", [25.0, 2.0]),
           ("weibull", [0.08, 1.0]), ("weibull", [60.0, 1e-4]), ("weibull", [1.5, 1e7, -1e7]), ("weibull", [2.0, 1e-3, 1e3]),
           ("triang", [0.0, 1.0, 1e-6]), ("triang", [-5.0, -4.0, 0.999999]), ("triang", [-1e6, 1e6, 0.3]), ("triang", [1e-7, 0.25]),
           ("triang", [1000.0, 1000.001, 0.5]), ("unif", [-1e-300, 1e-300]), ("unif", [1e15, 1e15 + 8]), ("unif", [-1e300, 1e300]),
           ("unif", [1.0, 1.0 + 1e-12])]


def gen(rng, tier):
    for d, b in EXTREME:
        for s in S.ALL if tier != "quick" else [str(v) for v in rng.permutation(S.ALL)[:3]]:
            D = int(rng.integers(1, 6))
            pr = G.problem(rng, D, dists=True)
            pos = int(rng.integers(D))
            pr["dists"][pos], pr["bounds"][pos] = d, list(b)
            yield {"kind": "extreme", "sampler": s, "problem": pr, "kw": S.args(rng, s, D), "seed": G.seed(rng)}
    for s in S.ALL:
        for d in G.DISTS:
            for rep in range(1 if tier == "quick" else 6):
                D = int(rng.integers(2, 6))
                pos = int(rng.integers(D))
                pr = G.problem(rng, D, dists=True, group=rng.random() < 0.3 and s not in ("ff",))
                e = G.dist_entry(rng, d)
                pr["dists"][pos], pr["bounds"][pos] = e[0], [float(v) for v in e[1]]
                yield {"kind": "dist", "sampler": s, "problem": pr, "kw": S.args(rng, s, D), "seed": G.seed(rng)}
    for i, (d, b) in enumerate(ILLEGAL):
        for s in S.ALL:
            D = int(rng.integers(1, 6))
            pr = G.problem(rng, D, dists=["unif", "norm", "logunif", "truncnorm"])
            pos = int(rng.integers(D))
            pr["dists"][pos], pr["bounds"][pos] = d, b
            yield {"kind": "illegal", "sampler": s, "problem": pr, "kw": S.args(rng, s, D), "seed": G.seed(rng),
                   "what": f"{d} {b}"}
    for s in S.ALL:
        D = int(rng.integers(2, 6))
        for b in ([1.0, 1.0], [3, 2], [-1.0, -2.5]):
            pr = G.problem(rng, D)
            pr["bounds"][int(rng.integers(D))] = b
            yield {"kind": "illegal", "sampler": s, "problem": pr, "kw": S.args(rng, s, D), "seed": 1, "what": f"bounds {b}"}
        for cut in (-1, 1):
            pr = G.problem(rng, D, dists=["unif", "truncnorm"])
            pr["dists"] = pr["dists"][:-1] if cut < 0 else pr["dists"] + ["unif"]
            yield {"kind": "illegal", "sampler": s, "problem": pr, "kw": S.args(rng, s, D), "seed": 1,
                   "what": "dists of another length than the parameters"}
    for i in range(700 if tier == "quick" else 8000):
        s = S.ALL[i % len(S.ALL)]
        D = int(rng.choice([1, 2, 3, 4, 5, 8, 11, 17]))
        pr = G.problem(rng, D, dists=True if rng.random() < 0.65 else None, group=rng.random() < 0.3 and s != "ff")
        yield {"kind": "random", "sampler": s, "problem": pr, "kw": S.args(rng, s, D), "seed": G.seed(rng)}


def run(case, mon):
    s, pr, kw = case["sampler"], case["problem"], case["kw"]
    D = pr["num_vars"]
    if case["kind"] == "illegal":
        k = dict(kw)
        pos = [k.pop("N")] if "N" in k else []
        if s in S.SEEDED:
            k["seed"] = case["seed"]
        mon.raises(ValueError, S.fn(s), G.copy(pr), *pos, _what=f"{s}.sample with {case['what']}", **k)
        mon.observe(s, case["what"])
        mon.hit("illegal")
        return
    U = np.asarray(S.draw(mon, s, G.unit(pr), kw, case["seed"]))
    X = np.asarray(S.draw(mon, s, G.copy(pr), kw, case["seed"]))
    mon.observe(X)
    mon.eq(X.shape, U.shape, "shape with and without bounds/distributions")
    mon.ok(U.min() >= -1e-12 and U.max() <= 1 + 1e-12, "unit-problem sample leaves [0,1]")
    U = np.clip(U, 0.0, 1.0)
    if s == "finite_diff":  # only base points are images of the design; steps are the subject of C08
        U, X = U[::D + 1], X[::D + 1]
    U, X = U[:, :D], X[:, :D]
    dists = pr.get("dists") or ["unif"] * D
    for j in range(D):
        b = pr["bounds"][j]
        ref = G.ref_quantile(U[:, j], dists[j], b)
        x = X[:, j]
        what = f"{s}: parameter {j} ({dists[j]} {b})"
        mon.ok(not np.isnan(x).any(), what + ": NaN sample")
        inf = np.isinf(ref)
        # next to an infinite quantile a one-ulp difference of the design point may decide
        mon.ok(np.array_equal(x[inf], ref[inf]) and not np.isinf(x[~inf]).any(), what + ": infinite values misplaced")
        x, ref, u = x[~inf], ref[~inf], U[~inf, j]
        if len(ref) == 0:
            continue
        span = max(abs(float(v)) for v in b) if dists[j] == "unif" else 1.0
        # tolerance: effect of a 1e-12 shift of u, plus relative rounding
        lo, hi = G.ref_quantile(np.maximum(u - 1e-11, 0), dists[j], b), G.ref_quantile(np.minimum(u + 1e-11, 1), dists[j], b)
        lo, hi = np.where(np.isfinite(lo), lo, ref), np.where(np.isfinite(hi), hi, ref)
        tol = 1e-7 * np.abs(ref) * (dists[j] != "unif") + 1e-9 * span * (1.0 if dists[j] == "unif" else 10) + np.abs(hi - lo)
        bad = np.abs(x - ref) > tol
        mon.ok(not bad.any(), lambda: f"{what}: row {np.argmax(bad)}: got {x[np.argmax(bad)]!r}, quantile of u="
                                      f"{u[np.argmax(bad)]!r} is {ref[np.argmax(bad)]!r}")
        mon.hit("dist:" + (dists[j] if dists[j] not in ("triang", "weibull") else
                           ("triang2" if len(b) == 2 else "triang") if dists[j] == "triang" else f"weibull{len(b)}"))
        sup = None
        if dists[j] in ("unif", "logunif", "truncnorm"):
            sup = b[:2]
        elif dists[j] == "triang":
            sup = b[:2] if len(b) == 3 else [0, b[0]]
        if sup:
            e = 1e-9 * max(abs(sup[0]), abs(sup[1]))
            mon.ok(x.min() >= sup[0] - e and x.max() <= sup[1] + e, what + ": outside its support")
            mon.hit("support")
    mon.hit("sampler:" + s)
    if not pr.get("dists"):
        mon.hit("uniform_only")
