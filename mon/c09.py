"""C09: fractional factorial designs and their analysis."""
import numpy as np
from . import gen as G

RULE = ("Every number of parameters 1..70 and selected ones up to 512, random bounds/names/distributions: the design is "
        "checked for two-level, balance, orthogonality, mirroring and padding; the analysis is compared with contrasts "
        "computed from the returned design for arbitrary outputs and for random multilinear models.")
REQUIRED = ["design", "padded", "exact_pow2", "effects", "interactions", "multilinear", "dummy_zero", "dists", "resample"]
EXHAUSTIVE = "all parameter counts 1..70"


def gen(rng, tier):
    Ds = list(range(1, 71)) + [100, 127, 128, 129, 200, 256, 257, 512]
    for D in Ds:
        for _ in range(1 if tier == "quick" else 8):
            if D > 130 and _ > 0:
                continue
            yield {"kind": "ff", "problem": G.problem(rng, D, dists=["unif", "logunif", "triang", "truncnorm"]
                   if rng.random() < 0.3 else None), "seed": G.seed(rng), "second": D <= 70}
    for _ in range(200 if tier == "quick" else 2500):
        D = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20]))
        yield {"kind": "ff", "problem": G.problem(rng, D, dists=["unif", "logunif", "triang", "truncnorm"]
               if rng.random() < 0.3 else None), "seed": G.seed(rng), "second": True}


def run(case, mon):
    from SALib.sample import ff as sff
    from SALib.analyze import ff as aff

    pr0 = case["problem"]
    pr = G.copy(pr0)
    D = pr["num_vars"]
    rng = np.random.default_rng(case["seed"])
    k = 1
    while k < D:
        k *= 2
    X = np.asarray(mon.call(sff.sample, pr, seed=case["seed"] if rng.random() < 0.5 else None))
    mon.observe(X)
    mon.eq(X.shape, (2 * k, k), f"shape of the design for {D} parameters")
    mon.eq(pr["num_vars"], k, "padded number of parameters")
    mon.eq(list(pr["names"]), pr0["names"] + [f"dummy_{i}" for i in range(k - D)], "padded names")
    mon.eq([list(b) for b in pr["bounds"]], pr0["bounds"] + [[0, 1]] * (k - D), "padded bounds")
    q = dict(pr0, num_vars=k, bounds=pr0["bounds"] + [[0, 1]] * (k - D))
    if pr0.get("dists"):
        q["dists"] = pr0["dists"] + ["unif"] * (k - D)
    lo, hi = G.ref_scale(np.zeros((1, k)), q)[0], G.ref_scale(np.ones((1, k)), q)[0]
    tol = 1e-9 * (np.abs(lo) + np.abs(hi)) + (1e-7 * (np.abs(lo) + np.abs(hi)) if pr0.get("dists") else 0)
    isl, ish = np.abs(X - lo) <= tol, np.abs(X - hi) <= tol
    mon.ok(np.all(isl ^ ish), "a design value is neither the lower nor the upper end of its parameter")
    C = np.where(ish, 1.0, -1.0)
    mon.ok(np.all(C.sum(0) == 0), "a column is not balanced between low and high")
    mon.ok(np.array_equal(C.T @ C, 2 * k * np.eye(k)), "columns are not mutually orthogonal")
    mon.ok(np.array_equal(C[k:], -C[:k]), "second half is not the mirror image of the first")
    mon.hit("design")
    mon.hit("padded" if k > D else "exact_pow2")
    if pr0.get("dists"):
        mon.hit("dists")
    # sampling again from the padded problem is stable
    X2 = np.asarray(mon.call(sff.sample, pr))
    mon.same(X2, X, "second sample from the padded problem")
    mon.hit("resample")

    def analyse(Y, second):
        # both the padded problem and a fresh unpadded one are legitimate
        p = G.copy(pr) if rng.random() < 0.5 else G.copy(pr0)
        Si = mon.call(aff.analyze, p, X, Y, second_order=second)
        mon.eq(list(Si["names"]), list(pr["names"]), "names in the result")
        return Si

    scale = 10.0 ** rng.integers(-3, 4)
    Y = rng.normal(size=2 * k) * scale + rng.normal() * 10
    Si = analyse(Y, case["second"])
    mon.observe(np.asarray(Si["ME"]))
    ref = 0.5 * np.array([Y[C[:, j] > 0].mean() - Y[C[:, j] < 0].mean() for j in range(k)])
    mon.close(Si["ME"], ref, "main effects", rtol=1e-9, atol=1e-10 * (np.abs(Y).max() + 1))
    mon.hit("effects")
    if case["second"]:
        want_names, want = [], []
        for a in range(k):
            for b in range(a):
                want_names.append((pr["names"][b], pr["names"][a]))
                c = C[:, a] * C[:, b]
                want.append(np.dot(Y, c) / (2 * k))
        mon.eq([tuple(t) for t in Si["interaction_names"]], want_names, "interaction labels")
        mon.close(Si["IE"], want, "interaction effects", rtol=1e-9, atol=1e-10 * (np.abs(Y).max() + 1))
        mon.hit("interactions")
    else:
        mon.ok("IE" not in Si, "interactions returned though not requested")
    # multilinear model in the user's parameters: main effects are exact, interactions do not leak into them
    a0, a1 = rng.normal(), rng.normal(size=D)
    Z = C[:, :D]
    Ym = a0 + Z @ a1
    for _ in range(min(6, D * (D - 1) // 2)):
        i, j = rng.choice(D, 2, replace=False)
        Ym = Ym + rng.normal() * Z[:, i] * Z[:, j]
    Si = analyse(Ym, False)
    me = np.asarray(Si["ME"])
    mon.close(me[:D], a1, "main effects of a multilinear model", rtol=1e-8, atol=1e-9)
    mon.hit("multilinear")
    if k > D:
        mon.close(me[D:], np.zeros(k - D), "main effects of dummies", atol=1e-9)
        mon.hit("dummy_zero")
