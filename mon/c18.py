"""C18: HDMR analysis."""
import itertools

import numpy as np
from scipy import stats
from . import gen as G

RULE = ("Random given-data samples (independent, correlated, discrete inputs; smooth, rough, additive, constant-free "
        "outputs) under random settings: the whole expansion is refitted by an independent implementation (closed-form "
        "cardinal B-splines, ridge solves, backfitting) on the bootstrap rows the result reports, and every coefficient, "
        "index, total, width, F-test count, emulated value and RMSE is compared; `emulate` is compared with the fitted "
        "functions on old and new inputs; additive models must show their variance shares; bad settings must be rejected.")
REQUIRED = ["order1", "order2", "order3", "K=1", "K>1", "singular_term", "emulate_new", "emulate_train", "rejections",
            "additive", "problemspec", "selected", "unselected", "correlated", "observations"]
ASSUMPTIONS = ["normal equations solved in double precision; settings with condition numbers above 1e10 are compared loosely"]
CASE_LIMIT = 200


def gen(rng, tier):
    yield {"kind": "reject", "seed": G.seed(rng)}
    for _ in range(4 if tier == "quick" else 30):
        yield {"kind": "additive", "problem": G.problem(rng, int(rng.choice([2, 3, 4, 6]))), "N": int(rng.choice([600, 1200])),
               "order": int(rng.choice([1, 2])), "seed": G.seed(rng)}
    for i in range(300 if tier == "quick" else 6000):
        order = [1, 2, 2, 3][i % 4]
        D = int(rng.choice([2, 3, 5, 8])) if order == 1 else int(rng.choice([2, 3, 4, 6])) if order == 2 else int(rng.choice([3, 4, 5, 6]))
        N = int(rng.choice([300, 301, 450, 640]))
        K = int(rng.choice([1, 2, 3, 6]))
        m = int(rng.choice([1, 2, 3, 5, 10] if order == 1 else [1, 2, 3] if order == 2 and D < 5 else [1, 2] if D < 5 else [1]))
        if order == 1 and rng.random() < 0.15:
            N = int(rng.choice([2500, 4500]))
        if order < 3 and D < 5 and rng.random() < 0.12:
            K = int(rng.choice([11, 13]))
        R = None if rng.random() < 0.5 else int(rng.integers(300, N + 1))
        yield {"kind": "fit", "problem": G.problem(rng, D), "N": N, "order": order, "K": K, "m": m, "R": R,
               "alpha": float(rng.choice([0.95, 0.9, 0.5, 0.99, 0.68, 0.999])), "lambdax": float(rng.choice([0.01, 0.01, 0.1, 1.0, 10.0])),
               "maxiter": int(rng.choice([100, 100, 1, 3])), "x": str(rng.choice(["indep", "indep", "corr", "discrete"])),
               "y": str(rng.choice(["smooth", "mult", "noise", "skew"])), "spec": bool(rng.random() < 0.25),
               "runseed": [0, 1, 7, None][int(rng.integers(4))], "seed": G.seed(rng)}


def bspline(x, m):
    """Cubic cardinal B-splines centred at -1..m+1 over a unit range cut in m pieces, times m^3."""
    u = np.abs(x[:, None] * m - np.arange(-1, m + 2)[None, :])
    b = np.where(u < 1, 2 / 3 - u * u + u ** 3 / 2, np.where(u < 2, np.maximum(2 - u, 0) ** 3 / 6, 0.0))
    return b * float(m) ** 3


def products(B, c):
    out = B[c[0]]
    for j in c[1:]:
        out = (out[:, :, None] * B[j][:, None, :]).reshape(len(out), -1)
    return out


def sample(case, rng):
    pr, N = case["problem"], case["N"]
    D = pr["num_vars"]
    U = rng.uniform(size=(N, D))
    if case.get("x") == "corr":
        z = rng.normal(size=(N, D))
        z[:, 1] = 0.7 * z[:, 0] + 0.7 * z[:, 1]
        U = stats.norm.cdf(z)
    elif case.get("x") == "discrete":
        U[:, 0] = rng.integers(0, 2, N)
    X = G.ref_scale(U, pr)
    return U, X


def refit(Bs, terms, Y, zero, lam, maxiter):
    """-> coefficient per term (list), fitted columns, f0."""
    f0 = Y.mean()
    res = Y - f0
    D = len([t for t in terms if len(t) == 1])
    coef, cols = [], []
    solve = []
    for j in range(D):
        A = Bs[j].T @ Bs[j]
        if zero[j]:
            solve.append(None)
        else:
            solve.append(np.linalg.solve(A + lam * np.eye(len(A)), Bs[j].T))
    c = [np.zeros(Bs[j].shape[1]) if s is None else s @ res for j, s in enumerate(solve)]
    old = np.array([v @ v for v in c])
    it, ch = 0, 1.0
    while ch > 1e-3 and it < maxiter:
        for j in range(D):
            if solve[j] is not None:
                c[j] = solve[j] @ (res - sum(Bs[z] @ c[z] for z in range(D) if z != j))
        new = np.array([v @ v for v in c])
        ch = np.abs(new - old).max()
        old, it = new, it + 1
    coef += c
    cols += [Bs[j] @ c[j] for j in range(D)]
    res = res - sum(cols)
    for o in (2, 3):
        here = []
        for t, B, z in zip(terms, Bs, zero):
            if len(t) == o:
                if z:
                    v = np.zeros(B.shape[1])
                else:
                    v = np.linalg.solve(B.T @ B + lam * np.eye(B.shape[1]), B.T @ res)
                coef.append(v)
                here.append(B @ v)
        cols += here
        if here:
            res = res - sum(here)
    return coef, np.column_stack(cols), f0, ch


def run(case, mon):
    from SALib.analyze import hdmr

    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "reject":
        return reject(hdmr, mon, rng)
    pr = case["problem"]
    D, N, order = pr["num_vars"], case["N"], case["order"]
    U, X = sample(case, rng)
    if case["kind"] == "additive":
        w = rng.uniform(0.5, 3, D)
        f = [lambda u: u - 0.5, lambda u: (u - 0.5) ** 2 * 3, lambda u: np.sin(2 * np.pi * u) / 2]
        terms = np.column_stack([w[j] * f[j % 3](U[:, j]) for j in range(D)])
        Y = terms.sum(1) + 100
        R = mon.call(hdmr.analyze, G.copy(pr), X, Y, maxorder=order, K=3, R=N // 2 if N // 2 >= 300 else N, m=4 if order == 1 else 2, seed=1)
        var = w ** 2 * np.array([[1 / 12, 9 * (1 / 80 - 1 / 144), 1 / 8][j % 3] for j in range(D)])
        mon.observe(np.asarray(R["S"]))
        mon.close(np.asarray(R["S"])[:D], var / var.sum(), "first-order terms of an additive model", rtol=0.0, atol=0.12)
        mon.ok(abs(R["S_sum"] - 1) < 0.06, lambda: f"additive model: the terms explain {R['S_sum']}")
        mon.ok(np.mean(R["Em"]["RMSE"]) < 0.15 * Y.std(), lambda: f"RMSE {np.mean(R['Em']['RMSE'])} of an additive model, sd {Y.std()}")
        mon.hit("additive")
        return
    z = U - 0.5
    Y = {"smooth": z[:, 0] + z[:, 1] ** 2 + np.sin(3 * z[:, -1]), "mult": (1 + z[:, 0]) * (2 + z[:, 1]) * (1 + z[:, -1] ** 2),
         "noise": rng.normal(size=N), "skew": np.exp(2 * rng.normal(size=N) * 0.5 + z[:, 0])}[case["y"]]
    Y = Y * 10.0 ** int(rng.integers(-1, 3)) + rng.normal() * 5
    kw = dict(maxorder=order, maxiter=case["maxiter"], m=case["m"], K=case["K"], R=case["R"], alpha=case["alpha"],
              lambdax=case["lambdax"], seed=case["runseed"])
    if case["spec"]:
        from SALib import ProblemSpec

        sp = ProblemSpec(G.copy(pr) | {"outputs": ["Y"]})
        sp.samples = X.copy()
        sp.results = Y.copy()
        kw2 = dict(kw)
        mon.call(sp.analyze_hdmr, **kw2)
        R = sp.analysis
        mon.eq(list(sp["names"]), list(pr["names"]), "parameter names after an analysis through ProblemSpec")
        mon.hit("problemspec")
        holder = sp
    else:
        R = mon.call(hdmr.analyze, G.copy(pr), X.copy(), Y.copy(), **kw)
        holder = R
    K, m, lam = case["K"], case["m"], case["lambdax"]
    terms = [c for o in range(1, order + 1) for c in itertools.combinations(range(D), o)]
    n = len(terms)
    nm = pr["names"]
    mon.eq(list(R["Term"]), ["/".join(nm[j] for j in t) for t in terms], "terms")
    mon.eq(list(R["names"]), list(R["Term"]), "names")
    # ---- bootstrap rows
    idx = np.asarray(R["idx"])
    rows = N if K == 1 else (case["R"] or N // 2)
    mon.eq(idx.shape, (rows, K), "bootstrap rows")
    for k in range(K):
        mon.ok(len(set(idx[:, k].tolist())) == rows and idx.min() >= 0 and idx.max() < N, f"bootstrap {k}: rows are not distinct rows of the sample")
    if K > 1 and rows < N:
        mon.ok(any(set(idx[:, 0]) != set(idx[:, k]) for k in range(1, K)), "all bootstraps use the same rows")
    Xn = (X - X.min(0)) / (X.max(0) - X.min(0))
    B1 = [bspline(Xn[:, j], m) for j in range(D)]
    B = [products(B1, t) for t in terms]
    Em = R["Em"]
    S, Sa, Sb, TS = np.zeros((n, K)), np.zeros((n, K)), np.zeros((n, K)), np.zeros((D, K))
    sel, rm, coefs = np.zeros((n, K)), np.zeros(K), [[] for _ in terms]
    cond = 1.0
    border = False
    for k in range(K):
        Bk = [b[idx[:, k]] for b in B]
        y = Y[idx[:, k]]
        zero = []
        for i, b in enumerate(Bk):
            e = np.linalg.eigvalsh(b.T @ b)
            cond = max(cond, e[-1] / (max(e[0], 0) + lam))
            c = np.asarray(Em["C%d" % len(terms[i])])[:, [t for t in terms if len(t) == len(terms[i])].index(terms[i]), k]
            # singular up to rounding: the documented default of zero coefficients may or may not apply
            zero.append(e[0] <= 1e-13 * e[-1] and not c.any())
            if e[0] <= 1e-13 * e[-1]:
                mon.hit("singular_term")
        coef, cols, f0, ch = refit(Bk, terms, y, zero, lam, case["maxiter"])
        border |= abs(ch - 1e-3) < 1e-6
        V = np.var(y)
        tot = cols.sum(1)
        cv = lambda a, b: (a - a.mean()) @ (b - b.mean()) / (rows - 1)
        for t in range(n):
            coefs[t].append(coef[t])
            S[t, k] = cv(cols[:, t], y) / V
            Sa[t, k] = cols[:, t].var() / V
            Sb[t, k] = cv(cols[:, t], tot - cols[:, t]) / V
            p1 = (m + 3) ** len(terms[t])
            s0, s1 = ((y - f0) ** 2).sum(), ((y - f0 - cols[:, t]) ** 2).sum()
            if rows > p1:
                F = (s0 - s1) / p1 / (s1 / (rows - p1))
                crit = stats.f.ppf(case["alpha"], p1, rows - p1)
                sel[t, k] = 0.5 if abs(F - crit) < 1e-6 * abs(crit) else F > crit
            else:
                sel[t, k] = 0
        for j in range(D):
            TS[j, k] = sum(S[t, k] for t in range(n) if j in terms[t])
        rm[k] = np.sqrt(np.mean((y - f0 - tot) ** 2))
        scale = max(np.abs(y).max(), 1)
        tol = max(1e-7, cond * 1e-13)
        mon.close(np.asarray(Em["Y_e"])[:, k], f0 + tot, f"emulated outputs of bootstrap {k}", rtol=tol, atol=tol * scale)
        mon.close(Em["f0"][k], f0, "f0", rtol=1e-9)
        if k == K - 1:
            mon.close(R["Y_em"], cols, "component values of the last bootstrap", rtol=tol, atol=tol * scale)
    if border:
        return
    mon.observe(np.asarray(R["S"]), np.asarray(R["Sa"]), np.asarray(R["Sb"]))
    t4 = dict(rtol=10 * tol, atol=10 * tol)
    for o, key in ((1, "C1"), (2, "C2"), (3, "C3")):
        ts = [t for t in range(n) if len(terms[t]) == o]
        if ts:
            w = np.array([[c for c in coefs[t]] for t in ts])  # term x K x m
            mon.close(np.asarray(Em[key]), np.transpose(w, (2, 0, 1)), f"coefficients {key}", rtol=1e-3, atol=1e-4 * max(1, np.abs(w).max()))
    for key, v in (("S", S), ("Sa", Sa), ("Sb", Sb)):
        z1 = stats.norm.ppf(case["alpha"] + (1 - case["alpha"]) / 2)
        mon.close(R[key], v.mean(1), key, **t4)
        mon.close(R[key + "_conf"], z1 * v.std(1), key + "_conf", **t4)
        mon.close(R[key + "_sum"], v.sum(0).mean(), key + "_sum", **t4)
        mon.close(R[key + "_sum_conf"], z1 * v.sum(0).std(), key + "_sum_conf", **t4)
    mon.close(R["ST"], np.append(TS.mean(1), np.full(n - D, np.nan)), "ST", **t4)
    mon.close(R["ST_conf"], np.append(z1 * TS.std(1), np.full(n - D, np.nan)), "ST_conf", **t4)
    mon.close(Em["RMSE"], rm, "reported RMSE", rtol=1e-5, atol=1e-7 * scale)
    s = np.asarray(R["select"], float)
    mon.eq(s.shape, (n,), "one selection count per term")
    lo, hi = (sel == 1).sum(1), (sel > 0).sum(1)
    for t in range(n):
        if (m + 3) ** len(terms[t]) < rows:
            mon.ok(lo[t] <= s[t] <= hi[t], lambda: f"term {R['Term'][t]} selected in {s[t]} of {K} bootstraps, F-test says {lo[t]}..{hi[t]}")
            mon.hit("selected" if hi[t] else "unselected")
    # ---- emulator
    mean = [np.mean(c, axis=0) for c in coefs]
    f0 = np.mean([Y[idx[:, k]].mean() for k in range(K)])
    mon.call(holder.emulate, X)
    mon.close(holder["emulated"], f0 + sum(b @ c for b, c in zip(B, mean)), "emulate on the training inputs", rtol=1e-4, atol=1e-4 * scale)
    mon.hit("emulate_train")
    nq = int(rng.choice([1, 40, 40, 900]))
    q = rng.uniform(0.05, 0.9, size=(nq, D))
    Xq = X.min(0) + q * (X.max(0) - X.min(0))
    b1 = [bspline(q[:, j], m) for j in range(D)]
    want = f0 + sum(products(b1, t) @ c for t, c in zip(terms, mean))
    yq = rng.normal(size=nq) + 50 if rng.random() < 0.5 else None
    mon.call(holder.emulate, Xq, yq)
    mon.close(holder["emulated"], want, "emulate on new inputs", rtol=1e-4, atol=1e-4 * scale)
    mon.hit("emulate_new")
    if yq is not None:
        mon.same(holder["Y_test"], yq, "observations given with the new inputs")
        mon.call(holder.emulate, X)
        mon.ok("Y_test" not in holder or len(holder["Y_test"]) == N, "observations of an earlier emulation are kept for other inputs")
        mon.hit("observations")
    df = mon.call(R.to_df)
    mon.eq([str(v) for v in df.index], list(R["Term"]), "rows of the DataFrame")
    for c in ("Sa", "Sb", "S", "ST", "Sa_conf", "Sb_conf", "S_conf", "ST_conf"):
        mon.same(df[c].to_numpy(), np.asarray(R[c], float), f"DataFrame column {c}")
    mon.hit(f"order{order}")
    mon.hit("K=1" if K == 1 else "K>1")
    if case["x"] == "corr":
        mon.hit("correlated")


def reject(hdmr, mon, rng):
    pr = {"num_vars": 3, "names": ["a", "b", "c"], "bounds": [[0, 1]] * 3}
    X = rng.random((320, 3))
    Y = X @ [1, 2, 3]
    mon.observe(X, Y)
    A = hdmr.analyze
    for kw in ({"maxorder": 0}, {"maxorder": 4}, {"maxiter": 0}, {"maxiter": 1001}, {"m": 0}, {"m": 11}, {"K": 0}, {"K": 101},
               {"R": 299}, {"R": 321}, {"alpha": 0.49}, {"alpha": 1.01}, {"lambdax": -0.1}, {"lambdax": 10.5}, {"m": 2.5}):
        mon.raises(RuntimeError, A, pr, X, Y, _what=f"hdmr.analyze({kw})", **kw)
    mon.raises(RuntimeError, A, pr, X[:299], Y[:299], _what="299 rows")
    mon.raises(RuntimeError, A, pr, X, Y[:310], _what="fewer outputs than rows")
    mon.raises(RuntimeError, A, pr, X, np.column_stack([Y, Y]), _what="two output columns")
    p1 = {"num_vars": 1, "names": ["a"], "bounds": [[0, 1]]}
    mon.raises(RuntimeError, A, p1, X[:, :1], Y, _what="one input")
    p2 = {"num_vars": 2, "names": ["a", "b"], "bounds": [[0, 1]] * 2}
    mon.raises(RuntimeError, A, p2, X[:, :2], Y, maxorder=3, _what="third order of two inputs")
    for kw in ({"R": 320, "K": 2}, {"R": 300, "K": 2}, {"m": 1}, {"m": 10, "maxorder": 1}, {"alpha": 0.5}, {"lambdax": 10.0, "K": 1}, {"maxiter": 1}, {"maxiter": 1000, "maxorder": 1}):
        mon.call(A, pr, X, Y, **{"K": 2, **kw})
