"""C19: enhanced HDMR analysis (orthonormal polynomials, hierarchical orthogonality)."""
import itertools

import numpy as np
from scipy import stats
from . import gen as G

RULE = ("Random given-data samples (independent or correlated inputs) under random settings: the expansion is rebuilt by an "
        "independent implementation (polynomials orthonormal over the sample by QR; extended base: the least-squares "
        "solution of least violation of hierarchical orthogonality, found in the null space; otherwise ridge start and "
        "backfitting) on the bootstrap rows the result reports, and every index, total, width, significance and emulated "
        "value is compared; labels, caller's problem, printed report and rejections are judged too.")
REQUIRED = ["order1", "order2", "order3", "extended", "plain", "B=1", "B>1", "emulate_new", "emulate_train", "rejections",
            "repeat", "reduced_order", "significant", "insignificant", "correlated", "printed"]
ASSUMPTIONS = ["polynomial orders up to 5 (moment determinants lose accuracy beyond), more rows than coefficients"]
CASE_LIMIT = 200


def gen(rng, tier):
    yield {"kind": "reject", "seed": G.seed(rng)}
    for i in range(240 if tier == "quick" else 4000):
        order = [1, 2, 2, 3][i % 4]
        ext = bool(rng.random() < 0.6)
        D = int(rng.choice([2, 3, 5, 7])) if order == 1 else int(rng.choice([2, 3, 4, 5, 7])) if order == 2 else int(rng.choice([2, 3, 4, 5, 6]))
        p = int(rng.choice([1, 2, 3, 5])) if order == 1 else int(rng.choice([1, 2, 3] if D < 7 else [1, 2])) if order == 2 else int(rng.choice([1, 2] if D < 6 else [1]))
        N = int(rng.choice([300, 301, 450])) if order < 3 else int(rng.choice([700, 900]))
        yield {"kind": "fit", "problem": G.problem(rng, D), "N": N, "order": order, "ext": ext, "p": p,
               "B": int(rng.choice([1, 2, 3, 3, 11])) if order < 3 and D < 5 else int(rng.choice([1, 2, 3])), "subset": None if rng.random() < 0.5 else int(rng.integers(300, N + 1)),
               "alpha": float(rng.choice([0.95, 0.9, 0.5, 0.99])), "l2": float(rng.choice([0.01, 0.1, 1.0])),
               "max_iter": int(rng.choice([100, 200, 1000, 1, 2, 5])), "x": str(rng.choice(["indep", "indep", "corr"])),
               "y": str(rng.choice(["smooth", "mult", "noise"])), "runseed": [0, 1, 7][int(rng.integers(3))], "seed": G.seed(rng)}


def orth(u, p):
    """Polynomials 1..p, orthonormal (with 1) over the sample u, positive leading coefficients: -> callable."""
    V = np.vander(2 * u - 1, p + 1, increasing=True)
    R = np.linalg.qr(V / np.sqrt(len(u)))[1]
    R = R * np.sign(np.diag(R))[:, None]
    inv = np.linalg.inv(R)
    return lambda x: (np.vander(2 * x - 1, p + 1, increasing=True) @ inv)[:, 1:]


def prods(Ps, c):
    out = Ps[c[0]]
    for j in c[1:]:
        out = (out[:, :, None] * Ps[j][:, None, :]).reshape(len(out), -1)
    return out


def block(Ps, t, ext):
    """Columns of one component function; lower-order columns first."""
    low = []
    if ext:
        for o in range(1, len(t)):
            low += [prods(Ps, c) for c in itertools.combinations(t, o)]
    return np.hstack(low + [prods(Ps, t)]), sum(b.shape[1] for b in low)


def fit(blocks, y, ext, l2, max_iter, D):
    """-> coefficient list, or None when the solution is not unique."""
    R = len(y)
    w = [b.shape[1] for b, _ in blocks]
    pos = np.concatenate([[0], np.cumsum(w)])
    if ext:
        A = np.hstack([b for b, _ in blocks])
        if A.shape[1] >= R:
            return None, 0
        U, s, Vt = np.linalg.svd(A, full_matrices=True)
        r = int((s > 1e-9 * s[0]).sum())
        x0 = Vt[:r].T @ ((U[:, :r].T @ y) / s[:r])
        Z = Vt[r:].T
        C = np.zeros((A.shape[1],) * 2)
        for i, (b, nl) in enumerate(blocks):
            if nl:
                M = np.vstack([b.mean(0), b[:, :nl].T @ b / R])
                C[pos[i]:pos[i + 1], pos[i]:pos[i + 1]] = M.T @ M
        if Z.shape[1]:
            H = Z.T @ C @ Z
            e = np.linalg.eigvalsh(H)
            if e[0] < 1e-9 * e[-1]:
                return None, 0
            x0 = x0 - Z @ np.linalg.solve(H, Z.T @ C @ x0)
        return [x0[pos[i]:pos[i + 1]] for i in range(len(w))], s[0] / s[r - 1]
    out = [None] * len(w)
    res = y
    done = 0
    for o in (1, 2, 3):
        ids = [i for i, (b, _) in enumerate(blocks) if blocks_order[0][i] == o]
        if not ids:
            continue
        Gm = {i: blocks[i][0].T @ blocks[i][0] / R for i in ids}
        f = {}
        for i in ids:
            out[i] = np.linalg.solve(Gm[i] + l2 * np.eye(w[i]), blocks[i][0].T @ res / R)
            f[i] = blocks[i][0] @ out[i]
        if o < 3:
            old = np.concatenate([out[i] for i in ids]) ** 2
            it = 0
            while True:
                for i in ids:
                    out[i] = np.linalg.solve(Gm[i], blocks[i][0].T @ (res - sum(f[z] for z in ids if z != i)) / R)
                    f[i] = blocks[i][0] @ out[i]
                new = np.concatenate([out[i] for i in ids]) ** 2
                ch = np.abs(new - old).max()
                it += 1
                if abs(ch - 1e-4) < 1e-7:
                    return None, 0
                if ch < 1e-4 or it >= max_iter:
                    break
                old = new
            res = res - sum(f.values())
    return out, max(np.linalg.cond(b.T @ b) for b, _ in blocks)


blocks_order = [None]


def run(case, mon):
    from SALib.analyze import enhanced_hdmr as eh

    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "reject":
        return reject(eh, mon, rng)
    pr = case["problem"]
    D, N, order, p, B, ext = pr["num_vars"], case["N"], case["order"], case["p"], case["B"], case["ext"]
    U = rng.uniform(size=(N, D))
    if case["x"] == "corr":
        z = rng.normal(size=(N, D))
        z[:, 1] = 0.6 * z[:, 0] + 0.8 * z[:, 1]
        U = stats.norm.cdf(z)
        mon.hit("correlated")
    X = G.ref_scale(U, pr)
    z = U - 0.5
    Y = {"smooth": z[:, 0] + z[:, 1] ** 2 + np.sin(3 * z[:, -1]), "mult": (1 + z[:, 0]) * (2 + z[:, 1]) * (1 + z[:, -1] ** 2),
         "noise": rng.normal(size=N)}[case["y"]] + 0.05 * rng.normal(size=N)
    Y = Y + rng.normal() * 5
    kw = dict(max_order=order, poly_order=p, bootstrap=B, subset=case["subset"], max_iter=case["max_iter"],
              l2_penalty=case["l2"], alpha=case["alpha"], extended_base=ext, seed=case["runseed"])
    q = G.copy(pr)
    R = mon.call(eh.analyze, q, X.copy(), Y.copy(), return_emulator=True, **kw)
    mon.eq(q, pr, "problem after the analysis")
    if D == 2 and order == 3:
        order = 2
        mon.hit("reduced_order")
    terms = [c for o in range(1, order + 1) for c in itertools.combinations(range(D), o)]
    n = len(terms)
    nm = pr["names"]
    mon.eq(list(R["Term"]), ["/".join(nm[j] for j in t) for t in terms], "terms")
    h = R["hdmr"]
    idx = np.asarray(h.idx)
    rows = N if B == 1 else (case["subset"] or N // 2)
    mon.eq(idx.shape, (rows, B), "bootstrap rows")
    for k in range(B):
        mon.ok(len(set(idx[:, k].tolist())) == rows and idx.min() >= 0 and idx.max() < N, "bootstrap rows are distinct rows")
    if B > 1 and rows < N:
        mon.ok(set(idx[:, 0]) != set(idx[:, 1]), "both bootstraps use the same rows")
    lo, hi = X.min(0), X.max(0)
    pol = [orth((X[:, j] - lo[j]) / (hi[j] - lo[j]), p) for j in range(D)]
    P = lambda Z: [pol[j]((Z[:, j] - lo[j]) / (hi[j] - lo[j])) for j in range(D)]
    blocks_order[0] = [len(t) for t in terms]
    full = [block(P(X), t, ext) for t in terms]
    S, Sa, Sb, TS, sg = np.zeros((n, B)), np.zeros((n, B)), np.zeros((n, B)), np.zeros((D, B)), np.zeros((n, B))
    coefs = []
    cond = 1
    for k in range(B):
        y = Y[idx[:, k]]
        y = y - y.mean()
        bl = [(b[idx[:, k]], nl) for b, nl in full]
        c, cn = fit(bl, y, ext, case["l2"], case["max_iter"], D)
        if c is None:
            return
        cond = max(cond, cn)
        coefs.append(c)
        f = np.column_stack([b @ v for (b, _), v in zip(bl, c)])
        tot, V = f.sum(1), np.var(y)
        cv = lambda a, b: (a - a.mean()) @ (b - b.mean()) / (rows - 1)
        for t in range(n):
            S[t, k] = cv(f[:, t], y) / V
            Sa[t, k] = cv(f[:, t], f[:, t]) / V
            Sb[t, k] = cv(f[:, t], tot - f[:, t]) / V
            p1 = bl[t][0].shape[1]
            F = (((y ** 2).sum() - ((y - f[:, t]) ** 2).sum()) / p1) / (((y - f[:, t]) ** 2).sum() / (rows - p1))
            crit = stats.f.ppf(case["alpha"], p1, rows - p1)
            sg[t, k] = 0.5 if abs(F - crit) < 1e-5 * crit else F > crit
        for j in range(D):
            TS[j, k] = sum(S[t, k] for t in range(n) if j in terms[t])
    tol = dict(rtol=1e-6, atol=max(1e-7, 1e-15 * cond ** 2 if ext else 1e-7))
    mon.observe(np.asarray(R["S"]), np.asarray(R["Sa"]), np.asarray(R["Sb"]))
    z1 = stats.norm.ppf(case["alpha"] + (1 - case["alpha"]) / 2)
    for key, v in (("S", S), ("Sa", Sa), ("Sb", Sb)):
        mon.close(R[key], v.mean(1), key, **tol)
        mon.close(R[key + "_conf"], z1 * v.std(1), key + "_conf", **tol)
        mon.close(R[key + "_sum"], v.sum(0).mean(), key + "_sum", **tol)
        mon.close(R[key + "_sum_conf"], z1 * v.sum(0).std(), key + "_sum_conf", **tol)
    mon.close(R["ST"], np.append(TS.mean(1), np.full(n - D, np.nan)), "ST", **tol)
    mon.close(R["ST_conf"], np.append(z1 * TS.std(1), np.full(n - D, np.nan)), "ST_conf", **tol)
    g = np.asarray(R["Signf"], float)
    a, b = 100 * (sg == 1).mean(1), 100 * (sg > 0).mean(1)
    mon.ok(((g >= a - 1e-9) & (g <= b + 1e-9)).all(), lambda: f"significance {g}, F-test says {a}..{b}")
    mon.hit("significant" if b.max() > 0 else "insignificant")
    if a.min() < 100:
        mon.hit("insignificant")
    f0 = Y.mean()
    mean = [np.mean([c[t] for c in coefs], axis=0) for t in range(n)]
    sc = np.abs(Y).max()
    got = mon.call(R.emulate, X)
    mon.close(got, f0 + sum(b @ v for (b, _), v in zip(full, mean)), "emulate on the training inputs", rtol=1e-5, atol=1e-6 * sc)
    mon.hit("emulate_train")
    Xq = lo + rng.uniform(0.02, 0.95, size=(int(rng.choice([1, 30, 1100])), D)) * (hi - lo)
    pq = P(Xq)
    got = mon.call(R.emulate, Xq)
    mon.close(got, f0 + sum(block(pq, t, ext)[0] @ v for t, v in zip(terms, mean)), "emulate on new inputs", rtol=1e-5, atol=1e-6 * sc)
    mon.hit("emulate_new")
    df = mon.call(R.to_df)
    mon.eq([str(v) for v in df.index], list(R["Term"]), "rows of the DataFrame")
    for c in ("Sa", "Sb", "S", "ST", "Sa_conf", "Sb_conf", "S_conf", "ST_conf"):
        mon.same(df[c].to_numpy(), np.asarray(R[c], float), f"DataFrame column {c}")
    # same problem object again, this time printed
    import contextlib, io
    buf = io.StringIO()

    def printed():
        with contextlib.redirect_stdout(buf):
            return eh.analyze(q, X, Y, print_to_console=True, **kw)
    R2 = mon.call(printed)
    for key in ("S", "Sa", "Sb", "ST", "S_conf", "ST_conf"):
        mon.same(R2[key], R[key], f"{key} of a second analysis of the same problem")
    mon.hit("repeat")
    tab = [ln for ln in buf.getvalue().split("\n") if "\t" in ln][1:]
    mon.eq(len(tab), n + 1, "lines of the printed table")
    for t in range(n):
        ln = tab[t]
        mon.ok(ln.startswith(R["Term"][t]), lambda: f"line {t} of the table is {ln!r}")
        cells = ln.split("\t")[1].replace("(", " ").replace(")", " ").replace("\261", " ").replace("%", " ").split()
        want = [R[k][t] for k in ("Sa", "Sa_conf", "Sb", "Sb_conf", "S", "S_conf")]
        want += [R["ST"][t], R["ST_conf"][t]] if t < D else []
        want.append(R["Signf"][t])
        mon.close([float(v) for v in cells], want, f"printed line of {R['Term'][t]}", rtol=0, atol=0.00501)
    mon.hit("printed")
    mon.hit(f"order{order}")
    mon.hit("extended" if ext else "plain")
    mon.hit("B=1" if B == 1 else "B>1")


def reject(eh, mon, rng):
    pr = {"num_vars": 3, "names": ["a", "b", "c"], "bounds": [[0, 1]] * 3}
    X = rng.random((320, 3))
    Y = X @ [1, 2, 3] + 0.1 * rng.normal(size=320)
    mon.observe(X, Y)
    A = eh.analyze
    for kw in ({"max_order": 0}, {"max_order": 4}, {"poly_order": 0}, {"poly_order": 11}, {"bootstrap": 0}, {"bootstrap": 101},
               {"subset": 299}, {"subset": 321}, {"alpha": 0.49}, {"alpha": 1.01}, {"l2_penalty": -0.1}, {"l2_penalty": 10.5},
               {"extended_base": False, "max_iter": 0}, {"extended_base": False, "max_iter": 1001}):
        mon.raises(ValueError, A, G.copy(pr), X, Y, _what=f"enhanced_hdmr.analyze({kw})", **kw)
    mon.raises(RuntimeError, A, G.copy(pr), X[:299], Y[:299], _what="299 rows")
    mon.raises(ValueError, A, G.copy(pr), X, Y[:310], _what="fewer outputs than rows")
    mon.raises(ValueError, A, G.copy(pr), X[:, :2], Y, _what="fewer columns than parameters")
    mon.raises(RuntimeError, A, {"num_vars": 1, "names": ["a"], "bounds": [[0, 1]]}, X[:, :1], Y, _what="one input")
    for kw in ({"subset": 320}, {"subset": 300}, {"poly_order": 1}, {"alpha": 0.5}, {"max_iter": 1, "extended_base": False},
               {"max_iter": 1000, "extended_base": False}, {"l2_penalty": 0.0, "extended_base": False}):
        mon.call(A, G.copy(pr), X, Y, **{"bootstrap": 2, **kw})
