"""C28: equivariance under relabelling, invariance under units and row order."""
import itertools

import numpy as np
from . import gen as G
from . import entry as EN

RULE = ("Random analyses of all twelve analyzers are run twice, the second time with permuted parameters, renamed parameters, Y -> aY+b, "
        "X and bounds -> cX+d per parameter, jointly permuted rows (given-data methods) or whole blocks (trajectories, base points); "
        "every index of the second result, looked up by name, must be the first one's, or scale with the declared power of the factor.")
KINDS = ["permute", "rename", "Y", "X", "rows"]
REQUIRED = [k + ":" + m for k in KINDS for m in EN.ALL if not (k == "X" and m in EN.NO_X) and not (k == "rows" and m in ("ff",))] + [
    "groups", "scaled_morris", "second_order", "tiny_or_huge_Y"]
CASE_LIMIT = 120
ASSUMPTIONS = ["resampled estimates (delta; all widths when the order of parameters changes) are compared within resampling noise"]


def gen(rng, tier):
    n = 40 if tier == "quick" else 700
    for m in EN.ALL:
        slow = m in ("hdmr", "enhanced_hdmr", "delta")
        for k in KINDS:
            if (k == "X" and m in EN.NO_X) or (k == "rows" and m == "ff"):
                continue
            for i in range(max(6, n // 4) if slow else n):
                D = int(rng.choice([2, 3, 4, 5, 6]))
                s = EN.setup(rng, m, D=D, group=rng.random() < 0.4 and m not in ("delta", "dgsm", "rbd_fast"))
                g = s["problem"].get("groups")
                if m in ("hdmr", "enhanced_hdmr"):
                    s["kw"].update({"K": 1} if m == "hdmr" else {"bootstrap": 1})
                    if m == "enhanced_hdmr":
                        s["kw"]["extended_base"] = bool(rng.integers(2))
                if m == "delta":
                    s["skw"]["N"] = 300
                    s["kw"]["num_resamples"] = 25
                    s["problem"]["names"] = [f"v{j}" for j in range(D)]
                if m == "morris" and g and s["kw"].get("scaled"):
                    s["kw"]["scaled"] = bool(rng.integers(2))
                yield {"kind": k, "spec": s, "perm": [int(v) for v in rng.permutation(D)],
                       "a": float(rng.choice([2.0, 0.5, 1e3, 3.7, 1e-3, 2.0 ** -45, 2.0 ** 45])), "b": float(rng.choice([0.0, 5.0, -3.3])),
                       "y": str(rng.choice(["ref", "ref", "noise", "int"])), "seed": G.seed(rng)}


def output(case, X, pr, rng):
    if case["y"] == "noise":
        return rng.normal(size=len(X))
    if case["y"] == "int" and case["spec"]["method"] != "delta":
        return rng.integers(0, 50, len(X)).astype(float)
    return EN.ref_model(X[:, :pr["num_vars"]], pr)


def labelled(s, R, pr, names=None):
    """{key: {label or frozenset of labels: value(s)}} with labels = parameter or group names."""
    m = s["method"]
    lab = list(names or pr["names"])
    gl = G.ugroups(pr) if pr.get("groups") else lab
    out = {}
    if m == "rsa":
        return {"cvm": {str(g): np.asarray(R[g], float) for g in (gl if pr.get("groups") else lab)}}
    if m == "ff":
        out["ME"] = dict(zip(map(str, R["names"]), np.asarray(R["ME"], float)))
        if "IE" in R:
            out["IE"] = {frozenset(map(str, p)): v for p, v in zip(R["interaction_names"], np.asarray(R["IE"], float))}
        return out
    F = EN.flat(R)
    if m in ("hdmr", "enhanced_hdmr"):
        nt = len(F["S"])
        terms = [frozenset(lab[i] for i in c) for o in (1, 2, 3) for c in itertools.combinations(range(len(lab)), o)][:nt]
        for k in ("Sa", "Sb", "S"):
            out[k] = dict(zip(terms, F[k]))
        out["ST"] = dict(zip(lab, F["ST"][:len(lab)]))
        for k in ("Sa_sum", "Sb_sum", "S_sum"):
            out[k] = {"": F[k]}
        return out
    for k, v in F.items():
        if v.ndim == 1 and len(v) == len(gl):
            out[k] = dict(zip(gl, v))
        elif v.ndim == 2 and v.shape == (len(gl),) * 2:
            out[k] = {frozenset((gl[i], gl[j])): v[i, j] for i, j in itertools.combinations(range(len(gl)), 2)}
        elif v.ndim == 0 or v.ndim == 1:
            pass
    return out


def permuted(s, pr, X, Y, p, rng):
    """The same experiment with parameters listed in order p."""
    m = s["method"]
    D = pr["num_vars"]
    q = G.copy(pr)
    full = list(p) + list(range(len(p), D))  # dummies of ff stay
    for k in ("names", "bounds", "groups", "dists"):
        if q.get(k):
            q[k] = [q[k][i] for i in full]
    X2 = X[:, full]
    Y2 = Y
    if m == "sobol":
        a, b = G.ugroups(pr), G.ugroups(q)
        if not pr.get("groups"):
            a, b = pr["names"], q["names"]
        o = [a.index(g) for g in b]
        n = len(a)
        so = s["kw"]["calc_second_order"]
        blk = [0] + [1 + i for i in o] + ([1 + n + i for i in o] if so else []) + [(2 * n + 1) if so else n + 1]
        st = 2 * n + 2 if so else n + 2
        Y2 = Y.reshape(-1, st)[:, blk].ravel()
        X2 = X2.reshape(-1, st, X.shape[1])[:, blk].reshape(X2.shape)
    elif m == "fast":
        Y2 = Y.reshape(D, -1)[p].ravel()
    elif m == "dgsm":
        blk = [0] + [1 + i for i in p]
        Y2 = Y.reshape(-1, D + 1)[:, blk].ravel()
        X2 = X2.reshape(-1, D + 1, D)[:, blk].reshape(X2.shape)
    return q, X2, Y2


LOOSE = {"delta"}


def compare(mon, s, A, B, what, scale=lambda k, lab: 1.0, skip_conf=False, rtol=1e-6, atol=1e-8, stat=False):
    m = s["method"]
    mon.eq(set(A), set(B), f"{m}: keys of the result after {what}")
    for k in A:
        if skip_conf and k.endswith("_conf"):
            continue
        mon.eq(set(A[k]), set(B[k]), f"{m}: labels of {k} after {what}")
        mx = max([float(np.nanmax(np.abs(v))) if np.any(np.isfinite(v)) else 0 for v in A[k].values()] or [0])
        if m == "morris":  # rounding of the differences of outputs
            mx = max(mx, 1e2 * max(abs(float(v)) for v in A["mu_star"].values() if np.isfinite(v)))
        mx = 1 if m in ("hdmr", "enhanced_hdmr") else mx
        for lab, v in A[k].items():
            f = scale(k, lab)
            if m == "dgsm" and k in ("vi_std", "dgsm_conf"):  # the spread of equal derivatives is rounding noise
                mx = max(mx, 1e3 * abs(float(A["vi" if k == "vi_std" else "dgsm"][lab])))
            w = np.asarray(v, float) * f
            if stat:
                if k.endswith("_conf"):
                    continue
                sd = np.nanmax([float(Q.get(k + "_conf", {}).get(l2, 0)) for l2 in A[k] for Q in (A, B)] + [0.0])
                d = abs(float(B[k][lab]) - float(w))
                if np.isnan(w):
                    continue
                mon.ok(d <= 4 * sd + 0.05, f"{m}: {k}[{lab}] {v!r} becomes {B[k][lab]!r} after {what} (noise {sd:.3g})")
            else:
                mon.close(B[k][lab], w, f"{m}: {k} of {lab if isinstance(lab, str) else sorted(lab)} after {what}", rtol=rtol, atol=atol * mx * abs(f) + 1e-12 * abs(f))


def ff_permute(case, mon, p, rng):
    """The factorial analysis works on its own design: the permuted problem is sampled and run afresh."""
    from . import samplers as SM
    s = case["spec"]
    base = s["problem"]
    D = base["num_vars"]
    coef = dict(zip(base["names"], rng.normal(size=D)))
    pair = {frozenset(c): v for c, v in zip(itertools.combinations(base["names"], 2), rng.normal(size=D * D))}
    res = []
    for order in (range(D), p):
        q = G.copy(base)
        for k in ("names", "bounds", "groups", "dists"):
            if q.get(k):
                q[k] = [q[k][i] for i in order]
        names = list(q["names"])
        b = np.array(q["bounds"], float)
        X = np.asarray(mon.call(SM.fn("ff"), q))
        z = np.where(X[:, :D] > b.mean(1), 1.0, -1.0)
        Y = sum(coef[n] * z[:, j] for j, n in enumerate(names)) + sum(
            pair[frozenset((names[i], names[j]))] * z[:, i] * z[:, j] for i, j in itertools.combinations(range(D), 2))
        f, a, k = EN.call(s, q, X, Y)
        res.append(labelled(s, mon.call(f, *a, **k), q)["ME"])
    mon.observe(*[np.array([r[n] for n in base["names"]]) for r in res])
    for n in base["names"]:
        mon.close(res[1][n], res[0][n], f"ff: main effect of {n} after listing the parameters in order {p}")
        mon.close(res[0][n], coef[n], f"ff: main effect of {n} of a multilinear model")
    mon.hit("permute:ff")


def run(case, mon):
    s, kind = case["spec"], case["kind"]
    m = s["method"]
    rng = np.random.default_rng(case["seed"])
    pr, X, _ = EN.data(s, mon)
    Y = output(case, X, pr, rng) if m != "ff" else output(case, X[:, :s["problem"]["num_vars"]], s["problem"], rng)
    if np.ptp(Y) == 0:
        return

    def analyse(q, x, y):
        f, a, k = EN.call(s, G.copy(q), np.array(x), np.array(y))
        return mon.call(f, *a, **k)

    R = analyse(pr, X, Y)
    A = labelled(s, R, pr)
    mon.observe(*[np.asarray(list(A[k].values()), float) for k in A])
    hd = m in ("hdmr", "enhanced_hdmr")
    tol = dict(rtol=1e-5, atol=1e-6) if hd else {}
    if kind == "rename":
        q = G.copy(pr)
        new = [str(v) for v in rng.permutation(["renamed", "B2", "alpha9", "Q", "w", "u7", "x0", "x1", "k"] + [f"n{j}" for j in range(20)])[:pr["num_vars"]]]
        ren = dict(zip(q["names"], new))
        q["names"] = new
        grp = pr.get("groups")
        if grp:
            gn = {g: f"grp_{v}" for g, v in zip(G.ugroups(pr), rng.permutation(len(G.ugroups(pr))))}
            q["groups"] = [gn[g] for g in grp]
            ren = gn if s["method"] not in ("ff",) else ren
        B = labelled(s, analyse(q, X, Y), q)
        tr = lambda l: frozenset(ren.get(z, z) for z in l) if isinstance(l, frozenset) else ren.get(l, l)
        A = {k: {tr(l): v for l, v in d.items()} for k, d in A.items()}
        compare(mon, s, A, B, "renaming", rtol=0, atol=0)
    elif kind == "permute":
        p = case["perm"]
        if m == "ff":
            return ff_permute(case, mon, p, rng)
        q, X2, Y2 = permuted(s, pr, X, Y, p, rng)
        B = labelled(s, analyse(q, X2, Y2), q)
        det = m in ("sobol",)
        if m == "sobol" and "S2" in A:  # the published estimator of a pair is that of (earlier, later) listed
            a, b = (G.ugroups(pr), G.ugroups(q)) if pr.get("groups") else (pr["names"], q["names"])
            for k in ("S2", "S2_conf"):
                for lab in list(A[k]):
                    u, v = sorted(lab, key=a.index)
                    if b.index(u) > b.index(v):
                        del A[k][lab], B[k][lab]
        ptol = dict(rtol=2e-3, atol=2e-2) if hd else {}
        if m == "enhanced_hdmr":
            ptol = dict(rtol=1e-4, atol=1e-3) if s["kw"].get("extended_base", True) else dict(rtol=2e-3, atol=2e-2)
        compare(mon, s, A, B, f"listing the parameters in order {p}", skip_conf=not det, stat=m == "delta", **ptol)
    elif kind == "Y":
        a, b = case["a"], case["b"]
        if hd and not s["kw"].get("extended_base"):  # the stopping rule of the backfitting is absolute
            a = 2.0 if not 1e-2 < a < 1e2 else a
        if not 1e-6 < a < 1e6:  # another unit altogether: a shift of this size would cost digits
            b = 0.0
            mon.hit("tiny_or_huge_Y")
        b *= float(np.abs(Y).max()) if case["y"] == "ref" else 1
        B = labelled(s, analyse(pr, X, a * Y + b), pr)
        unn = {"morris": {"mu", "mu_star", "sigma", "mu_star_conf"} if not s["kw"].get("scaled") else set(), "ff": {"ME", "IE"}}.get(m, set())
        pw = lambda k, lab: a if k in unn else a * a if (m == "dgsm" and k in ("vi", "vi_std")) else 1.0
        compare(mon, s, A, B, f"Y -> {a} Y + {b:.4g}", scale=pw,
                **(dict(rtol=3e-2, atol=2e-2) if hd and not s["kw"].get("extended_base") else tol or dict(rtol=1e-5, atol=1e-7)))  # stopping rule of the backfitting
    elif kind == "X":
        D = pr["num_vars"]
        c = np.array([float(v) for v in rng.choice([2.0, 0.25, 10.0, 1024.0, 2.0 ** -45, 2.0 ** 40], D)])
        d = np.array([float(v) for v in rng.choice([0.0, 1.0, -2.0], D)])
        w = np.array([float(b[1]) - float(b[0]) for b in pr["bounds"]])
        d = d * w * c * (m != "delta")
        if m == "ff":  # same factor for each column of the padded problem is not needed
            pass
        q = G.copy(pr)
        if q.get("dists"):
            return
        q["bounds"] = [[float(b[0]) * c[j] + d[j], float(b[1]) * c[j] + d[j]] for j, b in enumerate(pr["bounds"])]
        X2 = X * c[:X.shape[1]] + d[:X.shape[1]]
        lo, hi = np.array(q["bounds"]).T
        if m == "ff":
            X2 = np.where(X > np.array(pr["bounds"], float).mean(1), hi, lo)
        X2 = np.clip(X2, lo, hi)
        B = labelled(s, analyse(q, X2, Y), q)
        sc = lambda k, lab: 1 / c[pr["names"].index(lab)] ** 2 if (m == "dgsm" and k in ("vi", "vi_std")) else 1.0
        # an offset costs digits of the differences taken between samples
        compare(mon, s, A, B, f"X -> {c} X + {d}", scale=sc, rtol=1e-4, atol=1e-5 if not hd else 1e-4)
    else:
        D = pr["num_vars"]
        if m in EN.GIVEN:
            o = rng.permutation(len(Y))
        elif m == "sobol":
            n = len(set(pr["groups"])) if pr.get("groups") else D
            st = 2 * n + 2 if s["kw"]["calc_second_order"] else n + 2
            o = np.arange(len(Y)).reshape(-1, st)[rng.permutation(len(Y) // st)].ravel()
        elif m == "morris":
            st = (len(set(pr["groups"])) if pr.get("groups") else D) + 1
            o = np.arange(len(Y)).reshape(-1, st)[rng.permutation(len(Y) // st)].ravel()
        elif m == "dgsm":
            o = np.arange(len(Y)).reshape(-1, D + 1)[rng.permutation(len(Y) // (D + 1))].ravel()
        else:  # eFAST: a block read backwards is the same curve with mirrored phase
            n = len(Y) // D
            o = np.concatenate([np.arange(i * n, (i + 1) * n)[::-1] for i in range(D)])
        if m == "rbd_fast" and any(len(set(X[:, j])) < len(X) for j in range(D)):
            return
        B = labelled(s, analyse(pr, X[o], Y[o]), pr)
        rtol = dict(rtol=1e-4, atol=1e-5) if hd else {}
        compare(mon, s, A, B, "another order of the rows", skip_conf=True, stat=m == "delta", **rtol)
    mon.hit(kind + ":" + m)
    mon.hit("groups", bool(pr.get("groups")))
    mon.hit("scaled_morris", m == "morris" and bool(s["kw"].get("scaled")))
    mon.hit("second_order", m == "sobol" and s["kw"]["calc_second_order"])
