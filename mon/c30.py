"""C30: bootstrap confidence half-widths."""
import itertools

import numpy as np
from scipy.stats import norm, rankdata, gaussian_kde
from . import gen as G
from . import entry as EN

RULE = ("Random analyses of the six analyzers with bootstrap widths: the same seed at several confidence levels (widths proportional to the "
        "normal quantile, indices identical), long designs and two or three resamples, an independent bootstrap of the documented statistic (own resampling, own estimators; ratio of "
        "standard deviations judged at 6 standard errors given the observed kurtosis), kept Sobol resamples, outputs for which every resample "
        "gives the same index (width zero), and levels outside (0, 1).")
METH = ["sobol", "morris", "fast", "rbd_fast", "delta", "dgsm"]
REQUIRED = ([f"levels:{m}" for m in METH] + [f"boot:{m}" for m in METH] + [f"bad:{m}" for m in METH] +
            ["zero:sobol", "zero:morris", "zero:dgsm", "kept", "groups", "second_order", "scaled", "kept:sobol", "spike:fast", "large"] +
            [f"few:{m}" for m in METH] + [f"tight:{m}" for m in METH if m != "delta"])
CASE_LIMIT = 200
CONF = {"sobol": ["S1", "ST", "S2"], "morris": ["mu_star"], "fast": ["S1", "ST"], "rbd_fast": ["S1"],
        "delta": ["delta_balanced", "delta_raw", "delta_step", "S1"], "dgsm": ["dgsm"]}


def gen(rng, tier):
    n = 90 if tier == "quick" else 1500
    for m in METH:
        for k in ("levels", "boot", "bad", "zero"):
            if k == "zero" and m in ("fast", "rbd_fast", "delta"):
                continue
            c = {"levels": n * (3 if m != "delta" else 1), "boot": n if m != "delta" else n // 2, "bad": 3, "zero": n // 3}[k]
            for _ in range(c):
                D = int(rng.integers(2, 5))
                s = EN.setup(rng, m, D=D, group=rng.random() < 0.3 and m in ("sobol", "morris"))
                if m == "delta":
                    s["problem"]["names"] = [f"v{j}" for j in range(D)]
                    s["skw"]["N"] = int(rng.choice([100, 200]))
                    s["kw"] = {"num_resamples": 6, "method": "all"}
                if k == "boot":
                    s["kw"]["num_resamples"] = 300 if m in ("sobol", "morris", "dgsm") else 250 if m != "delta" else 60
                    if m in ("sobol", "morris", "dgsm"):
                        s["skw"]["N"] = {"sobol": 64, "morris": 25, "dgsm": 40}[m]
                if k == "boot" and m == "sobol" and rng.random() < 0.2:
                    case_y = str(rng.choice(["constA", "constB", "rare"]))
                else:
                    case_y = str(rng.choice(["ref", "noise", "heavy"]))
                yield {"kind": k, "spec": s, "levels": [0.95] + [float(v) for v in rng.choice([0.5, 0.8, 0.9, 0.99, 0.999, 0.05, 0.6827], 2, replace=False)],
                       "y": case_y, "seed": G.seed(rng)}
    q = tier == "quick"
    for m in METH:
        for N in LARGE[m] if q else LARGE[m] * 4:  # long designs: the resamples have to be as long
            s = EN.setup(rng, m, D=2)
            s["skw"]["N"] = N
            s["kw"]["num_resamples"] = 200 if m != "delta" else 40
            if m == "delta":
                s["kw"]["method"] = "sobol"
            s["problem"]["names"] = ["v0", "v1"]
            if m == "sobol":
                s["kw"]["calc_second_order"] = s["skw"]["calc_second_order"] = False
            yield {"kind": "boot", "spec": s, "levels": [], "y": "ref" if m in ("morris", "dgsm") else "noise", "seed": G.seed(rng), "large": True}
        for _ in range((5 if q else 60) if m != "delta" else 0):  # many resamples of short designs
            s = EN.setup(rng, m, D=2)
            if m in ("sobol", "morris", "dgsm"):
                s["skw"]["N"] = int(rng.choice([4, 5, 7] if m != "sobol" else [8, 12]))
            if m == "rbd_fast":
                s["skw"]["N"] = int(rng.choice([64, 65, 90]))
            if m == "sobol":
                s["kw"]["calc_second_order"] = s["skw"]["calc_second_order"] = False
            s["kw"]["num_resamples"] = 3000
            yield {"kind": "boot", "spec": s, "levels": [], "y": str(rng.choice(["noise", "ref", "heavy"])), "seed": G.seed(rng), "tight": True}
        for _ in range(3 if q else 20):  # two or three resamples: the spread is that of a sample
            D = 2
            s = EN.setup(rng, m, D=D)
            s["problem"]["names"] = ["v0", "v1"]
            if m == "delta":
                s["skw"]["N"] = 60
                s["kw"]["method"] = "sobol"
            s["kw"]["num_resamples"] = int(rng.choice([2, 3]))
            yield {"kind": "few", "spec": s, "levels": [], "y": "noise", "seed": G.seed(rng), "runs": 300}
    for _ in range(120 if q else 1500):
        D = int(rng.choice([1, 2, 3, 5, 8, 9, 12, 14]))
        s = EN.setup(rng, "sobol", D=D, group=rng.random() < 0.3)
        s["kw"]["num_resamples"] = int(rng.choice([2, 3, 4, 7, 20]))
        yield {"kind": "kept", "spec": s, "levels": [], "y": str(rng.choice(["ref", "noise", "heavy"])), "seed": G.seed(rng),
               "parallel": rng.random() < 0.05}
    for _ in range(4 if q else 40):
        s = EN.setup(rng, "fast", D=2)
        s["skw"].update(N=int(rng.choice([65, 66, 71])), M=4)
        s["kw"].update(num_resamples=5000, M=4)
        yield {"kind": "spike", "spec": s, "levels": [], "y": "noise", "seed": G.seed(rng)}


LARGE = {"sobol": [1100, 3000, 10000], "morris": [120, 400, 2000], "fast": [600, 3000, 9001], "rbd_fast": [600, 3000, 9001],
         "delta": [1600, 4000], "dgsm": [300, 1500, 6000]}


def output(case, X, pr, rng):
    if case["y"] in ("constA", "constB", "rare"):
        s = case["spec"]
        n = len(set(pr["groups"])) if pr.get("groups") else pr["num_vars"]
        st = 2 * n + 2 if s["kw"]["calc_second_order"] else n + 2
        y = rng.normal(size=len(X))
        if case["y"] == "rare":
            y[rng.random(len(X)) < 0.8] = 0.0
        else:
            y[0 if case["y"] == "constA" else st - 1::st] = 0.4
        return y
    if case["y"] == "ref":
        return EN.ref_model(X, pr) + 0.05 * rng.normal(size=len(X))
    y = rng.normal(size=len(X))
    return np.exp(y) if case["y"] == "heavy" else y


def analyse(mon, s, pr, X, Y, **more):
    f, a, k = EN.call(s, G.copy(pr), np.array(X), np.array(Y), **more)
    return mon.call(f, *a, **k)


def run(case, mon):
    s = case["spec"]
    rng = np.random.default_rng(case["seed"])
    pr, X, _ = EN.data(s, mon)
    Y = output(case, X, pr, rng)
    globals()["k_" + case["kind"]](case, mon, s, pr, X, Y, rng)
    mon.hit(f"{case['kind']}:{s['method']}")
    mon.hit("groups", bool(pr.get("groups")))
    mon.hit("scaled", bool(s["kw"].get("scaled")))
    mon.hit("second_order", s["method"] == "sobol" and s["kw"]["calc_second_order"])


def k_levels(case, mon, s, pr, X, Y, rng):
    m = s["method"]
    R0 = None
    for c in case["levels"]:
        R = EN.flat(analyse(mon, s, pr, X, Y, conf_level=c))
        if R0 is None:
            R0, c0 = R, c
            mon.observe(*[R[k] for k in sorted(R)])
            for k in CONF[m]:
                if k in R:
                    v = R[k + "_conf"]
                    mon.ok(np.all((v >= 0) | np.isnan(v)), f"{m}: negative width {k}_conf = {v}")
                    w = R[k]
                    mon.ok(np.array_equal(np.isnan(v), np.isnan(w)) or m == "morris", f"{m}: {k} and {k}_conf are not defined for the same entries")
            continue
        f = norm.ppf((1 + c) / 2) / norm.ppf((1 + c0) / 2)
        for k in R:
            if k.endswith("_conf"):
                mon.close(R[k], R0[k] * f, f"{m}: {k} at level {c} from that at {c0}", rtol=1e-9, atol=1e-14)
            else:
                mon.same(R[k], R0[k], f"{m}: {k} at level {c} and at level {c0}")


def k_kept(case, mon, s, pr, X, Y, rng):
    K = s["kw"]["num_resamples"]
    more = dict(parallel=True, n_processors=3) if case["parallel"] else {}
    R = analyse(mon, s, pr, X, Y, keep_resamples=True, **more)
    z = norm.ppf(0.975)
    mon.observe(np.asarray(R["S1_conf"]))
    for k in ("S1", "ST"):
        a = np.asarray(R[k + "_conf_all"], float)
        mon.eq(a.shape, (K, len(R[k])), f"shape of {k}_conf_all")
        mon.close(R[k + "_conf"], z * a.std(axis=0, ddof=1), f"sobol: {k}_conf from the {K} kept resamples", rtol=1e-9)


def k_few(case, mon, s, pr, X, Y, rng):
    """With two or three resamples the mean squared width is still the variance of a resampled index."""
    m = s["method"]
    z = norm.ppf(0.975)
    boot = globals()["b_" + m](s, pr, X, np.asarray(Y, float), rng, 1500 if m != "delta" else 400)
    got = {}
    for _ in range(case["runs"]):
        f, a, k = EN.call(s, G.copy(pr), np.array(X), np.array(Y), seed=int(rng.integers(1 << 31)))
        F = EN.flat(mon.call(f, *a, **k))
        for key in boot:
            if key + "_conf" in F:
                got.setdefault(key, []).append((F[key + "_conf"] / z) ** 2)
    for key, v in got.items():
        v = np.array(v).reshape(len(v), -1)
        smp = boot[key].reshape(len(boot[key]), -1)
        mon.observe(v.mean(0))
        for j in range(v.shape[1]):
            x = smp[:, j]
            if np.isnan(x).any() or x.std() < 1e-9 * np.abs(x).max() or np.isnan(v[:, j]).any():
                continue
            d = (x - x.mean()) ** 2
            se = np.sqrt(v[:, j].var() / len(v) + d.var() / len(d))
            mon.ok(abs(v[:, j].mean() - x.var(ddof=1)) < 6 * se + 0.03 * x.var(), f"{m}: {key}_conf[{j}] with {s['kw']['num_resamples']} resamples "
                   f"corresponds to a mean variance of {v[:, j].mean():.5g}, an independent bootstrap gives {x.var(ddof=1):.5g}")


def k_spike(case, mon, s, pr, X, Y, rng):
    """One dominating run per block: how often a resample has it none, once or several times decides the width."""
    D = pr["num_vars"]
    Y = np.array(rng.normal(size=len(X)))
    Y[np.arange(D) * (len(Y) // D) + int(rng.integers(0, 60))] = 1e4
    k_boot(case, mon, s, pr, X, Y, rng)


def k_bad(case, mon, s, pr, X, Y, rng):
    mon.observe(Y)
    for c in (0, 1, -0.1, 1.5, 95, 0.0, 1.0):
        f, a, k = EN.call(s, G.copy(pr), np.array(X), np.array(Y), conf_level=c)
        mon.raises((RuntimeError, ValueError), f, *a, **k, _what=f"{s['method']} at confidence level {c}")


def k_zero(case, mon, s, pr, X, Y, rng):
    m = s["method"]
    b = np.array(pr["bounds"], float)
    z = (X - b[:, 0]) / (b[:, 1] - b[:, 0])
    if m == "sobol":
        v = float(rng.choice([0.0, 3.3, -1e6]))
        R = EN.flat(analyse(mon, s, pr, X, np.full(len(X), v)))
        mon.observe(R["S1"], v)
        for k in ("S1_conf", "ST_conf"):
            mon.same(R[k], np.zeros_like(R[k]), f"sobol: {k} of a constant output")
        return
    c = rng.normal(size=X.shape[1])
    if m == "morris" and (pr.get("groups") or s["kw"].get("scaled")):
        return
    Y = z @ c
    R = EN.flat(analyse(mon, s, pr, X, Y))
    key = CONF[m][0]
    mon.observe(R[key])
    mon.ok(np.all(np.abs(R[key + "_conf"]) <= 1e-6 * np.abs(R[key]).max()), f"{m}: {key}_conf of an additive model must vanish: {R[key + '_conf']}")


# ------------------------------------------------------------------ independent bootstrap
def k_boot(case, mon, s, pr, X, Y, rng):
    m = s["method"]
    K = s["kw"]["num_resamples"]
    more = {"keep_resamples": True} if m == "sobol" else {}
    R = analyse(mon, s, pr, X, Y, **more)
    F = EN.flat(R)
    z = norm.ppf(0.975)
    B = 600 if m != "delta" else 120
    if case["kind"] == "spike":
        B = 5000
    if case.get("tight"):
        B = 4000
        mon.hit("tight:" + m)
    mon.hit("large", bool(case.get("large")))
    boot = globals()["b_" + m](s, pr, X, np.asarray(Y, float), rng, B)
    for key, smp in boot.items():
        got = F[key + "_conf"] / z
        mon.observe(got)
        if smp.ndim == 2:
            smp = smp[:, :, None]
            got = got[:, None]
        for i, j in np.ndindex(*smp.shape[1:]):
            v = smp[:, i, j]
            if np.isnan(F[key].reshape(smp.shape[1:])[i, j]) and m in ("delta", "dgsm"):
                continue
            if np.isnan(v).all():
                mon.ok(np.isnan(got[i, j]), f"{m}: {key}_conf[{i},{j}] = {got[i, j]!r} where the index is undefined")
                continue
            sd = v.std(ddof=1)
            if sd < 1e-9 * max(1e-12, np.abs(v).max()):
                continue
            kurt = max(3.0, float(np.mean((v - v.mean()) ** 4) / v.var() ** 2))
            se = np.sqrt((kurt * 1.3 - 1) / 4 * (1 / K + 1 / B))
            lo, hi = np.exp(-6 * se - 0.02), np.exp(6 * se + 0.02)
            mon.ok(lo <= got[i, j] / sd <= hi, lambda: f"{m}: {key}_conf[{i},{j}] corresponds to a standard deviation of {got[i, j]:.5g}, "
                   f"an independent bootstrap gives {sd:.5g} (ratio accepted {lo:.2f}..{hi:.2f}, {K} resamples)")
    if m == "sobol":
        for k in ("S1", "ST"):
            a = np.asarray(R[k + "_conf_all"], float)
            mon.eq(a.shape, (K, len(R[k])), f"shape of {k}_conf_all")
            mon.close(F[k + "_conf"], z * a.std(axis=0, ddof=1), f"sobol: {k}_conf from the kept resamples", rtol=1e-9)
            sd = a.std(axis=0, ddof=1)
            mon.ok(np.all(np.abs(a.mean(0) - F[k]) <= 6 * sd / np.sqrt(K) + 0.5 * sd), f"sobol: resampled {k} centre {a.mean(0)}, index {F[k]}")
        mon.hit("kept")


def b_sobol(s, pr, X, Y, rng, B):
    G_ = len(set(pr["groups"])) if pr.get("groups") else pr["num_vars"]
    so = s["kw"]["calc_second_order"]
    st = 2 * G_ + 2 if so else G_ + 2
    y = ((Y - Y.mean()) / Y.std()).reshape(-1, st)
    N = len(y)
    out = {"S1": [], "ST": [], "S2": []}
    for _ in range(B):
        q = y[rng.integers(0, N, N)]
        A, Bm = q[:, 0], q[:, -1]
        V = np.var(np.concatenate([A, Bm]))
        S1 = np.array([np.mean(Bm * (q[:, 1 + j] - A)) / V for j in range(G_)])
        out["S1"].append(S1)
        out["ST"].append([0.5 * np.mean((A - q[:, 1 + j]) ** 2) / V for j in range(G_)])
        if so:
            M = np.full((G_, G_), np.nan)
            for j, k in itertools.combinations(range(G_), 2):
                M[j, k] = np.mean(q[:, 1 + G_ + j] * q[:, 1 + k] - A * Bm) / V - S1[j] - S1[k]
            out["S2"].append(M)
    if not so:
        del out["S2"]
    return {k: np.array(v) for k, v in out.items()}


def b_morris(s, pr, X, Y, rng, B):
    from .c11 import effects
    mem = G.members(pr)
    p = s["skw"]["num_levels"]
    E = np.abs(effects(X, Y, mem, p / (2.0 * (p - 1)), s["kw"].get("scaled", False)))
    if any(len(g) > 1 for g in mem):  # the documented group width is the mean of the members' widths
        out = np.array([[E[rng.integers(0, len(E), len(E)), j].mean() for j in range(E.shape[1])] for _ in range(B)])
        sd = out.std(axis=0, ddof=1)
        smp = (out - out.mean(0)) / np.where(sd > 0, sd, 1)
        return {"mu_star": np.stack([smp[:, g[0]] * sd[g].mean() for g in mem], axis=1)}
    return {"mu_star": np.array([E[rng.integers(0, len(E), len(E))].mean(0) for _ in range(B)])}


def spec_fast(y, M):
    n = len(y)
    om = (n - 1) // (2 * M)
    P = np.abs(np.fft.rfft(y))[1:(n + 1) // 2] ** 2
    return P[[om * k - 1 for k in range(1, M + 1)]].sum() / P.sum(), 1 - P[:om // 2].sum() / P.sum()


def b_fast(s, pr, X, Y, rng, B):
    D = pr["num_vars"]
    Yb = Y.reshape(D, -1)
    n = Yb.shape[1]
    r = np.array([[spec_fast(Yb[i][rng.integers(0, n, -(-n // 2))], s["kw"]["M"]) for i in range(D)] for _ in range(B)])
    return {"S1": r[:, :, 0], "ST": r[:, :, 1]}


def b_rbd_fast(s, pr, X, Y, rng, B):
    M, N = s["kw"]["M"], len(Y)
    n = N // 2

    def one(x, y):
        o = np.argsort(x, kind="stable")
        y = y[np.concatenate([o[::2], o[1::2][::-1]])]
        P = np.abs(np.fft.rfft(y - y.mean())) ** 2
        P = P[1:]
        if n % 2 == 0:
            P[-1] /= 2
        S = P[:M].sum() / P.sum()
        lam = 2 * M / n
        return S - lam / (1 - lam) * (1 - S)

    return {"S1": np.array([[one(X[i, j], Y[i]) for j in range(X.shape[1]) for i in [rng.integers(0, N, n)]] for _ in range(B)])}


def b_dgsm(s, pr, X, Y, rng, B):
    D = pr["num_vars"]
    b = np.array(pr["bounds"], float)
    T, y = X.reshape(-1, D + 1, D), Y.reshape(-1, D + 1)
    g2 = np.column_stack([((y[:, j + 1] - y[:, 0]) / (T[:, j + 1, j] - T[:, 0, j])) ** 2 for j in range(D)])
    sc = (b[:, 1] - b[:, 0]) ** 2 / (np.pi ** 2 * y[:, 0].var())
    n = len(g2)
    return {"dgsm": np.array([g2[rng.integers(0, n, n)].mean(0) * sc for _ in range(B)])}


def b_delta(s, pr, X, Y, rng, B):
    N = len(Y)
    M = int(np.round(min(int(np.ceil(N ** (2 / (7 + np.tanh((1500 - N) / 500))))), 48)))
    edges = np.linspace(0, N, M + 1)
    grid = np.linspace(Y.min(), Y.max(), 100)

    def classes(x):
        r = rankdata(x, method="ordinal")
        return [np.where((r > edges[k]) & (r <= edges[k + 1]))[0] for k in range(M)]

    def delta(x, y):
        f = gaussian_kde(y, bw_method="silverman")(grid)
        d = 0.0
        for ix in classes(x):
            if len(ix) and np.ptp(y[ix]) != 0:
                d += len(ix) / (2 * N) * np.trapezoid(np.abs(f - gaussian_kde(y[ix], bw_method="silverman")(grid)), grid)
        return d

    def s1(x, y):
        return sum(len(ix) / N * (y[ix].mean() - y.mean()) ** 2 for ix in classes(x)) / y.var()

    raw, S = np.empty((B, X.shape[1])), np.empty((B, X.shape[1]))
    for k in range(B):
        for j in range(X.shape[1]):
            i = rng.integers(0, N, N)
            raw[k, j], S[k, j] = delta(X[i, j], Y[i]) if s["kw"]["method"] != "sobol" else np.nan, s1(X[i, j], Y[i])
    if s["kw"]["method"] == "sobol":
        return {"S1": S}
    return {"delta_raw": raw, "S1": S}
