"""C34: a missing model output (NaN) is never hidden."""
import contextlib
import io

import numpy as np
from . import gen as G
from . import entry as EN

RULE = ("Random analyses of all twelve analyzers with one to three outputs replaced by NaN (any row: base points, perturbed points, "
        "first, last): every index computed from such a row has to be NaN or the analysis has to raise; indices of parameters whose "
        "rows are all present are NaN or equal to those without missing values; PAWN, which omits missing outputs, is recomputed.")
KINDS = ["nan:" + m for m in EN.ALL]
REQUIRED = KINDS + ["untouched_equal", "first_row", "last_row", "several", "grouped", "spec"]
CASE_LIMIT = 120


def gen(rng, tier):
    n = 60 if tier == "quick" else 900
    for m in EN.ALL:
        slow = m in ("hdmr", "enhanced_hdmr", "delta")
        for i in range(max(15, n // 3) if slow else n):
            s = EN.setup(rng, m, group=rng.random() < 0.3 and m not in ("delta", "dgsm", "rbd_fast"))
            if m == "hdmr":
                s["kw"]["K"] = 1
            if m == "enhanced_hdmr":
                s["kw"]["bootstrap"] = 1
                s["kw"]["extended_base"] = bool(rng.integers(2))
            yield {"kind": m, "spec": s, "where": str(rng.choice(["any", "any", "any", "first", "last"])),
                   "k": int(rng.choice([1, 1, 2, 3])), "spec_run": bool(rng.random() < 0.3), "seed": G.seed(rng)}


def ks(a, b):
    a, b = np.sort(a), np.sort(b)
    v = np.concatenate([a, b])
    return np.max(np.abs(np.searchsorted(a, v, "right") / len(a) - np.searchsorted(b, v, "right") / len(b)))


def touched(m, s, pr, X, rows):
    """Parameter (or group) numbers whose index needs one of the rows; None: all."""
    D = pr["num_vars"]
    if m == "fast":
        n = len(X) // D
        return {int(r) // n for r in rows}
    if m == "dgsm":
        out = set()
        for r in rows:
            k = int(r) % (D + 1)
            out |= set(range(D)) if k == 0 else {k - 1}
        return out
    if m == "morris":
        gl = G.ugroups(pr) if pr.get("groups") else pr["names"]
        lab = pr.get("groups") or pr["names"]
        n = len(gl) + 1
        out = set()
        for r in rows:
            t = int(r) // n * n
            for a, b in ((r - 1, r), (r, r + 1)):
                if a >= t and b < t + n:
                    out |= {gl.index(lab[j]) for j in np.nonzero(X[a] != X[b])[0]}
        return out
    return None


INDICES = {"sobol": ["S1", "ST", "S2"], "morris": ["mu", "mu_star", "sigma"], "fast": ["S1", "ST"], "rbd_fast": ["S1"],
           "delta": ["delta_balanced", "delta_raw"], "dgsm": ["vi", "dgsm"], "ff": ["ME", "IE"], "discrepancy": ["s_discrepancy"],
           "hdmr": ["Sa", "S", "ST"], "enhanced_hdmr": ["Sa", "S", "ST"]}


def run(case, mon):
    from SALib import ProblemSpec
    import warnings

    s = case["spec"]
    m = s["method"]
    rng = np.random.default_rng(case["seed"])
    pr, X, Y = EN.data(s, mon)
    N = len(Y)
    rows = rng.choice(N, case["k"], replace=False)
    if case["where"] != "any":
        rows[0] = 0 if case["where"] == "first" else N - 1
        mon.hit(case["where"] + "_row")
    rows = np.unique(rows)
    if len(rows) > 1:
        mon.hit("several")
    if pr.get("groups"):
        mon.hit("grouped")
    f, a, kw = EN.call(s, G.copy(pr), X.copy(), Y.copy())
    base = EN.flat(mon.call(f, *a, **kw))
    Z = Y.copy()
    Z[rows] = np.nan
    mon.observe(Z)
    f, a, kw = EN.call(s, G.copy(pr), X.copy(), Z.copy())
    fmt = warnings.formatwarning
    raised, kept = None, Z
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if case["spec_run"]:
                q = G.copy(pr)
                sp = ProblemSpec(q)
                sp.samples, sp.results = X.copy(), Z.copy()
                kept = np.array(sp.results, float)
                sp.analyze(f, **kw)
                R = sp.analysis
                mon.hit("spec")
            else:
                R = f(*a, **kw)
    except Exception as e:
        raised = e
    finally:
        warnings.formatwarning = fmt
    mon.same(kept, Z, "missing results held by a ProblemSpec")
    mon.hit("nan:" + m)
    mon.ok(np.array_equal(Z[rows], [np.nan] * len(rows), equal_nan=True), "outputs changed")
    if raised is not None:
        mon.ok(m != "pawn", f"PAWN with missing outputs raised {raised!r}")
        mon.checks += 1
        mon.observe(type(raised).__name__)
        return
    F = EN.flat(R)
    mon.observe(*F.values())
    if m == "pawn":
        return pawn(mon, s, pr, X, Z, F)
    if m == "rsa":
        for g in (G.ugroups(pr) if pr.get("groups") else pr["names"]):
            v = np.asarray(R[g], float)
            mon.ok(np.isnan(v).any(), f"rsa: {s['kw']}: indices of {g} all finite, though outputs {rows} are missing: {v}")
        return
    t = touched(m, s, pr, X, rows)
    for k in INDICES[m]:
        if k not in F:
            continue
        v = F[k]
        if k == "S2":
            v = v[np.triu_indices(len(v), 1)]
        if v.ndim == 0 or t is None:
            mon.ok(np.isnan(v).all(), f"{m} {s['kw']}: {k} = {v}, though outputs {rows} of {N} are missing")
            continue
        for i in range(len(v)):
            if i in t:
                mon.ok(np.isnan(v[i]), f"{m} {s['kw']}: {k}[{i}] = {v[i]}, though outputs {rows} of {N} are missing")
            elif not np.isnan(v[i]):
                if k == "dgsm":
                    continue
                mon.close(v[i], base[k][i], f"{m}: {k}[{i}], all of whose outputs are present", rtol=1e-9, atol=1e-12 * (1 + abs(base[k][i])))
                mon.hit("untouched_equal")


def pawn(mon, s, pr, X, Z, F):
    S = s["kw"]["S"]
    ok = ~np.isnan(Z)
    out = []
    for j in range(pr["num_vars"]):
        x = X[:, j]
        q = np.quantile(x, np.linspace(0, 1, S + 1))
        v = []
        for i in range(S):
            sel = (x >= q[i]) & ((x <= q[i + 1]) if i == S - 1 else (x < q[i + 1]))
            if (sel & ok).any():
                v.append(ks(Z[sel & ok], Z[ok]))
            elif sel.any():
                return  # a slice without any output is not claimed
        v = np.array(v)
        out.append([v.min(), v.mean(), np.median(v), v.max(), v.std() / v.mean() if v.mean() else np.nan, v.std()])
    out = np.array(out)
    if pr.get("groups"):
        out = np.array([out[i].mean(0) for i in G.members(pr)])
    for i, k in enumerate(["minimum", "mean", "median", "maximum", "CV", "stdev"]):
        mon.close(F[k], out[:, i], f"pawn: {k} without the missing outputs", rtol=1e-9, atol=1e-12)
