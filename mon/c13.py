"""C13: delta moment-independent analysis.

The output array handed to the code is an ndarray subclass that logs the row indices used to subset it, so every
resample the analysis really used is known; the monitor recomputes every number from these rows.
"""
import os
import tempfile

import numpy as np
from . import gen as G
from .core import Inconclusive

RULE = ("Random given-data samples (uniform, skewed, tied, zero-inflated, binary, constant inputs; continuous and discrete "
        "outputs), methods, resample sizes and bin specifications: the rows drawn by the analysis are logged, their "
        "composition is checked (raw: uniform; balanced: equal share of every merged bin; step: half non-positive, half "
        "positive) and S1, the bias-reduced deltas and widths are recomputed from exactly these rows.")
REQUIRED = ["S1", "raw", "balanced", "step", "step_nan", "ties", "merged", "failed_parameter", "bins_int", "bins_list", "y_resamples",
            "monotone", "affineY", "method_delta", "method_sobol", "method_all", "rejections", "uniform_rows", "bad_bins",
            "bias_note", "no_bias_note"]
ASSUMPTIONS = ["exact recomputation needs the analysis to subset the output array by row index; otherwise the case is only "
               "judged by the metamorphic and range conditions (counted as unlogged)"]


class Logged(np.ndarray):
    """Logs integer-array subsetting of the root array (of its columns, when it has two dimensions)."""
    log = None
    column = None

    def __array_finalize__(self, obj):
        self.log = None

    def note(self, k):
        k = np.array(k)
        for r in (k if k.ndim == 2 else [k]):
            if not self.log or not np.array_equal(self.log[-1], r):  # the same rows looked up again
                self.log.append(r)

    def take(self, k, *a, **kw):
        if self.log is not None and np.asarray(k).ndim:
            self.note(k)
            return np.asarray(self).take(k, *a, **kw)
        return super().take(k, *a, **kw)

    def __getitem__(self, k):
        if self.log is not None:
            if isinstance(k, np.ndarray) and k.dtype.kind in "iu":
                if self.ndim == 1:
                    self.note(k)
                return np.asarray(self)[k]
            if self.ndim == 2 and isinstance(k, tuple) and len(k) == 2:
                if isinstance(k[0], np.ndarray) and k[0].dtype.kind in "iu" and np.ndim(k[1]) == 0:
                    self.note(k[0])
                    return np.asarray(self)[k]
                v = super().__getitem__(k)
                if isinstance(v, Logged) and v.ndim == 1 and len(v) == len(self):
                    v.log = self.log
                return v
        return super().__getitem__(k)


def logged(Y):
    v = Y.copy().view(Logged)
    v.log = []
    return v


def draw(rng, pl):
    return np.concatenate([rng.choice(mem, c) for mem, c in pl if c])


def gen(rng, tier):
    q = tier == "quick"
    for i in range(700 if q else 12000):
        D = int(rng.choice([1, 2, 3]))
        N = int(rng.choice([60, 100, 150, 200, 333, 500]))
        yield {"kind": "delta", "problem": {"num_vars": D, "names": G.names(rng, D), "bounds": [[0, 1]] * D}, "N": N,
               "x": [str(rng.choice(["unif", "unif", "skew", "ties", "zero", "binary", "const", "neg", "negzero", "negzero", "outlier", "fewpos"])) for _ in range(D)],
               "y": str(rng.choice(["func", "func", "normal", "heavy", "int"])), "R": int(rng.choice([2, 3, 6])),
               "level": float(rng.choice([0.95, 0.8, 0.99, 0.5])),
               "yres": None if rng.random() < 0.6 else int(rng.integers(N // 2, N + 1)),
               "method": str(rng.choice(["all", "all", "delta", "sobol"])),
               "bins": str(rng.choice(["none", "none", "int", "list", "bad"])), "seed": G.seed(rng), "meta": i % 3 == 0}
    for N in (1499, 1500, 2500, 5000):
        yield {"kind": "delta", "problem": {"num_vars": 1, "names": ["a"], "bounds": [[0, 1]]}, "N": N, "x": ["unif"], "y": "func",
               "R": 2, "level": 0.95, "yres": None, "method": "sobol", "bins": "none", "seed": G.seed(rng), "meta": False}
    for N in (70000, 130000):  # the number of classes reaches its maximum
        yield {"kind": "delta", "problem": {"num_vars": 1, "names": ["a"], "bounds": [[0, 1]]}, "N": N, "x": ["unif"], "y": "func",
               "R": 2, "level": 0.95, "yres": None, "method": "sobol", "bins": "none", "seed": G.seed(rng), "meta": False}
    for N in ((1500, 3000) if q else (1500, 3000, 8000, 20000)):
        yield {"kind": "delta", "problem": {"num_vars": 1, "names": ["a"], "bounds": [[0, 1]]}, "N": N, "x": ["unif"], "y": "func",
               "R": 2, "level": 0.95, "yres": None, "method": "all", "bins": "none", "seed": G.seed(rng), "meta": False}
    for x in ("unif", "skew", "zero", "negzero", "neg"):
        yield {"kind": "pool", "problem": {"num_vars": 1, "names": ["a"], "bounds": [[0, 1]]}, "N": 200, "x": [x], "y": "func",
               "R": 60 if q else 600, "level": 0.95, "yres": None, "method": "all", "bins": "none", "seed": G.seed(rng), "meta": False}


def classes(n):
    e = 2.0 / (7.0 + np.tanh((1500.0 - n) / 500.0))
    M = int(np.round(min(int(np.ceil(n ** e)), 48)))
    return np.linspace(0, n, M + 1)


def members(x, m):
    r = np.empty(len(x), int)
    r[np.argsort(x, kind="stable")] = np.arange(1, len(x) + 1)
    return [np.nonzero((r > m[j]) & (r <= m[j + 1]))[0] for j in range(len(m) - 1)]


def first(y, x, m):
    if np.ptp(y) == 0:
        return 0.0
    v = sum(len(c) / len(y) * (y[c].mean() - y.mean()) ** 2 for c in members(x, m))
    return v / np.mean((y - y.mean()) ** 2)


def kde(y, grid):
    n = len(y)
    h = (3 * n / 4.0) ** -0.2 * np.std(y, ddof=1)
    return np.exp(-0.5 * ((grid[:, None] - y[None, :]) / h) ** 2).sum(1) / (n * h * np.sqrt(2 * np.pi))


def dhat(y, grid, x, m):
    f = kde(y, grid)
    d = 0.0
    for c in members(x, m):
        if len(c) and np.ptp(y[c]) > 0:
            g = np.abs(f - kde(y[c], grid))
            d += len(c) / (2 * len(y)) * np.sum((g[1:] + g[:-1]) / 2 * np.diff(grid))
    return d


def bins_of(x, edges, least):
    """Merged bins: extended upwards until large enough, an underpopulated last one joins its predecessor."""
    raw = [np.nonzero(((x >= a) if i == 0 else (x > a)) & (x <= b))[0] for i, (a, b) in enumerate(zip(edges[:-1], edges[1:]))]
    out, cur = [], np.array([], int)
    for b in raw:
        cur = np.concatenate([cur, b])
        if len(cur) >= least:
            out.append(cur)
            cur = np.array([], int)
    if len(cur):
        if out:
            out[-1] = np.concatenate([out[-1], cur])
        else:
            out.append(cur)
    return out, len(out) != len(raw)


def plan(x, mode, edges, n, least):
    """-> list of (rows, number of draws), or None when resampling is impossible."""
    if x.max() == x.min():
        return None, False
    if mode == "raw":
        return [(np.arange(len(x)), n)], False
    parts = []
    rows = np.arange(len(x))
    size = n
    if mode == "step":
        parts.append((rows[x <= 0], n // 2))
        size = n - n // 2
        rows = rows[x > 0]
        least = least // 2
        xs = x[rows]
        edges = np.linspace(xs.min(), xs.max(), 6)
    b, merged = bins_of(x[rows], edges, least)
    if len(b) < 2 or size // len(b) < least:
        return None, merged
    k, rem = divmod(size, len(b))
    return parts + [(rows[v], k + (i < rem)) for i, v in enumerate(b)], merged


def data(case, rng):
    N = case["N"]
    cols = []
    for k in case["x"]:
        u = rng.uniform(size=N)
        if k == "skew":
            u = np.exp(2.5 * rng.normal(size=N))
        elif k == "ties":
            u = np.round(u * 15) / 15 + 0.01
        elif k == "zero":
            u = np.where(rng.uniform(size=N) < 0.4, 0.0, u + 0.05)
        elif k == "binary":
            u = (u > 0.4).astype(float)
        elif k == "const":
            u = np.full(N, 0.7)
        elif k == "neg":
            u = u * 2 - 1
        elif k == "negzero":  # negative values, exact zeros and positive values
            u = np.where(rng.uniform(size=N) < 0.3, 0.0, u * 2 - 0.8)
        elif k == "fewpos":  # hardly any positive value
            u = -u
            u[rng.permutation(N)[: int(rng.integers(0, 14))]] *= -1
        elif k == "outlier":
            u[: max(1, N // 60)] += 30
        cols.append(u)
    X = np.column_stack(cols)
    Y = np.sin(4 * X[:, 0]) + X.sum(1) * 0.5 + 0.2 * rng.normal(size=N)
    if case["y"] == "normal":
        Y = rng.normal(size=N)
    elif case["y"] == "heavy":
        Y = np.exp(rng.normal(size=N)) + X[:, 0]
    elif case["y"] == "int":
        Y = np.floor(2 * Y)
    return X, Y


def analyse(mon, pr, X, Y, case, specs, **over):
    from SALib.analyze import delta
    import warnings

    kw = dict(num_resamples=case["R"], conf_level=case["level"], y_resamples=case["yres"], method=case["method"], seed=17)
    if specs:
        kw["bins_specs"] = specs
    kw.update(over)
    fmt = warnings.formatwarning
    try:
        return mon.call(delta.analyze, G.copy(pr), X, Y, **kw)
    finally:
        warnings.formatwarning = fmt


def run(case, mon):
    from scipy.stats import norm, chisquare
    from SALib.analyze import delta

    pr, N, R, method = case["problem"], case["N"], case["R"], case["method"]
    D, names = pr["num_vars"], pr["names"]
    rng = np.random.default_rng(case["seed"])
    X, Y = data(case, rng)
    n = case["yres"] or N
    m = classes(n)
    specs, edges = {}, {}
    badspec = set()
    for j, nm in enumerate(names):
        lo, hi = X[:, j].min(), X[:, j].max()
        edges[nm] = np.linspace(lo, hi, 11)
        if case["bins"] == "int" and j == 0:
            k = int(rng.integers(2, 8))
            specs[nm] = k
            edges[nm] = np.linspace(lo, hi, k + 1)
        elif case["bins"] == "list" and j == 0 and hi > lo:
            e = np.sort(rng.uniform(0.15, 0.85, int(rng.integers(1, 4)))) * (hi - lo) + lo
            specs[nm] = e.tolist()
            edges[nm] = np.concatenate([[lo - 1e-9], e, [hi + 1e-9]])
        elif case["bins"] == "bad" and j == 0 and hi > lo:
            specs[nm] = [["q", "r"], [lo - 1, hi + 1], [(lo + hi) / 2, (lo + hi) / 4 + lo / 2], "ten"][int(rng.integers(4))]
            badspec.add(j)
    L, LX = logged(Y), logged(X)
    saved = []
    if case["meta"] and method in ("all", "delta"):
        from unittest import mock
        import pandas as pd

        with tempfile.TemporaryDirectory() as td:
            path = os.path.join(td, "rows" + str(rng.choice(["", ".parquet"])))
            with mock.patch.object(pd.DataFrame, "to_parquet", lambda df, p, *a, **k: saved.append((df.copy(), str(p)))):
                S = analyse(mon, pr, LX, L, case, specs, bootstrap_savedf=path)
            mon.eq(os.listdir(td), [], "files written by the stand-in for the parquet writer")
        for df, p in saved:
            mon.eq(p, os.path.join(td, "rows.parquet"), "path of the bootstrap file")
    else:
        S = analyse(mon, pr, LX, L, case, specs)
    mon.observe(*[np.asarray(S[k], float) for k in S if k not in ("names", "notes")])
    methods = ["delta", "sobol"] if method == "all" else [method]
    want_keys = {"names", "notes"}
    if "delta" in methods:
        want_keys |= {f"delta_{a}{b}" for a in ("balanced", "raw", "step") for b in ("", "_conf")}
    if "sobol" in methods:
        want_keys |= {"S1", "S1_conf"}
    mon.eq(set(S), want_keys, f"keys of method {method}")
    mon.eq(list(S["names"]), list(names), "names")
    mon.eq(len(S["notes"]), D, "one note per parameter")
    mon.hit("method_" + method)
    least = max(int(N * 0.005), 10)
    grid = np.linspace(Y.min(), Y.max(), 100)
    z = norm.ppf(0.5 + case["level"] / 2)
    exp = {k: np.full(D, np.nan) for k in want_keys - {"names", "notes"}}
    pos, pooled, unlogged, fine = 0, {}, False, np.ones(D, bool)
    blocks = []  # what each logged index set has to be
    for j in range(D):
        x = X[:, j]
        failed = False
        if "delta" in methods:
            for mode in ("balanced", "raw", "step"):
                if mode == "step" and min(np.sum(x <= 0), np.sum(x > 0)) < least:
                    mon.hit("step_nan")
                    continue
                pl, merged = plan(x, mode, edges[names[j]], n, least)
                if merged:
                    mon.hit("merged")
                if pl is None:
                    failed = True
                    break
                blocks.append((j, mode, pl, 1 + R))
        if failed:
            mon.hit("failed_parameter")
            fine[j] = False
            mon.ok(bool(S["notes"][j]), f"parameter {names[j]} cannot be analysed but has no note")
            continue
        if "sobol" in methods:
            blocks.append((j, "S1", [(np.arange(N), n)], 1 + R))
    total = sum(b[3] for b in blocks)
    log = L.log if len(L.log) == total else LX.log
    if len(log) != total:
        unlogged = True
    for j, mode, pl, cnt in blocks:
        if unlogged:
            break
        rows = log[pos:pos + cnt]
        pos += cnt
        x = X[:, j]
        for r in rows:
            mon.eq(len(r), n, f"size of a {mode} resample of {names[j]}")
            if mode in ("raw", "S1"):
                mon.ok(r.min() >= 0 and r.max() < N, "resampled row out of range")
            else:
                for mem, c in pl:
                    got = int(np.isin(r, mem).sum())
                    mon.eq(got, c, f"rows drawn by {mode} resampling of {names[j]} from a bin of {len(mem)} rows")
        pooled.setdefault((j, mode), []).extend(rows)
        mon.hit({"S1": "S1"}.get(mode, mode))
        if mode == "S1":
            exp["S1"][j] = first(Y[rows[0]], x[rows[0]], m)
            v = np.array([first(Y[r], x[r], m) for r in rows[1:]])
            exp["S1_conf"][j] = z * v.std(ddof=1)
        elif case["kind"] != "pool":
            d0 = dhat(Y[rows[0]], grid, x[rows[0]], m)
            v = np.array([2 * d0 - dhat(Y[r], grid, x[r], m) for r in rows[1:]])
            exp[f"delta_{mode}"][j] = v.mean()
            exp[f"delta_{mode}_conf"][j] = z * v.std(ddof=1)
    for df, _ in saved:  # the saved bootstrap subset: the first resample of every mode
        k, want = 0, {}
        for j, mode, pl, cnt in blocks:
            if mode != "S1":
                want[f"{names[j]}_{mode}"] = None if unlogged else X[log[k], j]
            k += cnt
        mon.eq(sorted(df.columns), sorted(want), "columns of the bootstrap file")
        for c, v in want.items():
            if v is not None:
                mon.same(df[c].to_numpy(), v, f"saved bootstrap subset {c}")
        mon.hit("savedf")
    if unlogged:
        mon.hit("unlogged")
        for k in exp:
            g = np.asarray(S[k], float)
            mon.ok(np.all(np.isnan(g[~fine])) or k.startswith("delta"), f"{k} given for a parameter that cannot be analysed")
        rr = np.random.default_rng(case["seed"] + 5)
        for j, mode, pl, cnt in blocks:
            mon.hit(mode)
            if case["kind"] == "pool":
                mon.hit("uniform_rows")
            key = "S1" if mode == "S1" else f"delta_{mode}"
            g, gc = np.asarray(S[key], float)[j], np.asarray(S[key + "_conf"], float)[j]
            if not fine[j] and mode != "S1":
                continue
            if mode == "S1":
                b = np.array([first(Y[i], X[i, j], m) for i in (draw(rr, pl) for _ in range(60))])
                c = b
            else:
                est = []
                for _ in range(12):  # the estimate with its bias reduction, repeated with rows of our own
                    rows = [draw(rr, pl) for _ in range(5)]
                    d0 = dhat(Y[rows[0]], grid, X[rows[0], j], m)
                    est.append([2 * d0 - dhat(Y[r], grid, X[r, j], m) for r in rows[1:]])
                est = np.array(est)
                b, c = est.mean(1), est
            mon.ok(abs(g - b.mean()) < 9 * b.std() + 0.02, f"{key} of {names[j]}: {g} far from the bootstrap mean {b.mean()} (sd {b.std()})")
            mon.ok(gc < z * 6 * c.std() + 0.02, f"{key}_conf of {names[j]}: {gc}, resamples vary by {c.std()}")
            if R >= 60:
                mon.ok(gc > z * (b if mode == "S1" else c[0]).std() / 6 - 1e-9, f"{key}_conf of {names[j]}: {gc}, resamples vary by {c.std()}")
    elif case["kind"] != "pool":
        for k in exp:
            g = np.asarray(S[k], float)
            sel = fine if k.startswith("delta") else np.ones(D, bool)
            mon.close(g[sel], exp[k][sel], f"{k} ({case['x']}, N={N}, n={n})", rtol=1e-6, atol=1e-8)
    if "delta" in methods:
        for j in range(D):
            if fine[j]:
                diff = abs(float(S["delta_balanced"][j]) - float(S["delta_raw"][j]))
                if abs(diff - 0.1) > 1e-9:
                    told = "balanced" in str(S["notes"][j])
                    mon.eq(told, diff > 0.1, f"note on raw and balanced deltas differing by {diff:.3g}: {S['notes'][j]!r}")
                    mon.hit("bias_note" if told else "no_bias_note")
    for a in ("S1", "S1_conf", "delta_raw_conf", "delta_balanced_conf", "delta_step_conf"):
        if a in S:
            g = np.asarray(S[a], float)
            mon.ok(np.all(np.isnan(g) | (g >= 0)), f"negative {a}")
    if case["kind"] == "pool" and not unlogged:  # rows are drawn uniformly within their part
        for (j, mode), rows in pooled.items():
            pl = [b[2] for b in blocks if b[0] == j and b[1] == mode][0]
            for mem, c in pl:
                cnt = np.bincount(np.concatenate(rows), minlength=N)[mem]
                if cnt.sum() > 5 * len(mem) and len(mem) > 1:
                    pv = chisquare(cnt).pvalue
                    mon.ok(pv > 1e-9, f"{mode} resampling does not draw rows uniformly (p={pv:.1e})")
                    mon.hit("uniform_rows")
            mon.ok(len({r.tobytes() for r in rows}) == len(rows), f"{mode} resamples repeat")
    if any(k == "ties" or k == "binary" for k in case["x"]):
        mon.hit("ties")
    if specs:
        mon.hit({"int": "bins_int", "list": "bins_list"}.get(case["bins"], "bad_bins"))
    for j in badspec:
        if fine[j] and "delta" in methods:
            mon.ok("default" in str(S["notes"][j]), "no note about an unusable bin specification")
    if case["yres"]:
        mon.hit("y_resamples")
    if case["meta"]:
        S2 = analyse(mon, pr, X.copy(), 100 + 4.0 * Y, case, specs)
        for k in exp:
            mon.close(S2[k], np.asarray(S[k], float), f"{k} after 100 + 4 Y", rtol=1e-5, atol=1e-7)
        if "list" != case["bins"]:
            S3 = analyse(mon, pr, X.copy(), Y * 2.0 ** -45, case, specs)
            for k in exp:
                mon.close(S3[k], np.asarray(S[k], float), f"{k} of tiny outputs", rtol=1e-5, atol=1e-7)
        mon.hit("affineY")
        if not specs:
            W = np.where(X > 0, np.expm1(X / np.abs(X).max(0)), X)
            if all(len(np.unique(W[:, j])) == len(np.unique(X[:, j])) for j in range(D)):
                over = {} if method == "sobol" else {"method": "sobol"}
                a = analyse(mon, pr, X.copy(), Y.copy(), case, specs, **over)
                b = analyse(mon, pr, W, Y.copy(), case, specs, **over)
                mon.close(b["S1"], np.asarray(a["S1"], float), "S1 after an increasing map of the inputs", rtol=1e-9)
                mon.hit("monotone")
        for bad, exc in ((dict(conf_level=0), RuntimeError), (dict(conf_level=1), RuntimeError), (dict(conf_level=95), RuntimeError),
                         (dict(method="both"), ValueError), (dict(y_resamples=N + 1), RuntimeError)):
            mon.raises(exc, delta.analyze, G.copy(pr), X, Y, _what=f"delta.analyze {bad}", **bad)
        mon.raises(RuntimeError, delta.analyze, G.copy(pr), X[:-1], Y, _what="X and Y of different length")
        q = G.copy(pr)
        q["names"] = [names[0] + str(rng.choice(["_raw", "_balanced", "_step", "_conf"]))] + list(names[1:])
        mon.raises(ValueError, delta.analyze, q, X, Y, _what="reserved name suffix")
        mon.hit("rejections", 7)
