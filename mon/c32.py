"""C32: plots draw the numbers of the result they are given."""
import copy

import numpy as np
from . import gen as G
from . import entry as EN
from .c24 import COLS, DELTA, BY_GROUP, labels as term_labels, lab

RULE = ("Random results of all analyzers (single and several outputs, groups, shuffled names) plotted through the results, the ProblemSpec and "
        "the plotting modules; the monitor reads bars, error bars, points, images, tick labels and titles back from the Matplotlib artists.")
REQUIRED = (["bars:" + m for m in EN.ALL if m not in ("rsa", "hdmr")] + ["heat:" + m for m in EN.ALL if m not in ("rsa", "enhanced_hdmr")] +
            ["multi", "grouped", "barh", "scatter", "scatter:conf", "hist", "rsa", "rsa:gaps", "hdmr", "bars:direct", "own axes"])
CASE_LIMIT = 150
TECHNIQUE = "runtime monitoring: Matplotlib artists read back after real plotting calls and compared with the result that was plotted"


def gen(rng, tier):
    n = 8 if tier == "quick" else 150
    for _ in range(n):
        for m in EN.ALL:
            s = EN.setup(rng, m, group=m in BY_GROUP and rng.random() < 0.5)
            if m == "hdmr" and rng.random() < 0.5:
                s["kw"].update(K=int(rng.choice([9, 10, 11, 15, 20, 23])), maxorder=1)
            yield {"kind": "result", "spec": s, "nout": int(rng.choice([1, 1, 2, 3])),
                   "own": bool(rng.random() < 0.5), "seed": G.seed(rng)}
        for _ in range(6):
            yield {"kind": "morris", "spec": EN.setup(rng, "morris", group=rng.random() < 0.4), "sortby": str(rng.choice(["mu_star", "mu_star_conf", "sigma", "mu"])),
                   "unit": str(rng.choice(["", "m/s"])), "seed": G.seed(rng)}
        for _ in range(3):
            yield {"kind": "hist", "spec": EN.setup(rng, "morris", D=int(rng.choice([2, 3, 5, 10, 12]))), "seed": G.seed(rng)}
            yield {"kind": "direct", "rows": int(rng.integers(1, 9)), "cols": int(rng.integers(1, 5)), "seed": G.seed(rng)}


def run(case, mon):
    import matplotlib.pyplot as plt

    plt.close("all")
    try:
        globals()["k_" + case["kind"]](case, mon, np.random.default_rng(case["seed"]), plt)
    finally:
        plt.close("all")


def num(v):
    return np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)


def bars(mon, ax, rows, cols, what, errs):
    """cols: {label: values}; errs: {label: half-widths}"""
    from matplotlib.container import BarContainer

    cont = [c for c in ax.containers if isinstance(c, BarContainer)]
    got = {c.get_label(): c for c in cont}
    mon.eq(sorted(got), sorted(cols), f"{what}: bar series")
    mon.eq([t.get_text() for t in ax.get_xticklabels()], rows, f"{what}: bar labels")
    ticks = ax.get_xticks()
    leg = ax.get_legend()
    if leg is not None:
        mon.eq(sorted(t.get_text() for t in leg.get_texts()), sorted(cols), f"{what}: legend")
        for h, t in zip(leg.legend_handles, leg.get_texts()):
            c = got[t.get_text()]
            mon.eq(h.get_facecolor(), c.patches[0].get_facecolor(), f"{what}: colour of {t.get_text()} in the legend")
    for k, v in cols.items():
        v = num(v)
        c = got[k]
        mon.eq(len(c.patches), len(v), f"{what}: number of {k} bars")
        mon.close([p.get_height() for p in c.patches], np.nan_to_num(v, posinf=np.inf, neginf=-np.inf), f"{what}: height of the {k} bars", rtol=1e-12, atol=0)
        mid = np.array([p.get_x() + p.get_width() / 2 for p in c.patches])
        mon.ok(np.all(np.abs(mid - ticks) < 0.5), lambda: f"{what}: {k} bars at {mid}, their labels at {ticks}")
        e = errs.get(k)
        if e is None:
            mon.ok(c.errorbar is None or not segments(c.errorbar), f"{what}: {k} has no widths but error bars are drawn")
            continue
        e = num(e)
        seg = segments(c.errorbar) if c.errorbar is not None else []
        mon.eq(len(seg), len(e), f"{what}: error bars of {k}")
        for i, s in enumerate(seg):
            if np.isnan(e[i]) or np.isnan(v[i]):
                continue
            mon.close(sorted(s[:, 1]), [v[i] - e[i], v[i] + e[i]], f"{what}: error bar of {k} for {rows[i]}", rtol=1e-9, atol=1e-12 * (1 + abs(v[i])))
            mon.close(s[:, 0], [mid[i]] * 2, f"{what}: place of the error bar of {k} for {rows[i]}", rtol=1e-9, atol=1e-9)
        mon.observe(v, e)


def segments(eb):
    out = []
    if eb is None:
        return out
    for lc in eb.lines[2]:
        out += [np.asarray(s) for s in lc.get_segments()]
    return out


def split(S, name, i, s):
    """Expected bars and error bars of data frame i."""
    if name == "delta":
        cols = sum([v for k, v in DELTA.items() if s["kw"]["method"] in ("all", k)], [])
    else:
        cols = COLS[name][i]
    pick = lambda c: [S[c][j, k] for j in range(len(S[c])) for k in range(j + 1, len(S[c]))] if c == "S2" or c == "S2_conf" else S[c]
    return ({c: pick(c) for c in cols if not c.endswith("_conf")}, {c[:-5]: pick(c) for c in cols if c.endswith("_conf")})


def k_result(case, mon, rng, plt):
    from SALib import ProblemSpec

    s = case["spec"]
    m = s["method"]
    pr, X, Y = EN.data(s, mon)
    if m == "rsa" and rng.random() < 0.5:  # a column of few values: some of its bins are empty
        j, b = int(rng.integers(X.shape[1])), pr["bounds"]
        lv = b[j][0] + (b[j][1] - b[j][0]) * np.sort(rng.uniform(size=3))
        X[:, j] = lv[rng.integers(0, 3, len(X))]
        mon.hit("rsa:gaps")
    outs = [f"out {i}" for i in rng.permutation(case["nout"])]
    q = G.copy(pr)
    q["outputs"] = outs
    sp = mon.call(ProblemSpec, q)
    Ys = np.column_stack([Y * (i + 1) + i * np.roll(Y, 7 * i) ** 2 for i in range(len(outs))])
    sp.samples = np.array(X)
    sp.results = Ys if len(outs) > 1 else Ys[:, 0]
    kw = dict(s["kw"], seed=s["aseed"])
    mon.call(getattr(sp, "analyze_" + m), **kw)
    A = sp.analysis if len(outs) > 1 else {outs[0]: sp.analysis}
    before = copy.deepcopy({o: EN.flat(R) for o, R in A.items()})
    L = term_labels(s, pr)
    if m == "ff" and s["kw"]["second_order"]:
        L.append([tuple(p) for p in A[outs[0]]["interaction_names"]])
    text = lambda v: str(v) if isinstance(v, str) else "(" + ", ".join(map(str, v)) + ")"
    if m == "rsa":
        rsa(case, mon, rng, plt, sp, A, pr, L[0], outs)
    elif m == "hdmr":
        hdmr(case, mon, plt, sp, A, outs, s, L)
    else:
        nf = len(L)
        if len(outs) == 1 and case["own"]:
            fig, ax = plt.subplots(1, nf)
            got = mon.call(sp.plot, ax=ax)
            mon.eq(len(plt.get_fignums()), 1, f"{m}: figures when axes are given")
            ax = np.atleast_1d(np.asarray(ax, dtype=object))[None, :]
            mon.hit("own axes")
        else:
            ax = mon.call(sp.plot)
            ax = np.asarray(ax, dtype=object).reshape(len(outs), nf)
        for r, o in enumerate(outs):
            if len(outs) > 1:
                mon.eq(ax[r, 0].get_title(), o, f"{m}: title of the row of {o!r}")
                mon.hit("multi")
            for i in range(nf):
                cols, errs = split(A[o], m, i, s)
                if m == "delta" and isinstance(A[o].get("notes"), (list, tuple)):
                    pass
                bars(mon, ax[r, i], [text(lab(v)) for v in L[i]], cols, f"{m}, {o}, plot {i}", errs)
        mon.hit("bars:" + m)
    mon.hit("grouped", bool(pr.get("groups")))
    if m not in ("rsa", "enhanced_hdmr"):
        heat(case, mon, rng, plt, sp, A, outs, s, L)
        mon.hit("heat:" + m)
    after = {o: EN.flat(R) for o, R in A.items()}
    for o in before:
        mon.eq(sorted(before[o]), sorted(after[o]), f"{m}: entries of the result after plotting")
        for k in before[o]:
            mon.same(after[o][k], before[o][k], f"{m}: {k} after plotting")


def heat(case, mon, rng, plt, sp, A, outs, s, L):
    m = s["method"]
    rows = L[0]
    o = outs[int(rng.integers(len(outs)))]
    R = A[o]
    sel = [k for k in R if k not in ("names", "notes", "Term") and not k.endswith("_conf") and np.shape(R[k]) == (len(rows),)
           and np.asarray(R[k]).dtype.kind in "fiu"]
    must = [k for f in (COLS.get(m, []) if m != "delta" else [sum([v for k, v in DELTA.items() if s["kw"]["method"] in ("all", k)], [])])
            for k in f if not k.endswith("_conf") and not (m == "ff" and k == "IE") and k != "S2"]
    if m == "sobol":
        must = ["S1", "ST"]
    for req in (None, must[int(rng.integers(len(must)))], list(rng.permutation(must + (["S2"] if "S2" in R else []))) if len(must) > 1 else must):
        if isinstance(req, list):
            req = [str(v) for v in req]
        a = None
        if case["own"]:
            fig, a = plt.subplots()
            plt.figure()  # another current figure
        n0 = len(fig.axes) if a is not None else 0
        metric = o if len(outs) > 1 or rng.random() < 0.5 else None
        title = "a title" if rng.random() < 0.3 else None
        ax = mon.call(sp.heatmap, metric, req, title, a) if rng.random() < 0.5 else mon.call(sp.heatmap, metric=metric, index=req, title=title, ax=a)
        if a is not None:
            mon.ok(ax is a, f"{m}: heatmap drawn on the given axes")
            mon.eq(len(fig.axes), n0 + 1, f"{m}: axes in the figure of the heatmap (one colour bar)")
        img = num(ax.images[0].get_array())
        lab_y = [t.get_text() for t in ax.get_yticklabels()]
        lab_x = [t.get_text() for t in ax.get_xticklabels()]
        mon.eq(lab_x, [str(v) for v in rows], f"{m}: heatmap columns")
        mon.close(list(ax.get_xticks()), range(len(rows)), f"{m}: places of the heatmap columns")
        mon.close(list(ax.get_yticks()), range(len(lab_y)), f"{m}: places of the heatmap rows")
        if req is None:
            mon.ok(set(must) <= set(lab_y) and set(lab_y) <= set(sel), f"{m}: heatmap rows {lab_y}, indices {must}")
        else:
            mon.eq(lab_y, [k for k in ([req] if isinstance(req, str) else req) if k != "S2" or len(rows) == 0], f"{m}: heatmap rows for {req}")
        mon.eq(img.shape, (len(lab_y), len(rows)), f"{m}: size of the heatmap")
        for i, k in enumerate(lab_y):
            mon.close(img[i], num(R[k]), f"{m}: heatmap row {k}", rtol=1e-12, atol=0)
        mon.eq(ax.get_title(), title or metric or outs[0], f"{m}: heatmap title")
        lo, hi = ax.images[0].get_clim()
        if np.isfinite(img).any() and np.nanmax(img) - np.nanmin(img) > 1e-9 * np.nanmax(np.abs(img)):
            mon.close([lo, hi], [np.nanmin(img), np.nanmax(img)], f"{m}: colour limits", rtol=1e-12)
        mon.observe(img)
        plt.close("all")


def rsa(case, mon, rng, plt, sp, A, pr, L, outs):
    if len(outs) > 1:
        ax = np.asarray(mon.call(sp.plot), dtype=object).reshape(len(outs))
        for a, o in zip(ax, outs):
            mon.eq(a.get_title(), o, "rsa: title")
            bars(mon, a, [str(float(v)) for v in A[o]["bins"]], {n: A[o][n] for n in L}, f"rsa, {o}", {})
        mon.hit("multi")
    R = A[outs[-1]]
    for f in (None, L[int(rng.integers(len(L)))], [str(v) for v in rng.permutation(L)[:2]]):
        ax = mon.call(R.plot) if f is None else mon.call(R.plot, factors=[f] if isinstance(f, str) else f)
        want = L if f is None else [f] if isinstance(f, str) else f
        ln = [l for a in np.atleast_1d(ax) for l in a.lines]
        mon.eq([l.get_label() for l in ln], list(want), "rsa: curves")
        for l in ln:
            mon.close(l.get_ydata(), R[l.get_label()], f"rsa: curve of {l.get_label()}", rtol=1e-12, atol=0)
            mon.close(l.get_xdata(), R["bins"], "rsa: places of the bins", rtol=1e-12)
            mon.observe(np.asarray(l.get_ydata(), float))
    mon.hit("rsa")


def hdmr(case, mon, plt, sp, A, outs, s, L):
    if len(outs) > 1:
        ax = np.asarray(mon.call(sp.plot), dtype=object).reshape(len(outs))
        for a, o in zip(ax, outs):
            mon.eq(a.get_title(), o, "hdmr: title")
            bars(mon, a, L[0], *split(A[o], "hdmr", 0, s)[:1], f"hdmr, {o}", split(A[o], "hdmr", 0, s)[1])
        mon.hit("multi")
    R = A[outs[-1]]
    plt.close("all")
    mon.call(R.plot)
    figs = [plt.figure(i) for i in plt.get_fignums()]
    bars(mon, figs[0].axes[0], L[0], *split(R, "hdmr", 0, s)[:1], "hdmr", split(R, "hdmr", 0, s)[1])
    axes = [a for f in figs[1:] for a in f.axes]
    K = len(R["RT"])
    shown = list(range(max(0, K - 10), K))
    tr = [a for a in axes if a.get_title().startswith("Trial")]
    mon.eq(len(tr), len(shown), "hdmr: trials shown")
    for a, k in zip(tr, shown):
        mon.close(a.lines[0].get_xdata(), R["Em"]["Y_e"][:, k], "hdmr: emulated outputs", rtol=1e-12)
        mon.close(a.lines[0].get_ydata(), np.ravel(R["Y"])[R["idx"][:, k]], "hdmr: simulated outputs", rtol=1e-12)
    cp = [a for a in axes if a.get_title().startswith("Regression of parameter")]
    X = R["X"]
    mon.eq(len(cp), X.shape[1], "hdmr: component functions shown")
    last = R["idx"][:, -1]
    for j, a in enumerate(cp):
        mon.ok(sp["names"][j] in a.get_title(), f"hdmr: component {j} is titled {a.get_title()!r}")
        mon.close(a.lines[0].get_xdata(), X[last, j], "hdmr: inputs", rtol=1e-12)
        mon.close(a.lines[0].get_ydata(), np.ravel(R["Y"])[last], "hdmr: outputs", rtol=1e-12)
        mon.close(a.lines[1].get_xdata(), X[last, j], "hdmr: inputs", rtol=1e-12)
        mon.close(a.lines[1].get_ydata(), np.mean(R["Em"]["f0"]) + R["Y_em"][:, j], "hdmr: component function", rtol=1e-12)
        mon.observe(np.asarray(a.lines[1].get_ydata(), float))
    mon.hit("hdmr")
    # emulated outputs next to new observations, and without
    k = int(np.random.default_rng(case["seed"]).integers(2, 9))
    R = copy.deepcopy(R)
    Xn = X[:k] + 0.0
    Yn = np.ravel(R["Y"])[:k] + np.arange(k)
    for obs in ([None, Yn, None] if case["seed"] % 2 else [Yn, None]):
        plt.close("all")
        mon.call(R.emulate, *([Xn] if obs is None else [Xn, obs]))
        Xn = np.concatenate([Xn, X[:1]])[-k:] if obs is None else X[: k + 1]
        mon.call(R.plot)
        a = [a for i in plt.get_fignums() for a in plt.figure(i).axes if a.get_xlabel() == "Emulator"]
        mon.eq(len(a), int(obs is not None), "hdmr: plots of new observations")
        if obs is not None:
            mon.close(a[0].lines[0].get_xdata(), R["emulated"], "hdmr: emulated new outputs", rtol=1e-12)
            mon.close(a[0].lines[0].get_ydata(), obs, "hdmr: new observations", rtol=1e-12)
            ssr = np.sum((R["emulated"] - obs) ** 2)
            said = [float(w) for w in a[0].get_title().replace("=", " ").split() if w.replace(".", "", 1).replace("-", "", 1).replace("e+", "", 1).isdigit()]
            mon.ok(any(abs(v - ssr) <= 0.0051 + 1e-3 * abs(ssr) for v in said), lambda: f"hdmr: title {a[0].get_title()!r}, sum of squared residuals {ssr}")
            mon.hit("hdmr:new")


def k_morris(case, mon, rng, plt):
    from SALib.plotting import morris as PM

    s = case["spec"]
    pr, X, Y = EN.data(s, mon)
    f, a, kw = EN.call(s, pr, X, Y)
    R = mon.call(f, *a, **kw)
    names = list(R["names"])
    ms, mc, sg = num(R["mu_star"]), num(R["mu_star_conf"]), num(R["sigma"])
    keep = EN.flat(copy.deepcopy(dict(R)))
    fig, (a1, a2) = plt.subplots(1, 2)
    other = plt.figure()
    sortby = case["sortby"]
    out = mon.call(PM.horizontal_bar_plot, a1, R, {"color": "r"} if rng.random() < 0.5 else None, sortby=sortby, unit=case["unit"])
    lab_ = [t.get_text() for t in a1.get_yticklabels()]
    mon.eq(sorted(lab_), sorted(names), "morris: labels of the bars")
    mon.ok(len(set(names)) == len(names), "names repeat")
    order = [names.index(v) for v in lab_]
    key = num(R[sortby])[order]
    mon.ok(not np.any(np.diff(key) < 0), lambda: f"morris: bars sorted by {sortby} have {key}")
    mon.close([p.get_width() for p in out.patches], ms[order], "morris: lengths of the bars", rtol=1e-12, atol=0)
    mon.close([p.get_y() + p.get_height() / 2 for p in out.patches], a1.get_yticks(), "morris: places of the bars", rtol=1e-9, atol=1e-9)
    seg = segments(out.errorbar)
    mon.eq(len(seg), len(ms), "morris: error bars")
    for i, g in zip(order, seg):
        mon.close(sorted(g[:, 0]), [ms[i] - mc[i], ms[i] + mc[i]], f"morris: error bar of {names[i]}", rtol=1e-9, atol=1e-12)
    mon.ok(a1.get_xlabel().endswith(case["unit"]) and r"\mu^\star" in a1.get_xlabel(), f"morris: axis label {a1.get_xlabel()!r}")
    lo, hi = sorted(a1.get_ylim())
    mon.ok(lo <= -0.5 and hi >= len(ms) - 0.5, "morris: bars outside the axes")
    mon.hit("barh")
    sc = mon.call(PM.covariance_plot, a2, R, None, unit=case["unit"])
    pts = num(sc.get_offsets())
    mon.close(pts[:, 0], ms, "morris: mu_star of the points", rtol=1e-12, atol=0)
    if np.isnan(sg).any():
        mon.close(pts[:, 1], mc, "morris: confidence interval of the points", rtol=1e-12, atol=0)
        mon.ok("CI" in a2.get_ylabel(), f"morris: axis label {a2.get_ylabel()!r} for confidence intervals")
        mon.hit("scatter:conf")
    else:
        mon.close(pts[:, 1], sg, "morris: sigma of the points", rtol=1e-12, atol=0)
        mon.ok("sigma" in a2.get_ylabel(), f"morris: axis label {a2.get_ylabel()!r} for sigma")
        slopes = [np.divide(*np.asarray(l.get_ydata(), float)[[1]] / 1.0, np.asarray(l.get_xdata(), float)[1]) for l in a2.lines]
        txt = [t.get_text() for t in a2.get_legend().get_texts()]
        mon.close([float(t.split("=")[1].strip(" $")) for t in txt], slopes, "morris: slopes of the labelled lines", rtol=1e-9)
        mon.close(slopes, [1, 0.5, 0.1], "morris: slopes of the lines", rtol=1e-9)
        mon.hit("scatter")
    fin = np.isfinite(pts).all(1)
    (x0, x1), (y0, y1) = a2.get_xlim(), a2.get_ylim()
    mon.ok(np.all((pts[fin, 0] >= x0) & (pts[fin, 0] <= x1) & (pts[fin, 1] >= y0) & (pts[fin, 1] <= y1)), "morris: points outside the axes")
    mon.eq(len(other.axes), 0, "morris: axes drawn in another figure")
    now = EN.flat(R)
    for k in keep:
        mon.same(now[k], keep[k], f"morris: {k} after plotting")
    mon.observe(ms, sg, sortby)


def k_hist(case, mon, rng, plt):
    from SALib.plotting import morris as PM

    s = case["spec"]
    pr, X, Y = EN.data(s, mon)
    fig = plt.figure()
    X0 = X.copy()
    out = mon.call(PM.sample_histograms, fig, X, pr, {"color": "y"} if rng.random() < 0.5 else None)
    D = pr["num_vars"]
    mon.eq([a.get_title() for a in fig.axes], list(pr["names"]), "histograms: titles")
    mon.eq(len(out), D, "histograms: number")
    left = [a.get_position().x0 for a in fig.axes]
    mon.ok(np.all(np.diff(left) > 0), "histograms: subplots overlap")
    for j in range(D):
        cnt, edges, _ = out[j]
        mon.eq(len(cnt), len(set(X[:, j].tolist())), f"histograms: bars of {pr['names'][j]}, one for each level")
        mon.close(np.sum(cnt), len(X), f"histograms: counts of {pr['names'][j]}")
        want = np.histogram(X[:, j], bins=edges)[0]
        mon.close(cnt, want, f"histograms: counts of {pr['names'][j]}")
        mon.close([edges[0], edges[-1]], [X[:, j].min(), X[:, j].max()] if np.ptp(X[:, j]) else [edges[0], edges[-1]], "histograms: range")
        mon.close([p.get_height() for p in fig.axes[j].patches], want, f"histograms: bars of {pr['names'][j]}")
        mon.observe(np.asarray(cnt))
    mon.same(X, X0, "histograms: the sample after plotting")
    mon.hit("hist")


def k_direct(case, mon, rng, plt):
    """plotting.bar on any data frame of indices."""
    import pandas as pd
    from SALib.plotting.bar import plot

    n, c = case["rows"], case["cols"]
    names = [f"k{i}" for i in rng.permutation(c)]
    d, errs, cols = {}, {}, {}
    for k in names:
        cols[k] = d[k] = rng.normal(size=n)
        if rng.random() < 0.7:
            errs[k] = d[k + "_conf"] = rng.random(n)
    order = list(rng.permutation(list(d)))
    idx = [f"p{i}" for i in rng.permutation(n)]
    df = pd.DataFrame({str(k): d[k] for k in order}, index=idx)
    keep = df.copy()
    ax = mon.call(plot, df)
    bars(mon, ax, idx, cols, "bar plot", errs)
    mon.ok(df.equals(keep), "bar plot changed the data frame")
    mon.observe(df.to_numpy())
    mon.hit("bars:direct")
