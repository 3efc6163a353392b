"""C24: results carry the labels of what they were computed for."""
import contextlib
import copy
import io
import itertools
import pickle
import warnings

import numpy as np
from . import gen as G
from . import entry as E

RULE = ("Every analyzer on problems with shuffled, unusual names and non-contiguous groups. (structure) labels, columns and cell values of "
        "the data frames (of copied and pickled results too) and of the printed report against the expected label list and the raw arrays; (dominant) models that depend on "
        "one parameter (or one pair/triple) only, whose label must carry the dominating value and, where the method is exact, all "
        "others zero.")
REQUIRED = ["structure:" + m for m in E.ALL] + ["dominant:" + m for m in E.ALL] + ["pair:sobol", "pair:hdmr", "pair:enhanced_hdmr",
            "triple:enhanced_hdmr", "triple:hdmr", "grouped", "printed", "printed_long", "copy", "deepcopy", "pickle"]
CASE_LIMIT = 150
COLS = {"sobol": [["ST", "ST_conf"], ["S1", "S1_conf"], ["S2", "S2_conf"]], "morris": [["mu", "mu_star", "sigma", "mu_star_conf"]],
        "fast": [["S1", "ST", "S1_conf", "ST_conf"]], "rbd_fast": [["S1", "S1_conf"]], "dgsm": [["vi", "vi_std", "dgsm", "dgsm_conf"]],
        "ff": [["ME"], ["IE"]], "pawn": [["minimum", "mean", "median", "maximum", "CV", "stdev"]], "discrepancy": [["s_discrepancy"]],
        "hdmr": [["Sa", "Sa_conf", "Sb", "Sb_conf", "S", "S_conf", "ST", "ST_conf"]]}
COLS["enhanced_hdmr"] = COLS["hdmr"]
DELTA = {"delta": ["delta_raw", "delta_raw_conf", "delta_balanced", "delta_balanced_conf", "delta_step", "delta_step_conf"],
         "sobol": ["S1", "S1_conf"]}
BY_GROUP = {"sobol", "morris", "pawn", "rsa", "discrepancy"}


def gen(rng, tier):
    n = 40 if tier == "quick" else 600
    for _ in range(n):
        for name in E.ALL:
            g = name in BY_GROUP and rng.random() < 0.5
            yield {"kind": "structure", "spec": E.setup(rng, name, group=g), "print": bool(rng.random() < 0.5), "seed": G.seed(rng)}
            if name in E.WIDE and rng.random() < 0.05:
                D = int(rng.choice([13, 16, 18])) if name in ("sobol", "delta") else int(rng.choice([13, 33, 64, 70]))
                yield {"kind": "structure", "spec": E.setup(rng, name, group=g, D=D), "print": True, "seed": G.seed(rng)}
            s = E.setup(rng, name, group=name in BY_GROUP and rng.random() < 0.5)
            yield {"kind": "dominant", "spec": s, "p": int(rng.integers(s["problem"]["num_vars"])), "seed": G.seed(rng)}
        for name in ("sobol", "hdmr", "enhanced_hdmr"):
            D = int(rng.choice([3, 4, 5]))
            s = E.setup(rng, name, D=D, group=name == "sobol" and rng.random() < 0.3)
            yield {"kind": "terms", "spec": s, "order": 2, "perm": [int(v) for v in rng.permutation(D)], "seed": G.seed(rng)}
            if name != "sobol" and rng.random() < (0.6 if tier == "quick" else 0.3):
                s = E.setup(rng, name, D=int(rng.choice([3, 4])))
                yield {"kind": "terms", "spec": s, "order": 3, "perm": [int(v) for v in rng.permutation(s["problem"]["num_vars"])],
                       "seed": G.seed(rng)}


def labels(s, pr):
    """Expected row labels, per frame."""
    name = s["method"]
    L = G.ugroups(pr) if name in BY_GROUP else list(pr["names"])
    if name == "sobol":
        pairs = list(itertools.combinations(L, 2))
        return [L, L] + ([pairs] if s["kw"]["calc_second_order"] else [])
    if name in ("hdmr", "enhanced_hdmr"):
        k = s["kw"].get("maxorder") or s["kw"].get("max_order")
        return [["/".join(t) for o in range(1, k + 1) for t in itertools.combinations(L, o)]]
    return [L]


def lab(v):
    return tuple(str(q) for q in v) if isinstance(v, (tuple, list)) else str(v)


def frames(d):
    return list(d) if isinstance(d, (list, tuple)) else [d]


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"structure": structure, "dominant": dominant, "terms": terms}[case["kind"]](case, mon, rng)


def structure(case, mon, rng):
    s = case["spec"]
    name = s["method"]
    pr, X, Y = E.data(s, mon)
    f, a, kw = E.call(s, pr, X, Y)
    S = mon.call(f, *a, **kw)
    how = ["as it is", "copy", "deepcopy", "pickle"][case["seed"] % 4]
    if how != "as it is":  # results taken elsewhere keep their conversions
        old = S
        S = mon.call(getattr(copy, how), old) if how != "pickle" else mon.call(pickle.loads, mon.call(pickle.dumps, old))
        old.clear()
        mon.hit(how)
    fr = frames(mon.call(S.to_df))
    L = labels(s, pr)
    if pr.get("groups"):
        mon.hit("grouped")
    if name == "ff":
        if not s["kw"]["second_order"]:
            mon.ok(len(fr) == 2 and fr[1] is None, "interactions frame of a main-effect analysis")
            fr = fr[:1]
        else:
            k = len(pr["names"])
            L.append([tuple(p) for p in S["interaction_names"]])
            mon.eq(sorted(tuple(sorted(p)) for p in L[1]), sorted(tuple(sorted(p)) for p in itertools.combinations(pr["names"], 2)),
                   f"pairs of the {k} parameters")
    mon.eq(len(fr), len(L), f"{name}: number of data frames")
    for i, (d, want) in enumerate(zip(fr, L)):
        if name == "rsa":
            mon.eq([str(c) for c in d.columns], want, "rsa: columns")
            q = np.arange(s["kw"]["bins"]) / s["kw"]["bins"]
            mon.close(list(d.index), q, "rsa: bins", atol=1e-12)
            for c in want:
                mon.same(d[c].to_numpy(), np.asarray(S[c], float), f"rsa: column {c}")
            continue
        mon.eq([lab(v) for v in d.index], [lab(v) for v in want], f"{name}: row labels of frame {i}")
        cols = COLS[name][i] if name != "delta" else sum([v for k, v in DELTA.items() if s["kw"]["method"] in ("all", k)], [])
        mon.eq(sorted(c for c in d.columns if c != "notes"), sorted(cols), f"{name}: columns of frame {i}")
        for c in cols:
            v = S[c]
            if name == "sobol" and c.startswith("S2"):
                v = [v[j, k] for j, k in itertools.combinations(range(len(v)), 2)]
            mon.same(d[c].to_numpy(dtype=float), np.ma.filled(np.ma.asarray(v, dtype=float), np.nan), f"{name}: values of column {c}")
            mon.observe(d[c].to_numpy(dtype=float))
    if name == "delta":
        mon.eq(len(S["notes"]), len(pr["names"]), "delta: notes per parameter")
    if case["print"]:
        f, a, kw = E.call(s, G.copy(pr), X, Y, print_to_console=True)
        b = io.StringIO()
        import pandas as pd

        rng = np.random.default_rng(case["seed"])
        opts = [] if rng.random() < 0.6 else ["display.width", int(rng.choice([30, 80, 2000])), "display.max_columns", int(rng.choice([2, 20])),
                                              "display.max_rows", int(rng.choice([4, 60]))]
        with contextlib.redirect_stdout(b), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings(), \
                pd.option_context(*opts) if opts else contextlib.nullcontext():
            warnings.simplefilter("ignore")
            S2 = f(*a, **kw)
        txt = b.getvalue()
        if name not in ("hdmr", "enhanced_hdmr"):
            for d in fr:
                if d is not None:
                    printed(mon, name, txt, d)
        else:
            rows = [r for r in txt.splitlines() if any(r.startswith(str(t)) for t in S["Term"])]
            for t, v in zip(S["Term"], S["S"]):
                mon.ok(any(r.split("\t")[0].strip() == str(t) for r in rows), f"{name}: term {t!r} missing in the printed report")
        fr2 = [d for d in frames(mon.call(S2.to_df)) if d is not None]
        for d, e in zip([d for d in fr if d is not None], fr2):
            mon.eq([lab(v) for v in d.index], [lab(v) for v in e.index], f"{name}: labels when printing")
            if len(d) > 60:
                mon.hit("printed_long")
        mon.hit("printed")
    mon.hit("structure:" + name)


def number(t):
    try:
        return float(t)
    except ValueError:
        return None


def printed(mon, name, txt, d):
    """Every row of the frame is printed: on lines starting with its label, with all its numbers."""
    lines = [r.strip() for r in txt.splitlines()]
    for i, k in enumerate(d.index):
        k = f"({', '.join(lab(k))})" if isinstance(k, tuple) else str(k)
        rest = [r for r in lines if r and number(r.split()[0]) is not None and abs(number(r.split()[0]) - float(k)) < 1e-3] \
            if name == "rsa" else [r[len(k):] for r in lines if r.startswith(k) and (r[len(k):] == "" or r[len(k)].isspace())]
        mon.ok(rest, lambda: f"{name}: no printed line for {k!r}: {txt[-400:]!r}")
        tok = [number(t) for t in " ".join(rest).split() if number(t) is not None]
        for c in d.columns:
            if c == "notes":
                continue
            v = float(d[c].to_numpy()[i])
            mon.ok(any((t != t and v != v) or abs(t - v) <= 1e-5 * abs(v) + 1e-6 for t in tok),
                   lambda: f"{name}: {c} of {k!r} is {v}, printed were {tok}")


def unit_x(X, pr, j):
    b = pr["bounds"][j]
    return (X[:, j] - b[0]) / (b[1] - b[0])


def dominant(case, mon, rng):
    s = case["spec"]
    name, p = s["method"], case["p"]
    if name not in ("sobol", "morris", "fast", "dgsm", "ff"):
        s["skw"]["N"] = max(s["skw"]["N"], 200)
    if name == "morris":
        s["kw"]["scaled"] = False
    pr, X, _ = E.data(s, mon)
    u = unit_x(X, pr, p)
    Y = 2.0 * u + u**2
    f, a, kw = E.call(s, pr, X, Y)
    S = mon.call(f, *a, **kw)
    fr = frames(mon.call(S.to_df))
    key = str(pr["groups"][p] if (pr.get("groups") and name in BY_GROUP) else pr["names"][p])
    if name == "delta":
        m = s["kw"]["method"]
        cols = (["delta_raw", "delta_balanced", "delta_step"] if m != "sobol" else []) + (["S1"] if m != "delta" else [])
    else:
        cols = {"sobol": ["ST"], "morris": ["mu_star"], "fast": ["S1", "ST"], "rbd_fast": ["S1"], "dgsm": ["vi", "dgsm"], "ff": ["ME"],
                "pawn": ["median", "mean", "maximum"], "discrepancy": ["s_discrepancy"], "hdmr": ["S", "Sa"], "enhanced_hdmr": ["S", "Sa"]}.get(name)
    if name == "rsa":
        v = {str(c): float(np.nanmean(fr[0][c].to_numpy(dtype=float))) for c in fr[0].columns}
        judge(mon, v, key, "rsa mean distance", False)
    else:
        for c in cols:
            v = {str(k): abs(float(x)) for k, x in zip(fr[0].index, fr[0][c])}
            if name == "delta" and not np.isfinite(v[key]):  # estimation given up, which the notes must say
                mon.ok(str(S["notes"][list(pr["names"]).index(key)]), f"delta: {c} of {key!r} is NaN without a note")
                continue
            judge(mon, v, key, f"{name} {c}", name in ("sobol", "morris", "dgsm"))
        if name == "sobol":
            v = {str(k): abs(float(x)) for k, x in zip(fr[1].index, fr[1]["S1"])}
            mon.ok(all(x < 1e-12 for k, x in v.items() if k != key), f"first-order index of an unused parameter: {v}, used: {key!r}")
    mon.hit("dominant:" + name)


def judge(mon, v, key, what, exact):
    mon.observe(*[float(q) for q in v.values()])
    mon.ok(key in v, f"{what}: no row for {key!r} in {sorted(v)}")
    rest = [x for k, x in v.items() if k != key and np.isfinite(x)]
    mon.ok(v[key] > max(rest, default=0.0), f"{what}: only {key!r} matters, but the values are {v}")
    if exact:
        mon.ok(max(rest, default=0.0) <= 1e-10 * v[key], f"{what}: parameters without influence got {v}, used: {key!r}")


def terms(case, mon, rng):
    """The interaction present in the model dominates under its own label."""
    s = case["spec"]
    name, k = s["method"], case["order"]
    if name == "sobol":
        s["skw"].update(N=512, calc_second_order=True)
        s["kw"].update(calc_second_order=True, num_resamples=3)
    elif name == "hdmr":
        s["skw"]["N"] = 600
        s["kw"].update(maxorder=k, m=1, K=1, lambdax=0.01)
    else:
        s["skw"]["N"] = 600
        s["kw"].update(max_order=k, poly_order=2, bootstrap=1)
    pr, X, _ = E.data(s, mon)
    idx = sorted(case["perm"][:k])
    if pr.get("groups"):
        t = sorted({G.ugroups(pr).index(pr["groups"][j]) for j in idx})
        if len(t) < 2:
            return
    else:
        t = idx
    Y = np.prod([unit_x(X, pr, j) - 0.5 for j in idx], axis=0)
    f, a, kw = E.call(s, pr, X, Y)
    S = mon.call(f, *a, **kw)
    fr = frames(mon.call(S.to_df))
    L = G.ugroups(pr)
    if name == "sobol":
        d = fr[2]
        v = {str(lab(q)): abs(float(x)) for q, x in zip(d.index, d["S2"])}
        key = str(tuple(str(L[i]) for i in t))
    else:
        d = fr[0]
        v = {str(q): abs(float(x)) for q, x in zip(d.index, d["Sa"])}
        key = "/".join(L[i] for i in t)
    judge(mon, v, key, f"{name} order {k}", False)
    mon.ok(v[key] > 0.5, f"{name}: the only interaction present has share {v[key]}")
    mon.hit(("pair:" if k == 2 else "triple:") + name)
