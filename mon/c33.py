"""C33: options left out take their documented values; options may be given by name or by position."""
import inspect

import numpy as np
from . import gen as G
from . import entry as EN
from . import samplers as SM

RULE = ("Every sampler and analyzer runs with all options left out, with the documented values by name, with any subset by name, by "
        "position in the documented order, and through a ProblemSpec: identical seeds must give identical results. For every option "
        "another value is tried too, and the monitor records whether it makes a difference (the comparison is decisive then).")

# documented values (docstrings and signatures), in the documented order of the arguments
S_DEF = {"saltelli": [("calc_second_order", True), ("skip_values", "saltelli")],
         "sobol": [("calc_second_order", True), ("scramble", True), ("skip_values", 0)],
         "latin": [], "fast_sampler": [("M", 4)], "finite_diff": [("delta", 0.01), ("seed", "seed"), ("skip_values", 1024)], "ff": [],
         "morris": [("num_levels", 4), ("optimal_trajectories", None), ("local_optimization", True)]}
A_DEF = {"sobol": [("calc_second_order", True), ("num_resamples", 100), ("conf_level", 0.95), ("print_to_console", False), ("parallel", False)],
         "morris": [("num_resamples", 100), ("conf_level", 0.95), ("scaled", False), ("print_to_console", False), ("num_levels", 4)],
         "fast": [("M", 4), ("num_resamples", 100), ("conf_level", 0.95), ("print_to_console", False)],
         "rbd_fast": [("M", 10), ("num_resamples", 100), ("conf_level", 0.95), ("print_to_console", False)],
         "delta": [("num_resamples", 100), ("conf_level", 0.95), ("print_to_console", False), ("seed", "seed"), ("y_resamples", "N"), ("method", "all")],
         "dgsm": [("num_resamples", "own"), ("conf_level", 0.95), ("print_to_console", False)],
         "ff": [("second_order", False), ("print_to_console", False)],
         "pawn": [("S", 10), ("print_to_console", False)],
         "rsa": [("bins", 20), ("target", "Y"), ("print_to_console", False)],
         "discrepancy": [("method", "WD"), ("print_to_console", False)],
         "hdmr": [("maxorder", 2), ("maxiter", 100), ("m", 2), ("K", 20), ("R", "N/2"), ("alpha", 0.95), ("lambdax", 0.01), ("print_to_console", False)],
         "enhanced_hdmr": [("max_order", 2), ("poly_order", 3), ("bootstrap", 20), ("subset", "N/2"), ("max_iter", 100), ("l2_penalty", 0.01),
                           ("alpha", 0.95), ("extended_base", True), ("print_to_console", False), ("return_emulator", False)]}
# another value of each option, and whether it has to make a difference
OTHER = {"calc_second_order": False, "scramble": False, "skip_values": 64, "M": 2, "delta": 0.02, "num_levels": 6, "optimal_trajectories": 3,
         "local_optimization": False, "num_resamples": 37, "conf_level": 0.8, "scaled": True, "y_resamples": 30, "method": {"discrepancy": "CD", "delta": "sobol"},
         "second_order": True, "S": 7, "bins": 9, "target": "X", "maxorder": 1, "maxiter": 1, "m": 3, "K": 7, "R": 305, "alpha": 0.7,
         "lambdax": 5.0, "max_order": 1, "poly_order": 2, "bootstrap": 7, "subset": 305, "max_iter": 1, "l2_penalty": 5.0, "extended_base": False}
INERT = {("morris", "local_optimization"), ("sobol", "parallel"), ("hdmr", "maxiter"), ("dgsm", "num_resamples")}
REQUIRED = [f"{k}:{m}" for k in ("omitted", "subset", "position", "spec") for m in ["sample_" + s for s in SM.ALL] + ["analyze_" + a for a in EN.ALL]
            if not (k == "position" and m == "sample_sobol") and not (k in ("subset", "position") and m in ("sample_latin", "sample_ff"))] + \
           [f"decisive:{m}.{o}" for m, t in S_DEF.items() for o, v in t if o in OTHER and m + "." + o not in ("morris.local_optimization",)] + \
           [f"decisive:{m}.{o}" for m, t in A_DEF.items() for o, v in t if o in OTHER and (m, o) not in INERT]
REQUIRED += ["size:" + m for m in ("sobol", "morris", "fast", "rbd_fast", "delta", "dgsm", "pawn", "rsa", "discrepancy", "hdmr", "enhanced_hdmr")]
CASE_LIMIT = 200


def gen(rng, tier):
    n = 20 if tier == "quick" else 250
    for m in SM.ALL:
        for i in range(n):
            D = int(rng.choice([2, 3, 5]))
            yield {"kind": "sample", "method": m, "problem": G.problem(rng, D, dists=(True if rng.random() < 0.2 and m != "morris" else None)),
                   "N": int(rng.choice([5, 8, 16])) if m != "fast_sampler" else int(rng.choice([65, 90])), "seed": G.seed(rng)}
    for m in EN.ALL:
        slow = m in ("hdmr", "enhanced_hdmr", "delta")
        for i in range(n // 4 if slow else n):
            s = EN.setup(rng, m, D=int(rng.choice([2, 3])) if slow else None)
            s["kw"] = {}
            if m == "sobol":
                s["skw"]["calc_second_order"] = True
            elif m == "morris":
                s["skw"]["num_levels"] = 4
                s["skw"]["N"] = 5
            elif m == "fast":
                s["skw"].update(M=4, N=max(65, s["skw"]["N"]))
            elif m in ("hdmr", "enhanced_hdmr"):
                s["skw"]["N"] = int(rng.choice([600, 641]))
            yield {"kind": "analyze", "method": m, "spec": s, "seed": G.seed(rng), "plainbase": m == "enhanced_hdmr" and i % 2 == 0}
    for m, sizes in SIZES.items():  # unusually small and large data
        for i in range(max(len(sizes), n // 5)):
            s = EN.setup(rng, m, D=2)
            s["kw"] = {}
            s["skw"].pop("calc_second_order", None)
            if m == "morris":
                s["skw"]["num_levels"] = 4
            if m == "fast":
                s["skw"]["M"] = 4
            lo, hi = sizes[i % len(sizes)]
            s["skw"]["N"] = int(rng.integers(lo, hi + 1)) if m != "sobol" else int(rng.choice([4, 512, 2048]))
            yield {"kind": "size", "method": m, "spec": s, "seed": G.seed(rng)}


SIZES = {"sobol": [(4, 4)], "morris": [(2, 3), (100, 300), (600, 1200)], "fast": [(65, 70), (1000, 3000), (4097, 6000)],
         "rbd_fast": [(90, 130), (1000, 3000), (4097, 6000)], "delta": [(20, 30), (1025, 2047), (2100, 4095), (4200, 6000)], "dgsm": [(2, 4), (500, 1500)],
         "pawn": [(12, 25), (1000, 3000), (5000, 12000)], "rsa": [(12, 45), (1000, 3000)], "discrepancy": [(3, 10), (300, 900)],
         "hdmr": [(300, 599), (601, 1000), (1001, 1900), (2001, 3500), (4001, 5000)],
         "enhanced_hdmr": [(300, 599), (601, 1000), (1001, 1900), (2001, 3500), (4001, 5000)]}


def size(case, mon, rng):
    m, s = case["method"], case["spec"]
    f = EN.fn(m)
    pr, X, Y = EN.data(s, mon)
    if m in ("delta", "rbd_fast"):
        Y = Y + 0.3 * rng.normal(size=len(Y))
    N = len(Y)
    kw = {"seed": case["seed"]}
    doc = {k: v for k, v in A_DEF[m] if v not in ("own", "seed")}
    if m == "delta":
        doc.update(y_resamples=N, num_resamples=2)
        kw["num_resamples"] = 2
    if m in ("hdmr", "enhanced_hdmr"):
        o, k, r = ("maxorder", "K", "R") if m == "hdmr" else ("max_order", "bootstrap", "subset")
        kw.update({o: 1, k: 2})
        doc.update({o: 1, k: 2, r: N // 2})
        if m == "enhanced_hdmr":
            kw["return_emulator"] = doc["return_emulator"] = True
        if N < 600:
            doc.pop(r)  # the default goes below what can be asked for
    if m == "sobol" or m == "fast":
        get = lambda **k: mon.call(f, G.copy(pr), Y.copy(), **k)
    else:
        get = lambda **k: mon.call(f, G.copy(pr), X.copy(), Y.copy(), **k)
    R = get(**kw)
    base = result(R)
    mon.observe(*base.values())
    equal(mon, base, result(get(**{**doc, **kw})), f"{m} analysis of {N} outputs with the documented values of all options")
    if m in ("hdmr", "enhanced_hdmr"):
        idx = np.asarray(R["idx"] if m == "hdmr" else R["hdmr"].idx)
        mon.eq(idx.shape, (N // 2, 2), f"{m} analysis of {N} outputs: rows and number of bootstraps by default")
    if m in ("pawn", "rsa"):
        mon.eq(len(base["bins"]) if m == "rsa" else 20, 20, "RSA bins by default")
    mon.hit("size:" + m)


def result(R):
    if isinstance(R, np.ndarray):
        return {"X": R}
    if isinstance(R, tuple):
        R = R[0]
    return EN.flat(R)


def equal(mon, a, b, what):
    mon.eq(sorted(b), sorted(a), f"{what}: keys")
    for k in a:
        mon.close(b[k], a[k], f"{what}: {k}", rtol=1e-9, atol=1e-300)


def differs(a, b):
    return set(a) != set(b) or any(np.shape(a[k]) != np.shape(b[k]) or not np.allclose(a[k], b[k], rtol=1e-9, atol=0, equal_nan=True) for k in a)


def run(case, mon):
    from SALib import ProblemSpec
    import importlib

    m = case["method"]
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "size":
        return size(case, mon, rng)
    if case["kind"] == "sample":
        f = SM.fn(m)
        pr0, N = case["problem"], case["N"]
        pre = [] if m == "ff" else [N]
        if m == "morris":
            pre = [N]
        seeded = m in SM.SEEDED
        table = [(k, v) for k, v in S_DEF[m]]
        fill = {"saltelli": max(16, 1 << (N - 1).bit_length()), "seed": case["seed"]}
        fresh = lambda: [G.copy(pr0)] + pre
        name = "sample_" + m
    else:
        s = case["spec"]
        f = EN.fn(m)
        pr0, X, Y = EN.data(s, mon)
        if m in ("delta", "rbd_fast"):
            Y = Y + 0.3 * rng.normal(size=len(Y))
        seeded = True
        table = [(k, v) for k, v in A_DEF[m]]
        fill = {"own": getattr(inspect.signature(f).parameters.get("num_resamples"), "default", 100), "N": len(Y), "N/2": len(Y) // 2, "seed": case["seed"]}
        fresh = lambda: [G.copy(pr0)] + ([] if m in EN.NO_X else [X.copy()]) + [Y.copy()]
        name = "analyze_" + m
    table = [(k, fill[v] if isinstance(v, str) and v in fill and k not in ("method", "target") else v) for k, v in table]
    opts = [(k, v) for k, v in table if k != "seed"]
    sd = {"seed": case["seed"]} if seeded else {}
    if case.get("plainbase"):  # the penalty and the iterations matter without the extended base only
        table = [(k, False if k == "extended_base" else v) for k, v in table]
        opts = [(k, v) for k, v in opts if k != "extended_base"]
        sd["extended_base"] = False
    at = lambda t: {k: v for k, v in sd.items() if k not in [o for o, _ in t]}  # what the positions do not give
    base = result(mon.call(f, *fresh(), **sd))
    mon.observe(*base.values())
    equal(mon, base, result(mon.call(f, *fresh(), **sd, **dict(opts))), f"{name} with the documented values of all options")
    mon.hit("omitted:" + name)
    if opts:
        for k in range(2):
            sub = [o for o in opts if rng.random() < 0.5]
            sub = [sub[i] for i in rng.permutation(len(sub))]
            if k == 0 and len(opts) > 1:  # each of them left out alone
                i = int(rng.integers(len(opts)))
                sub = opts[:i] + opts[i + 1:]
            equal(mon, base, result(mon.call(f, *fresh(), **sd, **dict(sub))), f"{name} with {dict(sub)}")
        mon.hit("subset:" + name)
        if not (name == "sample_sobol"):
            n = int(rng.integers(1, len(table) + 1))
            if rng.random() < 0.5:
                n = len(table)
            kw = at(table[:n])
            equal(mon, base, result(mon.call(f, *fresh(), *[v for _, v in table[:n]], **kw)), f"{name} with {n} options by position")
            mon.hit("position:" + name)
    # all changed values by position: the order of the arguments
    other = {k: OTHER[k].get(m) if isinstance(OTHER[k], dict) else OTHER[k] for k, _ in opts if k in OTHER}
    if m == "enhanced_hdmr" and "subset" in other:
        other["bootstrap"] = 3
    if case["kind"] == "sample" and m == "morris":
        other.pop("num_levels" if rng.random() < 0.5 else "optimal_trajectories")
    if m == "fast" or m == "sobol" and case["kind"] == "analyze" or m == "morris" and case["kind"] == "analyze":
        for k in ("M", "calc_second_order", "num_levels"):
            if k in other and m != "fast":
                other.pop(k)
    if m == "ff" and case["kind"] == "analyze" and "second_order" in other:
        pass
    byname = result(mon.call(f, *fresh(), **sd, **other))
    if opts and name != "sample_sobol":
        full = [(k, other.get(k, v)) for k, v in table]
        kw = at(full)
        equal(mon, byname, result(mon.call(f, *fresh(), *[v for _, v in full], **kw)), f"{name} with other values by position")
    # each option has an effect of its own (monitor bookkeeping: makes the comparison above decisive)
    for k, v in opts:
        if k not in OTHER:
            continue
        o = OTHER[k].get(m) if isinstance(OTHER[k], dict) else OTHER[k]
        if case["kind"] == "analyze" and m == "sobol" and k == "calc_second_order" or case["kind"] == "analyze" and m == "morris" and k == "num_levels":
            try:
                c = result(f(*fresh(), **sd, **{k: o}))
            except Exception:
                c = {}
        else:
            c = result(mon.call(f, *fresh(), **sd, **{k: o}))
        if differs(base, c):
            mon.hit(f"decisive:{m}.{k}")
    # through a ProblemSpec
    sp = ProblemSpec(G.copy(pr0))
    if case["kind"] == "sample":
        mon.call(sp.sample, f, *pre, **sd)
        equal(mon, base, {"X": sp.samples}, f"ProblemSpec.sample({m})")
        sp = ProblemSpec(G.copy(pr0))
        g = getattr(sp, "sample_" + m, None)
        if g is not None:
            mon.call(g, *pre, **sd)
            equal(mon, base, {"X": sp.samples}, f"ProblemSpec.sample_{m}")
    else:
        sp.samples, sp.results = X.copy(), Y.copy()
        g = getattr(sp, "analyze_" + m)
        mon.call(g, **sd)
        equal(mon, base, result(sp.analysis), f"ProblemSpec.analyze_{m}")
    mon.hit("spec:" + name)
