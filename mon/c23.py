"""C23: ProblemSpec keeps samples, results and analysis consistent."""
import copy
import io
import pickle

import numpy as np
from . import gen as G
from . import samplers as S
from . import entry as E

RULE = ("Random operation sequences on one ProblemSpec (all samplers and analyzers through the chained methods, custom functions, setters, "
        "serial and parallel evaluation, failing models/samplers/analyses, mismatched arrays, copies), checked step by step against an "
        "explicit model of the object whose expected values come from direct function calls on a plain dict.")
REQUIRED = ["sampled", "evaluated", "analyzed", "multi_output", "column_output", "failed_model", "failed_analysis", "failed_sampler",
            "partial_analysis", "rejected_rows", "rejected_cols", "rejected_outputs", "too_early", "single_group", "stale_dropped", "copied",
            "printed", "printed_tables", "df", "ff", "positional"]
CASE_LIMIT = 200
CHEAP = ["sobol", "morris", "fast", "rbd_fast", "delta", "dgsm", "pawn", "rsa", "discrepancy"]
METHOD = {"fast_sampler": "fast"}


def gen(rng, tier):
    for _ in range(300 if tier == "quick" else 6000):
        D = int(rng.choice([2, 3, 4]))
        pr = G.problem(rng, D, group=rng.random() < 0.35, dists=["unif", "norm", "triang"] if rng.random() < 0.2 else None)
        if rng.random() < 0.3:
            pr["outputs"] = [str(v) for v in rng.permutation(["out", "B", "y10", "y2"])[: int(rng.integers(1, 4))]]
        yield {"kind": "sequence", "problem": pr, "steps": int(rng.integers(8, 22)), "seed": G.seed(rng)}
    for _ in range(60 if tier == "quick" else 600):
        yield {"kind": "pipeline", "spec": E.setup(rng, str(rng.choice(E.ALL)), group=rng.random() < 0.4), "seed": G.seed(rng),
               "cols": int(rng.choice([0, 1, 2, 3]))}
    for name in E.ALL:
        yield {"kind": "pipeline", "spec": E.setup(rng, name), "seed": G.seed(rng), "cols": int(rng.choice([0, 2]))}
    for _ in range(10 if tier == "quick" else 100):
        D = int(rng.integers(1, 5))
        yield {"kind": "single", "D": D, "seed": G.seed(rng)}


def same_result(mon, R, want, what):
    got = E.flat(R)
    mon.observe(*got.values())
    mon.eq(sorted(got), sorted(want), f"{what}: keys")
    for k in want:
        mon.close(got[k], want[k], f"{what}: {k}", rtol=1e-9, atol=1e-11)


class Planted(Exception):
    pass


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"sequence": sequence, "pipeline": pipeline, "single": single}[case["kind"]](case, mon, rng)


def single(case, mon, rng):
    """One parameter or one group: refused, whatever way the analysis is asked for."""
    from SALib import ProblemSpec

    D = case["D"]
    d = {"names": [f"p{i}" for i in range(D)], "bounds": [[0.0, 1.0]] * D}
    if D > 1:
        d["groups"] = ["all"] * D
    sp = mon.call(ProblemSpec, d)
    X = rng.random((60, D))
    mon.call(sp.set_samples, X)
    mon.call(sp.set_results, X.sum(axis=1))
    for f in (sp.analyze_pawn, sp.analyze_discrepancy, sp.analyze_delta):
        mon.raises(ValueError, f, _what="analysis of a single parameter or group")
    mon.ok(sp.analysis is None, "refused analysis left a result")
    mon.hit("single_group")


def pipeline(case, mon, rng):
    """sample -> evaluate -> analyze through the chained interface equals the direct calls."""
    from SALib import ProblemSpec

    s = case["spec"]
    pr, X, Y = E.data(s, mon)
    sp = mon.call(ProblemSpec, G.copy(s["problem"]))
    kw = dict(s["skw"])
    pos = [kw.pop("N")] if "N" in kw else []
    if s["sampler"] in S.SEEDED:
        kw["seed"] = s["xseed"]
    sm = getattr(sp, "sample_" + METHOD.get(s["sampler"], s["sampler"]))
    mon.ok(mon.call(sm, *pos, **kw) is sp, "sampling does not return the specification")
    mon.same(sp.samples, X, f"samples of {s['sampler']} through the interface")
    Dn = s["problem"]["num_vars"]

    def model(Z):
        y = E.ref_model(np.array(Z)[:, :Dn], s["problem"])
        k = case["cols"]
        return y if k == 0 else np.column_stack([y + i * np.sin(y) for i in range(k)])
    mon.ok(mon.call(sp.evaluate, model) is sp, "evaluation does not return the specification")
    W = model(X)
    mon.same(sp.results, W, "results through the interface")
    akw = dict(s["kw"], seed=s["aseed"])
    an = getattr(sp, "analyze_" + METHOD.get(s["method"], s["method"]))
    mon.ok(mon.call(an, **akw) is sp, "analysis does not return the specification")
    cols = {"Y": W.reshape(-1)} if case["cols"] < 2 else {f"Y{i+1}": W[:, i] for i in range(case["cols"])}
    R = {"Y": sp.analysis} if case["cols"] < 2 else sp.analysis
    mon.eq(list(R), list(cols), "outputs analysed")
    for o in cols:
        f, a, kk = E.call(s, G.copy(pr), X.copy(), cols[o].copy())
        ref = mon.call(f, *a, **kk)
        same_result(mon, R[o], E.flat(ref), f"{s['method']} of {o} through the interface")
        dfs, dfr = mon.call(R[o].to_df), mon.call(ref.to_df)
        for p, q in zip(dfs if isinstance(dfs, (list, tuple)) else [dfs], dfr if isinstance(dfr, (list, tuple)) else [dfr]):
            if p is None or q is None:
                mon.ok(p is q, f"{s['method']} data frames through the interface")
                continue
            mon.eq([str(v) for v in p.index], [str(v) for v in q.index], f"{s['method']} labels through the interface")
            mon.eq([str(v) for v in p.columns], [str(v) for v in q.columns], f"{s['method']} columns through the interface")
            mon.hit("df")
    # positional options
    if s["method"] == "sobol":
        sp2 = copy.deepcopy(sp)
        mon.call(sp2.analyze_sobol, s["kw"]["calc_second_order"], s["kw"]["num_resamples"], 0.9, seed=s["aseed"])
        sp3 = copy.deepcopy(sp)
        mon.call(sp3.analyze_sobol, calc_second_order=s["kw"]["calc_second_order"], num_resamples=s["kw"]["num_resamples"], conf_level=0.9,
                 seed=s["aseed"])
        a, b = (sp2.analysis, sp3.analysis) if case["cols"] < 2 else (sp2.analysis["Y1"], sp3.analysis["Y1"])
        same_result(mon, a, E.flat(b), "analysis with positional options")
        mon.hit("positional")
    if s["method"] == "ff":
        mon.hit("ff")
        # the padded specification remains usable
        mon.call(sp.sample_latin, 7, seed=1)
        mon.eq(sp.samples.shape, (7, len(sp["names"])), "samples of the padded specification")
        mon.call(sp.sample_morris, 3, seed=1)
        mon.eq(sp.samples.shape[1], len(sp["names"]), "columns of the padded specification")
    mon.hit("printed" if len(printed(sp, mon, f"{s['method']} pipeline")) > 20 else "unprinted")


def tables(sp, outs):
    """-> [(output or None, [DataFrame])] in the order of the outputs."""
    A = sp.analysis
    res = [(None, A)] if len(outs) == 1 else [(o, A[o]) for o in outs]
    out = []
    for o, R in res:
        d = R.to_df()
        out.append((o, list(d) if isinstance(d, (list, tuple)) else [d]))
    return out


def printed(sp, mon, what):
    """The text of a specification: sizes and names of its samples and outputs, then the tables of each output."""
    txt = mon.call(str, sp)
    a, b = txt.find("Outputs:"), txt.find("Analysis:")
    head, mid = txt[: a if a >= 0 else b if b >= 0 else None], txt[a:b if b >= 0 else None] if a >= 0 else ""
    nums = lambda t: [w for w in t.replace(":", " ").split() if w.isdigit()]
    if sp.samples is not None:
        mon.ok(str(len(sp.samples)) in nums(head) and str(sp.samples.shape[1]) in nums(head), lambda: f"{what}: size of the samples in {head!r}")
        mon.ok(all(n in head for n in sp["names"]), lambda: f"{what}: parameter names in {head!r}")
    if sp.results is not None:
        k = 1 if sp.results.ndim == 1 else sp.results.shape[1]
        mon.ok(str(len(sp.results)) in nums(mid) and str(k) in nums(mid), lambda: f"{what}: size of the results in {mid!r}")
        mon.ok(all(o in mid for o in sp["outputs"]), lambda: f"{what}: output names in {mid!r}")
    if sp.analysis is not None:
        p = b
        for o, dfs in tables(sp, sp["outputs"]):
            if o is not None:
                p = txt.find(f"{o}:", p)
                mon.ok(p >= 0, lambda: f"{what}: output {o} is missing from the text, or out of order")
            for d in dfs:
                q = max(txt.find(str(d), p), txt.find(d.to_string(), p)) if d is not None else p
                mon.ok(q >= 0, lambda: f"{what}: the table of output {o} is not in the text after its name")
                p = q
        mon.hit("printed_tables")
        got = mon.call(sp.to_df)
        want = [d for _, d in tables(sp, sp["outputs"])]
        if len(sp["outputs"]) == 1:
            got = [got]
        mon.eq(len(got), len(want), f"{what}: data frames")
        for g, w in zip(got, want):
            for x, y in zip(list(g) if isinstance(g, (list, tuple)) else [g], w):
                mon.ok((x is None and y is None) or (x is not None and y is not None and x.equals(y)), lambda: f"{what}: data frame of the wrong output")
    seen = []
    sp._repr_pretty_(type("P", (), {"text": staticmethod(seen.append)})(), False)
    mon.ok("".join(seen) == txt, f"{what}: text shown by IPython")
    return txt


def sequence(case, mon, rng):
    from SALib import ProblemSpec

    base = case["problem"]
    D = base["num_vars"]
    plain = {k: v for k, v in base.items() if k != "outputs"}
    sp = mon.call(ProblemSpec, G.copy(base))
    st = {"X": None, "Y": None, "A": None, "outputs": base.get("outputs"), "design": None}
    trail = []
    r = lambda *v: v[int(rng.integers(len(v)))]

    def model(X, shift=0.0, cols=None):
        y = E.ref_model(np.array(X, dtype=float), unit_like) + shift
        return y if not cols else np.column_stack([y + i * np.cos(y) for i in range(cols)])

    unit_like = {"bounds": [[0.0, 1.0]] * D}

    def check(what):
        trail.append(what)
        for attr, key in (("samples", "X"), ("results", "Y")):
            v = getattr(sp, attr)
            if st[key] is None:
                mon.ok(v is None, lambda: f"after {trail}: {attr} should be unset, is {np.shape(v)}")
            else:
                mon.ok(v is not None, lambda: f"after {trail}: {attr} lost")
                mon.observe(np.asarray(v))
                mon.same(v, st[key], f"after {trail}: {attr}")
        if st["A"] is None:
            mon.ok(sp.analysis is None, lambda: f"after {trail}: analysis of replaced data is still there")
        else:
            mon.ok(sp.analysis is not None, lambda: f"after {trail}: analysis lost")
            want = st["A"]
            if isinstance(want, tuple):
                same_result(mon, sp.analysis, want[0], f"after {trail}")
            else:
                mon.eq(list(sp.analysis), list(want), f"after {trail}: analysed outputs")
                for o in want:
                    same_result(mon, sp.analysis[o], want[o], f"after {trail}, output {o}")
        mon.eq(sp.get("outputs"), st["outputs"], f"after {trail}: output names")
        for k in plain:
            if k != "groups" or plain[k]:
                mon.eq(list(sp[k]) if isinstance(sp[k], list) else sp[k], plain[k], f"after {trail}: problem entry {k}")

    def set_y(Y):
        k = 1 if Y.ndim == 1 else Y.shape[1]
        if st["outputs"] is None:
            st["outputs"] = ["Y"] if k == 1 else [f"Y{i}" for i in range(1, k + 1)]
        if st["A"] is not None or st["Y"] is not None:
            mon.hit("stale_dropped")
        st.update(Y=Y, A=None)

    def ncols():
        if st["outputs"] is not None:
            k = len(st["outputs"])
            return k if k > 1 else r(None, 1)
        return r(None, 1, 2, 3)

    for _ in range(case["steps"]):
        op = r("sample", "sample", "evaluate", "evaluate", "analyze", "analyze", "analyze", "set_samples", "set_results", "bad_results",
               "bad_samples", "bad_model", "bad_sampler", "bad_analysis", "custom_sample", "copy", "early", "print", "partial", "bad_cols")
        if op == "sample":
            name = r(*[m for m in S.ALL if m != "ff" and not (base.get("groups") and m == "fast_sampler")])
            kw = S.args(rng, name, D)
            k2 = dict(kw)
            if name in S.SEEDED:
                k2["seed"] = int(rng.integers(1000))
            X = np.array(mon.call(S.fn(name), G.copy(plain), **k2))
            pos = [k2.pop("N")] if "N" in k2 and rng.random() < 0.5 else []
            mon.call(getattr(sp, "sample_" + METHOD.get(name, name)), *pos, **k2)
            if st["A"] is not None or st["Y"] is not None:
                mon.hit("stale_dropped")
            st.update(X=X, Y=None, A=None, design=(name, kw))
            mon.hit("sampled")
        elif op == "custom_sample":
            X = rng.random((int(rng.integers(1, 40)), D))
            mon.call(sp.sample, lambda problem, n, flip=False: X[::-1] if flip else X, len(X), flip=True)
            st.update(X=X[::-1], Y=None, A=None, design=None)
            mon.hit("sampled")
        elif op == "set_samples":
            X = rng.random((int(rng.integers(1, 60)), D))
            if rng.random() < 0.5:
                mon.call(sp.set_samples, X)
            else:
                sp.samples = X
            if st["A"] is not None or st["Y"] is not None:
                mon.hit("stale_dropped")
            st.update(X=X, Y=None, A=None, design=None)
        elif op == "bad_samples":
            X = rng.random((5, D + r(-1, 1)))
            mon.raises(ValueError, sp.set_samples, X, _what="samples with a wrong number of columns")
            mon.hit("rejected_cols")
        elif op == "evaluate":
            if st["X"] is None:
                continue
            k = ncols()
            shift = float(rng.normal())
            Y = model(st["X"], shift, k)
            if rng.random() < 0.12:
                mon.call(sp.evaluate_parallel, model, shift, nprocs=r(1, 2, 3), cols=k)
                mon.hit("parallel")
            else:
                mon.call(sp.evaluate, model, shift, cols=k)
            set_y(Y)
            mon.hit("evaluated")
            if k == 1:
                mon.hit("column_output")
        elif op == "set_results":
            n = len(st["X"]) if st["X"] is not None else int(rng.integers(1, 50))
            k = ncols()
            Y = rng.normal(size=n if k is None else (n, k))
            mon.call(sp.set_results, Y)
            set_y(Y)
        elif op == "bad_results":
            if st["X"] is None:
                continue
            mon.raises(AssertionError, sp.set_results, rng.normal(size=len(st["X"]) + r(-1, 1, 3)), _what="results with a wrong number of rows")
            mon.hit("rejected_rows")
            if op == "bad_results" and st["outputs"] is not None and len(st["outputs"]) > 1:
                mon.raises(ValueError, sp.set_results, rng.normal(size=len(st["X"])), _what="one column of results for several outputs")
            if rng.random() < 0.4 and (st["design"] or ("",))[0] in ("sobol", "saltelli", "morris", "finite_diff", "fast_sampler") and st["design"][1].get("N", 0) > 2:
                short(mon, rng, sp, st, D, base)
        elif op == "bad_cols":
            if st["outputs"] is None or st["X"] is None:
                continue
            k = len(st["outputs"]) + r(1, 2, -1 if len(st["outputs"]) > 1 else 1)
            mon.raises(ValueError, sp.evaluate, model, 0.0, k, _what="results with a wrong number of outputs")
            mon.hit("rejected_outputs")
        elif op == "bad_model":
            if st["X"] is None:
                continue

            def broken(X):
                raise Planted("model")
            mon.raises(Planted, sp.evaluate, broken, _what="failing model")
            mon.hit("failed_model")
        elif op == "bad_sampler":
            def broken(problem):
                raise Planted("sampler")
            mon.raises(Planted, sp.sample, broken, _what="failing sampler")
            if sp.results is None:
                st.update(Y=None, A=None)
            if sp.analysis is None:
                st["A"] = None
            mon.hit("failed_sampler")
        elif op in ("analyze", "bad_analysis", "partial"):
            if st["Y"] is None:
                mon.raises(RuntimeError, sp.analyze_sobol, _what="analysis without results")
                mon.hit("too_early")
            elif op == "bad_analysis":
                def broken(problem, Y):
                    raise Planted("analysis")
                mon.raises(Planted, sp.analyze, broken, _what="failing analysis")
                mon.hit("failed_analysis")
            elif op == "partial":
                if len(st["outputs"]) < 2:
                    continue
                n = [0]

                def half(problem, Y):
                    n[0] += 1
                    if n[0] > 1:
                        raise Planted("second output")
                    return {"Y": Y}
                mon.raises(Planted, sp.analyze, half, _what="analysis failing for the second output")
                mon.hit("partial_analysis")
            else:
                m = pick(rng, st, base)
                if m is None or len(st["X"]) != len(st["Y"]):
                    continue
                s = {"method": m[0], "kw": m[1], "aseed": int(rng.integers(1000))}
                ys = [st["Y"].reshape(-1)] if len(st["outputs"]) == 1 else [st["Y"][:, i] for i in range(st["Y"].shape[1])]
                ref = []
                for y in ys:
                    f, a, kw = E.call(s, G.copy(plain), st["X"].copy(), y.copy())
                    ref.append(E.flat(mon.call(f, *a, **kw)))
                par = {"nprocs": 2} if rng.random() < (0.35 if st["A"] is not None else 0.1) and len(ys) > 1 else {}
                mon.call(getattr(sp, "analyze_" + METHOD.get(m[0], m[0])), **kw, **par)
                mon.hit("parallel_analysis", len(par))
                st["A"] = (ref[0],) if len(ys) == 1 else dict(zip(st["outputs"], ref))
                mon.hit("analyzed")
                if len(ys) > 1:
                    mon.hit("multi_output")
        elif op == "copy":
            how = r("copy", "deepcopy", "pickle")
            # (results with their own conversion method are only deep-copied)
            if how == "copy":
                c = mon.call(copy.copy, sp)
            elif how == "deepcopy" or st["A"] is not None:
                c = mon.call(copy.deepcopy, sp)
            else:
                c = mon.call(lambda: pickle.loads(pickle.dumps(sp)))
            mon.call(c.sample_latin, 9, seed=4)
            mon.eq(c.samples.shape, (9, D), f"samples of a copy ({how})")
            mon.ok(c.results is None and c.analysis is None, "copy kept results of other samples")
            if rng.random() < 0.5:  # carry on with the copy
                sp = c
                st.update(X=c.samples.copy(), Y=None, A=None, design=("latin", {"N": 9}))
            mon.hit("copied")
        elif op == "early":
            if st["A"] is None:
                mon.raises(RuntimeError, sp.to_df, _what="data frame without analysis")
                mon.raises(RuntimeError, sp.plot, _what="plot without analysis")
            else:
                df = mon.call(sp.to_df)
                if not isinstance(st["A"], tuple):
                    mon.eq(len(df), len(st["outputs"]), "number of data frames of a multi-output analysis")
                mon.hit("df")
        elif op == "print":
            txt = printed(sp, mon, f"after {trail}")
            mon.ok((st["X"] is None and st["Y"] is None) or (("Samples:" in txt) == (st["X"] is not None)
                   and ("Outputs:" in txt) == (st["Y"] is not None) and ("Analysis:" in txt) == (st["A"] is not None)),
                   lambda: f"after {trail}: printed sections do not match the state: {txt[:300]}")
            if st["X"] is not None:
                mon.ok(f"{len(st['X'])} samples" in txt, "number of samples printed")
            mon.hit("printed")
        check(op)


def short(mon, rng, sp, st, D, base):
    """A model that answers for fewer rows (whole blocks of the design left out): never analysed."""
    c = copy.deepcopy(sp)
    name, kw = st["design"]
    g = len(dict.fromkeys(base["groups"])) if base.get("groups") else D
    if name in ("sobol", "saltelli"):
        unit, m, ak = (2 * g + 2 if kw["calc_second_order"] else g + 2), "sobol", {"calc_second_order": kw["calc_second_order"]}
    elif name == "morris":
        unit, m, ak = g + 1, "morris", {"num_levels": kw["num_levels"]}
    elif name == "finite_diff":
        unit, m, ak = D + 1, "dgsm", {}
    else:
        unit, m, ak = D, "fast", {"M": kw["M"]}
    n = len(st["X"]) - unit
    if n < 2 * unit or D < 2:
        return
    k = len(st["outputs"]) if st["outputs"] else 1
    y = rng.normal(size=(n, k)) if k > 1 else rng.normal(size=n)

    def go():
        c.evaluate(lambda X: y)
        getattr(c, "analyze_" + m)(num_resamples=3, seed=1, **ak)
        return c.analysis
    mon.raises(Exception, go, _what=f"{m} analysis of {n} results for {len(st['X'])} samples")
    mon.hit("short_results")


def pick(rng, st, base):
    """An analysis that suits the current samples (method, options)."""
    n = len(st["X"]) if st["X"] is not None else 0
    r = lambda *v: v[int(rng.integers(len(v)))]
    c = []
    d = st["design"]
    if d and d[0] in ("sobol", "saltelli"):
        c += [("sobol", {"calc_second_order": d[1]["calc_second_order"], "num_resamples": 5})] * 3
    if d and d[0] == "morris":
        c += [("morris", {"num_levels": d[1]["num_levels"], "num_resamples": 5})] * 3
    if d and d[0] == "fast_sampler":
        c += [("fast", {"M": d[1]["M"], "num_resamples": 5})] * 3 if d[1]["N"] >= 40 else []
    if d and d[0] == "finite_diff" and d[1]["N"] > 1:
        c += [("dgsm", {"num_resamples": 5})] * 3
    if n >= 20:
        c += [("pawn", {"S": r(3, 5)}), ("rsa", {"bins": r(3, 5), "target": r("X", "Y")})]
    if n >= 40 and not base.get("dists"):
        c += [("discrepancy", {"method": r("WD", "CD")})] if d else []
    if n >= 60:
        c += [("delta", {"num_resamples": 5})]
    return c[int(rng.integers(len(c)))] if c else None
