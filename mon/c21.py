"""C21: callers' data are left alone; results do not depend on history."""
import numpy as np
from . import gen as G
from . import samplers as S
from . import entry as E

RULE = ("Every analyzer and sampler on shared problems and arrays (contiguous, Fortran-ordered, strided, read-only, integer "
        "outputs): deep snapshots before and after each call, overwriting of inputs and results by the caller afterwards, and "
        "random sequences of calls on one problem object whose every result must equal that of the same call run alone.")
REQUIRED = ["analyzer_snapshot", "sampler_snapshot", "readonly", "fortran", "strided", "int_output", "history", "overwrite_inputs",
            "overwrite_results", "containers", "options_kept"]
CASE_LIMIT = 200
SLOW = {"hdmr", "enhanced_hdmr", "delta"}


def gen(rng, tier):
    n = 14 if tier == "quick" else 250
    for _ in range(n):
        for name in E.ALL:
            form = str(rng.choice(["readonly", "fortran", "strided", "int_output", "plain"]))
            if name == "morris" and form == "int_output":  # documented to take floats only
                form = "readonly"
            s = E.setup(rng, name, group=rng.random() < 0.4)
            if name == "delta" and rng.random() < 0.7:  # the caller's own bins for some of the parameters
                s["kw"]["method"] = str(rng.choice(["all", "delta"]))
                s["kw"]["bins_specs"] = {
                    n: int(rng.integers(2, 8)) if rng.random() < 0.5 else sorted(float(v) for v in b[0] + (b[1] - b[0]) * rng.uniform(0.2, 0.8, 3))
                    for n, b in zip(s["problem"]["names"], s["problem"]["bounds"]) if rng.random() < 0.5}
            yield {"kind": "analyzer", "spec": s, "form": form, "seed": G.seed(rng)}
        for name in S.ALL:
            D = int(rng.choice([2, 3, 5]))
            yield {"kind": "sampler", "name": name, "problem": G.problem(rng, D, group=rng.random() < 0.4 and name != "fast_sampler",
                                                                         dists=rng.random() < 0.4 or None),
                   "kw": S.args(rng, name, D), "seed": G.seed(rng)}
    for _ in range(20 if tier == "quick" else 300):
        D = int(rng.choice([2, 3, 4]))
        pr = G.problem(rng, D, group=rng.random() < 0.5)
        ops = []
        for _ in range(int(rng.integers(6, 14))):
            if rng.random() < 0.35:
                name = str(rng.choice([m for m in S.ALL if m != "ff"]))
                ops.append({"sampler": name, "kw": S.args(rng, name, D), "useed": int(rng.integers(5))})
            else:
                name = str(rng.choice([m for m in E.ALL if m != "ff" and not (m in SLOW and rng.random() < 0.6)]))
                s = E.setup(rng, name, D=D)
                s.pop("problem")
                ops.append({"analyzer": s})
        if pr.get("groups"):
            ops = [o for o in ops if o.get("sampler") != "fast_sampler" and o.get("analyzer", {}).get("method") != "fast"]
        yield {"kind": "history", "problem": pr, "ops": ops, "seed": G.seed(rng)}


def snap(pr):
    return G.copy(dict(pr))


def unchanged(mon, before, after, what):
    for k in before:
        mon.ok(k in after and _eq(before[k], after[k]), lambda: f"{what} changed the problem's {k!r}: {before[k]!r} -> {after.get(k)!r}")
    for k in set(after) - set(before):
        if k == "groups":  # default groups may be recorded
            mon.eq(list(after[k]), list(before["names"]), f"{what}: groups recorded in the problem")
        else:
            mon.ok(k == "sample_scaled", lambda: f"{what} added {k!r} to the problem")


def _eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b and type(a) is type(b)


def close_flat(mon, A, B, what, tol):
    mon.eq(sorted(A), sorted(B), f"{what}: keys of the result")
    for k in B:
        mon.close(A[k], B[k], f"{what}: {k}", **tol)


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"analyzer": analyzer, "sampler": sampler, "history": history}[case["kind"]](case, mon, rng)


def analyzer(case, mon, rng):
    s = case["spec"]
    name = s["method"]
    pr, X, Y = E.data(s, mon)
    form = case["form"]
    if form == "int_output":
        Y = np.round(Y * 7).astype(int)
        ref = Y.astype(float)
    else:
        ref = Y.copy()
    f, a, kw = E.call(s, G.copy(pr), X.copy(), ref.copy())
    want = E.flat(mon.call(f, *a, **kw))
    X0, Y0 = X.copy(), Y.copy()
    if form == "readonly":
        X.setflags(write=False)
        Y.setflags(write=False)
    elif form == "fortran":
        X = np.asfortranarray(X)
    elif form == "strided":
        b = np.full((2 * len(X), X.shape[1] + 2), 777.0)
        b[::2, 1:-1] = X
        X = b[::2, 1:-1]
        c = np.full(3 * len(Y), -777.0)
        c[1::3] = Y
        Y = c[1::3]
    q = G.copy(pr)
    before = snap(q)
    ids = {k: id(v) for k, v in q.items()}
    f, a, kw = E.call(s, q, X, Y)
    opts = G.copy(kw)
    R = mon.call(f, *a, **kw)
    for k in opts:
        mon.ok(_eq(kw[k], opts[k]), lambda: f"{name}.analyze changed its argument {k}: {opts[k]!r} -> {kw[k]!r}")
    if "bins_specs" in kw:
        mon.hit("options_kept")
    unchanged(mon, before, q, f"{name}.analyze")
    for k in ids:
        mon.ok(id(q[k]) == ids[k], f"{name}.analyze replaced the problem's {k!r}")
    mon.same(X, X0, f"inputs after {name}.analyze ({form})")
    mon.same(Y, Y0, f"outputs after {name}.analyze ({form})")
    mon.hit("analyzer_snapshot")
    mon.hit(form)
    got = E.flat(R)
    mon.observe(*got.values())
    tol = dict(rtol=1e-6, atol=1e-7) if name not in ("hdmr", "enhanced_hdmr") else dict(rtol=1e-4, atol=1e-5)
    drop = lambda d: {k: v for k, v in d.items() if not k.startswith("Em.C")}
    close_flat(mon, drop(got), drop(want), f"{name} of {form} data", tol)
    # the caller now overwrites its arrays and problem
    keep = {k: v.copy() for k, v in got.items() if k not in ("X", "Y")}
    names0 = [str(v) for v in R["names"]] if "names" in R else None
    for arr in (X, Y):
        arr.setflags(write=True)
        arr[...] = 5
    q["bounds"][0][0] = -99.0
    now = E.flat(R)
    for k in keep:
        mon.same(now[k], keep[k], f"{name}: {k} after the caller overwrote its arrays")
    if names0:
        mon.eq([str(v) for v in R["names"]], names0, f"{name}: names after the caller changed its problem")
    mon.hit("overwrite_inputs")
    # ... and its result; a later call must not see that
    for v in list(R.values()):
        if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable:
            v[...] = -5.0
        elif isinstance(v, list):
            v.clear()
    f, a, kw = E.call(s, G.copy(pr), X0.copy(), Y0.copy())
    close_flat(mon, drop(E.flat(mon.call(f, *a, **kw))), drop(want), f"{name} after an earlier result was overwritten", tol)
    mon.hit("overwrite_results")


def sampler(case, mon, rng):
    name, kw = case["name"], case["kw"]
    pr = G.copy(case["problem"])
    before = snap(pr)
    lists = {k: v for k, v in pr.items() if isinstance(v, list)}
    X = np.array(S.draw(mon, name, pr, kw, seed=3), dtype=float)
    mon.observe(X)
    for k, v in lists.items():
        mon.ok(_eq(v, before[k]), lambda: f"{name}.sample changed the caller's list of {k}: {before[k]!r} -> {v!r}")
    if name != "ff":
        unchanged(mon, before, pr, f"{name}.sample")
    else:
        D = before["num_vars"]
        mon.eq(list(pr["names"])[:D], before["names"], "ff: first names after padding")
        mon.ok(all(str(v).startswith("dummy_") for v in list(pr["names"])[D:]), "ff: padded names are dummies")
        mon.ok(_eq([list(v) for v in pr["bounds"]][:D], [list(v) for v in before["bounds"]]), "ff: bounds of the real parameters")
    mon.hit("sampler_snapshot")
    # the sampled problem can be sampled again, alike; so can an equal problem held in other containers
    if name != "ff":
        mon.same(np.array(S.draw(mon, name, pr, kw, seed=3), dtype=float), X, f"{name}.sample on the same problem object again")
        q = G.copy(before)
        q["names"] = tuple(q["names"])
        q["bounds"] = tuple(tuple(b) for b in q["bounds"])
        if q.get("groups"):
            q["groups"] = tuple(q["groups"])
        mon.same(np.array(S.draw(mon, name, q, kw, seed=3), dtype=float), X, f"{name}.sample of a problem written with tuples")
        if not q.get("dists"):
            q["bounds"] = np.array(before["bounds"], dtype=float)
            mon.close(np.array(S.draw(mon, name, q, kw, seed=3), dtype=float), X, f"{name}.sample of a problem with an array of bounds", rtol=1e-12)
        mon.hit("containers")


def history(case, mon, rng):
    shared = G.copy(case["problem"])
    done = []
    for op in case["ops"]:
        if "sampler" in op:
            go = lambda pr: {"X": np.array(S.draw(mon, op["sampler"], pr, op["kw"], seed=op["useed"]), dtype=float)}
            what = op["sampler"] + ".sample"
        else:
            s = dict(op["analyzer"], problem=G.copy(case["problem"]))
            if s["method"] == "morris" and case["problem"].get("groups"):
                s["kw"] = dict(s["kw"], scaled=False)
            _, X, Y = E.data(s, mon)

            def go(pr):
                f, a, kw = E.call(s, pr, X.copy(), Y.copy())
                return E.flat(mon.call(f, *a, **kw))
            what = s["method"] + ".analyze"
        alone = go(G.copy(case["problem"]))
        got = go(shared)
        mon.observe(*got.values())
        mon.eq(sorted(got), sorted(alone), f"{what} after {done}: keys")
        for k in alone:
            mon.same(got[k], alone[k], f"{what} after {done}: {k}")
        done.append(what)
        mon.hit("history")
    for k in case["problem"]:
        mon.ok(_eq(case["problem"][k], shared[k]), lambda: f"history {done} changed the problem's {k!r}")
