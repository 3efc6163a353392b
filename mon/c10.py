"""C10: Sobol indices equal their estimators."""
import numpy as np
from itertools import combinations
from . import gen as G

RULE = ("Random problems (1..12 factors, groups, both orders), N from 1 up, and arbitrary output vectors (normal, heavy "
        "tailed, integer, offset, binary, constant, constant on A and B only): every returned index is compared with the "
        "estimator computed in extended precision by an independent implementation; inconsistent lengths must raise.")
REQUIRED = ["S1", "ST", "S2", "grouped", "first_only", "constant", "AB_constant", "length_rejected", "N=1", "D=1",
            "integer_outputs", "keep", "nan_elsewhere"]
ASSUMPTIONS = ["a problem whose groups are all the same single group is outside the domain"]

YK = ["normal", "heavy", "int", "offset", "binary", "big", "small", "poly", "float32", "strided"]


def gen(rng, tier):
    for _ in range(5000 if tier == "quick" else 80000):
        D = G.wide(rng, int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12])), 0.01)
        pr = G.problem(rng, D, group=rng.random() < 0.5)
        yield {"kind": "est", "problem": pr, "N": int(rng.choice([1, 2, 3, 4, 5, 8, 16, 33, 64])),
               "second": bool(rng.integers(2)), "y": str(rng.choice(YK)), "resamples": int(rng.choice([2, 5, 20])),
               "keep": bool(rng.random() < 0.2), "seed": G.seed(rng)}
    for _ in range(60 if tier == "quick" else 600):
        D = int(rng.choice([1, 2, 3, 5]))
        pr = G.problem(rng, D, group=rng.random() < 0.5)
        yield {"kind": "const", "problem": pr, "N": int(rng.choice([1, 2, 4, 7, 64])), "second": bool(rng.integers(2)),
               "value": float(rng.choice([0.0, 1.0, 0.1, -3.7, 1e-12, 12345.678])), "seed": G.seed(rng),
               "parallel": bool(rng.random() < 0.1), "part": bool(rng.integers(2))}
    for _ in range(60 if tier == "quick" else 600):
        D = int(rng.choice([1, 2, 3, 5, 8]))
        pr = G.problem(rng, D, group=rng.random() < 0.5)
        yield {"kind": "length", "problem": pr, "N": int(rng.choice([1, 2, 4, 7])), "second": bool(rng.integers(2)),
               "seed": G.seed(rng)}


def outputs(rng, kind, n):
    y = rng.normal(size=n)
    if kind == "heavy":
        y = np.exp(1.5 * y)
    elif kind == "int":
        y = rng.integers(-5, 6, n)
    elif kind == "offset":
        y = y + 1000.0
    elif kind == "binary":
        y = (y > 0).astype(float)
    elif kind == "big":
        y = y * 1e12 + 3e12
    elif kind == "small":
        y = y * 1e-9
    elif kind == "poly":
        y = rng.uniform(size=n) ** 3
    elif kind == "float32":
        y = y.astype(np.float32)
    elif kind == "strided":
        y = np.repeat(y, 2)[::2]
    return y


def ref(Y, D, second):
    """Extended-precision estimators on the standardised outputs."""
    L = np.longdouble
    Y = np.asarray(Y).astype(L)
    Z = Y - Y.mean()
    sd = np.sqrt((Z * Z).mean())
    if sd > 0:
        Z = Z / sd
    step = 2 * D + 2 if second else D + 2
    T = Z.reshape(-1, step)
    A, B = T[:, 0], T[:, -1]
    AB = T[:, 1:D + 1]
    BA = T[:, D + 1:2 * D + 1] if second else None
    both = np.concatenate([A, B])
    V = ((both - both.mean()) ** 2).mean()
    S1, ST, S2 = np.zeros(D), np.zeros(D), np.full((D, D), np.nan)
    const = np.all(both == both[0])
    for i in range(D):
        if not const:
            S1[i] = (B * (AB[:, i] - A)).mean() / V
            ST[i] = ((A - AB[:, i]) ** 2).mean() / (2 * V)
    for i, j in combinations(range(D), 2):
        S2[i, j] = 0.0 if const else (BA[:, i] * AB[:, j] - A * B).mean() / V - S1[i] - S1[j] if second else np.nan
    cond = 1.0 / V if not const else 1.0
    return S1, ST, S2, float(cond)


def run(case, mon):
    from SALib.analyze import sobol

    pr, N, second = case["problem"], case["N"], case["second"]
    D = len(G.ugroups(pr))
    step = 2 * D + 2 if second else D + 2
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "length":
        for n in range(1, 3 * step + 2):
            if n % step:
                mon.raises(RuntimeError, sobol.analyze, G.copy(pr), rng.normal(size=n), calc_second_order=second,
                           num_resamples=3, seed=1, _what=f"{n} outputs for step {step}")
                mon.hit("length_rejected")
        S = mon.call(sobol.analyze, G.copy(pr), rng.normal(size=step * N), calc_second_order=second, num_resamples=3, seed=1)
        mon.observe(np.asarray(S["S1"]))
        mon.ok(len(S["S1"]) == D, "one index per factor/group")
        return
    n = N * step
    if case["kind"] == "const":
        Y = np.full(n, case["value"])
        if case["part"]:  # constant A and B, everything else varies
            Y = rng.normal(size=n)
            Y[0::step] = case["value"]
            Y[step - 1::step] = case["value"]
            mon.hit("AB_constant")
        else:
            mon.hit("constant")
        kw = dict(parallel=True, n_processors=2) if case["parallel"] else {}
        S = mon.call(sobol.analyze, G.copy(pr), Y, calc_second_order=second, num_resamples=7, seed=3, **kw)
        mon.observe(*[np.asarray(S[k]) for k in S])
        keys = ["S1", "ST", "S1_conf", "ST_conf"]
        for k in keys:
            mon.same(np.asarray(S[k], float), np.zeros(D), f"{k} of constant outputs ({case['value']}, part={case['part']})")
        if second:
            want = np.full((D, D), np.nan)
            want[np.triu_indices(D, 1)] = 0.0
            mon.same(np.asarray(S["S2"]), want, "S2 of constant outputs")
            mon.same(np.asarray(S["S2_conf"]), want, "S2_conf of constant outputs")
        return
    Y = outputs(rng, case["y"], n)
    if np.ptp(Y) == 0:
        return
    S = mon.call(sobol.analyze, G.copy(pr), Y, calc_second_order=second, num_resamples=case["resamples"],
                 keep_resamples=case["keep"], seed=case["seed"] % 1000)
    S1, ST, S2, cond = ref(Y, D, second)
    mon.observe(np.asarray(S["S1"], float), np.asarray(S["ST"], float))
    # rounding: standardising float32 / offset data, division by a small A/B variance
    off = abs(float(np.mean(Y))) / float(np.std(np.asarray(Y, float)))
    tol = (1e-5 if case["y"] == "float32" else 1e-11) * (1 + off) * (1 + cond) * 10
    if tol > 1e-3:
        return
    for k, w in (("S1", S1), ("ST", ST)):
        mon.close(S[k], w, f"{k} (D={D}, N={N}, second={second})", rtol=tol, atol=tol)
        mon.hit(k)
        mon.ok(np.shape(S[k + "_conf"]) == (D,), f"{k}_conf has one entry per factor/group")
    if second:
        mon.close(S["S2"], S2, "S2", rtol=tol, atol=tol)
        mon.eq(np.shape(S["S2_conf"]), (D, D), "shape of S2_conf")
        mon.ok(np.all(np.isnan(np.asarray(S["S2_conf"])[np.isnan(S2)])), "S2_conf given where S2 is not")
        mon.hit("S2")
        mon.hit("nan_elsewhere")
    else:
        mon.ok("S2" not in S and "S2_conf" not in S, "second-order results although not requested")
        mon.hit("first_only")
    if case["keep"]:
        for k in ("S1_conf_all", "ST_conf_all"):
            mon.eq(np.shape(S[k]), (case["resamples"], D), f"shape of {k}")
        mon.hit("keep")
    if pr.get("groups"):
        mon.hit("grouped")
    if N == 1:
        mon.hit("N=1")
    if D == 1:
        mon.hit("D=1")
    if case["y"] == "int":
        mon.hit("integer_outputs")
