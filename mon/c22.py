"""C22: parallel execution gives what serial execution gives."""
import importlib
import os
import time

import numpy as np
from . import gen as G
from . import entry as E

RULE = ("Real worker processes (1..8, more than rows/outputs/tasks, default) with injected per-chunk delays and failures; completion "
        "order is logged by the workers. Parallel model evaluation is compared bitwise with the model run on all rows at once, "
        "parallel Sobol analysis and parallel analysis of several outputs bitwise with the serial calls of the same seed. "
        "Distributed evaluation runs on a stand-in pool that executes the submitted chunks in random order.")
REQUIRED = ["evaluate", "more_procs_than_rows", "out_of_order", "worker_failure", "args", "two_dim", "integer_model", "sobol", "analyze",
            "distributed", "analysis_failure"]
CASE_LIMIT = 120


def gen(rng, tier):
    n = 40 if tier == "quick" else 700
    for _ in range(n):
        yield {"kind": "evaluate", "D": int(rng.integers(1, 6)), "rows": int(rng.choice([1, 2, 3, 5, 7, 16, 33, 100, 257])),
               "nprocs": [None, 1, 2, 3, 4, 5, 6, 7, 8, 11][int(rng.integers(10))], "cols": int(rng.choice([0, 0, 1, 2, 3])),
               "via": str(rng.choice(["evaluate", "evaluate_parallel"])), "args": bool(rng.random() < 0.6),
               "dtype": str(rng.choice(["float", "float", "int", "bool"])), "delay": bool(rng.random() < 0.7),
               "fail": bool(rng.random() < 0.15), "seed": G.seed(rng)}
    for _ in range(n // 2):
        yield {"kind": "distributed", "D": int(rng.integers(1, 6)), "rows": int(rng.choice([1, 2, 3, 7, 16, 33])),
               "nprocs": int(rng.integers(1, 5)), "servers": [None, 1, 2, 3][int(rng.integers(4))], "args": bool(rng.random() < 0.6),
               "cols": int(rng.choice([0, 0, 1, 2])), "seed": G.seed(rng)}
    for _ in range(n // 2):
        D = int(rng.integers(2, 8))
        yield {"kind": "sobol", "problem": G.problem(rng, D, group=rng.random() < 0.4), "N": int(rng.choice([1, 2, 5, 8, 16])),
               "order2": bool(rng.random() < 0.5), "nprocs": [None, 1, 2, 3, 5, 8, 30][int(rng.integers(7))],
               "resamples": int(rng.choice([2, 5, 20])), "keep": bool(rng.random() < 0.5), "conf": float(rng.uniform(0.5, 0.99)),
               "style": str(rng.choice(["normal", "normal", "normal", "constant", "onehot"])), "aseed": int(rng.integers(0, 1000)), "seed": G.seed(rng)}
    for _ in range(n // 2):
        name = str(rng.choice(["sobol", "morris", "fast", "rbd_fast", "delta", "dgsm", "pawn", "rsa", "discrepancy"]))
        yield {"kind": "analyze", "spec": E.setup(rng, name, group=rng.random() < 0.3), "outputs": int(rng.integers(1, 6)),
               "nprocs": [None, 1, 2, 3, 8][int(rng.integers(5))], "named": bool(rng.random() < 0.5), "delay": bool(rng.random() < 0.5),
               "fail": bool(rng.random() < 0.15), "seed": G.seed(rng)}


class Model:
    """Row-wise model; each call logs its completion and may dawdle or fail. Runs inside workers."""

    def __init__(self, log, first, cols, dtype, delays, fail_row):
        self.log, self.first, self.cols, self.dtype, self.delays, self.fail_row = log, first, cols, dtype, delays, fail_row

    def pure(self, X, a=1.0, b=0.0, *, c=2.0):
        if len(X) == 0:
            raise ValueError("model called without rows")
        w = np.arange(1, X.shape[1] + 1)
        y = a * np.sin(X * w).sum(axis=1) + b + c * X[:, 0]
        if self.dtype == "int":
            y = np.round(100 * y).astype(int)
        elif self.dtype == "bool":
            y = y > 0
        if self.cols:
            y = np.column_stack([y * (i + 1) if self.dtype != "bool" else y ^ bool(i % 2) for i in range(self.cols)])
        return y

    def __call__(self, X, *args, **kw):
        y = self.pure(X, *args, **kw)
        pos = self.first.get(float(X[0, -1]), -1)
        if self.delays:
            time.sleep(self.delays[pos % len(self.delays)])
        if self.fail_row is not None and np.any(X[:, -1] == self.fail_row):
            raise KeyError("planted worker failure")
        if self.log:
            with open(self.log, "ab", buffering=0) as f:
                f.write(b"%d\n" % pos)
        return y


def order_of(log):
    with open(log) as f:
        return [int(v) for v in f.read().split()]


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    {"evaluate": evaluate, "distributed": evaluate, "sobol": sobol, "analyze": analyze}[case["kind"]](case, mon, rng)


def evaluate(case, mon, rng):
    from SALib import ProblemSpec
    import tempfile

    D, n = case["D"], case["rows"]
    sp = mon.call(ProblemSpec, {"names": [f"p{i}" for i in range(D)], "bounds": [[0.0, 1.0]] * D})
    X = rng.random((n, D))
    mon.call(sp.set_samples, X)
    log = tempfile.mktemp(suffix=".log")
    open(log, "w").close()
    first = {float(X[i, -1]): i for i in range(n)}
    delays = [float(v) for v in rng.permutation([0.0, 0.01, 0.03, 0.06, 0.1])] if case.get("delay") else []
    fail = float(X[int(rng.integers(n)), -1]) if case.get("fail") else None
    m = Model(log, first, case["cols"], case.get("dtype", "float"), delays, fail)
    args, kw = ((2.5,), {"b": -0.75, "c": 0.5}) if case["args"] else ((), {})
    want = m.pure(X, *args, **kw)
    if case["kind"] == "distributed":
        P = importlib.import_module("SALib.util.problem")
        seen = []

        class Pool:  # stands in for the cluster pool
            def __init__(self, nprocs=None, servers=None, **k):
                seen.append((nprocs, servers))

            def map(self, f, chunks, *rest):
                chunks = list(chunks)
                res = [None] * len(chunks)
                for i in rng.permutation(len(chunks)):
                    res[i] = f(chunks[i])
                return res

            imap = map

            def __getattr__(self, name):
                return lambda *a, **k: None

        servers = None if case["servers"] is None else tuple(f"host{i}" for i in range(case["servers"]))
        old = P.pp_Pool, P.pathos_available
        P.pp_Pool, P.pathos_available = Pool, True
        try:
            mon.call(sp.evaluate_distributed, m, *args, nprocs=case["nprocs"], servers=servers, **kw)
        finally:
            P.pp_Pool, P.pathos_available = old
        mon.ok(len(seen) == 1 and seen[0][1] == servers, f"distributed pool created as {seen}")
        mon.hit("distributed")
    else:
        f = getattr(sp, case["via"])
        k = dict(kw)
        if case["nprocs"] is not None:
            k["nprocs"] = case["nprocs"]
        if fail is not None:
            mon.raises(Exception, f, m, *args, _what="evaluation with a failing worker", **k)
            mon.ok(sp.results is None, "results appeared although a worker failed")
            mon.same(sp.samples, X, "samples after a failed evaluation")
            # work can continue
            m2 = Model(None, first, case["cols"], case["dtype"], [], None)
            mon.call(f, m2, *args, **k)
            mon.hit("worker_failure")
        else:
            mon.call(f, m, *args, **k)
            o = order_of(log)
            if o != sorted(o):
                mon.hit("out_of_order")
            mon.hit("completions:" + ("multi" if len(o) > 1 else "single"))
        if (case["nprocs"] or 8) > n:
            mon.hit("more_procs_than_rows")
    got = sp.results
    mon.observe(np.asarray(got))
    mon.same(got, want, f"results of {case['kind']} with nprocs={case['nprocs']}")
    mon.eq(np.asarray(got).dtype.kind, want.dtype.kind, "type of the outputs")
    mon.eq(list(sp["outputs"]), ["Y"] if case["cols"] < 2 else [f"Y{i}" for i in range(1, case["cols"] + 1)], "names of the outputs")
    mon.same(sp.samples, X, "samples after evaluation")
    mon.hit("evaluate")
    if args:
        mon.hit("args")
    if case["cols"] > 1:
        mon.hit("two_dim")
    if case.get("dtype") == "int":
        mon.hit("integer_model")
    os.unlink(log)


def sobol(case, mon, rng):
    from SALib.analyze import sobol as A

    pr = case["problem"]
    Dg = len(G.ugroups(pr))
    n = case["N"] * ((2 * Dg + 2) if case["order2"] else Dg + 2)
    Y = rng.normal(size=n) * 10 ** rng.uniform(-3, 3) + rng.normal()
    if case["style"] == "constant":
        Y[:] = Y[0]
    elif case["style"] == "onehot":
        Y[:] = 0.0
        Y[int(rng.integers(n))] = 3.0
    kw = dict(calc_second_order=case["order2"], num_resamples=case["resamples"], conf_level=case["conf"], keep_resamples=case["keep"],
              seed=case["aseed"])
    S = mon.call(A.analyze, G.copy(pr), Y.copy(), **kw)
    P = mon.call(A.analyze, G.copy(pr), Y.copy(), parallel=True, n_processors=case["nprocs"], **kw)
    mon.eq(sorted(P), sorted(S), "keys of the parallel analysis")
    for k in S:
        mon.observe(np.asarray(P[k]))
        mon.close(P[k], S[k], f"parallel Sobol analysis ({case['nprocs']} processors): {k}", rtol=1e-12, atol=1e-13)
    for a, b in zip(mon.call(P.to_df), mon.call(S.to_df)):
        mon.eq(list(a.columns), list(b.columns), "columns of the parallel result")
        mon.eq(list(a.index), list(b.index), "index of the parallel result")
        mon.close(a.to_numpy(), b.to_numpy(), "data frame of the parallel result", rtol=1e-12, atol=1e-13)
    mon.hit("sobol")


def analyze(case, mon, rng):
    from SALib import ProblemSpec

    s = case["spec"]
    pr, X, Y = E.data(s, mon)
    k = case["outputs"]
    W = np.column_stack([Y * (1 + i) + np.cos(3 * i + Y) for i in range(k)])
    d = dict(pr)
    if case["named"]:
        d["outputs"] = [str(v) for v in rng.permutation(["out", "B", "y10", "y2", "a"])[:k]]
    sp = mon.call(ProblemSpec, d)
    mon.call(sp.set_samples, X)
    mon.call(sp.set_results, W if k > 1 or rng.random() < 0.5 else W[:, 0])
    base = E.fn(s["method"])
    kw = dict(s["kw"], seed=s["aseed"])
    names = list(sp["outputs"])
    want = {}
    for i, o in enumerate(names):
        f, a, kk = E.call(s, G.copy(pr), X.copy(), W[:, i].copy())
        want[o] = E.flat(mon.call(f, *a, **kk))
    bad = W[:, int(rng.integers(k))].copy() if case["fail"] else None
    delays = rng.permutation(np.linspace(0, 0.12, k)) if case["delay"] else np.zeros(k)
    key = {float(W[0, i]): float(delays[i]) for i in range(k)}

    if s["method"] in E.NO_X:
        def slow(problem, Y, **kwargs):
            time.sleep(key.get(float(Y[0]), 0.0))
            if bad is not None and np.array_equal(bad, Y):
                raise KeyError("planted analysis failure")
            return base(problem, Y, **kwargs)
    else:
        def slow(problem, X, Y, **kwargs):
            time.sleep(key.get(float(Y[0]), 0.0))
            if bad is not None and np.array_equal(bad, Y):
                raise KeyError("planted analysis failure")
            return base(problem, X, Y, **kwargs)
    if bad is not None:
        mon.raises(Exception, sp.analyze, slow, nprocs=case["nprocs"], _what="analysis with a failing worker", **kw)
        mon.ok(sp.analysis is None, "an analysis appeared although a worker failed")
        mon.call(sp.analyze, base, nprocs=case["nprocs"], **kw)
        mon.hit("analysis_failure")
    else:
        mon.call(sp.analyze, slow, nprocs=case["nprocs"], **kw)
    R = {names[0]: sp.analysis} if k == 1 else sp.analysis
    mon.eq(list(R), names, "outputs of the parallel analysis")
    for o in names:
        got = E.flat(R[o])
        mon.observe(*got.values())
        mon.eq(sorted(got), sorted(want[o]), f"keys for output {o}")
        for q in want[o]:
            mon.close(got[q], want[o][q], f"parallel analysis of output {o} ({s['method']}): {q}", rtol=1e-12, atol=1e-13)
    mon.hit("analyze")
