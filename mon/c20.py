"""C20: reproducibility from the seed."""
import hashlib
import json
import os
import subprocess
import sys

import numpy as np
from . import gen as G
from . import samplers as S
from . import entry as E

RULE = ("Every seeded sampler and analyzer, seeds 0, small, large and Generators of equal state: repeated calls with arbitrary "
        "other random draws, re-seeding of NumPy's global generator and other SALib calls in between must be bitwise equal; "
        "fresh processes with other hash seeds must give the same digests; other seeds and unseeded calls must give other "
        "draws; samplers must leave NumPy's global state alone.")
REQUIRED = ["sampler_repeat", "analyzer_repeat", "process", "seed=0", "generator", "different_seed", "unseeded_differs", "global_state_kept",
            "seed:huge", "seed:list", "seed:seq", "seed:bit", "generator_advances"]
CASE_LIMIT = 300
GEN_ANALYZERS = {"sobol", "morris", "rbd_fast", "hdmr"}


def gen(rng, tier):
    n = 30 if tier == "quick" else 200
    for _ in range(4 if tier == "quick" else 24):
        jobs = []
        for name in S.ALL:
            D = G.wide(rng, int(rng.choice([2, 3, 5])), 0.2)
            jobs.append({"sampler": name, "problem": G.problem(rng, D, group=rng.random() < 0.5 and name != "fast_sampler", dists=rng.random() < 0.3 or None),
                         "kw": S.args(rng, name, D), "seed": int(rng.choice([0, 1, 42, 2**31 - 1]))})
        for name in E.ALL:
            jobs.append({"analyzer": E.setup(rng, name, group=rng.random() < 0.5), "seed": int(rng.choice([0, 1, 42, 2**31 - 1]))})
        yield {"kind": "process", "jobs": jobs, "hash": [str(int(rng.integers(1, 4000000))), "0"], "seed": G.seed(rng)}
    for _ in range(n):
        for name in S.ALL:
            D = G.wide(rng, int(rng.choice([1, 2, 3, 5, 8])), 0.15)
            yield {"kind": "sampler", "name": name, "problem": G.problem(rng, D, group=rng.random() < 0.4 and D > 1 and name != "fast_sampler",
                                                                         dists=rng.random() < 0.3 or None),
                   "kw": S.args(rng, name, D), "useed": [0, 1, 12345, 2**31 - 1, 2**40, "gen", "gen", 2**63 + 11, 10**30, "list", "seq", "bit"][int(rng.integers(12))], "seed": G.seed(rng)}
        for name in E.ALL:
            yield {"kind": "analyzer", "spec": E.setup(rng, name, group=rng.random() < 0.4),
                   "useed": [0, 0, 1, 12345, 2**32 - 1, "gen", "gen", "list", "seq", "bit", 2**64 + 5][int(rng.integers(11))], "seed": G.seed(rng)}


def mk(useed, k):
    if useed == "gen":
        return np.random.default_rng(k)
    if useed == "list":
        return [k, 7]
    if useed == "seq":
        return np.random.SeedSequence(k)
    if useed == "bit":
        return np.random.PCG64(k)
    return useed


def disturb(rng):
    """Arbitrary other random draws, including SALib's own."""
    from SALib.sample import latin

    np.random.seed(int(rng.integers(2**32)))
    np.random.random(int(rng.integers(1, 50)))
    import random
    random.seed(int(rng.integers(2**31)))
    if rng.random() < 0.3:
        latin.sample({"num_vars": 2, "names": ["a", "b"], "bounds": [[0, 1]] * 2}, 5, seed=None if rng.random() < 0.5 else 3)


def state():
    a = np.random.get_state()
    return (a[1].tobytes(), a[2], a[3], a[4])


def digest(d):
    h = hashlib.sha1()
    for k in sorted(d):
        h.update(k.encode() + np.ascontiguousarray(d[k]).tobytes())
    return h.hexdigest()


def job(j, mon=None):
    if "sampler" in j:
        f = S.fn(j["sampler"])
        kw = dict(j["kw"])
        pos = [kw.pop("N")] if "N" in kw else []
        if j["sampler"] in S.SEEDED:
            kw["seed"] = j["seed"]
        return digest({"X": np.asarray(f(j["problem"], *pos, **kw), dtype=float)})
    s = j["analyzer"]
    pr, X, Y = E.data(s)
    f, a, kw = E.call(s, pr, X, Y, seed=j["seed"])
    return digest(E.flat(f(*a, **kw)))


def child():
    import contextlib, io, warnings
    from . import core

    core.setup_import()
    warnings.simplefilter("ignore")
    jobs = json.load(sys.stdin)
    out = []
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all="ignore"):
        np.random.random(17)
        for j in jobs:
            try:
                out.append(job(j))
            except Exception as e:
                out.append(f"{type(e).__name__}: {e}")
    print(json.dumps(out))


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "process":
        here = [mon.call(job, json.loads(json.dumps(j))) for j in case["jobs"]]
        env = dict(os.environ)
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for hs in case["hash"]:
            env["PYTHONHASHSEED"] = hs
            p = subprocess.run([sys.executable, "-c", "from mon import c20; c20.child()"], input=json.dumps(case["jobs"]),
                               capture_output=True, text=True, env=env, cwd=root, timeout=250)
            if p.returncode:
                raise RuntimeError(p.stderr[-500:])
            there = json.loads(p.stdout.strip().split("\n")[-1])
            for j, a, b in zip(case["jobs"], here, there):
                what = j.get("sampler") and "sampler " + j["sampler"] or "analyzer " + j["analyzer"]["method"]
                mon.eq(b, a, f"{what}, seed {j['seed']}: digest of the result in a fresh process")
        mon.observe(here)
        mon.hit("process", len(case["hash"]))
        return
    u = case["useed"]
    k = int(rng.integers(1000))
    if u == 0:
        mon.hit("seed=0")
    if u == "gen":
        mon.hit("generator")
    if case["kind"] == "sampler":
        name, kw = case["name"], case["kw"]
        if name == "sobol" and (u in ("list", "seq", "bit") or u != "gen" and u > 2**32):
            u = 7
        if isinstance(u, str) or u > 2**40:
            mon.hit("seed:" + (u if isinstance(u, str) else "huge"))
        draw = lambda s: np.array(S.draw(mon, name, G.copy(case["problem"]), kw, seed=s), dtype=float)
        disturb(rng)
        before = state()
        A = draw(mk(u, k))
        if name in S.SEEDED or name == "saltelli":
            mon.ok(state() == before, f"{name}.sample altered NumPy's global random state")
            mon.hit("global_state_kept")
        mon.observe(A)
        keep = A.copy()
        A *= 3  # the caller may do as it likes with its sample
        for _ in range(2):
            disturb(rng)
            mon.same(draw(mk(u, k)), keep, f"{name}.sample with seed {u}, called again")
        mon.hit("sampler_repeat")
        if name == "sobol" and not kw["scramble"]:
            return
        if name in S.STOCHASTIC and keep.size > 12:
            far = [1, 1, 1000, 256, 2**16, 2**31, 2**32, 2**63, 2**64, 2**100][int(rng.integers(5 if name == "sobol" else 10))]
            B = draw(mk(u, k + 1) if isinstance(u, str) else u + far)
            if u == "gen":  # one generator, used call after call, goes on drawing
                one = mk(u, k)
                mon.same(draw(one), keep, f"{name}.sample with a Generator, first call")
                two = draw(one)
                if name != "morris" or keep.shape[0] > 12:
                    mon.ok(not np.array_equal(two, keep), f"{name}.sample gives the same design twice from one Generator")
                    mon.hit("generator_advances")
            disturbed = draw(None)
            disturb(np.random.default_rng(case["seed"]))
            again = draw(None)
            big = name != "morris" or keep.shape[0] > 12
            if big:
                mon.ok(not np.array_equal(B, keep), f"{name}.sample gives the same design for two different seeds ({u})")
                mon.ok(not np.array_equal(again, disturbed), f"{name}.sample without a seed gives the same design twice")
                mon.hit("different_seed")
                mon.hit("unseeded_differs")
        return
    s = case["spec"]
    name = s["method"]
    if u == "gen" and name not in GEN_ANALYZERS:
        u = 5
    if (isinstance(u, str) and u != "gen" or u == 2**64 + 5) and name not in ("morris", "rbd_fast", "hdmr"):
        u = 6
    pr, X, Y = E.data(s, mon)
    Y = Y + 1e-3 * np.random.default_rng(case["seed"]).normal(size=Y.shape)

    def go(seed):
        f, a, kw = E.call(s, G.copy(pr), X.copy(), Y.copy(), seed=seed)
        return E.flat(mon.call(f, *a, **kw))
    disturb(rng)
    A = go(mk(u, k))
    mon.observe(*A.values())
    for _ in range(2):
        disturb(rng)
        B = go(mk(u, k))
        mon.eq(sorted(B), sorted(A), f"{name}: keys of the result")
        for key in A:
            mon.same(B[key], A[key], f"{name}.analyze: {key} with seed {u}, called again")
    mon.hit("analyzer_repeat")
    if name in E.RANDOM and not (name == "hdmr" and s["kw"]["K"] == 1) and not (name == "enhanced_hdmr" and s["kw"]["bootstrap"] == 1):
        far = int(rng.choice([1, 1000, 256, 2**16, 10**6, 2**31]))
        B = go(mk(u, k + 1) if isinstance(u, str) else (u + far) % 2**32)
        if u == "gen":
            one = mk(u, k)
            mon.eq(digest(go(one)), digest(A), f"{name}.analyze with a Generator, first call")
            mon.ok(digest(go(one)) != digest(A), f"{name}.analyze gives the same bootstrap twice from one Generator")
            mon.hit("generator_advances")
        mon.ok(digest(A) != digest(B), f"{name}.analyze gives the same bootstrap for two different seeds ({u})")
        mon.hit("different_seed")
        disturb(rng)
        a = go(None)
        disturb(rng)
        mon.ok(digest(go(None)) != digest(a), f"{name}.analyze without a seed gives the same bootstrap twice")
        mon.hit("unseeded_differs")
