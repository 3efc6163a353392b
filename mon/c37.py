"""C37: calls running in several threads at once give what each gives alone."""
import os
import sys
import threading
import time

import numpy as np
from . import gen as G
from . import entry as EN
from . import samplers as SM
from .core import Inconclusive

RULE = ("Random mixes of 2 to 8 seeded samplings, analyses and ProblemSpec runs (same and different methods, own and shared problems and data) are first "
        "run one by one and then all at once in threads started at a barrier, with tiny switch intervals and delays injected between lines of "
        "the library; a trace hook records which places of the code were active together, and every result has to be bitwise the one of the call alone "
        "(quantities drawn from NumPy's global generator left out).")
TASKS = ["sobol", "morris", "fast", "rbd_fast", "dgsm", "ff", "pawn", "rsa", "discrepancy", "hdmr", "enhanced_hdmr"]
REQUIRED = ["overlap", "shared", "own", "same method", "mix", "spec"] + ["task:" + m for m in TASKS] + ["sample:" + m for m in SM.ALL]
CASE_LIMIT = 150
TECHNIQUE = "runtime monitoring: concurrent real calls with injected delays, traced interleavings, results compared with isolated calls"
SRC = os.sep + "SALib" + os.sep


def gen(rng, tier):
    n = 480 if tier == "quick" else 1500
    r = lambda *v: v[int(rng.integers(len(v)))]
    for i in range(n):
        style = ["same", "mix", "mix", "samplers"][i % 4]
        shared = bool(rng.integers(2))
        k = int(rng.integers(2, 9))
        one = TASKS[(i // 4) % len(TASKS)]
        D = r(2, 3, 4)
        grp = rng.random() < 0.3
        tasks = []
        base = EN.setup(rng, one, group=grp, D=D)
        for _ in range(k):
            if style == "samplers" or style == "mix" and rng.random() < 0.4:
                m = r(*SM.ALL)
                pr = base["problem"] if shared else G.problem(rng, r(2, 3, 5), group=rng.random() < 0.3 and m != "fast_sampler", dists=rng.random() < 0.3 or None)
                tasks.append({"do": "sample", "method": m, "problem": pr, "kw": SM.args(rng, m, len(pr["names"])), "seed": G.seed(rng)})
                continue
            m = one if style == "same" else r(*TASKS[:9]) if rng.random() < 0.85 else r(*TASKS)
            s = base if shared and style == "same" else EN.setup(rng, m, group=rng.random() < 0.3)
            if shared and style == "same" and rng.random() < 0.7:
                s = dict(s, aseed=G.seed(rng))  # the same data analysed with another seed
            if m == "enhanced_hdmr":
                s = dict(s, kw=dict(s["kw"], bootstrap=1))  # several are drawn from the global generator
            tasks.append({"do": r("analyze", "analyze", "spec") if not shared else "analyze", "spec": s})
        yield {"kind": style, "tasks": tasks, "shared": shared, "p": float(r(0.002, 0.02, 0.1)), "seed": G.seed(rng)}


LEFT_OUT = {"fast": ("S1_conf", "ST_conf"), "dgsm": ("dgsm_conf",), "rsa": (), "pawn": ()}


def prepare(t, mon, cache):
    """-> function of no arguments for one task."""
    if t["do"] == "sample":
        m, k = t["method"], dict(t["kw"])
        pos = [k.pop("N")] if "N" in k else []
        if m in SM.SEEDED:
            k["seed"] = t["seed"]
        key = repr(t["problem"])
        pr = cache.setdefault(key, {**G.copy(t["problem"]), "sample_scaled": True}) if cache is not None and m != "ff" else None  # (documented to pad the problem)
        pre = (lambda: pr) if pr is not None else (lambda: G.copy(t["problem"]))
        mon.hit("sample:" + m)
        f = SM.fn(m)
        return lambda: {"X": f(pre(), *pos, **k)}
    s = t["spec"]
    m = s["method"]
    mon.hit("task:" + m)
    if t["do"] == "spec":
        from SALib import ProblemSpec

        kw = dict(s["skw"])
        if s["sampler"] in SM.SEEDED:
            kw["seed"] = s["xseed"]

        def run():
            sp = ProblemSpec(G.copy(s["problem"]))
            sp.sample(SM.fn(s["sampler"]), **kw)
            sp.evaluate(lambda X: EN.ref_model(X[:, : len(s["problem"]["names"])], s["problem"]))
            sp.analyze(EN.fn(m), **s["kw"], seed=s["aseed"])
            return {"X": sp.samples, "Y": sp.results, **pick(m, EN.flat(sp.analysis))}

        if m != "ff":
            mon.hit("spec")
            return run
    key = repr((s["problem"], s["xseed"], s["skw"], s["sampler"]))
    if cache is not None and key in cache:
        pr, X, Y = cache[key]
    else:
        pr, X, Y = EN.data(s, mon)
        if cache is not None:
            pr.setdefault("groups", None)
            pr["sample_scaled"] = True
            X.setflags(write=False)
            Y.setflags(write=False)
            cache[key] = pr, X, Y
    f, a, kw = EN.call(s, pr, X, Y)
    return lambda: pick(m, EN.flat(f(pr if cache is not None else G.copy(pr), *a[1:], **kw)))


def pick(m, d):
    return {k: v for k, v in d.items() if k not in LEFT_OUT.get(m, ())}


def run(case, mon):
    rng = np.random.default_rng(case["seed"])
    cache = {} if case["shared"] else None
    jobs = [prepare(t, mon, cache) for t in case["tasks"]]
    alone = [mon.call(j) for j in jobs]
    n = len(jobs)
    out, err = [None] * n, [None] * n
    place, seen, events = [None] * n, set(), [0]
    gate = threading.Barrier(n)
    stop = threading.Event()

    def body(i, seed):
        r = np.random.default_rng(seed)
        lot = r.random(4096).tolist()
        c = [0]

        def line(frame, event, arg):
            place[i] = here = (frame.f_code.co_name, frame.f_lineno)
            c[0] += 1
            u = lot[c[0] & 4095]
            if u < case["p"] and c[0] < 20000:
                time.sleep(0 if u < case["p"] / 2 else 2e-5)
                for j in range(n):
                    if j != i and place[j] is not None and len(seen) < 20000:
                        seen.add((here, place[j]))
            if stop.is_set():
                raise SystemExit
            return line

        def enter(frame, event, arg):
            return line if SRC in frame.f_code.co_filename else None

        try:
            gate.wait(30)
            sys.settrace(enter)
            try:
                out[i] = jobs[i]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            err[i] = e
        place[i] = None
        events[0] += c[0]

    keep = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    th = [threading.Thread(target=body, args=(i, case["seed"] + i), daemon=True) for i in range(n)]
    try:
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        stop.set()
        sys.setswitchinterval(keep)
    if any(isinstance(e, threading.BrokenBarrierError) for e in err):
        raise Inconclusive("the threads did not all start in time")
    for i, t in enumerate(case["tasks"]):
        what = f"{t.get('method') or t['spec']['method']} ({t['do']}) next to {n - 1} other calls"
        mon.ok(err[i] is None, lambda: f"{what} raised {type(err[i]).__name__}: {str(err[i])[:200]}")
        mon.eq(sorted(out[i]), sorted(alone[i]), f"{what}: entries")
        for k, v in alone[i].items():
            mon.same(out[i][k], v, f"{what}: {k}")
            mon.observe(np.asarray(v))
    mon.hit("line events", events[0])
    mon.hit("pairs of places active together", len(seen))
    if seen:
        mon.hit("overlap")
    mon.hit("shared" if case["shared"] else "own")
    mon.hit({"same": "same method"}.get(case["kind"], "mix"))
