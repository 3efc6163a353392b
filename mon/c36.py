"""C36: calls leave the process around them as it was, and do not depend on it."""
import gc
import io
import logging
import os
import random
import shutil
import sys
import tempfile
import threading
import warnings

import numpy as np
from . import gen as G
from . import entry as EN
from . import samplers as SM
from .c29 import lakes

RULE = ("Random samplings, analyses (printed and not, valid and rejected), plots, ProblemSpec runs, parameter files, command lines and test functions "
        "run in a process whose settings were first changed at random (warning filters and format, NumPy error and print options, pandas and "
        "Matplotlib options, open figures, working directory, environment, arguments, streams, Python's random state); a snapshot of "
        "all of them is compared before and after, and the numbers with a run under the original settings.")
KINDS = ["sample", "analyze", "reject", "plot", "spec", "file", "function", "cli", "parallel"]
REQUIRED = (["analyze:" + m for m in EN.ALL] + ["sample:" + m for m in SM.ALL] + ["reject:" + m for m in EN.ALL] + ["printed", "spec", "file", "function",
            "cli", "parallel", "import", "plot:heatmap", "plot:morris"] + ["plot:" + m for m in EN.ALL])
CASE_LIMIT = 150
TECHNIQUE = "runtime monitoring: snapshots of the process state around real calls, and comparison of runs under different settings"
FUNCS = ["Ishigami", "Sobol_G", "linear_model_1", "linear_model_2", "oakley2004", "lake_problem"]


def gen(rng, tier):
    n = 2 if tier == "quick" else 16
    for _ in range(n):
        for i in range(12):
            for m in EN.ALL:
                if i < 4 or m not in ("hdmr", "enhanced_hdmr", "delta"):
                    yield {"kind": "analyze", "spec": EN.setup(rng, m, group=rng.random() < 0.3), "print": bool(i % 2), "seed": G.seed(rng)}
            for m in SM.ALL:
                D = int(rng.choice([2, 3, 5]))
                yield {"kind": "sample", "method": m, "problem": G.problem(rng, D, group=rng.random() < 0.4 and m != "fast_sampler",
                                                                          dists=rng.random() < 0.3 or None),
                       "kw": SM.args(rng, m, D), "seed": G.seed(rng)}
            yield {"kind": "function", "f": FUNCS[i % 6], "N": int(rng.choice([1, 5, 30])), "seed": G.seed(rng)}
            yield {"kind": "file", "problem": G.problem(rng, int(rng.choice([2, 4])), dists=rng.random() < 0.5 or None), "seed": G.seed(rng)}
        yield {"kind": "import", "seed": G.seed(rng)}
        for i in range(3):
            for m in EN.ALL:
                yield {"kind": "reject", "spec": EN.setup(rng, m), "how": ["rows", "conf", "columns"][i], "seed": G.seed(rng)}
        for i in range(2):
            for m in EN.ALL:
                yield {"kind": "plot", "spec": EN.setup(rng, m, D=3), "how": "result", "seed": G.seed(rng)}
        for i in range(4):
            yield {"kind": "plot", "spec": EN.setup(rng, "morris"), "how": "morris", "seed": G.seed(rng)}
            yield {"kind": "plot", "spec": EN.setup(rng, str(rng.choice(["sobol", "morris", "fast", "pawn"]))), "how": "heatmap", "seed": G.seed(rng)}
        for m in ("sobol", "morris", "fast", "rbd_fast", "pawn", "rsa", "delta", "dgsm", "discrepancy"):
            for i in range(2):
                yield {"kind": "spec", "spec": EN.setup(rng, m), "seed": G.seed(rng)}
        for i in range(6):
            yield {"kind": "parallel", "spec": EN.setup(rng, str(rng.choice(["sobol", "morris", "pawn"]))), "way": ["sobol", "evaluate", "analyze"][i % 3],
                   "seed": G.seed(rng)}
            yield {"kind": "cli", "method": str(rng.choice(["saltelli", "latin", "morris", "fast_sampler", "finite_diff", "ff"])),
                   "problem": G.problem(rng, int(rng.choice([2, 4])), dists=None), "seed": G.seed(rng)}


# ------------------------------------------------------------------ process state
def options():
    import pandas as pd

    out = {}
    for k in ("display.precision", "display.max_rows", "display.width", "display.max_columns", "mode.chained_assignment", "display.float_format",
              "display.expand_frame_repr", "mode.copy_on_write", "mode.sim_interactive", "compute.use_numexpr"):
        try:
            out[k] = pd.get_option(k)
        except Exception:
            pass
    return out


def figures():
    import matplotlib._pylab_helpers as H

    return {n: (id(m.canvas.figure), len(m.canvas.figure.axes), tuple(len(a.get_children()) + len(a.lines) + len(a.patches) for a in m.canvas.figure.axes),
                tuple(a.get_title() for a in m.canvas.figure.axes), str(m.canvas.figure.get_suptitle())) for n, m in sorted(H.Gcf.figs.items())}


def snapshot(fds):
    import matplotlib as mpl
    import matplotlib.pyplot as plt

    mask = os.umask(0)
    os.umask(mask)
    s = {"warning filters": list(warnings.filters), "warnings.formatwarning": warnings.formatwarning, "warnings.showwarning": warnings.showwarning,
         "NumPy error state": np.geterr(), "NumPy error callback": np.geterrcall(), "NumPy print options": {k: v for k, v in np.get_printoptions().items()},
         "NumPy buffer size": np.getbufsize(), "pandas options": options(), "Matplotlib rcParams": dict(mpl.rcParams),
         "Matplotlib backend": mpl.get_backend(), "Matplotlib interactive mode": plt.isinteractive(), "working directory": os.getcwd(),
         "environment": dict(os.environ), "umask": mask, "files in the working directory": sorted(os.listdir(".")),
         "files in the temporary directory": sorted(os.listdir(tempfile.gettempdir())), "sys.argv": list(sys.argv),
         "sys.path": list(sys.path), "sys.stdout": sys.stdout, "sys.stderr": sys.stderr, "sys.stdin": sys.stdin, "sys.excepthook": sys.excepthook,
         "sys.displayhook": sys.displayhook, "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
         "garbage collection": (gc.isenabled(), gc.get_threshold()), "trace function": (sys.gettrace(), sys.getprofile()),
         "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable), "Python random state": random.getstate(),
         "threads": sorted(t.name for t in threading.enumerate()), "figures": figures()}
    if fds:
        gc.collect()
        s["open files"] = openfiles()
    return s


def openfiles():
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            out.append(os.readlink("/proc/self/fd/" + f))
        except OSError:
            pass
    return sorted(v for v in out if "/proc/" not in v)


def compare(mon, a, b, what, plots=False):
    for k in a:
        if k == "figures":
            lost = {n: v for n, v in a[k].items() if b[k].get(n) != v}
            mon.ok(not lost, f"{what} closed or changed figures that were open before: {a[k]} became {b[k]}")
            if not plots:
                mon.eq(sorted(b[k]), sorted(a[k]), f"{what}: open figures afterwards")
            continue
        mon.checks += 1
        if a[k] != b[k]:
            d = ""
            if isinstance(a[k], dict):
                d = {i: (a[k].get(i), b[k].get(i)) for i in set(a[k]) | set(b[k]) if a[k].get(i) != b[k].get(i)}
            elif isinstance(a[k], list):
                d = [v for v in b[k] if v not in a[k]][:4], [v for v in a[k] if v not in b[k]][:4]
            mon.fail(f"{what} changed the {k} of the process: {str(d)[:300]}")
    mon.hit("snapshots")
    mon.hit("settings", len(a))


class Setting:
    """Random process settings, undone at the end."""

    def __init__(self, rng, keep_dir=False):
        self.rng = rng

    def __enter__(self):
        import matplotlib as mpl
        import matplotlib.pyplot as plt
        import pandas as pd

        rng = self.rng
        r = lambda *v: v[int(rng.integers(len(v)))]
        self.root = tempfile.mkdtemp(prefix="mon-C36-")
        self.work, self.tmp = os.path.join(self.root, "work"), os.path.join(self.root, "tmp")
        os.mkdir(self.work)
        os.mkdir(self.tmp)
        self.old = dict(cwd=os.getcwd(), argv=sys.argv, err=np.geterr(), pr=np.get_printoptions(), fmt=warnings.formatwarning, show=warnings.showwarning,
                        tmp=tempfile.tempdir, out=sys.stdout, serr=sys.stderr, rs=random.getstate(), env=os.environ.get("MON_MARK"), level=logging.root.level)
        self.rc = mpl.rc_context()
        self.rc.__enter__()
        self.cw = warnings.catch_warnings()
        self.cw.__enter__()
        self.pd = pd.option_context("display.precision", r(3, 6, 9), "display.max_rows", r(20, 61))
        self.pd.__enter__()
        warnings.resetwarnings()
        for a in [("default", UserWarning), ("ignore", DeprecationWarning), ("always", RuntimeWarning)][: r(1, 2, 3)]:
            warnings.simplefilter(a[0], a[1])
        warnings.filterwarnings("ignore", message="a message of the caller")
        mine = lambda message, category, filename, lineno, line=None: f"caller: {message}\n"
        warnings.formatwarning = mine
        # (shown on the stream that takes the place of sys.stderr)
        np.seterr(divide=r("ignore", "warn"), over=r("ignore", "warn"), under=r("ignore", "warn"), invalid=r("ignore", "warn"))
        np.set_printoptions(precision=r(3, 5, 9), suppress=r(True, False), linewidth=r(60, 90))
        mpl.rcParams["figure.figsize"] = [r(4, 5, 7), r(3, 4)]
        mpl.rcParams["font.size"] = r(8, 9, 12)
        os.chdir(self.work)
        with open("data.txt", "w") as f:
            f.write("1 2 3\n")
        tempfile.tempdir = self.tmp
        sys.argv = ["caller.py", "--flag", str(r(1, 2))]
        os.environ["MON_MARK"] = str(r(1, 2, 3))
        logging.root.setLevel(r(logging.INFO, logging.ERROR))
        random.seed(int(rng.integers(10**6)))
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        plt.close("all")
        for i in range(r(0, 1, 2)):
            f, ax = plt.subplots(1, r(1, 2), num=r(3, 40) + i)
            for q in np.ravel(ax):
                q.plot([0, 1], [1, 0])
                q.set_title("of the caller")
        self.mpl_np = np.random.get_state()
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt

        o = self.old
        plt.close("all")
        sys.stdout, sys.stderr = o["out"], o["serr"]
        random.setstate(o["rs"])
        logging.root.setLevel(o["level"])
        os.environ.pop("MON_MARK", None)
        sys.argv = o["argv"]
        tempfile.tempdir = o["tmp"]
        os.chdir(o["cwd"])
        np.set_printoptions(**{k: v for k, v in o["pr"].items() if k != "override_repr"})
        np.seterr(**o["err"])
        self.pd.__exit__(None, None, None)
        self.cw.__exit__(None, None, None)
        warnings.formatwarning, warnings.showwarning = o["fmt"], o["show"]
        self.rc.__exit__(None, None, None)
        shutil.rmtree(self.root, ignore_errors=True)


ENTRY = ["Matplotlib rcParams", "NumPy error state", "NumPy print options", "pandas options", "Matplotlib backend", "Matplotlib interactive mode",
         "environment", "sys.path", "warning filters", "warnings.formatwarning", "logging", "garbage collection", "recursion limit", "switch interval", "trace function", "umask"]
LOADED = []


def loaded():
    """Imports that calls do lazily, done before the first comparison."""
    if LOADED:
        return
    LOADED.append(1)
    import pkgutil
    import SALib
    import importlib
    import matplotlib.pyplot as plt
    import pandas as pd
    import scipy.stats, scipy.signal, scipy.linalg, multiprocess, multiprocessing.pool  # noqa: F401, E401

    for p in pkgutil.walk_packages(SALib.__path__, "SALib."):
        if not p.ispkg and "__main__" not in p.name and ".scripts" not in p.name:
            importlib.import_module(p.name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pd.DataFrame({"a": [1.0, 2.0], "b": [1.0, 2.0]}).plot(kind="bar", yerr=pd.DataFrame({"a": [1.0, 2.0], "b": [1.0, 2.0]}))
    plt.close("all")


def around(mon, rng, what, f, plots=False, fds=True, same=None, fails=False):
    """f runs once as it is (which also completes lazy imports) and once with the settings changed."""
    import matplotlib.pyplot as plt

    def go():
        np.random.seed(5)
        try:
            return f()
        except Exception as e:
            if fails:
                return e
            mon.fail(f"{what} raised {type(e).__name__}: {str(e)[:200]}")

    plt.close("all")
    with warnings.catch_warnings():
        out = io.StringIO(), io.StringIO()
        keep = sys.stdout, sys.stderr
        fmt = warnings.formatwarning, warnings.showwarning
        sys.stdout, sys.stderr = out
        here = os.getcwd()
        scratch = tempfile.mkdtemp(prefix="mon-C36-")
        try:
            os.chdir(scratch)
            loaded()
            before = snapshot(False)
            first = go()
            after = snapshot(False)
            for k in ENTRY:  # what the random settings below hide
                compare(mon, {k: before[k]}, {k: after[k]}, what, plots)
        finally:
            os.chdir(here)
            shutil.rmtree(scratch, ignore_errors=True)
            sys.stdout, sys.stderr = keep
            warnings.formatwarning, warnings.showwarning = fmt
            plt.close("all")
    with Setting(rng):
        # (the caller's own filters decide which warnings are shown)
        before = snapshot(fds)
        second = go()
        after = snapshot(fds)
        compare(mon, before, after, what, plots)
    if fails:
        mon.ok(isinstance(first, Exception) and isinstance(second, Exception), f"{what} is accepted")
        return
    if same:
        a, b = same(first), same(second)
        mon.eq(sorted(b), sorted(a), f"{what}: entries under other settings of the process")
        for k in a:
            mon.close(b[k], a[k], f"{what}: {k} under other settings of the process", rtol=1e-12, atol=0)
            mon.observe(np.asarray(b[k]))


# ------------------------------------------------------------------ cases
def k_analyze(case, mon, rng):
    s = case["spec"]
    pr, X, Y = EN.data(s, mon)
    f, a, kw = EN.call(s, pr, X, Y)
    kw["print_to_console"] = case["print"]
    around(mon, rng, f"{s['method']}.analyze", lambda: f(G.copy(pr), *a[1:], **kw), same=EN.flat)
    mon.hit("analyze:" + s["method"])
    mon.hit("printed", case["print"])


def k_sample(case, mon, rng):
    m = case["method"]
    k = dict(case["kw"])
    pos = [k.pop("N")] if "N" in k else []
    if m in SM.SEEDED:
        k["seed"] = case["seed"]
    around(mon, rng, f"{m}.sample", lambda: SM.fn(m)(G.copy(case["problem"]), *pos, **k), same=lambda X: {"X": X})
    mon.hit("sample:" + m)


def k_reject(case, mon, rng):
    s = case["spec"]
    m, how = s["method"], case["how"]
    pr, X, Y = EN.data(s, mon)
    f, a, kw = EN.call(s, pr, X, Y)
    if how == "conf" and m in ("sobol", "morris", "fast", "rbd_fast", "delta", "dgsm"):
        kw["conf_level"] = 1.5
    elif how == "columns" and m not in ("sobol", "fast", "ff"):
        X = np.ascontiguousarray(X[:, :-1])
    elif m == "ff":
        Y = Y[:-1]
    else:
        Y = np.append(Y, 1.0)[: len(Y) + (1 if len(Y) % 2 == 0 or m != "fast" else -1)]
        if m == "fast" and len(Y) % pr["num_vars"] == 0:
            return
    around(mon, rng, f"{m}.analyze (rejected)", lambda: f(G.copy(pr), *((Y,) if m in EN.NO_X else (X, Y)), **kw), fails=True)
    mon.observe(m + how)
    mon.hit("reject:" + m)


def k_plot(case, mon, rng):
    s = case["spec"]
    m = s["method"]
    pr, X, Y = EN.data(s, mon)
    f, a, kw = EN.call(s, pr, X, Y)
    R = mon.call(f, *a, **kw)
    if case["how"] == "result":
        around(mon, rng, f"plot of {m} results", lambda: R.plot(), plots=True, fds=False)
    elif case["how"] == "heatmap":
        from SALib import ProblemSpec

        sp = ProblemSpec({k: v for k, v in G.copy(s["problem"]).items() if k != "sample_scaled"})
        sp["outputs"] = ["Y"]
        sp._samples, sp._results, sp._analysis = X, Y, R
        around(mon, rng, f"heat map of {m} results", lambda: sp.heatmap(), plots=True, fds=False)
    else:
        from SALib.plotting import morris as P
        import matplotlib.pyplot as plt

        def draw():
            fig, (a, b, c) = plt.subplots(3, 1)
            P.horizontal_bar_plot(a, R)
            P.covariance_plot(b, R)
            P.sample_histograms(plt.figure(), X, s["problem"])
        around(mon, rng, "Morris plots", draw, plots=True, fds=False)
    mon.observe(m + case["how"], *EN.flat(R).values())
    mon.hit("plot:" + (m if case["how"] == "result" else case["how"]))


def k_spec(case, mon, rng):
    from SALib import ProblemSpec

    s = case["spec"]
    kw = dict(s["skw"])
    if s["sampler"] in SM.SEEDED:
        kw["seed"] = s["xseed"]

    def run():
        sp = ProblemSpec(G.copy(s["problem"]))
        sp.sample(SM.fn(s["sampler"]), **kw)
        sp.evaluate(lambda X: EN.ref_model(X, s["problem"]))
        getattr(sp, "analyze_" + s["method"])(**s["kw"], seed=s["aseed"])
        str(sp), sp.to_df()
        return sp

    around(mon, rng, f"ProblemSpec run of {s['method']}", run, same=lambda sp: {"X": sp.samples, "Y": sp.results, **EN.flat(sp.analysis)})
    mon.hit("spec")


def k_file(case, mon, rng):
    from SALib.util import read_param_file

    d = tempfile.mkdtemp(prefix="mon-C36-")
    try:
        p = os.path.join(d, "p.txt")
        write(p, case["problem"])
        txt = open(p).read()

        def read():
            q = read_param_file(p)
            return {"bounds": np.array(q["bounds"], dtype=float)} if len({len(b) for b in q["bounds"]}) == 1 else {"n": q["num_vars"]}

        around(mon, rng, "read_param_file", read, same=lambda q: q)
        mon.eq(open(p).read(), txt, "parameter file after reading")
        mon.hit("file")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(p, pr):
    with open(p, "w") as f:
        for i, n in enumerate(pr["names"]):
            b = pr["bounds"][i]
            f.write(" ".join([str(n).replace(" ", "_")] + [repr(float(v)) for v in b[:2]]) + "\n")


def k_function(case, mon, rng):
    import importlib

    f = importlib.import_module("SALib.test_functions." + case["f"]).evaluate
    if case["f"] == "lake_problem":
        X = lakes(rng, case["N"])
        g = lambda: np.ravel(np.concatenate([np.ravel(v) for v in np.atleast_1d(f(X.copy(), seed=3))]))
    else:
        D = {"Ishigami": 3, "Sobol_G": 8, "linear_model_1": 5, "linear_model_2": 5, "oakley2004": 15}[case["f"]]
        X = rng.random((case["N"], D))
        args = (rng.normal(size=(3, 15)), rng.normal(size=(15, 15))) if case["f"] == "oakley2004" else ()
        g = lambda: f(X.copy(), *args)
    around(mon, rng, case["f"] + ".evaluate", g, same=lambda y: {"Y": y})
    mon.hit("function")


def k_cli(case, mon, rng):
    from SALib.scripts import salib

    d = tempfile.mkdtemp(prefix="mon-C36-")
    try:
        p, o = os.path.join(d, "p.txt"), os.path.join(d, "o.txt")
        write(p, case["problem"])
        argv = ["salib", "sample", case["method"], "-p", p, "-o", o]
        if case["method"] != "saltelli":
            argv += ["-s", str(case["seed"] % 1000)]
        if case["method"] == "morris":
            argv += ["-lo", "True"]
        argv += ["-n", {"fast_sampler": "70", "saltelli": "8"}.get(case["method"], "6")]

        def run():
            keep, sys.argv = sys.argv, argv
            try:
                salib.main()
            finally:
                sys.argv = keep
            return np.loadtxt(o, ndmin=2)

        around(mon, rng, "salib " + " ".join(argv[1:3]), run, same=lambda X: {"X": X})
        mon.hit("cli")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def children():
    import multiprocessing
    import multiprocess

    return len(multiprocessing.active_children()) + len(multiprocess.active_children())


def k_parallel(case, mon, rng):
    from SALib import ProblemSpec

    s = case["spec"]
    pr, X, Y = EN.data(s, mon)
    f, a, kw = EN.call(s, pr, X, Y)
    if s["method"] == "sobol" and case["way"] == "sobol":
        g = lambda: EN.flat(f(G.copy(pr), Y, **kw, parallel=True, n_processors=2))
    else:
        def g():
            sp = ProblemSpec({**G.copy(s["problem"]), "outputs": ["a", "b"]})
            sp.set_samples(X)
            two = lambda X: np.stack([EN.ref_model(X, s["problem"])] * 2, axis=1)
            if case["way"] == "evaluate":
                sp.evaluate_parallel(two, nprocs=2)
            else:
                sp.evaluate(two)
            k = dict(s["kw"], seed=s["aseed"])
            sp.analyze(f, nprocs=2, **k) if case["way"] == "analyze" else sp.analyze(f, **k)
            return {"Y": sp.results, **EN.flat(sp.analysis["a"])}
    n = children()
    around(mon, rng, f"parallel run ({case['way']}, {s['method']})", g, fds=False, same=lambda v: v)
    for _ in range(50):
        if children() <= n:
            break
        threading.Event().wait(0.1)
    mon.ok(children() <= n, f"parallel run ({case['way']}): {children() - n} processes left running")
    mon.hit("parallel")


IMPORT = """
import importlib, pkgutil, sys, os, json, warnings
import numpy as np, pandas, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import scipy.stats, scipy.stats.qmc, scipy.signal, scipy.linalg, scipy.special, scipy.spatial, scipy.optimize, scipy.interpolate, multiprocess, multiprocessing, argparse, csv
from mon import c36
import random
names = json.loads(sys.argv[1])
np.random.seed(7); random.seed(7)
skip = ("files in the temporary directory", "files in the working directory", "trace function")
a = c36.snapshot(False); g = np.random.get_state()[1].tolist()
for n in names:
    importlib.import_module(n)
b = c36.snapshot(False)
bad = [k for k in a if k not in skip and a[k] != b[k]]
if np.random.get_state()[1].tolist() != g:
    bad.append("NumPy random state")
print("CHANGED", json.dumps(bad))
"""


def k_import(case, mon, rng):
    import json
    import pkgutil
    import subprocess
    import SALib

    names = [p.name for p in pkgutil.walk_packages(SALib.__path__, "SALib.") if not p.ispkg and "__main__" not in p.name]
    names = [names[i] for i in rng.permutation(len(names))]
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(v for v in sys.path if v), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", IMPORT, json.dumps(names)], env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       capture_output=True, text=True, timeout=100)
    got = [v for v in p.stdout.splitlines() if v.startswith("CHANGED")]
    mon.ok(p.returncode == 0 and got, lambda: f"importing the modules of SALib failed: {p.stderr[-300:]}")
    mon.eq(json.loads(got[0][8:]), [], f"process state changed by importing {names[0]}, {names[1]}, ...")
    mon.observe(*names)
    mon.hit("import")


def run(case, mon):
    globals()["k_" + case["kind"]](case, mon, np.random.default_rng(case["seed"]))
