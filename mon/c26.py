"""C26: the command line interface."""
import contextlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from . import gen as G
from . import samplers as SM
from . import entry as EN

RULE = ("Random command lines (every sampling and analysis method, every option given at random or left out, seeds incl. 0, delimiters, "
        "precisions, output columns, one parameter upwards, groups and distributions in the parameter file) are run through the real "
        "entry point, in process or as a fresh `python -m` process; the written matrix or printed report is compared with the API "
        "called with the arguments the documentation of the options implies. Method lists, help and rejections are judged too.")
REQUIRED = (["sample:" + m for m in SM.ALL] + ["analyze:" + m for m in EN.ALL] +
            ["subprocess", "listing", "usage_error", "seed0", "delimiter", "precision", "column", "D=1", "groups", "dists", "defaults",
             "bool_false", "numbers_printed", "parallel"])
CASE_LIMIT = 120
SEEDLESS = {"saltelli"}


def gen(rng, tier):
    r = lambda *v: v[int(rng.integers(len(v)))]
    n = 100 if tier == "quick" else 1500
    yield {"kind": "listing", "seed": 1}
    for m in SM.ALL:
        for i in range(n):
            D = r(1, 2, 3, 4, 6)
            if m == "morris":
                D = max(D, 2)
            pr = G.problem(rng, D, group=rng.random() < 0.3 and m in ("saltelli", "sobol", "latin", "morris"),
                           dists=(True if rng.random() < 0.3 and m not in ("morris",) else None), plain=True)
            o, kw = [], {}

            def opt(flag, key, val, default, p=0.7, conv=str):
                if rng.random() < p:
                    o.extend([flag if isinstance(flag, str) else r(*flag), conv(val)])
                    kw[key] = val
                else:
                    kw[key] = default

            N = r(2, 4, 8, 16)
            if m in ("saltelli", "sobol"):
                mo = r(1, 2)
                opt("--max-order", "calc_second_order", mo == 2, True, conv=lambda v: str(mo))
                if m == "sobol":
                    opt("--scramble", "scramble", bool(rng.integers(2)), True, conv=lambda v: str(int(v)))
                    opt("--skip-values", "skip_values", r(0, 4, 16), 0, p=0.4)
                else:
                    opt("--skip-values", "skip_values", r(16, 32, 64), None, p=0.5)
            elif m == "fast_sampler":
                M = r(1, 2, 3, 5)
                N = 4 * 25 + r(1, 5, 20)
                opt(("-M", "--m-coef"), "M", M, 4)
            elif m == "finite_diff":
                opt(("-d", "--delta"), "delta", r(0.1, 0.001, 0.02, 1e-5), 0.01)
            elif m == "morris":
                opt(("-l", "--levels"), "num_levels", r(2, 6, 8, 4), 4)
                N = r(4, 6)
                if rng.random() < 0.5:
                    opt(("-k", "--k-optimal"), "optimal_trajectories", r(2, 3), None, p=1)
                loc = r("True", "False")
                o += [r("-lo", "--local"), loc]
                kw["local_optimization"] = loc == "True"
            yield {"kind": "sample", "method": m, "problem": pr, "N": N, "opts": o, "kw": kw,
                   "s": r(0, 1, 77, int(rng.integers(2**31))), "delim": r(None, None, ",", ";", "\t", " "),
                   "prec": r(None, None, 3, 12, 17), "sub": i == 0, "long": bool(rng.integers(2)), "seed": G.seed(rng)}
    for m in EN.ALL:
        for i in range(n if m not in ("hdmr", "enhanced_hdmr") else max(6, n // 4)):
            D = r(1, 2, 3, 4) if m in ("rbd_fast", "pawn", "rsa", "discrepancy", "delta", "dgsm", "fast") else r(2, 3, 4)
            s = EN.setup(rng, m, D=D, group=rng.random() < 0.3 and D > 2 and m in ("sobol", "morris", "pawn", "rsa", "discrepancy"),
                         names=[f"p{j}" for j in range(D)])
            o, kw = [], {}

            def opt(flag, key, val, default, p=0.7, conv=str):
                if rng.random() < p:
                    o.extend([flag if isinstance(flag, str) else r(*flag), conv(val)])
                    kw[key] = val
                else:
                    kw[key] = default

            if m == "sobol":
                so = s["kw"]["calc_second_order"]
                opt("--max-order", "calc_second_order", so, True, conv=lambda v: "2" if v else "1", p=0.5 if so else 1)
                opt(("-r", "--resamples"), "num_resamples", r(10, 30), 100)
                if i % 10 == 3:
                    o += ["--parallel", "--processors", "2"]
                    kw["_parallel"] = True
            elif m == "morris":
                lv = s["skw"]["num_levels"]
                opt(("-l", "--levels"), "num_levels", lv, 4, p=1 if lv != 4 else 0.5)
                opt(("-r", "--resamples"), "num_resamples", r(10, 30), 1000)
                opt("--scaled", "scaled", r(True, False), False)
            elif m in ("fast", "rbd_fast"):
                opt(("-M", "--M"), "M", s["kw"]["M"], 4 if m == "fast" else 10, p=1 if m == "fast" else 0.6)
                opt(("-r", "--resamples"), "num_resamples", r(5, 30), 100)
            elif m == "ff":
                opt("--max-order", "second_order", r(True, False), True, conv=lambda v: "2" if v else "1")
            elif m == "dgsm":
                opt(("-r", "--resamples"), "num_resamples", r(5, 30), 1000)
            elif m == "delta":
                opt(("-r", "--resamples"), "num_resamples", r(3, 5), 10)
                opt(("-m", "--method"), "method", r("all", "delta", "sobol"), "all")
                opt("--y_resamples", "y_resamples", r(30, 40), None, p=0.3)
                opt("--bins_specs", "bins_specs", {"p0": r(4, 6)}, {}, p=0.3, conv=json.dumps)
            elif m == "pawn":
                opt(("-S", "--slices"), "S", r(3, 5, 8), 10)
            elif m == "rsa":
                opt(("-b", "--bins"), "bins", r(3, 5, 8), 20)
                opt(("-t", "--target"), "target", r("X", "Y"), "Y")
            elif m == "hdmr":
                opt(("-mor", "--maxorder"), "maxorder", r(1, 2), 2)
                opt(("-mit", "--maxiter"), "maxiter", r(10, 100), 100)
                opt(("-m", "--m-int"), "m", r(2, 3), 2)
                opt(("-K", "--K-bootstrap"), "K", r(1, 2), 20, p=0.9)
                opt(("-R", "--R-subsample"), "R", 300, None, p=0.5)
                opt(("-a", "--alpha"), "alpha", r(0.9, 0.99), 0.95)
                opt(("-lambda", "--lambdax"), "lambdax", r(0.1, 0.001), 0.01)
            elif m == "enhanced_hdmr":
                opt(("-mor", "--max-order"), "max_order", r(1, 2), 2, p=1)
                opt(("-por", "--poly-order"), "poly_order", r(2, 3), 2, p=1)
                opt(("-ext", "--extended-base"), "extended_base", r(True, False), True, p=1)
                opt(("-print", "--print-to-console"), "print_to_console", r(True, True, False), False, p=1)
                opt(("-K", "--bootstrap"), "bootstrap", r(1, 2, 4), 20, p=0.9)
                opt(("-R", "--subset"), "subset", 300, None, p=0.5)
                opt(("-mit", "--max-iter"), "max_iter", r(150, 300), 100)
                opt(("-l2", "--l2-penalty"), "l2_penalty", r(0.1, 0.001), 0.01)
                opt(("-a", "--alpha"), "alpha", r(0.9, 0.99), 0.95)
            yield {"kind": "analyze", "method": m, "spec": s, "opts": o, "kw": kw, "s": r(0, 3, int(rng.integers(2**31))),
                   "delim": r(None, None, ",", ";", "\t"), "col": r(None, 0, 1, 2), "sub": i == 0, "long": bool(rng.integers(2)),
                   "seed": G.seed(rng)}
    for _ in range(n):
        yield {"kind": "usage", "what": r("method", "missing", "value", "action"), "seed": G.seed(rng)}


# ------------------------------------------------------------------ running
def cli(mon, argv, sub):
    """-> (exit code, stdout)"""
    if sub:
        from .core import REPO
        mon.hit("subprocess")
        env = dict(os.environ, PYTHONPATH=os.path.join(REPO, "src"))
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "SALib.scripts.salib"] + argv, env=env, capture_output=True, text=True)
        return p.returncode, p.stdout, p.stderr[-300:]
    from SALib.scripts import salib
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["salib"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            salib.main()
        rc = 0
    except SystemExit as e:
        rc = e.code or 0
    except Exception as e:
        rc = 1
        err.write(f"{type(e).__name__}: {e}")
    finally:
        sys.argv = old
    return rc, out.getvalue(), err.getvalue()[-300:]


def param_file(d, pr):
    p = os.path.join(d, "params.txt")
    with open(p, "w") as f:
        for i in range(pr["num_vars"]):
            b = pr["bounds"][i]
            row = [pr["names"][i]] + [repr(float(v)) for v in b[:2]]
            if pr.get("groups") or pr.get("dists"):
                row.append(pr["groups"][i] if pr.get("groups") else "NA")
            if pr.get("dists"):
                row.append(pr["dists"][i])
            f.write(",".join(row) + "\n")
    return p


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


def run(case, mon):
    d = tempfile.mkdtemp(prefix="c26-")
    try:
        globals()["k_" + case["kind"]](case, mon, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def k_sample(case, mon, d):
    m, pr = case["method"], G.copy(case["problem"])
    if pr.get("dists"):  # two-value bounds only in a file
        for i, k in enumerate(pr["dists"]):
            if k == "truncnorm" or len(pr["bounds"][i]) != 2:
                pr["dists"][i], pr["bounds"][i] = "unif", [0.5, 2.5]
        if set(pr["dists"]) == {"unif"}:
            del pr["dists"]
    out = os.path.join(d, "out.txt")
    L = case["long"]
    argv = ["sample", m, "--samples" if L else "-n", str(case["N"]), "--paramfile" if L else "-p", param_file(d, pr),
            "--output" if L else "-o", out] + case["opts"]
    if m not in SEEDLESS:
        argv += ["--seed" if L else "-s", str(case["s"])]
        mon.hit("seed0", case["s"] == 0)
    delim, prec = case["delim"] or " ", 8 if case["prec"] is None else case["prec"]
    if case["delim"]:
        argv += ["--delimiter", delim]
        mon.hit("delimiter")
    if case["prec"] is not None:
        argv += ["--precision", str(prec)]
        mon.hit("precision")
    kw = {k: v for k, v in case["kw"].items()}
    if m == "saltelli" and kw.get("skip_values") is None:
        kw.pop("skip_values")
    if m not in SEEDLESS:
        kw["seed"] = case["s"]
    if pr.get("groups") and pr["groups"] == pr["names"]:
        del pr["groups"]
    for k in ("groups", "dists"):
        mon.hit(k, pr.get(k) is not None)
    mon.hit("D=1", pr["num_vars"] == 1)
    mon.hit("defaults", len(case["opts"]) == 0)
    mon.hit("bool_false", kw.get("local_optimization") is False)
    q = G.copy(pr)
    q.setdefault("groups", None), q.setdefault("dists", None)
    if q["dists"] is None:
        del q["dists"]
    pos = [] if m == "ff" else [case["N"]]
    want = np.asarray(mon.call(SM.fn(m), q, *pos, **kw), dtype=float)
    rc, _, err = cli(mon, argv, case["sub"])
    mon.ok(rc == 0, f"`salib {' '.join(argv[:2] + case['opts'])}` failed ({rc}): {err}")
    with open(out) as f:
        lines = f.read().splitlines()
    mon.eq(len(lines), len(want), "rows written")
    got = [ln.split(delim) for ln in lines]
    mon.ok(all(len(g) == want.shape[1] for g in got), f"every row must have {want.shape[1]} fields separated by {delim!r}")
    mon.same(np.array([[float(v) for v in g] for g in got]), np.array([[float(f"%.{prec}e" % v) for v in row] for row in want]),
             f"samples written by `salib sample {m} {' '.join(case['opts'])}`")
    z = [v for g in got for v in g if "e" in v][:1]
    if z:
        mon.ok(len(re.sub(r"^[-+]?\d\.?(\d*)e.*$", r"\1", z[0])) == prec, f"precision {prec} not honoured: {z[0]}")
    mon.observe(want)
    mon.hit("sample:" + m)


def k_analyze(case, mon, d):
    m, s = case["method"], case["spec"]
    kw = dict(case["kw"])
    pr, X, Y = EN.data(s, mon)
    pfile = param_file(d, pr if m == "ff" else s["problem"])
    delim = case["delim"] or " "
    col = case["col"] or 0
    cols = np.column_stack([Y if j == col else Y + np.random.default_rng(case["seed"] + j).normal(size=len(Y)) for j in range(col + (1 if case["delim"] else 2))])
    xf, yf = os.path.join(d, "x.txt"), os.path.join(d, "y.txt")
    np.savetxt(xf, X, delimiter=delim, fmt="%.17g")
    np.savetxt(yf, cols, delimiter=delim, fmt="%.17g")
    L = case["long"]
    argv = ["analyze", m, "--paramfile" if L else "-p", pfile, "--model-output-file" if L else "-Y", yf] + case["opts"]
    if m not in EN.NO_X:
        argv += ["--model-input-file" if L else "-X", xf]
    if case["col"] is not None:
        from_end = case["seed"] % 4 == 0
        argv += ["--column" if L else "-c", str(col - cols.shape[1] if from_end else col)]
        mon.hit("column_from_end", from_end)
        mon.hit("column", col > 0)
    if case["delim"]:
        argv += ["--delimiter", delim]
        mon.hit("delimiter")
    argv += ["--seed" if L else "-s", str(case["s"])]
    mon.hit("seed0", case["s"] == 0)
    mon.hit("D=1", s["problem"]["num_vars"] == 1)
    mon.hit("defaults", len(case["opts"]) == 0)
    mon.hit("groups", bool(s["problem"].get("groups")))
    mon.hit("bool_false", kw.get("scaled") is False and "--scaled" in case["opts"])
    if kw.pop("_parallel", None):
        kw.update(parallel=True, n_processors=2)
        mon.hit("parallel")
    kw.setdefault("print_to_console", True)
    kw["seed"] = case["s"]
    if m == "delta":
        kw["bins_specs"] = dict(kw["bins_specs"])
    q = G.copy(pr)
    if q.get("groups") == q["names"]:
        q["groups"] = None
    a = (q, Y) if m in EN.NO_X else (q, X, Y)
    buf = io.StringIO()

    def api():
        with contextlib.redirect_stdout(buf):
            return EN.fn(m)(*a, **kw)

    S = mon.call(api)
    rc, out, err = cli(mon, argv, case["sub"])
    mon.ok(rc == 0, f"`salib {' '.join(argv[:2] + case['opts'])}` failed ({rc}): {err}")
    t, w = norm(out), norm(buf.getvalue())
    if t != w:
        i = next((k for k in range(min(len(t), len(w))) if t[k] != w[k]), min(len(t), len(w)))
        mon.fail(f"`salib analyze {m} {' '.join(case['opts'])}` (D={s['problem']['num_vars']}) does not print what the API prints: "
                 f"...{t[max(0, i - 40):i + 60]!r} instead of ...{w[max(0, i - 40):i + 60]!r}")
    if kw["print_to_console"]:
        key = {"sobol": "ST", "morris": "mu_star", "fast": "ST", "rbd_fast": "S1", "delta": "delta_raw" if kw.get("method") != "sobol" else "S1",
               "dgsm": "dgsm", "ff": "ME", "pawn": "median", "discrepancy": "s_discrepancy"}.get(m)
        if key:
            v = np.asarray(S[key], float)
            nums = np.array([float(z) for z in re.findall(r"[-+]?\d+\.\d*(?:[eE][-+]?\d+)?", out)] + [0.0])
            for z in v[np.isfinite(v)]:
                e = np.min(np.abs(nums - z))
                mon.ok(e <= 1e-5 * max(1e-3, abs(z)) + 1e-6, f"{m}: {key} value {z!r} is not in the printed report {norm(out)[:200]!r}")
            mon.hit("numbers_printed")
    mon.observe(t)
    mon.checks += 1
    mon.hit("analyze:" + m)


def k_listing(case, mon, d):
    import importlib
    import pkgutil
    for action, known in (("sample", SM.ALL), ("analyze", EN.ALL)):
        pk = importlib.import_module("SALib." + action)
        offered = set()
        for x in pkgutil.iter_modules(pk.__path__):
            mod = importlib.import_module(f"SALib.{action}.{x.name}")
            if hasattr(mod, "cli_action") and hasattr(mod, action):
                offered.add(x.name)
        mon.ok(set(known) <= offered, f"methods without a command: {set(known) - offered}")
        rc, out, err = cli(mon, [action, "--help"], False)
        mon.eq(rc, 0, "exit code of help")
        listed = set(re.search(r"\{([^}]*)\}", norm(out)).group(1).replace(" ", "").split(","))
        mon.eq(listed, offered, f"methods listed by `salib {action}`")
        for m in sorted(offered):
            rc, out, err = cli(mon, [action, m], False)
            mon.ok(rc == 0 and "usage" in out and "--paramfile" in out, f"`salib {action} {m}` without options must print its help")
            mon.observe(action + m)
    rc, out, err = cli(mon, [], False)
    mon.ok(rc == 0 and "usage" in out.lower(), "`salib` must print its usage")
    mon.hit("listing")


def k_usage(case, mon, d):
    rng = np.random.default_rng(case["seed"])
    m = str(rng.choice(SM.ALL))
    pr = G.problem(rng, 3, plain=True)
    out = os.path.join(d, "o.txt")
    argv = ["sample", m, "-n", "8", "-p", param_file(d, pr), "-o", out] + (["-lo", "False"] if m == "morris" else [])
    w = case["what"]
    if w == "method":
        argv[1] = "none"
    elif w == "missing":
        i = argv.index(str(rng.choice(["-n", "-p", "-o"])))
        del argv[i:i + 2]
    elif w == "value":
        argv[argv.index("-n") + 1] = "many"
    else:
        argv[0] = "plot"
    rc, o, err = cli(mon, argv, False)
    mon.ok(rc == 2, f"malformed command ({w}) must be refused as a usage error, exit code {rc}: {err}")
    mon.ok(not os.path.exists(out), "a refused command must write nothing")
    mon.observe((w, m))
    mon.hit("usage_error")
