"""C27: samples, outputs and problem definitions that do not fit together are rejected."""
import numpy as np
from . import gen as G
from . import entry as EN
from . import samplers as S

RULE = ("Every analyzer and sampler is first driven with a consistent random set (which must be accepted, with the expected number of "
        "entries) and then with sets made inconsistent in one respect: outputs or inputs with rows missing, added or repeated (whole "
        "trajectories or blocks too), outputs in two columns, missing input columns, and problem definitions whose bounds, distributions or groups have "
        "another length than the parameters; each of these calls has to raise instead of returning numbers.")
REQUIRED = ([f"rows:{m}" for m in EN.ALL if m not in ("sobol", "fast", "ff")] + [f"size:{m}" for m in ("sobol", "fast", "dgsm", "morris", "ff")] +
            [f"columns:{m}" for m in EN.GIVEN | {"morris", "dgsm"}] + [f"problem:{s}" for s in S.ALL] +
            [f"groups:{s}" for s in ("saltelli", "sobol", "latin", "morris")] + [f"groups:an:{m}" for m in ("pawn", "rsa", "discrepancy", "morris")] +
            [f"outputs2d:{m}" for m in EN.ALL] + ["missing:whole_blocks", "added", "missing", "doubled"])
CASE_LIMIT = 120


def gen(rng, tier):
    q = tier == "quick"
    for m in EN.ALL:
        n = {"hdmr": 60, "enhanced_hdmr": 60, "delta": 80}.get(m, 200) if q else {"hdmr": 150, "enhanced_hdmr": 150, "delta": 200}.get(m, 800)
        for i in range(n):
            s = EN.setup(rng, m, group=i % 3 == 2)
            yield {"kind": "analysis", "spec": s, "seed": G.seed(rng)}
    for s in S.ALL:
        for i in range(120 if q else 500):
            D = int(rng.choice([2, 3, 4, 5, 8]))
            pr = G.problem(rng, D, dists=True if rng.random() < 0.5 else None, group=s in ("saltelli", "sobol", "latin", "morris") and i % 2 == 0)
            yield {"kind": "sampler", "sampler": s, "problem": pr, "kw": S.args(rng, s, D), "seed": G.seed(rng)}
    for m in ("pawn", "rsa", "discrepancy", "morris"):
        for i in range(40 if q else 150):
            s = EN.setup(rng, m, group=True, D=int(rng.integers(3, 6)))
            yield {"kind": "groups", "spec": s, "seed": G.seed(rng)}


def entries(s, R, pr):
    """Number of entries of the main measure of a result."""
    m = s["method"]
    key = {"sobol": "S1", "morris": "mu", "fast": "S1", "rbd_fast": "S1", "dgsm": "dgsm", "ff": "ME", "pawn": "median",
           "discrepancy": "s_discrepancy"}.get(m)
    return None if key is None else len(R[key])


def resized(A, how, unit, rng):
    n = len(A)
    k = int(rng.integers(1, 4))
    if how == "missing":
        return A[:n - k]
    if how == "missing:whole_blocks":
        return A[:n - unit * min(k, n // unit - 1)] if n // unit > 1 else None
    if how == "added":
        return np.concatenate([A, A[:k]])
    if how == "added:whole_blocks":
        return np.concatenate([A, A[:unit]])
    return np.concatenate([A, A])


HOWS = ["missing", "missing:whole_blocks", "added", "added:whole_blocks", "doubled"]


def analysis(case, mon):
    s = case["spec"]
    m = s["method"]
    rng = np.random.default_rng(case["seed"])
    pr, X, Y = EN.data(s, mon)
    D, N = pr["num_vars"], len(Y)
    f, a, kw = EN.call(s, pr, X, Y)
    R = mon.call(f, *a, **kw)  # consistent: accepted
    mon.observe(Y)
    grp = s["problem"].get("groups")
    if entries(s, R, pr) is not None:
        g = len(dict.fromkeys(grp)) if grp and m in ("sobol", "morris", "pawn", "discrepancy") else D
        mon.eq(entries(s, R, pr), g, f"{m}: number of entries")
    unit = {"morris": (len(dict.fromkeys(grp)) if grp else D) + 1, "dgsm": D + 1}.get(m, 1)
    if m == "sobol":
        g = len(dict.fromkeys(grp)) if grp else D
        unit = 2 * g + 2 if s["kw"]["calc_second_order"] else g + 2
    elif m == "fast":
        unit = D

    def bad(what, x, y):
        mon.raises(Exception, f, G.copy(pr), *((y,) if m in EN.NO_X else (x, y)), **kw, _what=f"{m}.analyze with {what} (N={N}, D={D})")

    for how in HOWS:  # one of X and Y has another number of rows
        if m in ("sobol", "fast"):
            break
        Y2, X2 = resized(Y, how, unit, rng), resized(X, how, unit, rng)
        if Y2 is None:
            continue
        bad(f"{len(Y2)} outputs for {N} rows", X, Y2)
        if m != "ff":
            bad(f"{len(X2)} rows for {N} outputs", X2, Y)
            mon.hit("rows:" + m)
        else:
            mon.hit("size:ff")
        mon.hit(how)
    if unit > 1:  # consistent with each other, but not with the design
        for k in {1, unit - 1, int(rng.integers(1, unit))}:
            for n in {N - k, N + k}:
                if n % unit and n > 0:
                    bad(f"{n} rows where the design has blocks of {unit}", np.resize(X, (n, X.shape[1])), np.resize(Y, n))
                    mon.hit("size:" + m)
    # outputs in a column, and several columns of outputs
    try:
        r = f(G.copy(pr), *((Y[:, None],) if m in EN.NO_X else (X, Y[:, None])), **kw)
    except Exception:
        mon.hit("column:rejected")
    else:
        want = EN.flat(R)
        for k, v in EN.flat(r).items():
            mon.close(np.ravel(v), np.ravel(want[k]), f"{m}.analyze with the outputs as one column: {k}", rtol=1e-7, atol=1e-9)
        mon.hit("column:accepted")
    Z = rng.normal(size=N) if case["seed"] % 2 else Y
    bad("two columns of outputs", X, np.stack([Y, Z], axis=1))
    if N % 2 == 0 and m not in ("morris", "discrepancy", "enhanced_hdmr"):
        bad("the outputs in two columns of half the length", X, Y.reshape(-1, 2))
    mon.hit("outputs2d:" + m)
    if m in EN.GIVEN or m in ("morris", "dgsm"):
        for k in {1, int(rng.integers(1, D))}:
            if D - k >= 1:
                bad(f"{D - k} input columns", np.ascontiguousarray(X[:, :D - k]), Y)
                mon.hit("columns:" + m)


def sampler(case, mon):
    s, pr = case["sampler"], case["problem"]
    rng = np.random.default_rng(case["seed"])
    D = pr["num_vars"]
    X = np.asarray(S.draw(mon, s, G.copy(pr), case["kw"], case["seed"]))
    mon.ok(s == "ff" or X.shape[1] == D, f"{s}: {X.shape[1]} columns for {D} parameters")
    mon.observe(X)
    k = dict(case["kw"])
    pos = [k.pop("N")] if "N" in k else []
    if s in S.SEEDED:
        k["seed"] = case["seed"]
    for field in ("bounds", "dists", "groups"):
        if field == "groups" and s not in ("saltelli", "sobol", "latin", "morris") or not pr.get(field):
            continue
        for step in (-1, 1, 2):
            q = G.copy(pr)
            v = list(q[field])
            if step < 0:
                i = int(rng.integers(len(v)))
                v = v[:i] + v[i + 1:]
                if len(v) < 2 and field == "bounds" and not pr.get("dists") or field == "groups" and len(set(v)) < 2:
                    continue
            else:
                v = v + [v[int(rng.integers(len(v)))] for _ in range(step)]
            q[field] = v
            mon.raises(Exception, S.fn(s), q, *pos, **k, _what=f"{s}.sample with {len(v)} {field} for {D} parameters")
            mon.hit(("groups:" if field == "groups" else "problem:") + s)


def groups(case, mon):
    s = case["spec"]
    m = s["method"]
    pr, X, Y = EN.data(s, mon)
    f, a, kw = EN.call(s, pr, X, Y)
    mon.observe(*[v for v in EN.flat(mon.call(f, *a, **kw)).values()])
    for step in (-1, 1):
        q = G.copy(pr)
        q["groups"] = q["groups"][:-1] if step < 0 else q["groups"] + q["groups"][:1]
        if len(set(q["groups"])) < 2:
            continue
        mon.raises(Exception, f, q, X, Y, **kw, _what=f"{m}.analyze with {len(q['groups'])} groups for {pr['num_vars']} parameters")
        mon.hit("groups:an:" + m)


def run(case, mon):
    {"analysis": analysis, "sampler": sampler, "groups": groups}[case["kind"]](case, mon)
