"""Case generators shared by the checks (everything JSON-able)."""
import numpy as np

NAME_POOL = ["zeta", "x10", "x2", "Alpha", "beta", "_k", "A B", "x1", "gamma", "T", "q9", "é", "m.n", "theta",
             "x_1", "Z", "0", "17", "long_parameter_name_with_many_chars", "rho", "x11", "nu", "Mu", "mu"]


LONG = ["catchment_upper_soil_layer_conductivity_", "model.block[0].layer.weight.parameter_", "parameter number "]


def wide(rng, D, p=0.02):
    """Now and then many parameters."""
    return int(rng.choice([13, 16, 17, 24, 33, 50, 70, 101])) if rng.random() < p else D


def names(rng, D, plain=False):
    if not plain and rng.random() < 0.1:  # alike in everything but the last characters
        head = str(rng.choice(LONG))
        return [head + str(int(i)) for i in rng.permutation(D)]
    if plain or D > len(NAME_POOL) or rng.random() < 0.3:
        idx = list(range(D))
        if rng.random() < 0.5:
            rng.shuffle(idx)
        return [f"x{i}" for i in idx]
    return [str(s) for s in rng.permutation(NAME_POOL)[:D]]


def ubounds(rng, D, style=None):
    """Uniform bounds of any sign and magnitude."""
    out = []
    for _ in range(D):
        s = style or rng.choice(["unit", "pi", "pos", "neg", "mix", "tiny", "huge", "offset", "int"])
        if s == "unit":
            b = [0.0, 1.0]
        elif s == "pi":
            b = [-np.pi, np.pi]
        elif s == "pos":
            a = rng.uniform(0.1, 10)
            b = [a, a + rng.uniform(0.1, 20)]
        elif s == "neg":
            a = -rng.uniform(0.1, 10)
            b = [a - rng.uniform(0.1, 20), a]
        elif s == "mix":
            b = [-rng.uniform(0.1, 5), rng.uniform(0.1, 5)]
        elif s == "tiny":
            b = [0.0, 10.0 ** -rng.integers(3, 9)]
        elif s == "huge":
            b = [0.0, 10.0 ** rng.integers(3, 9)]
        elif s == "offset":
            a = rng.uniform(50, 1000)
            b = [a, a + rng.uniform(0.5, 3)]
        else:
            a = int(rng.integers(-5, 5))
            b = [a, a + int(rng.integers(1, 9))]
        out.append([v if isinstance(v, int) else float(v) for v in b])
    return out


def groups(rng, D, ng=None):
    """Non-contiguous random grouping, at least two groups (D >= 2)."""
    if D < 2:
        return None
    if ng is None:
        ng = int(rng.integers(2, D + 1)) if rng.random() < 0.5 else int(rng.integers(2, min(D, 4) + 1))
    labels = [str(s) for s in rng.permutation(["g2", "g10", "B", "a", "grp", "Z1", "g1", "hh"] +
                                              [f"G{i}" for i in range(D)])[:ng]]
    if rng.random() < 0.12:
        head = str(rng.choice(LONG))
        labels = [head + str(int(i)) for i in rng.permutation(ng)]
    memb = list(range(ng)) + [int(v) for v in rng.integers(0, ng, D - ng)]
    rng.shuffle(memb)
    return [labels[i] for i in memb]


DISTS = ["unif", "logunif", "triang", "triang2", "norm", "truncnorm", "lognorm", "weibull2", "weibull3"]


def dist_entry(rng, kind):
    """-> (dist name, bounds entry)"""
    u = rng.uniform
    if kind == "unif":
        return "unif", ubounds(rng, 1)[0]
    if kind == "logunif":
        a = 10 ** u(-4, 2)
        return "logunif", [a, a * 10 ** u(0.1, 4)]
    if kind == "triang":
        a = u(-5, 5) if rng.random() < 0.5 else u(0, 5)
        b = max(a, 0) + u(0.1, 10)
        return "triang", [a, b, float(rng.choice([0.0, u(0, 0.999), 0.5]))]
    if kind == "triang2":
        return "triang", [u(0.1, 10), float(rng.choice([0.0, u(0, 0.999), 0.5]))]
    if kind == "norm":
        return "norm", [u(-10, 10), 10 ** u(-2, 2)]
    if kind == "truncnorm":
        m, s = u(-10, 10), 10 ** u(-1, 1)
        a = m + s * u(-3, 0.5)
        return "truncnorm", [a, a + s * u(0.2, 4), m, s]
    if kind == "lognorm":
        return "lognorm", [u(-2, 2), 10 ** u(-1, 0.3)]
    if kind == "weibull2":
        return "weibull", [u(0.3, 5), 10 ** u(-1, 1)]
    if kind == "weibull3":
        return "weibull", [u(0.3, 5), 10 ** u(-1, 1), u(-5, 5)]
    raise ValueError(kind)


def problem(rng, D, group=False, dists=None, style=None, plain=False):
    pr = {"num_vars": D, "names": names(rng, D, plain), "bounds": ubounds(rng, D, style)}
    if dists:
        kinds = [str(rng.choice(DISTS if dists is True else dists)) for _ in range(D)]
        ent = [dist_entry(rng, k) for k in kinds]
        pr["dists"] = [e[0] for e in ent]
        pr["bounds"] = [[float(v) if not isinstance(v, int) else v for v in e[1]] for e in ent]
    if group:
        g = groups(rng, D)
        if g:
            pr["groups"] = g
    return pr


def ugroups(pr):
    """Unique groups in order of first appearance, or the names."""
    g = pr.get("groups") or pr["names"]
    out = []
    for x in g:
        if x not in out:
            out.append(x)
    return out


def members(pr):
    """List of index arrays, one per group (or parameter)."""
    g = pr.get("groups") or pr["names"]
    return [np.array([i for i, x in enumerate(g) if x == u]) for u in ugroups(pr)]


def seed(rng):
    return int(rng.integers(1, 2**31 - 1))


# ------------------------------------------------ reference quantile functions
def ref_quantile(u, dist, b):
    """Quantile maps written from textbook formulas (not via SALib)."""
    from scipy import special as sp

    u = np.asarray(u, dtype=float)
    if dist == "unif":
        return b[0] + u * (b[1] - b[0])
    if dist == "logunif":
        return np.exp(np.log(b[0]) + u * (np.log(b[1]) - np.log(b[0])))
    if dist == "triang":
        lo, hi, c = (b[0], b[1], b[2]) if len(b) == 3 else (0.0, b[0], b[1])
        w = hi - lo
        return np.where(u < c, lo + w * np.sqrt(c * u), hi - w * np.sqrt((1 - c) * (1 - u)))
    if dist == "norm":
        return b[0] + b[1] * sp.ndtri(u)
    if dist == "truncnorm":
        lo, hi, m, s = b
        a, z = (lo - m) / s, (hi - m) / s
        if a > 0:  # use the symmetric tail for accuracy
            fa, fz = sp.ndtr(-a), sp.ndtr(-z)
            return np.clip(m - s * sp.ndtri(fa + u * (fz - fa)), lo, hi)
        fa, fz = sp.ndtr(a), sp.ndtr(z)
        return np.clip(m + s * sp.ndtri(fa + u * (fz - fa)), lo, hi)
    if dist == "lognorm":
        return np.exp(b[0] + b[1] * sp.ndtri(u))
    if dist == "weibull":
        loc = b[2] if len(b) == 3 else 0.0
        return loc + b[1] * (-np.log1p(-u)) ** (1.0 / b[0])
    raise ValueError(dist)


def ref_scale(U, pr):
    dists = pr.get("dists") or ["unif"] * pr["num_vars"]
    return np.column_stack([ref_quantile(U[:, j], dists[j], pr["bounds"][j]) for j in range(U.shape[1])])


def scale_tol(pr):
    """Per-problem absolute tolerance for a scaled column."""
    out = []
    dists = pr.get("dists") or ["unif"] * pr["num_vars"]
    for d, b in zip(dists, pr["bounds"]):
        out.append(1e-9 * max(abs(float(v)) for v in b[:2]) if d == "unif" else 1e-7)
    return np.array(out)


def unit(pr):
    q = {"num_vars": pr["num_vars"], "names": list(pr["names"]), "bounds": [[0.0, 1.0]] * pr["num_vars"]}
    if pr.get("groups"):
        q["groups"] = list(pr["groups"])
    return q


def copy(pr):
    import copy as c

    return c.deepcopy(pr)
