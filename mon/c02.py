"""C02: the built-in Sobol' generator."""
import numpy as np

RULE = ("Grids of (N, D): every N in 1..70 against every small D, plus sizes that reach deep into the direction "
        "table (all 21201 dimensions) and past every polynomial degree that fits in memory; output compared bit for bit "
        "with SciPy's independent Joe-Kuo implementation, and stratification/prefix laws checked on the output itself.")
REQUIRED = ["exact", "strata", "prefix", "too_many_dims", "all_dims"]
ASSUMPTIONS = ["SciPy's unscrambled qmc.Sobol (its own direction-number table, new-joe-kuo-6) is the reference sequence"]


def gen(rng, tier):
    big = [(2, 21201), (33, 21201), (9, 21201), (130, 5000), (1025, 1111), (4097, 300), (16385, 60), (70001, 24), (8200, 520)]
    if tier == "thorough":
        big += [(65, 21201), (257, 21201), (1025, 5000), (5000, 2000), (32769, 400), (2**18 + 1, 60), (2**20, 12)]
    for N, D in big:
        yield {"kind": "big", "N": N, "D": D}
    # columns anywhere in the table, with more points than the degree of their polynomials
    edges = [1, 2, 3, 5, 7, 13, 19, 37, 53, 101, 161, 337, 481, 1111, 1741, 3901, 7201, 9000, 11000, 15000, 19000, 21200]
    for r in range(1 if tier == "quick" else 4):
        for lo, hi in zip(edges, edges[1:]):
            dims = sorted({int(rng.integers(lo, hi)), int(rng.integers(lo, hi)), hi})
            yield {"kind": "columns", "N": int(rng.choice([2**15 + 3, 2**17, 2**18 + 1])), "dims": dims}
    yield {"kind": "toomany", "D": [21202, 21203, 25000, 40000]}
    for N in range(1, 71):
        yield {"kind": "small", "N": N, "D": [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 18, 27, 40]}
    for _ in range(150 if tier == "quick" else 1200):
        D = int(np.exp(rng.uniform(0, np.log(6000))))
        N = int(np.exp(rng.uniform(0, np.log(min(60000, 4e6 / D)))))
        if rng.random() < 0.3:
            N = 2 ** int(np.log2(max(N, 1))) + int(rng.integers(-1, 2))
        yield {"kind": "random", "N": max(N, 1), "D": D}


def ref(N, D):
    from scipy.stats import qmc

    return qmc.Sobol(d=D, scramble=False).random(N)


def judge(mon, N, D):
    from SALib.sample import sobol_sequence

    got = mon.call(sobol_sequence.sample, N, D)
    mon.observe(np.asarray(got))
    mon.eq(np.shape(got), (N, D), "shape")
    want = ref(N, D)
    bad = np.argwhere(np.asarray(got) != want)
    mon.ok(len(bad) == 0, lambda: f"N={N} D={D}: {len(bad)} entries differ from the Joe-Kuo sequence, first (row, dim) "
                                  f"{tuple(bad[0])}: {got[tuple(bad[0])]} vs {want[tuple(bad[0])]}")
    mon.hit("exact", D)
    # every aligned block of 2^k points stratifies every dimension
    k = int(np.log2(N))
    for e in {k, max(k - 1, 0), k // 2}:
        n = 2 ** e
        for st in {0, (N // n - 1) * n, ((N // n) // 2) * n}:
            blk = np.sort((np.asarray(got)[st:st + n] * n).astype(int), axis=0)
            mon.ok(np.array_equal(blk, np.repeat(np.arange(n)[:, None], D, axis=1)),
                   f"rows {st}..{st + n} of N={N}, D={D} are not one per stratum")
            mon.hit("strata")
    return np.asarray(got)


class Table(list):
    """The direction table reduced to some of its rows (a narrow run of the real generator far down the table)."""


def columns(case, mon):
    """Long sequences of dimensions anywhere in the table, at the cost of a few columns."""
    import importlib.util
    from unittest import mock
    from SALib.sample import sobol_sequence as real

    # a private instance of the module: the reduced table cannot leak into (or be hidden by) anything the real one keeps
    sp = importlib.util.spec_from_file_location("SALib.sample._private_sobol_sequence", real.__file__)
    sobol_sequence = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(sobol_sequence)
    N, dims = case["N"], case["dims"]
    full = getattr(sobol_sequence, "directions", None)
    if full is None or len(full) != 21200:  # table kept elsewhere: nothing to narrow
        return
    with mock.patch.object(sobol_sequence, "directions", Table([full[d - 1] for d in dims])):
        try:
            got = sobol_sequence.sample(N, len(dims) + 1)
        except Exception:
            return  # not driven by this table any more
    if np.shape(got) != (N, len(dims) + 1):
        return
    wide = ref(N, max(dims) + 1) if N * max(dims) < 6e7 else ref_columns(N, dims)
    want = wide[:, dims] if wide.shape[1] != len(dims) else wide
    plain = ref_columns(N, list(range(1, len(dims) + 1)))
    if np.array_equal(got[:, 1:], plain) and not np.array_equal(want, plain):
        return  # the generator does not read this table any more
    bad = np.argwhere(got[:, 1:] != want)
    mon.ok(len(bad) == 0, lambda: f"N={N} dimensions {dims}: {len(bad)} entries differ from the Joe-Kuo sequence, first "
                                  f"row {bad[0][0]}, dimension {dims[bad[0][1]]}")
    mon.observe(got)
    mon.hit("deep", len(dims))


def ref_columns(N, dims):
    """Columns of SciPy's sequence from its direction integers (Gray-code order)."""
    from scipy.stats import qmc

    eng = qmc.Sobol(d=max(dims) + 1, scramble=False)
    V = np.asarray(eng._sv, dtype=np.uint64)[dims]
    bits = V.shape[1]
    n = np.arange(N, dtype=np.uint64)
    gray = n ^ (n >> np.uint64(1))
    out = np.zeros((N, len(dims)), dtype=np.uint64)
    for b in range(bits):
        on = ((gray >> np.uint64(b)) & np.uint64(1)).astype(bool)
        out[on] ^= V[:, b]
    return out / 2.0 ** bits


def run(case, mon):
    from SALib.sample import sobol_sequence

    if case["kind"] == "toomany":
        for D in case["D"]:
            mon.raises(Exception, sobol_sequence.sample, 4, D, _what=f"sobol_sequence.sample(4, {D})")
            mon.observe(D)
            mon.hit("too_many_dims")
        return
    N = case["N"]
    if case["kind"] == "columns":
        return columns(case, mon)
    for D in case["D"] if isinstance(case["D"], list) else [case["D"]]:
        got = judge(mon, N, D)
        if case["kind"] == "big" and D == 21201:
            mon.hit("all_dims")
        if case["kind"] != "big":
            n2, d2 = max(1, N // 3), max(1, D // 2)
            sub = mon.call(sobol_sequence.sample, n2, d2)
            mon.same(sub, got[:n2, :d2], f"sample({n2},{d2}) as a prefix of sample({N},{D})")
            mon.hit("prefix")
