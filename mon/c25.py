"""C25: parameter files are read back as the problem they describe."""
import os
import tempfile

import numpy as np
from . import gen as G

RULE = ("Random problems (names, bounds in many float notations, groups, distributions) are written as parameter files with every "
        "delimiter (given or to be detected), 3/4/5 or mixed columns, NA/blank fields, comments (any place, indented), blank lines, "
        "quoted names, CRLF, no final newline, padding after the delimiter, up to many times the sniffing window, and read back; "
        "the returned problem is also fed to a sampler. Malformed files must be rejected.")
REQUIRED = ["read", "delim:comma", "delim:tab", "delim:space", "delim:semicolon", "given", "detected", "comments", "mixed", "groups", "dists",
            "NA", "blank_field", "long", "one_row", "crlf", "quoted", "rejected_group", "rejected_number", "sampled", "no_newline"]
CASE_LIMIT = 60
DEL = {",": "comma", "\t": "tab", " ": "space", ";": "semicolon"}


def notation(rng, v):
    k = int(rng.integers(7))
    s = [repr(v), f"{v:.6e}", f"{v:.3f}", f"{v:.17g}", f"{v:+.5f}", f"{v:.4E}", repr(v)][k]
    if v == int(v) and rng.random() < 0.5:
        s = str(int(v))
    return s


def gen(rng, tier):
    n = 1500 if tier == "quick" else 30000
    for _ in range(n):
        D = int(rng.choice([1, 2, 3, 4, 7, 15, 40, 150], p=[0.1, 0.2, 0.2, 0.15, 0.15, 0.1, 0.07, 0.03]))
        delim = str(rng.choice(list(DEL)))
        names = G.names(rng, D)
        given = bool(rng.random() < 0.5)
        if delim == " ":
            names = [s.replace(" ", "_") for s in names]
        if rng.random() < 0.12:  # only a line that begins with the sign is a comment
            i = int(rng.integers(D))
            names[i] = names[i][:1] + "#" + names[i][1:]
        cols = int(rng.choice([3, 4, 5]))
        mixed = bool(rng.random() < 0.3)
        rows = []
        for i in range(D):
            a = float(rng.choice([rng.uniform(-5, 5), 10.0 ** rng.integers(-8, 8), -(10.0 ** rng.integers(-3, 6)), float(rng.integers(-9, 9))]))
            b = a + float(rng.choice([rng.uniform(0.1, 10), 10.0 ** rng.integers(0, 6), 1.0]))
            k = int(rng.integers(3, 6)) if mixed else cols
            r = [names[i], notation(rng, a), notation(rng, b)]
            if k > 3:
                # (a blank field between delimiters is only distinct when the delimiter is not a space)
                r.append(str(rng.choice(["g1", "g2", "NA", "B", "C#", "long group" if delim not in " " else "long_group", "Na", "na", "None",
                                         names[(i + 1) % D], names[(i + 1) % D]]
                                        + ([""] if delim != " " and k == 5 else []))))
            if k > 4:
                r.append(str(rng.choice(["unif", "norm", "triang", "unif"])))
                if r[4] == "norm" and rng.random() < 0.5:  # mean and standard deviation, in no order of size
                    r[1:3] = [r[2], notation(rng, float(10.0 ** rng.integers(-6, 3)))]
            rows.append(r)
        if mixed and not given:  # the spaces could pass for the delimiter
            rows = [[s.replace(" ", "_") for s in r] for r in rows]
        yield {"kind": "read", "rows": rows, "delim": delim, "given": given, "mixed": mixed, "comments": bool(rng.random() < 0.4),
               "crlf": bool(rng.random() < 0.15), "newline": bool(rng.random() < 0.85),
               "quote": str(rng.choice(["", "", "", '"', "'"])), "blank": bool(rng.random() < 0.15), "seed": G.seed(rng)}
    for _ in range(n // 15):
        yield {"kind": "bad", "what": str(rng.choice(["one_group", "number", "missing"])), "D": int(rng.integers(2, 9)),
               "delim": str(rng.choice(list(DEL))), "seed": G.seed(rng)}


def text(case, rng):
    d = case["delim"]
    out = []
    for r in case["rows"]:
        r = list(r)
        if case["quote"]:
            r[0] = case["quote"] + r[0] + case["quote"]
        out.append(d.join(r))
    if case["comments"]:
        c = ["# a comment line", "# name lower_bound upper_bound", "#x,0,1", "   # indented; comment", "# 'quoted' comment, with -1.5 numbers",
             "#", "# " + "long " * 300, "#\ta\tb"]
        for _ in range(int(rng.integers(1, 5))):
            out.insert(int(rng.integers(len(out) + 1)) if rng.random() < 0.6 else 0, str(rng.choice(c)))
    if case["blank"]:
        out.insert(int(rng.integers(1, len(out) + 1)), "")
    nl = "\r\n" if case["crlf"] else "\n"
    return nl.join(out) + (nl if case["newline"] else "")


def run(case, mon):
    from SALib.util import read_param_file

    rng = np.random.default_rng(case["seed"])
    fd, path = tempfile.mkstemp(suffix=".txt")
    os.close(fd)
    try:
        if case["kind"] == "bad":
            return bad(case, mon, rng, path)
        t = text(case, rng)
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(t)
        rows = case["rows"]
        names = [r[0] for r in rows]
        groups = [r[3] if len(r) > 3 and r[3] not in ("", "NA") else r[0] for r in rows]
        dists = [r[4] if len(r) > 4 and r[4] else "unif" for r in rows]
        delim = case["delim"] if case["given"] else None
        if groups != names and len(set(groups)) == 1:
            mon.raises(ValueError, read_param_file, path, delim, _what="parameter file with one group")
            mon.hit("rejected_group")
            return
        p = mon.call(read_param_file, path, delim)
        mon.observe(repr(p))
        shown = t[:300]
        mon.eq(list(p["names"]), names, f"names read from {shown!r}")
        mon.eq([[float(v) for v in b] for b in p["bounds"]], [[float(r[1]), float(r[2])] for r in rows], f"bounds read from {shown!r}")
        mon.eq(p["num_vars"], len(names), "num_vars")
        mon.eq(p["groups"], None if groups == names else groups, f"groups read from {shown!r}")
        mon.eq(p["dists"], None if set(dists) == {"unif"} else dists, f"distributions read from {shown!r}")
        mon.hit("read")
        mon.hit("delim:" + DEL[case["delim"]])
        mon.hit("given" if case["given"] else "detected")
        for k, c in (("comments", case["comments"]), ("mixed", case["mixed"] and len({len(r) for r in rows}) > 1), ("groups", p["groups"]),
                     ("dists", p["dists"]), ("NA", any(len(r) > 3 and r[3] == "NA" for r in rows)), ("crlf", case["crlf"]),
                     ("blank_field", any("" in r for r in rows)), ("long", len(t) > 1024), ("one_row", len(rows) == 1),
                     ("quoted", case["quote"]), ("no_newline", not case["newline"])):
            if c:
                mon.hit(k)
        if p["dists"] is None and len(rows) > 1 and all(float(r[1]) < float(r[2]) for r in rows):
            from SALib.sample import latin

            X = mon.call(latin.sample, p, 5, seed=1)
            lo, hi = np.array([[float(r[1]), float(r[2])] for r in rows]).T
            mon.ok(np.all(X >= lo - 1e-9 * np.abs(lo)) and np.all(X <= hi + 1e-9 * np.abs(hi)), "sample of the problem read respects its bounds")
            mon.hit("sampled")
    finally:
        os.unlink(path)


def bad(case, mon, rng, path):
    from SALib.util import read_param_file

    d, D = case["delim"], case["D"]
    rows = [[f"p{i}", f"{float(i)}", f"{i + 1.5}", "NA"] for i in range(D)]
    if case["what"] == "one_group":
        for r in rows:
            r[3] = "everything"
    elif case["what"] == "number":
        rows[int(rng.integers(D))][1 + int(rng.integers(2))] = str(rng.choice(["abc", "1.2.3", "1e", "--1"]))
    else:
        rows = [r[:3] for r in rows]
        rows[-1] = rows[-1][:2]
    with open(path, "w") as f:
        f.write("".join(d.join(r) + "\n" for r in rows))
    exc = ValueError if case["what"] == "one_group" else Exception
    mon.raises(exc, read_param_file, path, d, _what=f"parameter file with {case['what']}")
    mon.hit("rejected_group" if case["what"] == "one_group" else "rejected_number")
