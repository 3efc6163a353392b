"""python -m mon C01 [--replay FILE]   (run in /verif)"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


THOROUGH_GOAL = float(os.environ.get("VERIF_THOROUGH_S", "240"))  # seconds after which no further round is started
ROUNDS = {"C01": 5, "C03": 12, "C04": 5, "C05": 6, "C06": 10, "C07": 2, "C08": 5, "C09": 20, "C10": 5, "C11": 10, "C12": 6, "C13": 4,
          "C14": 10, "C15": 4, "C16": 4, "C17": 25, "C18": 6, "C19": 8, "C20": 2, "C21": 10, "C22": 6, "C23": 6, "C24": 5, "C25": 10,
          "C29": 2, "C31": 2, "C32": 5}


def cache_is_content_checked():
    """True when every cached bytecode file of SALib is of the checked-hash kind (validated by source content)."""
    src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "SALib")
    n = 0
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".pyc"):
                with open(os.path.join(d, f), "rb") as h:
                    if h.read(8)[4:8] != b"\x03\0\0\0":
                        return False
                n += 1
    return n > 0


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "_MON_READY" not in os.environ:  # re-exec once with a controlled environment
        tmp = tempfile.mkdtemp(prefix="mon-" + prop + "-")
        env = dict(os.environ)
        env.update(_MON_READY=tmp, PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"), TMPDIR=tmp,
                   MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(tmp, "mpl"),
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
                   LANG="C.UTF-8", PYTHONWARNINGS="ignore")
        if cache_is_content_checked():
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            env.pop("PYTHONPYCACHEPREFIX")
        else:
            env.pop("PYTHONDONTWRITEBYTECODE", None)
        env.pop("PYTHONPATH", None)
        os.makedirs(env["MPLCONFIGDIR"])
        import subprocess
        p = subprocess.Popen([sys.executable, "-m", "mon"] + sys.argv[1:], env=env, cwd=HERE)
        try:
            rc = p.wait()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(rc)
    from . import core

    core.setup_import()
    mod = importlib.import_module("mon." + prop.lower())
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        r = core.run_case(mod, rep["case"], 600)
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r["verdict"] == "violated" else 0 if r["verdict"] == "held" else 2)
    sys.exit(run_check(core, mod, prop, seed, tier))


def _spread(cases):
    """Interleave the kinds of cases evenly: whatever part of them the time allows for has its share of each."""
    groups = {}
    for c in cases:
        s = c.get("spec") if isinstance(c.get("spec"), dict) else {}
        k = [c.get("kind")] + [d.get(f) for d in (c, s) for f in ("method", "sampler", "func", "name", "way", "what")]
        groups.setdefault(tuple(v if isinstance(v, str) else None for v in k), []).append(c)
    out = [(i / len(g), n, c) for n, g in enumerate(groups.values()) for i, c in enumerate(g)]
    return [c for _, _, c in sorted(out, key=lambda t: t[:2])]


def run_check(core, mod, prop, seed, tier):
    import numpy as np

    t0 = time.monotonic()
    budget = getattr(mod, "BUDGET", {}).get(tier, 100 if tier == "quick" else 700)
    limit = getattr(mod, "CASE_LIMIT", 120 if tier == "quick" else 400)
    rng = np.random.default_rng([seed, int(prop[1:]), 0 if tier == "quick" else 1])
    cases = _spread(mod.gen(rng, tier))
    for r in range(1, ROUNDS.get(prop, 1) if tier == "quick" else 1):  # further rounds of the quick workload
        cases += _spread(mod.gen(np.random.default_rng([seed, int(prop[1:]), 0, r]), tier))
    # JSON round trip now: a replay then sees exactly what the run saw
    cases = json.loads(json.dumps(cases, default=_np_default))
    findings = core.load_findings(prop)
    nproc = getattr(mod, "NPROC", 8)
    results = [None] * len(cases)
    viol, known, errors, incon = [], [], [], []
    events = Counter()
    checks = 0
    skipped = 0
    open_known = {f["mech"]: f for f in findings if f.get("status") == "open"}
    ex = ProcessPoolExecutor(nproc, mp_context=mp.get_context("fork"),
                             initializer=core._worker_init, initargs=(prop.lower(),))
    broken, rounds = None, 0
    t1 = time.monotonic()  # the budget is for running the cases, not for generating them

    def enough():
        """Out of time: at once when every required monitor was reached, later when the machine is too slow for that."""
        dt = time.monotonic() - t1
        return dt > budget and (all(events[k] for k in getattr(mod, "REQUIRED", [])) or dt > (4 if tier == "quick" else 1.2) * budget)
    try:
        pending, it, stop = {}, iter(enumerate(cases)), False
        while True:
            while not stop and len(pending) < nproc * 2:
                if enough():
                    stop = True
                    break
                try:
                    i, c = next(it)
                except StopIteration:
                    # the thorough tier goes on with further rounds of cases
                    if tier == "quick" or time.monotonic() - t0 > THOROUGH_GOAL or len(cases) > 400000:
                        stop = True
                        break
                    rounds += 1
                    more = _spread(mod.gen(np.random.default_rng([seed, int(prop[1:]), 1, rounds]), tier))
                    n0 = len(cases)
                    cases += json.loads(json.dumps(more, default=_np_default))
                    results += [None] * len(more)
                    it = iter([(n0 + j, cases[n0 + j]) for j in range(len(more))])
                    continue
                pending[ex.submit(core._worker, (c, limit))] = i
            if not pending:
                break
            done, _ = wait(list(pending), return_when=FIRST_COMPLETED)
            for f in done:
                i = pending.pop(f)
                r = f.result()
                results[i] = r
                events.update(r["events"])
                checks += r["checks"]
                v = r["verdict"]
                if v == "violated":
                    (known if r.get("mech") in open_known else viol).append(i)
                    if len(viol) >= 4:
                        stop = True
                elif v == "error":
                    errors.append(i)
                    if len(errors) >= 3:
                        stop = True
                elif v == "inconclusive":
                    incon.append(i)
    except Exception as e:  # a worker died
        broken = f"{type(e).__name__}: {e}"
    finally:
        procs = list((getattr(ex, "_processes", None) or {}).values())
        ex.shutdown(wait=broken is None and not viol, cancel_futures=True)
        if broken or viol:
            for p in procs:
                p.kill()
    ran = [i for i, r in enumerate(results) if r]
    skipped = len(cases) - len(ran)
    nontriv = {}
    for i in ran:
        r = results[i]
        if r["verdict"] in ("held", "violated") and r["checks"] > 0 and r["observed"] > 0:
            nontriv.setdefault((cases[i].get("kind"), r["digest"]), i)
    kinds = Counter(cases[i].get("kind") for i in ran)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    picks = sorted(nontriv.values())
    step = max(1, len(picks) // 5)
    samples = [{"case": _trim(cases[i]), "events": results[i]["events"], "checks": results[i]["checks"],
                "digest": results[i]["digest"]} for i in picks[::step][:5]]
    missing = [k for k in getattr(mod, "REQUIRED", []) if events[k] == 0]
    wall = time.monotonic() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(ran), "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE + " A case counts as distinct and non-trivial when the monitor observed output of"
                    " the real code, judged it at least once, and (kind, digest of the observed output) is new.",
            "samples": samples, "oracle_decisions": checks, "events": dict(sorted(events.items())),
            "cases_by_kind": dict(sorted(kinds.items(), key=str)), "skipped_for_time": skipped,
            "inconclusive": len(incon), "missing_required_events": missing,
            "known_finding_hits": len(known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if getattr(mod, "EXHAUSTIVE", False):
        ev["coverage"]["bounded_space"] = mod.EXHAUSTIVE
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print(f"{prop} {tier} seed={seed}: {len(ran)} cases ({skipped} skipped), {checks} decisions, "
          f"{len(nontriv)} distinct non-trivial, {wall:.1f}s; slowest case "
          f"{max([results[i]['t'] for i in ran], default=0):.1f}s")
    hit = Counter(results[i]["mech"] for i in known)
    for f in findings:
        if f.get("status") == "open":
            # a listed finding is reported when its own probe case (or any case) still shows it
            if hit[f["mech"]]:
                print(f"KNOWN-FINDING: property={prop} {f['what']}")
            else:
                print(f"note: listed finding {f['mech']} was not observed in this run")
    for i in viol:
        r = results[i]
        path = os.path.join(HERE, "evidence", "replay", f"{prop}-{i}-{seed}-{tier}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": cases[i], "msg": r["msg"], "mech": r.get("mech"),
                       "how": f"cd /verif && /opt/venv/bin/python -m mon {prop} --replay {path}"}, f, indent=1)
        print(f"  {cases[i].get('kind')}: {r['msg']}" + (f" [mech {r['mech']}]" if r.get("mech") else ""))
        print(f"VIOLATION property={prop} replay={path}")
    if viol:
        return 1
    for i in errors[:3]:
        print("HARNESS ERROR in case", json.dumps(cases[i])[:600], "\n", results[i]["msg"])
    for i in incon[:3]:
        print("INCONCLUSIVE case", json.dumps(cases[i])[:300], results[i]["msg"])
    if broken:
        print("INCONCLUSIVE: worker pool broke:", broken)
        return 3
    if errors:
        return 2
    if missing:
        print("INCONCLUSIVE: deciding monitors never reached:", missing)
        return 3
    if not nontriv or len(incon) > max(2, len(ran) // 20):
        print("INCONCLUSIVE: too little was decided")
        return 3
    return 0


def _np_default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def _trim(c):
    s = json.dumps(c)
    return c if len(s) < 3000 else s[:3000] + "..."


if __name__ == "__main__":
    main()
