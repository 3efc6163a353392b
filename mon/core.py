"""Shared machinery: monitored calls, verdicts, case runner, evidence, replay.

A check module (mon/cNN.py) provides
    RULE      - how cases are made and what makes one non-trivial (text)
    REQUIRED  - names of monitor events that must have been seen at least once
    gen(rng, tier) -> iterable of JSON-able cases ({"kind": ..., ...})
    run(case, mon) - drives the real code and lets the monitor judge it
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, mech=None):
        super().__init__(msg)
        self.msg = msg
        self.mech = mech


class Inconclusive(Exception):
    pass


class Timeout(Exception):
    pass


def _short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:  # pragma: no cover
        s = f"<unrepresentable {e}>"
    return s if len(s) <= n else s[:n] + "..."


class Monitor:
    """Per-case monitor: records what it saw and raises Violation."""

    def __init__(self, case):
        self.case = case
        self.events = Counter()
        self.checks = 0
        self._h = hashlib.sha1()
        self.observed = 0
        self.mech = None

    # ---- recording
    def hit(self, name, n=1):
        self.events[name] += n

    def observe(self, *objs):
        import numpy as np

        for o in objs:
            self.observed += 1
            if isinstance(o, np.ndarray) and o.dtype != object:
                self._h.update(np.ascontiguousarray(o).tobytes())
                self._h.update(str(o.shape).encode())
            else:
                self._h.update(repr(o).encode())
        return objs[0] if len(objs) == 1 else objs

    def digest(self):
        return self._h.hexdigest()[:16]

    # ---- judging
    def fail(self, msg, mech=None):
        raise Violation(msg, mech or self.mech)

    def ok(self, cond, msg, mech=None):
        self.checks += 1
        if not bool(cond):
            if callable(msg):
                msg = msg()
            self.fail(msg, mech)

    def eq(self, got, want, what, mech=None):
        self.checks += 1
        if not (got == want):
            self.fail(f"{what}: got {_short(got)}, expected {_short(want)}", mech)

    def close(self, got, want, what, rtol=1e-8, atol=1e-10, mech=None):
        """Element-wise closeness; NaN only matches NaN, inf only itself."""
        import numpy as np

        self.checks += 1
        try:
            g = np.asarray(got, dtype=float)
        except Exception as e:
            self.fail(f"{what}: not numeric: {_short(got)} ({e})", mech)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape}, expected {w.shape}", mech)
        good = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not good.all():
            i = np.argwhere(~good)
            k = tuple(int(v) for v in i[0])
            self.fail(
                f"{what}: {len(i)} of {g.size} differ, first at {k}: "
                f"got {g[k]!r}, expected {w[k]!r}", mech)

    def same(self, got, want, what, mech=None):
        """Bitwise-equal arrays (NaN equal to NaN)."""
        import numpy as np

        self.checks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape}, expected {w.shape}", mech)
        if g.dtype.kind in "fc" or w.dtype.kind in "fc":
            good = (g == w) | ((g != g) & (w != w))
        else:
            good = g == w
        if not np.all(good):
            i = np.argwhere(~np.asarray(good))
            k = tuple(int(v) for v in i[0])
            self.fail(f"{what}: {len(i)} of {g.size} differ, first at {k}: "
                      f"got {g[k]!r}, expected {w[k]!r}", mech)

    # ---- driving the code under test
    def call(self, fn, *a, **k):
        """Call into the code under test; an unexpected exception is a violation."""
        self.hit("calls")
        buf = io.StringIO()
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(buf), \
                    contextlib.redirect_stderr(buf):
                warnings.simplefilter("ignore")
                return fn(*a, **k)
        except (Violation, Inconclusive, Timeout, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = "; ".join(f"{os.path.basename(f.filename)}:{f.name}:{f.lineno}" for f in tb[-3:])
            name = getattr(fn, "__module__", "") + "." + getattr(fn, "__name__", str(fn))
            self.fail(f"valid call {name} raised {type(e).__name__}: {_short(str(e), 200)} [{loc}]",
                      self.mech or f"exception:{type(e).__name__}")

    def raises(self, exc, fn, *a, **k):
        """The call must be rejected with (a subclass of) exc."""
        what = k.pop("_what", None) or getattr(fn, "__name__", str(fn))
        self.checks += 1
        self.hit("rejections")
        buf = io.StringIO()
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(buf), \
                    contextlib.redirect_stderr(buf):
                warnings.simplefilter("ignore")
                r = fn(*a, **k)
        except exc as e:
            return e
        except (Violation, Inconclusive, Timeout, KeyboardInterrupt, MemoryError):
            raise
        except BaseException as e:
            want = getattr(exc, "__name__", str(exc))
            self.fail(f"{what}: expected {want}, got {type(e).__name__}: {_short(str(e), 200)}")
        self.fail(f"{what}: invalid input accepted, returned {_short(r, 150)}")


# ------------------------------------------------------------------ execution
def setup_import():
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    import SALib

    if not os.path.realpath(SALib.__file__).startswith(os.path.realpath(src) + os.sep):
        raise SystemExit(f"SALib imported from {SALib.__file__}, not {src}")
    import matplotlib

    matplotlib.use("Agg")
    import importlib
    import pkgutil

    for pk in ("SALib.sample", "SALib.analyze", "SALib.test_functions"):
        p = importlib.import_module(pk)
        for m in pkgutil.iter_modules(p.__path__):
            importlib.import_module(pk + "." + m.name)


def _alarm(signum, frame):
    raise Timeout()


def run_case(mod, case, limit):
    """-> dict(verdict, ...) for one case."""
    import numpy as np

    mon = Monitor(case)
    t0 = time.monotonic()
    out = {}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                np.random.seed(case.get("seed", 0) % (2**32))
                mod.run(case, mon)
        out["verdict"] = "held"
    except Violation as v:
        out.update(verdict="violated", msg=v.msg, mech=v.mech)
    except Inconclusive as e:
        out.update(verdict="inconclusive", msg=str(e))
    except Timeout:
        out.update(verdict="inconclusive", msg=f"case exceeded {limit}s")
    except BaseException as e:
        out.update(verdict="error", msg="".join(traceback.format_exception(e))[-2000:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out.update(checks=mon.checks, events=dict(mon.events), digest=mon.digest(),
               observed=mon.observed, t=time.monotonic() - t0)
    return out


_MOD = None


def _worker_init(modname):
    global _MOD
    sys.path.insert(0, HERE)
    setup_import()
    _MOD = importlib.import_module("mon." + modname)


def _worker(args):
    case, limit = args
    return run_case(_MOD, case, limit)


def load_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]
