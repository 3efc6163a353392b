"""Uniform access to all samplers (public API only)."""
import numpy as np
from . import gen as G

ALL = ["saltelli", "sobol", "latin", "fast_sampler", "finite_diff", "ff", "morris"]


def fn(name):
    import importlib

    return importlib.import_module("SALib.sample." + name).sample


def args(rng, name, D):
    """Random valid arguments (positional N etc. as kwargs)."""
    r = lambda *v: v[int(rng.integers(len(v)))]
    if name == "saltelli":
        return {"N": r(2, 4, 5, 8, 16), "calc_second_order": r(True, False)}
    if name == "sobol":
        return {"N": r(2, 4, 5, 8, 16), "calc_second_order": r(True, False), "scramble": r(True, True, False)}
    if name == "latin":
        return {"N": r(1, 2, 3, 5, 10, 33, 50)}
    if name == "fast_sampler":
        M = r(1, 2, 4)
        return {"N": 4 * M * M + r(1, 2, 5, 30), "M": M}
    if name == "finite_diff":
        return {"N": r(1, 2, 3, 7), "delta": r(0.01, 0.001, 0.1), "skip_values": r(1024, 1, 16)}
    if name == "ff":
        return {}
    if name == "morris":
        kw = {"N": r(2, 3, 5, 8), "num_levels": r(2, 4, 6, 8, 10, 12)}
        if kw["N"] >= 5 and rng.random() < 0.3:
            kw["optimal_trajectories"] = r(2, 3)
            kw["local_optimization"] = r(True, False)
        return kw
    raise KeyError(name)


SEEDED = {"sobol", "latin", "fast_sampler", "finite_diff", "ff", "morris"}
STOCHASTIC = {"sobol", "latin", "fast_sampler", "morris"}


def draw(mon, name, pr, kw, seed=None):
    kw = dict(kw)
    pos = []
    if "N" in kw:
        pos.append(kw.pop("N"))
    if name in SEEDED and seed is not None:
        kw["seed"] = seed
    return mon.call(fn(name), pr, *pos, **kw)
