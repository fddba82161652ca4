"""
Seams: randomness and files under the control of the simulator.
"""

from __future__ import annotations

import numpy as np

from . import sched

DRAWS = (
    "random",
    "uniform",
    "normal",
    "standard_normal",
    "poisson",
    "multinomial",
    "integers",
    "choice",
    "binomial",
    "exponential",
    "permutation",
    "shuffle",
    "multivariate_normal",
    "bytes",
)


class SimRNG(np.random.Generator):
    """
    The user's random number generator.

    Every draw is a point of the simulation, is recorded, and can be replaced:
    ``tape(name, args, value)`` gets the honest value and returns what the
    caller sees, or raises.
    """

    def __init__(self, seed, tape=None) -> None:
        super().__init__(np.random.PCG64(seed))
        self.tape = tape
        self.draws: list = []

    def _draw(self, name, args, kwargs):
        sched.callback_point("rng." + name)
        value = getattr(np.random.Generator, name)(self, *args, **kwargs)
        if self.tape is not None:
            value = self.tape(name, (args, kwargs), value)
        shape = getattr(value, "shape", ())
        self.draws.append((name, tuple(shape)))
        return value

    def __reduce__(self):
        raise TypeError("the user's generator is not to be copied")


def _make(name):
    def method(self, *args, **kwargs):
        return self._draw(name, args, kwargs)

    method.__name__ = name
    return method


for _n in DRAWS:
    setattr(SimRNG, _n, _make(_n))


def argument(args, kwargs, pos, name, default=None):
    """Value of an argument given by position or name."""
    if name in kwargs:
        return kwargs[name]
    return args[pos] if len(args) > pos else default


def standard_form(name, call, value):
    """
    The draw in standard form: ("u01" | "n01" | other, affine map back).

    Gives loc and scale such that value = loc + scale * standard draw.
    """
    args, kw = call
    if name == "random":
        return "u01", 0.0, 1.0
    if name == "uniform":
        lo = np.asarray(argument(args, kw, 0, "low", 0.0))
        hi = np.asarray(argument(args, kw, 1, "high", 1.0))
        return "u01", lo, hi - lo
    if name == "standard_normal":
        return "n01", 0.0, 1.0
    if name == "normal":
        return (
            "n01",
            np.asarray(argument(args, kw, 0, "loc", 0.0)),
            np.asarray(argument(args, kw, 1, "scale", 1.0)),
        )
    return name, None, None


_numpy_default_rng = np.random.default_rng


class Entropy:
    """
    Ambient entropy: ``numpy.random.default_rng``.

    ``salt`` replaces the seed of generators that are created without one or
    with a constant, ``made`` records what was created.
    """

    salt: int | None = None
    made: list = []


def patch_default_rng() -> None:
    """To be called before glass is imported."""

    def default_rng(seed=None):
        if Entropy.salt is not None and not isinstance(
            seed, (np.random.Generator, np.random.BitGenerator, np.random.SeedSequence)
        ):
            Entropy.made.append(seed)
            if seed is None or (isinstance(seed, int) and seed < 100_000):
                return _numpy_default_rng([Entropy.salt, seed or 0])
        return _numpy_default_rng(seed)

    np.random.default_rng = default_rng
