"""C14: splitting, batching and restarting work is invisible."""

from __future__ import annotations

import collections
import math
import os
import pickle
import shutil
import sys

import numpy as np

from .. import healstore, sched, seams, simcase, values
from .. import workload as wl
from ..core import Check, HarnessError, Stats, Violation, fresh, in_child
from ..rnd import Rnd

ARCMIN2 = 4 * math.pi * (180 * 60 / math.pi) ** 2

# ------------------------------------------------- calls that can be split

# name -> builder(g, n, k): arguments, axis of each argument along which it is
# split, call, axes of the results, how draws are split, results modulo 360
SPLIT: dict = {}


def split(name, *, draws=None, angles=(), empty=True, most=3000):
    def deco(f):
        SPLIT[name] = (f, draws, angles, empty, most)
        return f

    return deco


def _lonlat(g, n):
    return g.uniform(-180, 180, n), np.degrees(np.arcsin(g.uniform(-1, 1, n)))


def _alpha(g, n):
    return g.normal(0, 0.1, n) + 1j * g.normal(0, 0.1, n)


def _scales(g, n):
    """Rows of very different size; results are compared in units of their row."""
    return 10.0 ** g.integers(-9, 7, (n, 1)) if g.random() < 0.5 else np.ones((n, 1))


def _shells(g, k, tophat=False):
    import glass

    edges = np.cumsum(g.uniform(0.1, 0.4, k + 2))
    out = []
    for j in range(k):
        if tophat:
            za = np.linspace(edges[j], edges[j + 1], 7)
            wa = np.ones(7)
        else:
            za = np.linspace(edges[j], edges[j + 2], 9)
            wa = g.uniform(0.1, 1, 9)
            wa[0] = wa[-1] = 0
        out.append(glass.RadialWindow(za, wa, float(za[3])))
    return out


@split("displace", angles=(0,), most=25000)
def _(g, n, k):
    import glass

    lon, lat = _lonlat(g, n)
    A = {"lon": lon, "lat": lat, "alpha": _alpha(g, n)}
    return A, {"lon": 0, "lat": 0, "alpha": 0}, lambda A, r, xp: glass.displace(**A), (0, 0)


@split("displace real", angles=(0,))
def _(g, n, k):
    import glass

    lon, lat = _lonlat(g, n)
    A = {"lon": lon, "lat": lat, "alpha": g.normal(0, 0.5, (2, n))}
    return A, {"lon": 0, "lat": 0, "alpha": 1}, lambda A, r, xp: glass.displace(**A), (0, 0)


@split("deflect", angles=(0,))
def _(g, n, k):
    import glass

    lon, lat = _lonlat(g, n)
    A = {"lon": lon, "lat": lat, "alpha": _alpha(g, n)}
    return A, {"lon": 0, "lat": 0, "alpha": 0}, lambda A, r, xp: glass.deflect(**A), (0, 0)


@split("displacement")
def _(g, n, k):
    import glass

    a, b = _lonlat(g, n)
    c, d = _lonlat(g, n)
    A = {"from_lon": a, "from_lat": b, "to_lon": c, "to_lat": d}
    return A, {x: 0 for x in A}, lambda A, r, xp: glass.displacement(**A), (0,)


@split("galaxy_shear", most=31000)
def _(g, n, k):
    import glass

    npix = 12 * (2 ** (k - 1)) ** 2
    lon, lat = _lonlat(g, n)
    red = bool(g.random() < 0.5)
    A = {
        "lon": lon, "lat": lat, "eps": _alpha(g, n), "kappa": g.normal(0, 0.1, npix),
        "gamma1": g.normal(0, 0.1, npix), "gamma2": g.normal(0, 0.1, npix),
    }
    return A, {"lon": 0, "lat": 0, "eps": 0}, lambda A, r, xp: glass.galaxy_shear(**A, reduced_shear=red), (0,)


@split("distribute into tophats", draws="any")
def _(g, n, k):
    import glass

    A = {"z": g.uniform(0, 0.5 * k, n), "shells": _shells(g, k, True)}
    return A, {"z": 0}, lambda A, r, xp: glass.distribute(A["z"], A["shells"], rng=r), (0,)


@split("distribute", draws="stream")
def _(g, n, k):
    import glass

    A = {"z": g.uniform(0, 0.5 * k, n), "shells": _shells(g, k)}
    return A, {"z": 0}, lambda A, r, xp: glass.distribute(A["z"], A["shells"], rng=r), (0,)


@split("gaussian_phz", draws="calls")
def _(g, n, k):
    import glass

    A = {"z": g.uniform(0.5, 2, n), "s": g.uniform(0.001, 0.01, n)}
    return A, {"z": 0, "s": 0}, lambda A, r, xp: glass.gaussian_phz(A["z"], A["s"], rng=r), (0,)


@split("redshifts", draws="calls", empty=False)
def _(g, n, k):
    import glass

    w = _shells(g, k)[0]
    A = {"count": np.arange(n), "w": w}
    return A, {"count": 0}, lambda A, r, xp: glass.redshifts(A["count"].shape[0], A["w"], rng=r), (0,)


@split("linear_bias")
def _(g, n, k):
    import glass

    b = float(g.uniform(0.5, 2))
    A = {"delta": g.uniform(-0.9, 3, n)}
    return A, {"delta": 0}, lambda A, r, xp: (glass.linear_bias(A["delta"], b), glass.loglinear_bias(A["delta"], b)), (0, 0)


@split("restrict rows", most=40, empty=False)
def _(g, n, k):
    import glass

    s = _scales(g, n)
    A = {"z": np.linspace(0, 2, 33), "f": g.uniform(0, 1, (n, 33)) * s, "s": s, "w": _shells(g, 1)[0]}
    return A, {"f": 0, "s": 0}, lambda A, r, xp: glass.restrict(A["z"], A["f"], A["w"])[1] / A["s"], (0,)


@split("partition rows", most=12, empty=False)
def _(g, n, k):
    import glass

    m = ["nnls", "lstsq", "restrict"][int(g.integers(3))]
    s = _scales(g, n)
    A = {"z": np.linspace(0, 2, 33), "f": g.uniform(0, 1, (n, 33)) * s, "s": s[:, 0], "shells": _shells(g, k)}
    return A, {"f": 0, "s": 0}, lambda A, r, xp: glass.partition(A["z"], A["f"], A["shells"], method=m) / A["s"], (1,)


@split("combine rows", most=40, empty=False)
def _(g, n, k):
    import glass

    s = _scales(g, n)
    A = {"z": np.linspace(0, 2, 33), "w": g.uniform(0, 1, (k, n)) * s[:, 0], "s": s, "shells": _shells(g, k)}
    return A, {"w": 1, "s": 0}, lambda A, r, xp: glass.combine(A["z"], A["w"], A["shells"]) / A["s"], (0,)


@split("distributions", most=40, empty=False)
def _(g, n, k):
    import glass

    A = {"z": np.linspace(0.01, 3, 41), "m": g.uniform(0.3, 2, n), "s": g.uniform(0.1, 1, n)}

    def call(A, r, xp):
        return (
            glass.gaussian_nz(A["z"], A["m"], A["s"]),
            glass.smail_nz(A["z"], A["m"], 1 + A["s"], 0.5 + A["s"]),
        )

    return A, {"m": 0, "s": 0}, call, (0, 0)


@split("tomographic bins", most=12, empty=False)
def _(g, n, k):
    import glass

    lo = np.sort(g.uniform(0.1, 2, n))
    A = {"z": np.linspace(0.01, 3, 41), "nz": g.uniform(0, 1, 41), "bins": np.stack([lo, lo + g.uniform(0.1, 1, n)], axis=1)}
    return A, {"bins": 0}, lambda A, r, xp: glass.tomo_nz_gausserr(A["z"], A["nz"], 0.05, [(float(A["bins"][i, 0]), float(A["bins"][i, 1])) for i in range(A["bins"].shape[0])]), (0,)


@split("multi_plane_weights", most=20, empty=False)
def _(g, n, k):
    import glass

    k += 1
    A = {"w": g.uniform(0.1, 1, (k, n)), "shells": _shells(g, k)}
    return A, {"w": 1}, lambda A, r, xp: glass.multi_plane_weights(A["w"], A["shells"], wl.StrictCosmology()), (1,)


@split("position_weights", most=20, empty=False)
def _(g, n, k):
    import glass

    A = {"d": g.uniform(0.1, 1, (k, n)), "b": g.uniform(0.5, 2, k)}
    return A, {"d": 1}, lambda A, r, xp: glass.position_weights(A["d"], A["b"]), (1,)


@split("effective_cls", most=6, empty=False)
def _(g, n, k):
    import glass

    cls = [g.uniform(0, 1, 6) for _ in range(k * (k + 1) // 2)]
    A = {"cls": cls, "w1": g.uniform(0, 1, (k, n)), "w2": g.uniform(0, 1, (k, 2))}
    return A, {"w1": 1}, lambda A, r, xp: glass.effective_cls(A["cls"], A["w1"], A["w2"]), (0,)


@split("regularised spectra", most=60, empty=False)
def _(g, n, k):
    import glass

    m = k * (k + 1) // 2
    x = g.normal(size=(m, n))
    A = {"x": x}

    def call(A, r, xp):
        return xp.stack(glass.regularized_spectra([A["x"][i, :] for i in range(m)], method="clip"))

    return A, {"x": 1}, call, (1,)


@split("iternorm", most=60, empty=False)
def _(g, n, k):
    import glass

    q = g.normal(size=(n, k, k + 2))
    c = q @ np.swapaxes(q, 1, 2)
    rows = [np.stack([c[:, i, i]] + [c[:, i, i - j] if j <= i else np.zeros(n) for j in range(1, k)], axis=-1) for i in range(k)]
    A = {"c": np.stack(rows)}

    def call(A, r, xp):
        out = list(glass.iternorm(A["c"][i, ...] for i in range(k)))
        return tuple(out)

    return A, {"c": 1}, call, (0,) * k


@split("weight functions")
def _(g, n, k):
    import glass.shells as sh

    A = {"z": g.uniform(0.01, 3, n)}
    c = wl.StrictCosmology()

    def call(A, r, xp):
        return (
            sh.DistanceWeight(c)(A["z"]), sh.VolumeWeight(c)(A["z"]), sh.DensityWeight(c)(A["z"]),
        )

    return A, {"z": 0}, call, (0, 0, 0)


def take(a, axis, lo, hi):
    s = [slice(None)] * a.ndim
    s[axis] = slice(lo, hi)
    return a[tuple(s)]


def to_backend(x, xp):
    """Received arrays become arrays of the backend of the worker."""
    if isinstance(x, np.ndarray):
        return xp.asarray(x)
    if isinstance(x, list):
        return [to_backend(y, xp) for y in x]
    if hasattr(x, "za"):
        return type(x)(xp.asarray(x.za), xp.asarray(x.wa), x.zeff)
    return x


class Part:
    """The draws of a part are a part of the draws of the whole."""

    def __init__(self, log, how, lo, hi, n) -> None:
        self.how = how
        self.lo, self.hi, self.n = lo, hi, n
        self.k = 0
        self.usable = True
        self.log = log
        if how == "stream":
            self.usable = bool(log) and all(
                x[0] == log[0][0] and np.ndim(x[1]) and x[1].shape[1:] == log[0][1].shape[1:] for x in log
            ) and sum(x[1].shape[0] for x in log) == n
            if self.usable:
                self.table = np.concatenate([x[1] for x in log])

    def __call__(self, name, call, value):
        if self.how == "any" or not self.usable:
            return value
        if self.how == "stream":
            m = np.shape(value)[0] if np.ndim(value) else 0
            v = self.table[self.lo : self.lo + m]
            if name != self.log[0][0] or v.shape != np.shape(value) or self.lo + m > self.hi:
                self.usable = False
                return value
            self.lo += m
            return np.array(v)
        if self.k >= len(self.log):
            self.usable = False
            return value
        other, v = self.log[self.k]
        self.k += 1
        axes = [i for i, m in enumerate(np.shape(v)) if m == self.n]
        if other != name or len(axes) != 1:
            self.usable = False
            return value
        v = take(v, axes[0], self.lo, self.hi)
        if v.shape != np.shape(value):
            self.usable = False
            return value
        return np.array(v)


# ------------------------------------------------------- a whole simulation


class Cosmology(wl.SimCosmology):
    """Kept with checkpoints, so it is found again by name."""


def config(case):
    """What the user decided: all of it is sent to workers."""
    import glass.grf as grf

    g = np.random.default_rng(case["seed"])
    k, nside = case["k"], case["nside"]
    lmax = 3 * nside - 1
    e = wl.Env({"seed": case["seed"], "xp": "n", "n": case["n"], "k": k, "nside": nside})
    shells = e.shells(k, nz=5)
    dims = case["dims"]
    return {
        "cls": e.cls(k, lmax=lmax + 1),
        "shells": shells,
        "fields": [grf.Lognormal(1.0) if case["lognormal"] else grf.Normal() for _ in range(k)],
        "lmax": lmax,
        "nside": nside,
        "k": k,
        "dims": tuple(dims),
        "ngal": g.uniform(0.3, 1.5, dims) * case["n"] / ARCMIN2,
        "vis": g.uniform(0.2, 1, 12 * nside**2),
        "bias": g.uniform(0.5, 1.5, dims) if dims else 1.2,
        "z": np.linspace(0, 2, 9),
        "nz": g.uniform(0.5, 1, 9),
        "seed": case["seed"],
        "batch": case["batch"],
        "ncorr": case["ncorr"],
        "cosmo": Cosmology(),
        "save": case["save"],
    }


def spectra(c):
    import glass

    gls = glass.discretized_cls(c["cls"], lmax=c["lmax"])
    if type(c["fields"][0]).__name__ == "Lognormal":
        gls = glass.solve_gaussian_spectra(c["fields"], gls)
    return glass.regularized_spectra(gls, method="clip")


def generator(*seed):
    return np.random.Generator(np.random.PCG64(list(seed)))


def fields(c, gls):
    import glass

    return glass.generate(c["fields"], gls, c["nside"], ncorr=c["ncorr"], rng=generator(c["seed"], 1))


def positions(c, i, delta, rng):
    import glass

    return glass.positions_from_delta(c["ngal"], delta, c["bias"], c["vis"], rng=rng, batch=c["batch"])


def galaxies(c, i, num, rng):
    """Redshifts and shapes of the galaxies of a shell, in steps."""
    import glass

    w = c["shells"][i]
    z = glass.redshifts(num, w, rng=rng)
    yield "z", z
    yield "eps", glass.ellipticity_intnorm(num, 0.2, rng=rng, xp=np)
    yield "shell", glass.distribute(z, c["shells"], rng=rng)
    yield "phz", glass.gaussian_phz(z, 0.05, lower=0.0, upper=4.0, rng=rng)
    yield "ryd", glass.ellipticity_ryden04(-1.85, 0.89, 0.222, 0.056, size=num, rng=rng, xp=np)


def lensing(c, mpc, delta, i):
    import glass

    mpc.add_window(delta, c["shells"][i])
    kappa = mpc.kappa + 0.0
    (gamma,) = glass.from_convergence(kappa, lmax=c["lmax"], shear=True)
    return kappa, gamma


def shear(lon, lat, eps, kappa, gamma):
    import glass

    return glass.galaxy_shear(lon, lat, eps, kappa, gamma.real, gamma.imag)


COLUMNS = ("RA", "DEC", "Z", "PHZ", "E1", "E2", "S1", "S2", "SHELL")


def rows(lon, lat, G, she):
    return dict(zip(COLUMNS, (
        lon, lat, G["z"], G["phz"], G["eps"].real, G["eps"].imag, she.real, she.imag, G["shell"],
    )))


def read(path):
    import fitsio

    with fitsio.FITS(path) as f:
        if len(f) < 2:
            return []
        d = f[1].read()
    return [np.array(d[n], dtype=float) for n in COLUMNS]


def undisturbed(case, tmp):
    """The simulation as the user would write it, in one go."""
    import glass

    c = config(case)
    gls = spectra(c)
    mpc = glass.MultiPlaneConvergence(c["cosmo"])
    out = {"kappa": [], "gamma": [], "counts": [], "delta": [], "gls": gls}
    tables = []
    path = os.path.join(tmp, "whole.fits")
    with glass.write_catalog(path) as f:
        for i, delta in enumerate(fields(c, gls)):
            out["delta"].append(delta + 0.0)
            kappa, gamma = lensing(c, mpc, delta, i)
            out["kappa"].append(kappa)
            out["gamma"].append(gamma)
            rng = generator(c["seed"], 2, i)
            got = list(positions(c, i, delta, rng))
            out["counts"].append(sum((x[2] for x in got), 0) + np.zeros(c["dims"], int))
            if not got:
                continue
            lon = np.concatenate([x[0] for x in got])
            lat = np.concatenate([x[1] for x in got])
            G = dict(galaxies(c, i, lon.size, rng))
            t = rows(lon, lat, G, shear(lon, lat, G["eps"], kappa, gamma))
            tables.append(t)
            if lon.size:
                f.write(**t)
    out["catalog"] = read(path)
    out["written"] = [np.concatenate([t[n] for t in tables]) for n in COLUMNS] if tables else []
    return values.freeze(out)


class Cluster:
    """Workers, durable store, and what is to be done."""

    def __init__(self, case, store, tmp, rnd) -> None:
        self.case = case
        self.store = store
        self.tmp = tmp
        self.rnd = rnd
        self.busy: set = set()
        self.bell = sched.Bell()
        self.stats: collections.Counter = collections.Counter()
        k, p = case["k"], case["parts"]
        self.units = [("gls",)]
        for i in range(k):
            self.units += [("delta", i), ("plane", i), ("pos", i), ("gal", i)]
            self.units += [("shear", i, j) for j in range(p)]
            self.units += [("write", i)]

    def put(self, key, value, replace=False) -> None:
        """Atomic and durable; a repeated result must be the same."""
        data = values.pickles(value)
        if key in self.store and not replace:
            old = values.freeze(pickle.loads(self.store[key]))
            if not values.same(values.freeze(pickle.loads(data)), old, rtol=1e-11, atol=1e-13):
                raise Violation("repeat-differs", f"{key}: {values.brief(values.freeze(value))} instead of {values.brief(old)}")
            self.stats["fault:work done twice"] += 1
        else:
            self.store[key] = data
        self.bell.ring()

    def get(self, key):
        """A copy, as if it came over a network or from a disk."""
        return pickle.loads(self.store[key])

    def done(self, u) -> bool:
        return ("done", u) in self.store

    def ready(self, u) -> bool:
        kind, i = u[0], u[1] if len(u) > 1 else 0
        if kind == "gls":
            need = []
        elif kind == "delta":
            need = [("gls",)]
        elif kind == "plane":
            need = [("delta", i)] + ([("plane", i - 1)] if i else [])
        elif kind == "pos":
            need = [("delta", i)]
        elif kind == "gal":
            need = [("pos", i)]
        elif kind == "shear":
            need = [("gal", i), ("plane", i)]
        else:
            need = [("shear", i, j) for j in range(self.case["parts"])]
        return all(self.done(x) for x in need)

    def worker(self, task) -> None:
        while True:
            todo = [u for u in self.units if not self.done(u)]
            if not todo:
                self.bell.ring()
                return
            free = [u for u in todo if self.ready(u) and u not in self.busy]
            if self.case["twice"] and self.rnd.chance(0.1):
                # a message delivered twice
                free = [u for u in self.units if self.ready(u)] or free
            if not free:
                if not self.busy:
                    raise HarnessError("nobody works")
                self.bell.wait()
                continue
            u = self.rnd.choice(free)
            self.busy.add(u)
            try:
                self.work(u)
                self.put(("done", u), True)
                self.stats["units of work"] += 1
            except sched.InjectedInterrupt:
                # this worker is gone, and another one takes its place
                self.stats["fault:worker killed"] += 1
            finally:
                self.busy.discard(u)
                self.bell.ring()

    def work(self, u) -> None:
        import glass

        kind = u[0]
        i = u[1] if len(u) > 1 else 0
        c = self.get("config")
        if kind == "gls":
            self.put("gls", spectra(c))
        elif kind == "delta":
            for j, d in enumerate(fields(c, self.get("gls"))):
                if self.rnd.chance(0.3) or j == i:
                    self.put(("delta", j), d)
                if j == i:
                    break
        elif kind == "plane":
            mpc = self.get(("mpc", i - 1)) if i else glass.MultiPlaneConvergence(c["cosmo"])
            kappa, gamma = lensing(c, mpc, self.get(("delta", i)), i)
            self.put(("lensing", i), (kappa, gamma))
            self.put(("mpc", i), mpc, replace=True)
        elif kind == "pos":
            rng = generator(c["seed"], 2, i)
            k = 0
            for k, x in enumerate(positions(c, i, self.get(("delta", i)), rng), 1):
                self.put(("batch", i, k), x)
            self.put(("batches", i), k)
            self.put(("rng", i), rng.bit_generator.state)
        elif kind == "gal":
            num = sum(np.size(self.get(("batch", i, k))[0]) for k in range(1, self.get(("batches", i)) + 1))
            if not self.get(("batches", i)):
                return
            # one step at a time: state of the generator is kept
            for j in range(5):
                if ("gal", i, j) in self.store:
                    continue
                rng = generator(0)
                rng.bit_generator.state = self.get(("gal", i, j - 1))[2] if j else self.get(("rng", i))
                have = {self.get(("gal", i, m))[0]: self.get(("gal", i, m))[1] for m in range(j)}
                name, x = self.step(c, i, j, num, rng, have)
                self.put(("gal", i, j), (name, x, rng.bit_generator.state))
        elif kind == "shear":
            n = self.get(("batches", i))
            if not n:
                return
            bs = [self.get(("batch", i, k)) for k in range(1, n + 1)]
            lon, lat = (np.concatenate([b[m] for b in bs]) for m in (0, 1))
            eps = self.get(("gal", i, 1))[1]
            kappa, gamma = self.get(("lensing", i))
            p = self.case["parts"]
            s = slice(lon.size * u[2] // p, lon.size * (u[2] + 1) // p)
            self.put(("shear", i, u[2]), (lon[s], lat[s], shear(lon[s], lat[s], eps[s], kappa, gamma), s.start, s.stop))
        elif kind == "write":
            path = os.path.join(self.tmp, f"part{i}.fits")
            me = sched.current().tid
            part = f"{path}.{me}"
            total = 0
            with glass.write_catalog(part) as f:
                if self.get(("batches", i)):
                    G = {self.get(("gal", i, j))[0]: self.get(("gal", i, j))[1] for j in range(5)}
                    for j in range(self.case["parts"]):
                        lon, lat, she, lo, hi = self.get(("shear", i, j))
                        if hi > lo:
                            f.write(**rows(lon, lat, {n: x[lo:hi] for n, x in G.items()}, she))
                            total += hi - lo
            os.replace(part, path)

    @staticmethod
    def step(c, i, j, num, rng, have):
        import glass

        if j == 0:
            return "z", glass.redshifts(num, c["shells"][i], rng=rng)
        if j == 1:
            return "eps", glass.ellipticity_intnorm(num, 0.2, rng=rng, xp=np)
        if j == 2:
            return "shell", glass.distribute(have["z"], c["shells"], rng=rng)
        if j == 3:
            return "phz", glass.gaussian_phz(have["z"], 0.05, lower=0.0, upper=4.0, rng=rng)
        return "ryd", glass.ellipticity_ryden04(-1.85, 0.89, 0.222, 0.056, size=num, rng=rng, xp=np)

    def result(self):
        k = self.case["k"]
        c = self.get("config")
        out = {"kappa": [], "gamma": [], "counts": [], "delta": [], "gls": self.get("gls")}
        tables, cat = [], []
        for i in range(k):
            out["delta"].append(self.get(("delta", i)))
            out["kappa"].append(self.get(("lensing", i))[0])
            out["gamma"].append(self.get(("lensing", i))[1])
            n = self.get(("batches", i))
            out["counts"].append(sum((self.get(("batch", i, j))[2] for j in range(1, n + 1)), 0) + np.zeros(c["dims"], int))
            if n:
                G = {self.get(("gal", i, j))[0]: self.get(("gal", i, j))[1] for j in range(5)}
                parts = [self.get(("shear", i, j)) for j in range(self.case["parts"])]
                tables.append(rows(*(np.concatenate([x[m] for x in parts]) for m in (0, 1)), G, np.concatenate([x[2] for x in parts])))
            t = read(os.path.join(self.tmp, f"part{i}.fits"))
            if t:
                cat.append(t)
        out["catalog"] = [np.concatenate([t[m] for t in cat]) for m in range(len(COLUMNS))] if cat else []
        out["written"] = [np.concatenate([t[n] for t in tables]) for n in COLUMNS] if tables else []
        return values.freeze(out)


class C14(Check):
    id = "C14"
    title = "splitting, batching and restarting"
    quick = 2400
    thorough = 50000
    timeout = 120.0
    rule = (
        "Either (split) one of %d calls on up to 31000 galaxies, rows or multipoles, cut at "
        "random places (also empty parts); the parts are sent as pickled messages, lost and "
        "sent again, duplicated and reordered, to 1-4 workers on any backend, which are "
        "killed at random bytecodes and replaced; random calls get the draws of the whole, "
        "cut alike. Or (batch) positions sampled from one map with two batch sizes. Or "
        "(restart) a whole simulation of 1-4 shells, from spectra to catalogue files, as "
        "units of work spread over 1-4 workers of a process: workers are killed and "
        "replaced, units delivered twice, and the whole process is killed up to three times "
        "at a random step and started again, keeping only what is in the durable store "
        "(pickled results, checkpoints and generator states) and complete files. "
        "Non-trivial: at least two parts, batches, or a unit done. Oracle: the undisturbed "
        "run in a fresh process, in one piece." % len(SPLIT)
    )
    measure = "digest of case and results"
    assumptions = [
        "the store of the simulated cluster is atomic and durable",
        "results of parts agree up to rounding (1e-11 relative)",
        "a random call may draw as it likes; parts of it are compared only where the draws "
        "of the whole can be cut",
    ]
    real = ["glass (all modules but jax and ext)", "numpy, array_api_strict, healpy, pickle", "fitsio on files in a scratch directory"]
    stub = ["workers, network and store of the cluster", "thread scheduler", "cosmology", "HEALPix data"]

    def setup(self):
        import fitsio  # noqa: F401
        import glass  # noqa: F401

        wl.warm()

    def gen(self, rnd, i, tier):
        kind = rnd.choice(["split", "split", "split", "batch", "restart", "restart"])
        base = {"kind": kind, "seed": rnd.u32(), "policy": simcase.policy(rnd), "sched": rnd.u32()}
        if kind == "split":
            op = rnd.choice(sorted(SPLIT))
            most, empty = SPLIT[op][4], SPLIT[op][3]
            n = rnd.choice([1, 2, 3, 5, 10, 40, 100, 999, 1000, 1001, 1999, 2000, 2500, 3000, 9999, 10000, 10001, 20000, 25000, 31000])
            n = min(n, most) if rnd.chance(0.8) else rnd.choice([1, 2, 3, 7])
            parts = rnd.choice([1, 2, 2, 3, 4, 7])
            cuts = sorted(rnd.randrange(n + 1) for _ in range(parts - 1))
            if n > 1000 and rnd.chance(0.3):
                cuts = sorted({*cuts, rnd.choice([999, 1000, 1001, 10000, 9999]) % n})
            if not empty:
                cuts = sorted({x for x in cuts if 0 < x < n})
            return base | {
                "op": op, "n": n, "k": rnd.choice([1, 2, 3, 4]), "cuts": cuts,
                "workers": rnd.choice([1, 1, 2, 3, 4]),
                "kills": [[rnd.randrange(4), rnd.random()] for _ in range(rnd.choice([0, 0, 1, 2, 4]))],
                "net": rnd.chance(0.6),
                "codes": rnd.choice(["n", "n", "n", "s", "ns"]),
            }
        if kind == "batch":
            big = rnd.chance(0.3)
            return base | {
                "nside": rnd.choice([16, 32]) if big else rnd.choice([1, 2, 4, 8]),
                "n": rnd.choice([200, 3000]) if big else rnd.choice([0, 1, 5, 30, 200, 1500]),
                "dims": rnd.choice([[], [], [2], [2, 2]]),
                "batches": [rnd.choice([1, 2, 5, 17, 100, 999, 1000, 1_000_000]) for _ in range(2)],
                "vis": rnd.choice(["none", "map", "mask"]),
                "mono": rnd.chance(0.4),
                "bias": rnd.choice([None, "linear", "loglinear"]),
            }
        k = rnd.choice([1, 2, 2, 3, 4])
        return base | {
            "k": k,
            "nside": rnd.choice([1, 1, 2, 4]),
            "n": rnd.choice([0, 2, 10, 40]),
            "dims": rnd.choice([[], [], [2]]),
            "batch": rnd.choice([1, 7, 30, 1000]) if rnd.chance(0.8) else 1_000_000,
            "ncorr": rnd.choice([1, 1, 0, 2, None]),
            "lognormal": rnd.chance(0.5),
            "parts": rnd.choice([1, 2, 3]),
            "workers": rnd.choice([1, 2, 3, 4]),
            "twice": rnd.chance(0.3),
            "save": False,
            "kills": [[rnd.randrange(4), rnd.random()] for _ in range(rnd.choice([0, 0, 1, 3]))],
            "crashes": [rnd.random() for _ in range(rnd.choice([0, 1, 1, 2, 3]))],
        }

    def run(self, case, st: Stats):
        getattr(self, "run_" + case["kind"])(case, st)

    # -- splitting

    def run_split(self, case, st):
        n, codes = case["n"], case["codes"]
        f, draws, angles, _, _ = SPLIT[case["op"]]

        def build():
            return f(np.random.default_rng(case["seed"]), n, case["k"])

        def call(fn, A, code, tape):
            xp = wl.namespace(code)
            rng = seams.SimRNG(case["seed"], tape)
            out = fn({k: to_backend(v, xp) for k, v in A.items()}, rng, xp)
            return [values.to_np(x) for x in (out if isinstance(out, tuple) else (out,))]

        def whole():
            log = []
            steps = Stats()
            out = []

            def tape(name, c, v):
                log.append((name, np.array(v)))
                return v

            A, _, fn, _ = build()
            simcase.simulate({"policy": {"kind": "serial"}, "sched": 0}, [lambda t: out.append(call(fn, A, "n", tape))], steps)
            return out[0], log, steps["steps"]

        want, log, steps = fresh(whole)
        A, axes, fn, outax = build()
        edges = [0, *case["cuts"], n]
        bounds = list(zip(edges[:-1], edges[1:]))
        rnd = Rnd("net", case["sched"])
        queue = list(range(len(bounds)))
        if case["net"]:
            for j in list(queue):
                while rnd.chance(0.25):
                    queue.append(j)
                    st.add("fault:message duplicated")
            rnd.shuffle(queue)
            st.add("fault:messages reordered")
        messages = [
            values.pickles({k: take(v, axes[k], lo, hi) if k in axes else v for k, v in A.items()})
            for lo, hi in bounds
        ]
        results: dict = {}
        unusable = set()

        def worker(task):
            code = codes[task.tid % len(codes)]
            while queue:
                j = queue.pop(0)
                if case["net"] and rnd.chance(0.1):
                    st.add("fault:message lost")
                    queue.append(j)
                    continue
                lo, hi = bounds[j]
                tape = Part(log, draws, lo, hi, n) if draws else None
                try:
                    got = call(fn, pickle.loads(messages[j]), code, tape)
                except sched.InjectedInterrupt:
                    st.add("fault:worker killed")
                    queue.append(j)
                    continue
                if tape is not None and not tape.usable:
                    unusable.add(j)
                    continue
                results.setdefault(j, []).append(got)

        nw = case["workers"]
        faults = [{"task": t % nw, "kind": "interrupt", "at": 1 + int(x * steps * len(bounds) / nw)} for t, x in case["kills"]]
        simcase.simulate(case, [worker] * nw, st, faults=faults)
        st.add("parts", len(bounds))
        st.add("split calls")
        st.nontrivial = len(bounds) > 1
        st.sig += values.digest([case["op"], case["cuts"], case["seed"]])
        what = f"{case['op']}, {n} entries cut at {case['cuts']}"
        if unusable:
            st.add("draws that cannot be cut", len(unusable))
        for j, (lo, hi) in enumerate(bounds):
            for got in results.get(j, []):
                for m, (x, w) in enumerate(zip(got, want)):
                    part = take(w, outax[m], lo, hi)
                    if x.shape != part.shape:
                        raise Violation("part-shape", f"{what}: part {j} has shape {x.shape} instead of {part.shape}")
                    if m in angles:
                        d = np.abs((x - part + 180) % 360 - 180)
                        ok = bool(np.all(d < 1e-8))
                    else:
                        ok = values.arr_close(x, part, 1e-9, 1e-11)
                    if not ok:
                        raise Violation(
                            "part-differs",
                            f"{what}: part {j} ({lo}:{hi}), result {m}: {values.brief(values.freeze(x))} instead of {values.brief(values.freeze(part))}",
                        )
            if j not in results and j not in unusable:
                raise HarnessError(f"part {j} was not done")

    # -- batches

    def run_batch(self, case, st):
        import healpix

        import glass

        g = np.random.default_rng(case["seed"])
        nside, dims = case["nside"], tuple(case["dims"])
        npix = 12 * nside**2
        delta = g.uniform(-1, 2, npix)
        vis = {"none": None, "map": g.uniform(0, 1, npix), "mask": (g.random(npix) < 0.5) * 1.0}[case["vis"]]
        ngal = g.uniform(0.2, 1, dims) * case["n"] / ARCMIN2
        A = {"ngal": ngal if dims else float(ngal), "delta": delta, "vis": vis}
        b = None if case["bias"] is None else 1.3
        out = []

        def body(batch):
            def fn(task):
                rng = np.random.default_rng(case["seed"])
                m = np.zeros((*dims, npix), int)
                total = np.zeros(dims, int)
                k = 0
                for lon, lat, count in glass.positions_from_delta(
                    A["ngal"], A["delta"], b, A["vis"], bias_model=glass.loglinear_bias if case["bias"] == "loglinear" else glass.linear_bias,
                    remove_monopole=case["mono"], batch=batch, rng=rng,
                ):
                    count = np.asarray(count)
                    k += 1
                    ipix = healpix.ang2pix(nside, np.asarray(lon), np.asarray(lat), lonlat=True)
                    total += count
                    np.add.at(m.reshape(-1, npix), (int(np.argmax(count.reshape(-1))), ipix), 1)
                out.append((batch, m, total, k))

            return fn

        simcase.simulate(case, [body(x) for x in case["batches"]], st, points="line")
        st.add("batches", sum(x[3] for x in out))
        st.add("calls with batches", 2)
        st.nontrivial = any(x[3] > 1 for x in out)
        st.sig += values.digest([case["seed"], case["batches"], out[0][1]])
        a, c = out
        for n, i in (("counts in pixels", 1), ("reported counts", 2)):
            if not np.array_equal(a[i], c[i]):
                raise Violation(
                    "batch-changes-counts",
                    f"{n} differ between batch={a[0]} ({a[i].sum()}) and batch={c[0]} ({c[i].sum()})",
                )

    # -- restarting

    def run_restart(self, case, st):
        tmp = healstore.scratch()
        try:
            self.restart(case, st, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def restart(self, case, st, tmp):
        want = fresh(lambda: wl.outcome(lambda: undisturbed(case, tmp)))
        if want[0] == "error":
            # rounding may leave the covariance not quite positive definite
            if want[1][1] != "ValueError":
                raise HarnessError(f"the simulation raised {want[1]}")
            st.add("simulations refused")
            st.nontrivial = False
            return
        want = want[1]
        store = {"config": values.pickles(config(case))}
        crashes = list(case["crashes"])
        steps = 40_000 * case["k"]
        turn = 0
        while True:
            turn += 1
            crash = crashes.pop(0) if crashes else None

            def life(store=store, turn=turn, crash=crash):
                """One life of the process."""
                sys.unraisablehook = lambda x: None
                s = Stats()
                cl = Cluster(case, store, tmp, Rnd("cluster", case["sched"], turn))
                nw = case["workers"]
                faults = [
                    {"task": t % nw, "kind": "interrupt", "at": 1 + int(x * steps / nw)}
                    for t, x in case["kills"]
                ] if turn == 1 else []
                end = "done"
                bad = None
                try:
                    simcase.simulate(
                        {**case, "sched": case["sched"] + turn}, [cl.worker] * nw, s, faults=faults,
                        budget=60_000_000 if crash is None else 1 + int(crash**2 * 4 * steps),
                    )
                except sched.StepBudget:
                    end = "crash" if crash is not None else "stuck"
                except Violation as v:
                    bad = (v.cls, v.detail)
                s.count.update(cl.stats)
                return end, bad, cl.store, dict(s.count), s.log, s.sig

            kind, val = in_child(life, 100.0)
            if kind == "timeout":
                raise Violation("no-progress", f"life {turn} does not end")
            if kind != "ok":
                raise HarnessError(str(val)[-1500:])
            end, bad, store, counts, log, sig = val
            for k, v in counts.items():
                st.add(k, v)
            st.log += log
            st.sig += sig
            if bad:
                raise Violation(*bad)
            if end == "stuck":
                raise Violation("no-progress", f"life {turn} does not end")
            if end == "done":
                break
            st.add("fault:process killed")
            st.log.append(f"process killed, {len(store)} entries in the store")
        st.add("simulations")
        st.nontrivial = True
        st.sig += values.digest([want[1][0]])
        got = Cluster(case, store, tmp, Rnd("x")).result()
        for (name, w), (_, x) in zip(want[1], got[1]):
            if not values.same(x, w, rtol=1e-9, atol=1e-11):
                raise Violation("restart-visible", f"{name}: {values.brief(x, 500)} instead of {values.brief(w, 500)}")

    # -- smaller cases

    def shrinks(self, case):
        if case["kind"] == "split":
            for ys in simcase.shrink_list(case["cuts"]):
                yield {**case, "cuts": ys}
            for ys in simcase.shrink_list(case["kills"]):
                yield {**case, "kills": ys}
            yield from simcase.simpler(case, [("net", False), ("workers", 1), ("codes", "n"), ("k", 1), ("k", 2)])
            n = case["n"]
            for m in (n // 2, n - 1):
                if 0 < m < n:
                    yield {**case, "n": m, "cuts": [x for x in case["cuts"] if x < m]}
        elif case["kind"] == "batch":
            yield from simcase.simpler(
                case, [("vis", "none"), ("mono", False), ("bias", None), ("dims", []), ("dims", [2]), ("nside", 1), ("nside", 2), ("n", 1), ("n", 5)]
            )
        else:
            for key in ("crashes", "kills"):
                for ys in simcase.shrink_list(case[key]):
                    yield {**case, key: ys}
            yield from simcase.simpler(
                case,
                [("workers", 1), ("twice", False), ("parts", 1), ("lognormal", False), ("dims", []), ("ncorr", 1), ("nside", 1),
                 ("n", 2), ("n", 10), ("k", 1), ("k", 2)],
            )
        yield from simcase.shrink_policy(case)

    concretise = staticmethod(lambda case, extra: None if case["kind"] == "restart" else simcase.concretise(case, extra))


CHECK = C14()
