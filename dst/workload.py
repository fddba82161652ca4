"""
Catalogue of calls into the public API.

Every entry builds the arguments of one call from a small JSON spec
``{"op", "seed", "xp", "n", "k", "nside"}`` and knows how to make the call.
Arguments are data only, so that they can be shared between callers.
"""

from __future__ import annotations

import math

import numpy as np

from . import sched, values

OPS: dict[str, "Op"] = {}


class Op:
    def __init__(self, name, build, *, stream, rng, xps, heavy, cb) -> None:
        self.name = name
        self.build = build
        self.stream = stream  # call returns an iterator
        self.rng = rng  # takes a random number generator
        self.xps = xps
        self.heavy = heavy
        self.cb = cb  # calls user code


def op(name, *, stream=False, rng=False, xps="ns", heavy=False, cb=False):
    def deco(f):
        OPS[name] = Op(name, f, stream=stream, rng=rng, xps=xps, heavy=heavy, cb=cb)
        return f

    return deco


def namespace(code: str):
    if code == "n":
        return np
    if code == "s":
        import array_api_strict

        return array_api_strict
    import jax.numpy as jnp

    return jnp


def generator(code: str, seed):
    """Random number generator as a user of the backend would make it."""
    import glass.rng

    return glass.rng.default_rng(seed=seed, xp=namespace(code))


# ------------------------------------------------------------ user's objects


class SimCosmology:
    """User supplied cosmology; every call is a point of the simulation."""

    def __init__(self, om=0.3) -> None:
        self.om = om

    @property
    def Omega_m0(self):
        sched.callback_point("cosmo.Omega_m0")
        return self.om

    @property
    def critical_density0(self):
        sched.callback_point("cosmo.critical_density0")
        return 3e4

    @property
    def hubble_distance(self):
        sched.callback_point("cosmo.hubble_distance")
        return 4.4e3

    @property
    def h(self):
        return 0.7

    def H_over_H0(self, z):
        sched.callback_point("cosmo.H_over_H0")
        return (self.om * (1 + z) ** 3 + 1 - self.om) ** 0.5

    def xm(self, z, z2=None):
        f = lambda x: np.asarray(x) / (1 + 0.3 * np.asarray(x))  # noqa: E731
        if z2 is None:
            return f(z)
        return f(z2) - f(z)

    def comoving_distance(self, z, z2=None):
        sched.callback_point("cosmo.comoving_distance")
        return self.xm(z, z2) * 4.4e3

    def inv_comoving_distance(self, d):
        sched.callback_point("cosmo.inv_comoving_distance")
        x = d / 4.4e3
        return x / (1 - 0.3 * x)

    def transverse_comoving_distance(self, z, z2=None):
        sched.callback_point("cosmo.transverse_comoving_distance")
        return self.xm(z, z2) * 4.4e3

    def Omega_m(self, z):
        sched.callback_point("cosmo.Omega_m")
        return self.om * (1 + z) ** 3 / (self.om * (1 + z) ** 3 + 1 - self.om)

    def growth_factor(self, z):
        sched.callback_point("cosmo.growth_factor")
        return 1 / (1 + z)


class StrictCosmology(SimCosmology):
    """The same, for arrays that cannot be mixed with NumPy arrays."""

    def xm(self, z, z2=None):
        if z2 is None:
            return z / (1 + 0.3 * z)
        return np.asarray(
            [float(z2) / (1 + 0.3 * float(z2)) - float(a) / (1 + 0.3 * float(a)) for a in z]
        )


def user_bias(delta, b):
    sched.callback_point("bias_model")
    return b * delta + 0.1 * delta * delta


def user_weight(z):
    sched.callback_point("weight")
    return 1 + z * z


def user_shift(z):
    sched.callback_point("shift")
    return 0.5 + z


def user_transformation():
    import glass.grf

    class Shifted:
        """User supplied transformation."""

        def __init__(self, s) -> None:
            self.s = s

        def __call__(self, x, var):
            sched.callback_point("transformation")
            return x + self.s * var

        def corr(self, other, x):
            sched.callback_point("transformation.corr")
            return x if isinstance(other, (Shifted, glass.grf.Normal)) else NotImplemented

        def icorr(self, other, x):
            sched.callback_point("transformation.icorr")
            return x if isinstance(other, (Shifted, glass.grf.Normal)) else NotImplemented

        def dcorr(self, other, x):
            sched.callback_point("transformation.dcorr")
            return 1 + 0 * x

    return Shifted


# ------------------------------------------------------------------- helpers


class Env:
    """Deterministic source of argument values for one spec."""

    def __init__(self, spec) -> None:
        self.spec = spec
        # structure and data are separate, so that calls of the same structure
        # with other data can be made
        self.sg = np.random.default_rng([spec["seed"], 1])
        self.g = np.random.default_rng([spec["seed"], 2, spec.get("data", 0)])
        self.code = spec["xp"]
        self.xp = namespace(self.code)
        self.n = spec["n"]
        self.k = spec["k"]
        self.nside = spec["nside"]
        self.npix = 12 * self.nside**2

    def a(self, x, dtype=None):
        return self.xp.asarray(np.array(x), dtype=dtype) if dtype else self.xp.asarray(np.array(x))

    def i(self, lo, hi) -> int:
        return int(self.sg.integers(lo, hi))

    def coin(self, p=0.5) -> bool:
        return bool(self.sg.random() < p)

    def wild(self, x, p=0.2):
        """Sometimes, change some of the values to less harmless ones."""
        x = np.array(x)
        if self.coin(p):
            at = self.g.random(x.shape) < 0.3
            x[at] *= self.g.choice([0.0, -1.0, -3.0, 10.0], size=int(at.sum()))
        return x

    def lonlat(self, n=None):
        n = self.n if n is None else n
        lon = self.g.uniform(-180, 180, n)
        lat = np.degrees(np.arcsin(self.g.uniform(-1, 1, n)))
        return lon, lat

    def cls(self, k=None, lmax=None, ragged=False):
        """Positive definite spectra in standard order, as NumPy arrays."""
        k = self.k if k is None else k
        lmax = self.i(2, 9) if lmax is None else lmax
        ell = np.arange(lmax + 1)
        amp = self.g.uniform(0.5, 1.5, k)
        rho = self.g.uniform(0.1, 0.7)
        out = []
        for i in range(k):
            for j in range(i, -1, -1):
                cl = amp[i] * amp[j] * rho ** (i - j) * 0.02 / (1 + ell) ** 1.2
                if ragged and i != j:
                    cl = cl[: self.i(0, lmax + 2)]
                out.append(cl)
        return out

    def shells(self, k=None, nz=None):
        import glass

        k = self.k if k is None else k
        edges = np.concatenate([[0.0], np.cumsum(self.g.uniform(0.1, 0.4, k + 1))])
        kind = self.i(0, 2)
        out = []
        for j in range(k):
            if kind == 0:
                za = np.linspace(edges[j], edges[j + 1], nz or 11)
                wa = np.ones_like(za)
            else:
                za = np.linspace(edges[j], edges[j + 2], nz or 11)
                m = edges[j + 1]
                wa = np.where(za < m, (za - edges[j]) / (m - edges[j]), (edges[j + 2] - za) / (edges[j + 2] - m))
                wa = np.clip(wa, 0.0, None)
            zeff = float(0.5 * (za[0] + za[-1]) if kind == 0 else edges[j + 1])
            out.append(glass.RadialWindow(self.a(za), self.a(wa), zeff))
        return out

    def cosmo(self):
        return StrictCosmology() if self.code == "s" else SimCosmology()

    def nz(self, m=21, lead=()):
        z = np.linspace(0.0, 2.0, m)
        p = self.g.uniform(0.1, 1.0, (*lead, m))
        return z, p


def positive_shapes(e: Env):
    return e.g.uniform(0.05, 0.35)


# ----------------------------------------------------------- sampling: points


@op("positions_from_delta", stream=True, rng=True, cb=True)
def _(e):
    import glass

    lead = {0: (), 1: (e.k,), 2: (2, e.k)}[e.i(0, 3)] if e.npix < 1000 else ()
    delta = e.wild(e.g.uniform(-1, 2, (*lead, e.npix)))
    total = e.n
    ngal = total / (4 * math.pi * (180 * 60 / math.pi) ** 2) / max(1, int(np.prod(lead)))
    A = {"ngal": e.a(np.full(lead[-1:], ngal)) if lead and e.coin() else ngal}
    A["delta"] = e.a(delta)
    how = e.i(0, 4)
    kw = {}
    if how == 1:
        A["bias"] = e.a(e.g.uniform(0.5, 1.5, lead[-1:])) if lead else 0.8
    elif how == 2:
        A["bias"] = e.a(e.g.uniform(0.5, 1.5, lead[-1:])) if lead else e.a(1.2)
        kw["bias_model"] = user_bias
    elif how == 3 and not lead:
        A["bias"] = e.a(0.7)
        kw["bias_model"] = glass.loglinear_bias
    if e.coin():
        v = e.g.uniform(0, 1, e.npix)
        v[e.g.random(e.npix) < 0.4] = 0.0
        if lead and e.coin(0.4):
            v = np.stack([np.roll(v, j) for j in range(lead[-1])])
        A["vis"] = e.a(v)
    kw["remove_monopole"] = e.coin(0.3)
    kw["batch"] = [1 if total < 200 else 61, 7 if total < 200 else 97, max(1, total // 3), total, 1_000_000][e.i(0, 5)]
    return A, lambda A, rng: glass.positions_from_delta(**A, **kw, rng=rng)


@op("uniform_positions", stream=True, rng=True)
def _(e):
    import glass

    shape = [(), (e.k,), (2, e.k), (1, 2, 2), None][e.i(0, 5)]
    u = e.n / (4 * math.pi * (180 * 60 / math.pi) ** 2)
    if shape is None:
        A = {"ngal": float(e.g.uniform(0, 2 * u))}
    else:
        A = {"ngal": e.a(e.g.uniform(0, 2 * u, shape))}
    return A, lambda A, rng: glass.uniform_positions(A["ngal"], rng=rng, xp=e.xp)


@op("position_weights")
def _(e):
    import glass

    shape = (e.k,) if e.coin() else (e.k, 3)
    A = {"densities": e.a(e.g.uniform(0.1, 1, shape))}
    c = e.i(0, 3)
    A["bias"] = [None, 1.5, e.a(e.g.uniform(0.5, 2, e.k))][c]
    if e.coin(0.2):
        A["densities"], A["bias"] = e.a(e.g.uniform(0.1, 1, (2, e.k))), e.a(e.g.uniform(0.5, 2, (2, e.k)))
    return A, lambda A, rng: glass.position_weights(A["densities"], A["bias"])


@op("displace")
def _(e):
    import glass

    lon, lat = e.lonlat()
    al = e.wild(e.g.normal(0, 0.1, (2, e.n)))
    if e.coin(0.2):
        # one position, many displacements
        lon, lat = lon[0], lat[0]
    A = {"lon": e.a(lon), "lat": e.a(lat), "alpha": e.a(al[0] + 1j * al[1]) if e.coin() else e.a(al)}
    return A, lambda A, rng: glass.displace(**A)


@op("displacement")
def _(e):
    import glass

    lon, lat = e.lonlat()
    lo2, la2 = e.lonlat()
    A = {"from_lon": e.a(lon), "from_lat": e.a(lat), "to_lon": e.a(lo2), "to_lat": e.a(la2)}
    return A, lambda A, rng: glass.displacement(**A)


@op("deflect")
def _(e):
    import glass

    lon, lat = e.lonlat()
    al = e.wild(e.g.normal(0, 0.1, (2, e.n)))
    A = {"lon": e.a(lon), "lat": e.a(lat), "alpha": e.a(al[0] + 1j * al[1]) if e.coin() else e.a(al)}
    return A, lambda A, rng: glass.deflect(**A)


@op("effective_bias")
def _(e):
    import glass

    z = np.linspace(0, 3, 13)
    A = {"z": e.a(z), "bz": e.a(e.g.uniform(1, 2, 13)), "w": e.shells(1)[0]}
    return A, lambda A, rng: glass.effective_bias(A["z"], A["bz"], A["w"])


@op("bias_models")
def _(e):
    import glass

    A = {"delta": e.a(e.wild(e.g.uniform(-0.9, 2, e.n), 0.4)), "b": e.a(e.g.uniform(0.5, 2))}
    return A, lambda A, rng: (
        glass.linear_bias(A["delta"], A["b"]),
        glass.loglinear_bias(A["delta"], A["b"]),
    )


# ------------------------------------------------------- sampling: galaxies


@op("redshifts", rng=True)
def _(e):
    import glass

    n = [e.n, e.a(np.int64(e.n)), e.a(e.g.integers(0, e.n + 1, e.k))][e.i(0, 3)]
    A = {"n": n, "w": e.shells(1)[0]}
    return A, lambda A, rng: glass.redshifts(A["n"], A["w"], rng=rng)


@op("redshifts_from_nz", rng=True)
def _(e):
    import glass

    c = e.i(0, 5)
    m = [21, 21, 2, 3][e.i(0, 4)]
    if c == 0:
        z, nz = e.nz(m)
        A = {"count": e.a(np.int64(e.n)), "z": e.a(z), "nz": e.a(nz)}
    elif c == 1:
        z, nz = e.nz(m)
        A = {"count": e.n, "z": e.a(z), "nz": e.a(nz)}
    elif c == 2:
        z, nz = e.nz(m, lead=(2, e.k))
        A = {"count": e.a(e.g.integers(0, e.n + 1, (2, e.k))), "z": e.a(z), "nz": e.a(nz)}
    else:
        z, nz = e.nz(m, lead=(e.k,))
        A = {"count": e.a(e.g.integers(0, e.n + 1, e.k)), "z": e.a(z), "nz": e.a(nz)}
    warn = e.coin(0.2)
    return A, lambda A, rng: glass.redshifts_from_nz(**A, rng=rng, warn=warn)


@op("redshifts_from_bins", rng=True)
def _(e):
    import glass

    m = [21, 21, 2][e.i(0, 3)]
    z, nz = e.nz(m, lead=(e.k,))
    shape = [(e.n,), (e.n, 2), (2, 1, e.n), (0,)][e.i(0, 4) if e.coin() else 0]
    bins = e.g.integers(0, e.k, shape)
    labels = list(range(e.k))
    c = e.i(0, 4)
    if c == 0 and e.code == "n" and not e.spec.get("twin"):
        # labels need not be numbers
        labels = ["low", "mid", "high", "source"][: e.k]
        bins = np.asarray(labels)[bins]
    elif c == 1:
        labels = [7 * j - 3 for j in range(e.k)]
        bins = 7 * bins - 3
    A = {"bins": e.a(bins), "z": e.a(z), "nz": {x: e.a(nz[j]) for j, x in enumerate(labels)}}
    return A, lambda A, rng: glass.redshifts_from_bins(A["bins"], A["z"], A["nz"], rng=rng)


@op("galaxy_shear")
def _(e):
    import glass

    lon, lat = e.lonlat()
    A = {
        "lon": e.a(lon),
        "lat": e.a(lat),
        "eps": e.a(e.g.normal(0, 0.2, e.n) + 1j * e.g.normal(0, 0.2, e.n)),
        "kappa": e.a(e.wild(e.g.normal(0, 0.1, e.npix))),
        "gamma1": e.a(e.wild(e.g.normal(0, 0.1, e.npix))),
        "gamma2": e.a(e.wild(e.g.normal(0, 0.1, e.npix))),
    }
    red = e.coin()
    return A, lambda A, rng: glass.galaxy_shear(**A, reduced_shear=red)


@op("gaussian_phz", rng=True)
def _(e):
    import glass

    z = e.g.uniform(0, 2, e.n)
    if e.coin(0.2):
        A = {"z": e.a(z[0]), "sigma_0": float(e.g.uniform(0.01, 0.2))}
        if e.coin():
            A["lower"], A["upper"] = e.a(z[0] - 0.1), e.a(z[0] + 0.1)
        return A, lambda A, rng: glass.gaussian_phz(**A, rng=rng)
    A = {"z": e.a(z), "sigma_0": e.a(e.g.uniform(0.01, 0.2)), "lower": None, "upper": None}
    c = e.i(0, 4)
    if c == 1:
        A["lower"], A["upper"] = e.a(z - 0.1), e.a(z + 0.1)
    elif c == 2:
        A["lower"], A["upper"] = e.a(-0.5), e.a(2.5)
    elif c == 3:
        A["upper"] = e.a(2.2)
    return A, lambda A, rng: glass.gaussian_phz(**A, rng=rng)


@op("kappa_ia")
def _(e):
    import glass.galaxies

    A = {"delta": e.a(e.g.normal(size=e.npix)), "cosmo": e.cosmo()}
    return A, lambda A, rng: glass.galaxies._kappa_ia_nla(A["delta"], 0.5, 1.0, A["cosmo"])


# --------------------------------------------------------- sampling: shapes


@op("triaxial_axis_ratio", rng=True)
def _(e):
    import glass

    A = {"zeta": e.a(e.g.uniform(0.2, 1, e.n)), "xi": e.a(e.g.uniform(0.1, 0.2, e.n))}
    c = e.i(0, 4)
    if c == 1:
        A = {"zeta": e.a(0.7), "xi": e.a(0.3)}
    elif c == 2:
        A = {"zeta": 0.7, "xi": e.a(e.g.uniform(0.1, 0.2, e.n))}
    elif c == 3:
        A = {"zeta": e.a(0.7), "xi": e.a(e.g.uniform(0.1, 0.2)), "size": [e.n, (2, e.n)][e.i(0, 2)]}
    return A, lambda A, rng: glass.triaxial_axis_ratio(**A, rng=rng)


@op("ellipticity_ryden04", rng=True)
def _(e):
    import glass

    A = {
        "mu": e.a(e.g.uniform(-2.2, -1.5, e.n)),
        "sigma": e.a(1.0),
        "gamma": e.a(0.22),
        "sigma_gamma": e.a(e.g.uniform(0.05, 0.3)),
    }
    c = e.i(0, 4)
    if c == 1:
        A = {k: e.a(v) for k, v in (("mu", -1.85), ("sigma", 0.89), ("gamma", 0.222), ("sigma_gamma", 0.056))}
        A["size"] = [None, e.n, (e.n, 2)][e.i(0, 3)]
    elif c == 2:
        A["sigma"] = e.a(e.g.uniform(0.5, 1.2, (2, 1)))
    return A, lambda A, rng: glass.ellipticity_ryden04(**A, rng=rng)


def _counts(e):
    c = e.i(0, 4)
    if c == 0:
        return e.a(np.int64(e.n)), e.a(positive_shapes(e))
    if c == 3:
        return e.a(np.int64(e.n)), e.a(e.g.uniform(0.05, 0.45, e.k))
    if c == 1:
        return e.a(e.g.integers(0, e.n + 1, e.k)), e.a(positive_shapes(e))
    return e.a(e.g.integers(0, e.n + 1, (2, e.k))), e.a(e.g.uniform(0.05, 0.45, e.k))


@op("ellipticity_gaussian", rng=True)
def _(e):
    import glass

    c, s = _counts(e)
    A = {"count": c, "sigma": s}
    return A, lambda A, rng: glass.ellipticity_gaussian(**A, rng=rng)


@op("ellipticity_intnorm", rng=True)
def _(e):
    import glass

    c, s = _counts(e)
    A = {"count": c, "sigma": s}
    return A, lambda A, rng: glass.ellipticity_intnorm(**A, rng=rng)


@op("resample_shapes", rng=True)
def _(e):
    import glass

    A = {"eps": e.a(e.wild(e.g.normal(0, 0.3, e.n) + 1j * e.g.normal(0, 0.3, e.n)))}
    kw = [{}, {"varg": 1e-3}, {"vargamma": 1e-3}][e.i(0, 3)]
    if e.n < 3:
        kw = {}
    return A, lambda A, rng: glass.resample_shapes(A["eps"], **kw, rng=rng)


# ------------------------------------------------------------------- shells


@op("windows", cb=True)
def _(e):
    import glass

    A = {"z": e.a(np.concatenate([[0.0], np.cumsum(e.g.uniform(0.05, 0.2, e.k + 2))]))}
    if e.coin(0.2):
        A["z"] = A["z"] + 0.1
    f = [glass.tophat_windows, glass.linear_windows, glass.cubic_windows][e.i(0, 3)]
    w = [
        None,
        user_weight,
        glass.DistanceWeight(e.cosmo()),
        glass.VolumeWeight(e.cosmo()),
        glass.DensityWeight(e.cosmo()),
    ][e.i(0, 5)]
    return A, lambda A, rng: f(A["z"], dz=0.02, weight=w)


@op("restrict")
def _(e):
    import glass

    z = np.linspace(0, 1.5, 17)
    f = e.g.uniform(0, 1, [(17,), (2, 17)][e.i(0, 2)])
    A = {"z": e.a(z), "f": e.a(f), "w": e.shells(1)[0]}
    return A, lambda A, rng: glass.restrict(A["z"], A["f"], A["w"])


@op("radial_window")
def _(e):
    import glass

    za = np.cumsum(e.g.uniform(0.01, 0.2, e.n + 1))
    A = {"za": e.a(za), "wa": e.a(e.g.uniform(0.1, 1, e.n + 1))}

    def call(A, rng):
        w = glass.RadialWindow(A["za"], A["wa"])
        v = glass.RadialWindow(A["za"], A["wa"], 0.5)
        return w.zeff, v.zeff, w.za, w.wa, [x for x in v]

    return A, call


@op("partition")
def _(e):
    import glass

    m = ["nnls", "lstsq", "restrict"][e.i(0, 3)]
    lead = [(), (2,)][e.i(0, 2)]
    z = np.linspace(0, 1.5, 17)
    A = {"z": e.a(z), "fz": e.a(e.g.uniform(0, 1, (*lead, 17))), "shells": e.shells()}
    return A, lambda A, rng: glass.partition(A["z"], A["fz"], A["shells"], method=m)


@op("grids", cb=True)
def _(e):
    import glass

    zmax = e.g.uniform(1, 3)
    c = e.cosmo() if e.code == "n" else SimCosmology()
    A = {"cosmo": c}
    return A, lambda A, rng: (
        glass.redshift_grid(0.0, zmax, num=e.n % 50 + 1, xp=e.xp),
        glass.redshift_grid(0.0, zmax, dz=0.1, xp=e.xp),
        glass.distance_grid(A["cosmo"], 0.0, zmax, num=5),
        glass.distance_grid(A["cosmo"], 0.0, zmax, dx=700.0),
    )


@op("combine")
def _(e):
    import glass

    sh = e.shells()
    A = {"z": e.a(np.linspace(0, 2, 31)), "w": e.a(e.g.uniform(0, 1, [(e.k,), (e.k, 2), (e.k, 1, 3)][e.i(0, 3)])), "shells": sh}
    return A, lambda A, rng: glass.combine(A["z"], A["w"], A["shells"])


@op("distribute", rng=True)
def _(e):
    import glass

    sh = e.shells()
    shape = (e.n,) if e.coin() else (2, e.n)
    A = {"z": e.a(e.g.uniform(0, 1.5, shape)), "shells": sh}
    return A, lambda A, rng: glass.distribute(A["z"], A["shells"], rng=rng)


# ------------------------------------------------------------------- fields


@op("generate", stream=True, rng=True, cb=True)
def _(e):
    import glass
    import glass.grf as grf

    cls = e.cls()
    kind = e.i(0, 3)
    if kind == 0:
        fields = [grf.Normal() for _ in range(e.k)]
    elif kind == 1:
        fields = [grf.Lognormal(float(e.g.uniform(0.5, 1.5))) for _ in range(e.k)]
    else:
        T = user_transformation()
        fields = [T(0.1 * j) for j in range(e.k)]
    A = {"fields": fields, "gls": [e.a(c) for c in cls]}
    ncorr = [None, 0, 1, 2][e.i(0, 4)]
    nside = min(e.nside, 4)
    return A, lambda A, rng: glass.generate(A["fields"], A["gls"], nside, ncorr=ncorr, rng=rng)


@op("generate_deprecated", stream=True, rng=True)
def _(e):
    import glass

    A = {"gls": [e.a(c) for c in e.cls()]}
    nside = min(e.nside, 4)
    if e.coin():
        return A, lambda A, rng: glass.generate_gaussian(A["gls"], nside, ncorr=1, rng=rng)
    return A, lambda A, rng: glass.generate_lognormal(A["gls"], nside, 1.3, rng=rng)


@op("iternorm", stream=True)
def _(e):
    import glass

    c = e.cls(lmax=4)
    ncorr = e.i(0, e.k)
    A = {"cov": [e.a(x) for x in _rows(c, e.k, 5, ncorr)]}
    return A, lambda A, rng: glass.iternorm(A["cov"])


def _rows(cls, k, nl, nc):
    out = []
    end = 0
    for j in range(k):
        begin, end = end, end + j + 1
        row = np.zeros((nl, nc + 1))
        for i, cl in enumerate(cls[begin:end][: nc + 1]):
            row[: len(cl), i] = cl
        out.append(row / 2)
    return out


@op("cls2cov")
def _(e):
    import glass

    A = {"cls": [e.a(x) for x in e.cls(lmax=4)]}
    nc = e.i(0, e.k)

    def call(A, rng):
        # the covariance is only valid until the next iteration
        return [e.xp.asarray(c, copy=True) for c in glass.cls2cov(A["cls"], 5, e.k, nc)]

    return A, call


@op("spectra_tools")
def _(e):
    import glass

    A = {"cls": [e.a(x) for x in e.cls(lmax=6)]}
    w = e.a(e.g.uniform(0, 1, (e.k, 2)))
    A["w1"] = w
    A["w2"] = [None, e.a(e.g.uniform(0, 1, e.k))][e.i(0, 2)]

    def call(A, rng):
        c = A["cls"]
        return [
            glass.discretized_cls(c, lmax=4, ncorr=1),
            glass.discretized_cls(c, lmax=4),
            glass.discretized_cls(c),
            glass.discretized_cls(c, nside=4),
            glass.discretized_cls(c, nside=2, lmax=5, ncorr=2),
            glass.getcl(c, e.k - 1, 0, lmax=8),
            glass.effective_cls(c, A["w1"], A["w2"], lmax=5),
            list(glass.enumerate_spectra(c)),
            glass.glass_to_healpix_spectra(c),
            glass.healpix_to_glass_spectra(c),
            glass.cov_from_spectra(c),
            glass.check_posdef_spectra(c),
            glass.nfields_from_nspectra(len(c)),
            glass.spectra_indices(e.k, xp=e.xp),
        ]

    return A, call


@op("regularized_spectra")
def _(e):
    import glass

    c = e.cls(lmax=4)
    c = [x * (1.0 if i % 2 == 0 else 3.0) for i, x in enumerate(c)]
    A = {"cls": [e.a(x) for x in c]}
    m = ["nearest", "clip"][e.i(0, 2)]
    return A, lambda A, rng: glass.regularized_spectra(A["cls"], method=m)


@op("gaussian_spectra", cb=True, xps="ns")
def _(e):
    import glass
    import glass.grf as grf

    k = min(e.k, 3)
    kind = e.i(0, 3)
    if kind == 0:
        fields = [grf.Lognormal(1.0 + 0.1 * j) for j in range(k)]
    elif kind == 1:
        fields = [grf.Normal() for j in range(k)]
    else:
        T = user_transformation()
        fields = [T(0.1) for j in range(k)]
    A = {"fields": fields, "cls": [e.a(x) for x in e.cls(k)]}
    if e.code == "s" or e.spec.get("twin"):
        return A, lambda A, rng: glass.solve_gaussian_spectra(A["fields"], A["cls"])
    return A, lambda A, rng: (
        glass.compute_gaussian_spectra(A["fields"], A["cls"]),
        glass.solve_gaussian_spectra(A["fields"], A["cls"]),
    )


@op("lognormal_gls", xps="ns")
def _(e):
    import glass

    A = {"cls": [e.a(x) for x in e.cls(min(e.k, 2))]}
    return A, lambda A, rng: glass.lognormal_gls(A["cls"], 1.2)


@op("fields_from_shells", cb=True)
def _(e):
    import glass

    A = {"shells": e.shells()}
    return A, lambda A, rng: (
        glass.gaussian_fields(A["shells"]),
        glass.lognormal_fields(A["shells"]),
        glass.lognormal_fields(A["shells"], user_shift),
        glass.lognormal_fields(A["shells"], glass.lognormal_shift_hilbert2011),
    )


@op("grf_functions")
def _(e):
    import glass.grf as grf

    A = {"x": e.a(e.g.uniform(0, 0.5, e.n)), "cl": e.a(e.cls(1, 8)[0])}
    t = [
        (grf.Normal(), grf.Normal()),
        (grf.Lognormal(1.1), grf.Lognormal(0.9)),
        (grf.Normal(), grf.Lognormal(1.2)),
        (grf.SquaredNormal(1.5, 1.1), grf.SquaredNormal(1.2)),
    ][e.i(0, 4)]
    A["t"] = list(t)

    def call(A, rng):
        t1, t2 = A["t"]
        return (
            grf.corr(t1, t2, A["x"]),
            grf.icorr(t1, t2, A["x"]),
            grf.dcorr(t1, t2, A["x"]),
            t1(A["x"], 0.1),
            grf.solve(A["cl"], t1, t2, pad=5, maxiter=4),
        )

    return A, call


# ------------------------------------------------------------------ lensing


@op("multi_plane", cb=True)
def _(e):
    import glass

    sh = e.shells()
    A = {"shells": sh, "w": e.a(e.g.uniform(0.1, 1, (e.k, 2))), "cosmo": e.cosmo()}
    return A, lambda A, rng: (
        glass.multi_plane_matrix(A["shells"], A["cosmo"]),
        glass.multi_plane_weights(A["w"], A["shells"], A["cosmo"]),
    )


@op("convergence", stream=True, cb=True)
def _(e):
    import glass

    sh = e.shells()
    planes = e.coin(0.3)
    A = {
        "shells": sh,
        "delta": [e.a(e.g.normal(size=e.npix)) for _ in sh],
        "cosmo": e.cosmo(),
    }

    def call(A, rng):
        def it():
            mpc = glass.MultiPlaneConvergence(A["cosmo"])
            for d, w in zip(A["delta"], A["shells"]):
                if planes:
                    mpc.add_plane(d, w.zeff, 0.1)
                else:
                    mpc.add_window(d, w)
                yield values.Held(mpc.kappa), mpc.zsrc, mpc.wlens, mpc.delta + 0.0

        return it()

    return A, call


@op("lensing_maps", xps="ns")
def _(e):
    import glass

    nside = min(e.nside, 4)
    A = {"kappa": e.a(e.g.normal(size=12 * nside**2))}
    d = e.coin()
    flags = {k: e.coin(0.6) for k in ("potential", "deflection", "shear")}
    if e.code == "n" and not e.spec.get("twin") and e.coin(0.4):
        return A, lambda A, rng: glass.shear_from_convergence(A["kappa"], discretized=d)
    return A, lambda A, rng: glass.from_convergence(A["kappa"], **flags, discretized=d)


# ------------------------------------------------------------- observations


@op("vmap", heavy=True)
def _(e):
    import glass

    ns = min(e.nside, 4)
    g, c = e.i(20, 40), e.i(10, 30)
    return {}, lambda A, rng: glass.vmap_galactic_ecliptic(
        ns, (g, g + 50), (c, c + 50), xp=e.xp
    )


@op("nz")
def _(e):
    import glass

    A = {
        "z": e.a(np.linspace(0.0, 3, 41)),
        "mean": e.a(e.g.uniform(0.3, 1, e.k)),
        "sigma": e.a(e.g.uniform(0.1, 0.3, e.k)),
        "norm": [None, 1.5, e.a(e.g.uniform(1, 2, (e.k, 1)))][e.i(0, 3)],
    }
    more = [{}, {"norm": 2.0}][e.i(0, 2)]

    def call(A, rng):
        nz = glass.gaussian_nz(A["z"], A["mean"], A["sigma"], norm=A["norm"])
        sm = glass.smail_nz(A["z"], A["mean"], e.a(2.0), e.a(1.5), **more)
        zb = glass.equal_dens_zbins(A["z"], sm[0, :], 3)
        fb = glass.fixed_zbins(0.0, 2.0, nbins=4, xp=e.xp)
        fd = glass.fixed_zbins(0.0, 2.0, dz=0.5, xp=e.xp)
        tb = glass.tomo_nz_gausserr(
            A["z"], sm[0, :], 0.05, [(float(a), float(b)) for a, b in zb]
        )
        return nz, sm, zb, fb, fd, tb

    return A, call


# ---------------------------------------------------------------- algorithms


@op("algorithm")
def _(e):
    import glass.algorithm as alg

    k = e.k + 1
    m = e.g.normal(size=(3, k, k))
    cov = m @ np.swapaxes(m, -1, -2)
    d = np.sqrt(np.diagonal(cov, axis1=-2, axis2=-1))
    corr = cov / d[:, None, :] / d[:, :, None]
    noise = e.g.normal(size=(k, k)) * 0.3
    bad = corr + noise + noise.T
    A = {
        "cov": e.a(cov + noise + noise.T),
        "corr": e.a(bad),
        "a": e.a(e.g.uniform(0, 1, (k + 2, k))),
        "b": e.a(e.g.normal(size=k + 2)),
    }
    for i in range(k):
        bad[:, i, i] = 1.0
    A["corr"] = e.a(bad)

    def call(A, rng):
        out = [alg.cov_clip(A["cov"]), alg.nearcorr(A["corr"], niter=20)]
        out.append(alg.cov_nearest(A["corr"] * 2.0, niter=20))
        out.append(alg.nnls(A["a"], A["b"]))
        return out

    return A, call


@op("arraytools")
def _(e):
    import glass.arraytools as at

    x = np.sort(e.g.uniform(0, 1, 9))
    A = {
        "x": e.a(x),
        "f": e.a(e.g.uniform(0, 1, (e.k, 9))),
        "q": e.a(e.g.uniform(0, 1, e.n)),
        "s": e.a(e.g.uniform(0, 1, e.k)),
    }

    def call(A, rng):
        return (
            at.broadcast_first(A["f"], A["s"]),
            at.broadcast_leading_axes((A["s"], 0), (A["f"], 1)),
            at.ndinterp(A["q"], A["x"], A["f"]),
            at.trapezoid_product((A["x"], A["f"][0, :]), (A["x"], A["f"][-1, :])),
            at.cumulative_trapezoid(A["f"], A["x"]),
        )

    return A, call


# ------------------------------------------------------------------- healpix


@op("healpix", rng=False)
def _(e):
    import glass.harmonics
    import glass.healpix as hp

    lon, lat = e.lonlat()
    lmax = 3
    na = (lmax + 1) * (lmax + 2) // 2
    alm = e.g.normal(size=(2, na)) + 1j * e.g.normal(size=(2, na))
    A = {
        "lon": e.a(lon),
        "lat": e.a(lat),
        "alm": e.a(alm[0]),
        "blm": e.a(alm[1]),
        "fl": e.a(e.g.normal(size=lmax + 1)),
        "m": e.a(e.g.normal(size=12 * 4)),
        "ipix": e.a(e.g.integers(0, e.npix, e.n)),
    }

    def call(A, rng):
        return (
            hp.ang2pix(e.nside, A["lon"], A["lat"], lonlat=True),
            hp.ang2vec(A["lon"], A["lat"], lonlat=True),
            hp.almxfl(A["alm"], A["fl"]),
            hp.alm2map(A["alm"], 2, lmax=lmax, pol=False),
            hp.alm2map_spin([A["alm"], A["blm"]], 2, 2, lmax),
            hp.map2alm(A["m"], lmax=lmax, pol=False),
            hp.get_nside(A["m"]),
            hp.npix2nside(e.npix),
            hp.nside2npix(e.nside),
            hp.randang(e.nside, A["ipix"], lonlat=True),
            hp.query_strip(e.nside, (0.3, 1.0), xp=e.xp),
            hp.Rotator(coord="GC").rotate_map_pixel(A["m"]),
            glass.harmonics.multalm(A["alm"], A["fl"]),
        )

    return A, call


@op("rng", rng=True)
def _(e):
    import glass.rng as r

    def call(A, rng):
        g = r.Generator(rng=rng, xp=e.xp)
        h = r.Generator(seed=e.spec["seed"], xp=e.xp)
        d = r.default_rng(xp=e.xp)
        return (
            g.random(3),
            g.normal(1.0, 2.0, 4),
            g.poisson(3.0, 5),
            g.standard_normal((2, 2)),
            g.uniform(-1, 1, 3),
            g.multinomial(10, [0.2, 0.3, 0.5]),
            h.random(2),
            d.random(2),
        )

    return {}, call


@op("rng_given", rng=True)
def _(e):
    """Draws of all kinds from the generator given, with arrays as parameters."""
    import glass.rng as r

    big = e.i(0, 3) == 0
    A = {
        "lam": e.a(e.g.uniform(0, 4, e.n + 1) * (1e10 if big else 1.0)),
        "loc": e.a(e.g.normal(size=e.n + 1) * (1e9 if big else 1.0)),
        "scale": e.a(e.g.uniform(0.5, 2, e.n + 1)),
        "p": e.a(np.array([0.2, 0.3, 0.5])),
    }

    def call(A, rng):
        g = r.Generator(rng=rng, xp=e.xp)
        return (
            g.poisson(A["lam"]),
            g.normal(A["loc"], A["scale"]),
            g.uniform(A["loc"], A["loc"] + A["scale"]),
            g.normal(0.0, 2.0, (e.k, 2)),
            g.poisson(2.5, (2, e.k)),
            g.uniform(-1.0, 1.0, e.n),
            g.random((e.k, 1)),
            g.random(e.n),
            g.standard_normal(e.n),
            g.standard_normal((1, e.k)),
            g.multinomial(1, A["p"], e.n),
            g.multinomial(7, A["p"]),
        )

    return A, call


@op("invalid", rng=True)
def _(e):
    """Calls that are refused, each by another rule."""
    import glass
    import glass.algorithm
    import glass.grf as grf

    a = e.a
    one = a(np.ones(4))
    cls = [a(np.ones(3)), a(np.ones(3)), a(np.ones(3))]
    w = e.shells(2)
    mat = a(np.array([[-1.0, 0.1], [0.1, 1.0]]))
    calls = [
        lambda rng: glass.ellipticity_intnorm(3, 0.9, rng=rng, xp=e.xp),
        lambda rng: glass.ellipticity_intnorm(e.n, a(np.array([0.1, -0.1])), rng=rng),
        lambda rng: glass.gaussian_phz(one, 0.1, lower=1.0, upper=0.5, rng=rng),
        lambda rng: glass.gaussian_phz(one, 0.1, lower=a(np.zeros(2)), upper=a(np.ones(2)), rng=rng),
        lambda rng: list(glass.positions_from_delta(1.0, a(np.zeros(12)), 1.0, bias_model=3, rng=rng)),
        lambda rng: glass.nfields_from_nspectra(4),
        lambda rng: glass.getcl(cls[:2], 0, 0),
        lambda rng: list(glass.enumerate_spectra(cls[:2])),
        lambda rng: glass.effective_cls(cls, a(np.ones((3, 2)))),
        lambda rng: glass.effective_cls(cls, a(np.ones(2)), a(np.ones(5))),
        lambda rng: glass.regularized_spectra(cls, method="nonsense"),
        lambda rng: glass.solve_gaussian_spectra([grf.Normal()], cls),
        lambda rng: glass.compute_gaussian_spectra([grf.Normal()], cls),
        lambda rng: list(glass.generate([grf.Normal()], cls, 1, rng=rng)),
        lambda rng: list(glass.generate([grf.Normal()] * 2, [a(np.zeros(0))] * 3, 1, rng=rng)),
        lambda rng: glass.multi_plane_weights(a(np.ones(3)), w, e.cosmo()),
        lambda rng: glass.algorithm.nnls(one, one),
        lambda rng: glass.algorithm.nnls(mat, mat),
        lambda rng: glass.algorithm.nnls(mat, one),
        lambda rng: glass.algorithm.cov_nearest(mat),
        lambda rng: glass.algorithm.nearcorr(a(np.ones((2, 3)))),
        lambda rng: glass.tophat_windows(a(np.ones((2, 2)))),
        lambda rng: glass.tophat_windows(a(np.zeros(1))),
        lambda rng: glass.linear_windows(a(np.zeros(2))),
        lambda rng: glass.cubic_windows(a(np.zeros(2))),
        lambda rng: glass.partition(a(np.ones((2, 2))), one, w),
        lambda rng: glass.partition(one, one, w, method="nonsense"),
        lambda rng: glass.redshift_grid(0.0, 1.0, xp=e.xp),
        lambda rng: glass.equal_dens_zbins(one, one, 0),
        lambda rng: glass.fixed_zbins(0.0, 1.0, nbins=2, dz=0.1, xp=e.xp),
        lambda rng: glass.galaxies.redshifts_from_bins(a(np.array([0, 7])), one, {0: one}, rng=rng),
        lambda rng: list(glass.iternorm(1, [mat])) ,
    ]
    pick = sorted({e.i(0, len(calls)) for _ in range(4)})

    def call(A, rng):
        out = []
        for k in pick:
            try:
                calls[k](rng)
                out.append((k, "returned"))
            except (sched.InjectedError, sched.InjectedMemoryError):
                raise
            except Exception as err:  # noqa: BLE001
                out.append((k, type(err).__name__))
        return out

    return {"one": one, "cls": cls, "w": w, "mat": mat}, call


@op("pipeline", stream=True, rng=True)
def _(e):
    """A simulation, from spectra to catalogue."""
    import glass
    import glass.grf as grf

    k = max(2, min(e.k, 3))
    nside = min(e.nside, 2)
    shells = e.shells(k, nz=5)
    lmax = 3 * nside - 1
    z = np.linspace(0, 2, 9)
    A = {
        "cls": [e.a(c) for c in e.cls(k, lmax=lmax + 1)],
        "shells": shells,
        "vis": e.a(e.g.uniform(0, 1, 12 * nside**2)),
        "nz": e.a(e.g.uniform(0.5, 1, 9)),
        "z": e.a(z),
    }
    ngal = e.n / (4 * math.pi * (180 * 60 / math.pi) ** 2)
    solve = e.coin()
    cosmo = e.cosmo()

    def call(A, rng):
        def it():
            gls = glass.discretized_cls(A["cls"], lmax=lmax, ncorr=1)
            if solve:
                fields = [grf.Lognormal(1.0) for _ in range(k)]
                gls = glass.solve_gaussian_spectra(fields, gls)
            else:
                fields = [grf.Normal() for _ in range(k)]
            gls = glass.regularized_spectra(gls, method="clip")
            mpc = glass.MultiPlaneConvergence(cosmo)
            for delta, w in zip(glass.generate(fields, gls, nside, ncorr=1, rng=rng), A["shells"]):
                mpc.add_window(delta, w)
                kappa = mpc.kappa
                (gamma,) = glass.from_convergence(kappa, lmax=lmax, shear=True)
                z_, n_ = glass.restrict(A["z"], A["nz"], w)
                yield kappa + 0.0, gamma, z_, n_
                for lon, lat, count in glass.positions_from_delta(ngal, delta, 1.1, A["vis"], rng=rng, batch=11):
                    num = int(count)
                    zs = glass.redshifts(num, w, rng=rng)
                    eps = glass.ellipticity_intnorm(num, 0.2, rng=rng, xp=e.xp)
                    she = glass.galaxy_shear(lon, lat, eps, kappa, e.xp.real(gamma), e.xp.imag(gamma))
                    phz = glass.gaussian_phz(zs, 0.05, rng=rng)
                    yield lon, lat, zs, she, phz

        return it()

    return A, call


# ----------------------------------------------------------------- build/run


def build(spec: dict):
    """Arguments and call of a spec."""
    return OPS[spec["op"]].build(Env(spec))


SIZES = [1, 2, 3, 5, 8, 13, 30, 60]


def random_spec(rnd, *, names=None, xps=None, big=0.06) -> dict:
    names = names or sorted(OPS)
    name = rnd.choice(names)
    o = OPS[name]
    allowed = [x for x in o.xps if xps is None or x in xps]
    x = "n" if "n" in allowed and rnd.chance(0.75) else rnd.choice(allowed)
    n = rnd.choice(SIZES)
    nside = rnd.choice([1, 2, 2, 4])
    if rnd.chance(big * 3 if name == "distribute" else big):
        if name in ("distribute", "redshifts", "gaussian_phz", "ellipticity_intnorm"):
            n = rnd.choice([999, 1000, 1001, 1007, 2500])
        elif name == "galaxy_shear":
            n = rnd.choice([9999, 10000, 10001])
        elif name == "positions_from_delta":
            nside, n = 16, rnd.choice([100, 2000])
    return {
        "op": name,
        "seed": rnd.u32(),
        "xp": x,
        "n": n,
        "k": rnd.choice([1, 2, 3, 4]),
        "nside": nside,
    }


def twin(rnd, spec) -> dict:
    """The same call with other data of the same structure."""
    return {**spec, "data": rnd.randint(1, 10**6)}


def shrink_spec(spec):
    for key, lo in (("n", 1), ("k", 1), ("nside", 1)):
        if spec[key] > lo:
            yield {**spec, key: lo}
            if spec[key] > 2 * lo:
                yield {**spec, key: max(lo, spec[key] // 2)}
    if spec["xp"] != "n" and "n" in OPS[spec["op"]].xps:
        yield {**spec, "xp": "n"}


def collect(o: Op, out):
    """Complete result of a call, streams are consumed."""
    if not o.stream:
        return values.freeze(out)
    got = []
    for y in out:
        got.append(values.freeze(y))
    return ("seq", "stream", got)


class CallResult:
    """Outcome of one call."""

    def __init__(self, value=None, error=None) -> None:
        self.value = value
        self.error = error


def outcome(fn):
    """Frozen value or frozen exception; simulator control flow passes."""
    try:
        return ("value", fn())
    except (sched.SimAbort, sched.StepBudget):
        raise
    except BaseException as e:  # noqa: BLE001
        return ("error", values.freeze(e))


def call_spec(spec, A=None, fn=None, seed=0):
    """Make the call of a spec and return its outcome."""
    o = OPS[spec["op"]]
    if fn is None:
        A, fn = build(spec)
    rng = generator(spec["xp"], seed) if o.rng else None
    return outcome(lambda: collect(o, fn(A, rng)))


def warm() -> None:
    """
    Import what the operations import on first use.

    The operations themselves run in a child, so that in this process nothing
    has been called yet.
    """
    import importlib
    import sys

    from . import core, healstore

    healstore.install()

    def go():
        before = set(sys.modules)
        core.quiet()
        for name in sorted(OPS):
            o = OPS[name]
            if o.heavy:
                continue
            for x in o.xps:
                for j in range(3):
                    s = {"op": name, "seed": j, "xp": x, "n": 3, "k": 2, "nside": 2}
                    try:
                        call_spec(s)
                    except Exception:  # noqa: BLE001
                        pass
        return [m for m in sys.modules if m not in before]

    for m in core.fresh(go, 120.0):
        if m.split(".")[0] in ("jax", "jaxlib", "glass"):
            continue
        try:
            importlib.import_module(m)
        except Exception:  # noqa: BLE001
            pass
