"""C05: generated fields have exactly the requested joint covariance."""

from __future__ import annotations

import numpy as np

from .. import sched, seams, simcase, values
from .. import workload as wl
from ..core import Check, HarnessError, Stats, Violation
from .c04 import scribble


def spectra(c, rnd_seed):
    """Admissible spectra: cov[l] is positive semi-definite, banded by ncorr."""
    g = np.random.default_rng(rnd_seed)
    k, n = c["k"], c["lmax"] + 1
    nc = k - 1 if c["ncorr"] is None else min(c["ncorr"], k - 1)
    a = g.normal(size=(n, k, k)) + 0.3 * np.eye(k)
    cov = a @ np.swapaxes(a, 1, 2)
    i, j = np.indices((k, k))
    band = abs(i - j) <= nc
    d = np.sqrt(np.einsum("lii->li", cov))
    corr = cov / d[:, :, None] / d[:, None, :]
    lengths = None
    if c["ragged"]:
        # shorter cross spectra: not correlated beyond
        lengths = g.integers(0, n + 1, (k, k))
        lengths = np.minimum(lengths, lengths.T)
        for p in range(k):
            lengths[p, p] = g.integers(1, n + 1) if c["ragged"] > 1 else n
        lengths[g.integers(k)][:] = lengths[g.integers(k)][:]
        lengths = np.minimum(lengths, lengths.T)
        for p in range(k):
            lengths[p, p] = max(1, lengths[p, p])
            for q in range(k):
                if p != q:
                    lengths[p, q] = min(lengths[p, q], lengths[p, p], lengths[q, q])
        lengths = np.minimum(lengths, lengths.T)
        # somebody has all modes
        f = int(g.integers(k))
        lengths[f, f] = n
    full = nc == k - 1 and lengths is None
    if not full:
        # diagonally dominant stays positive definite after truncation
        corr = np.where(i == j, 1.0, corr * 0.95 / max(1, k - 1))
    amp = 0.1 / (1.0 + np.arange(n)) ** g.uniform(0, 2)
    scale = g.uniform(0.3, 2.0, k) * 10.0 ** c.get("power", 0)
    if c.get("spread"):
        scale = scale * 10.0 ** g.integers(-4, 1, k)
    cov = corr * scale[:, None] * scale[None, :] * amp[:, None, None]
    if c["zeros"]:
        # modes that vanish, for one field or for all
        for _ in range(c["zeros"]):
            l = int(g.integers(n)) if g.random() < 0.5 else int(g.integers(min(2, n)))
            f = int(g.integers(k))
            if g.random() < 0.5:
                cov[l] = 0.0
            else:
                cov[l, f, :] = 0.0
                cov[l, :, f] = 0.0
    want = np.where(band, cov, 0.0)
    gls = []
    for p in range(k):
        for q in range(p, -1, -1):
            cl = cov[:, p, q].copy()
            if lengths is not None:
                m = int(lengths[p, q])
                cl = cl[:m]
                want[m:, p, q] = 0.0
                want[m:, q, p] = 0.0
            gls.append(cl)
    return gls, want


_pix: dict = {}


def legendre(nside, lmax):
    """P_l of the angle between all pairs of pixels, (l, p, q)."""
    key = nside, lmax
    if key not in _pix:
        import healpy

        v = np.stack(healpy.pix2vec(nside, np.arange(12 * nside**2)))
        x = np.clip(v.T @ v, -1, 1)
        p = [np.ones_like(x), x]
        for l in range(2, lmax + 1):
            p.append(((2 * l - 1) * x * p[-1] - (l - 1) * p[-2]) / l)
        _pix[key] = np.stack(p[: lmax + 1])
    return _pix[key]


class Probe:
    """Tape which sets exactly one standard normal draw to one."""

    def __init__(self) -> None:
        self.n = 0
        self.at = -1

    def __call__(self, name, call, value):
        kind, loc, scale = seams.standard_form(name, call, value)
        if kind != "n01":
            raise HarnessError(f"noise is drawn with {name}()")
        std = np.zeros(np.shape(value))
        m = std.size
        if self.n <= self.at < self.n + m:
            std.reshape(-1)[self.at - self.n] = 1.0
        self.n += m
        out = loc + scale * std
        return out if np.shape(value) else float(out)


class C05(Check):
    id = "C05"
    title = "joint covariance of generated fields"
    quick = 320
    thorough = 12000
    rule = (
        "1-5 fields with random admissible spectra (ragged, empty cross spectra, vanishing "
        "modes, cut from longer ones by discretized_cls"
        "), ncorr, nside 1-4 and numpy or strict arrays; the noise behind the generator "
        "seam is set to every unit vector in turn, so that the covariance over all noise is "
        "known exactly. Sometimes the consumer overwrites maps, and another task generates "
        "other fields or draws Lognormal fields at the same time. Non-trivial: at least two "
        "correlated fields, or a second task. Oracle: covariance of all pairs of pixels and "
        "fields equals the Legendre sum over the requested spectra, zero noise gives zero "
        "maps, and transformed fields are the transformation of the same Gaussian fields "
        "with the variance of the auto spectrum."
    )
    measure = "digest of spectra, configuration and schedule"
    assumptions = ["maps are linear in the noise (checked with random combinations)", "tolerance 1e-9 of the standard deviations"]
    real = ["glass.fields, grf, harmonics, healpix, rng", "numpy", "healpy"]
    stub = ["random number generator (noise)", "thread scheduler", "consumer"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()

    def gen(self, rnd, i, tier):
        nside = rnd.choice([1, 1, 1, 2, 2, 4])
        lmax = rnd.choice({1: [0, 1, 2, 3, 5], 2: [1, 2, 4, 6], 4: [2, 3]}[nside])
        k = rnd.choice([1, 2, 2, 3, 3, 4, 5])
        while k > 1 and k * (lmax + 1) * (lmax + 2) > 110:
            k -= 1
        return {
            "k": k,
            "lmax": lmax,
            "nside": nside,
            "ncorr": rnd.choice([None, None, 0, 1, 1, 2, 3, 7]),
            "ragged": rnd.choice([0, 0, 1, 2]),
            "zeros": rnd.choice([0, 0, 1, 3]),
            # fields of any physical size
            "power": rnd.choice([0, 0, 0, -3, -8, -20]),
            "spread": rnd.chance(0.3),
            "disc": rnd.chance(0.35),
            "xp": rnd.choice("nns"),
            "seed": rnd.u32(),
            "scribble": rnd.chance(0.3),
            "other": rnd.choice([0, 0, 1, 2]),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def run(self, case, st: Stats):
        import glass
        import glass.grf as grf

        k, nside = case["k"], case["nside"]
        xp = wl.namespace(case["xp"])
        gls, want = spectra(case, case["seed"])
        args = [xp.asarray(x) for x in gls]
        if case.get("disc"):
            # spectra with modes, and correlations, which are not wanted
            g = np.random.default_rng([case["seed"], 6])
            n = want.shape[0]
            longer = [
                xp.asarray(np.concatenate([x, g.uniform(-1, 1, int(g.integers(0, 4)))]) if len(x) == n else x)
                for x in gls
            ]
            args = list(glass.discretized_cls(longer, lmax=n - 1, ncorr=case["ncorr"]))
        before = simcase.freeze_args(args)
        npix = 12 * nside**2
        n = want.shape[0]

        def maps(fields, tape, seed=0, rng=None):
            rng = seams.SimRNG(seed, tape) if rng is None else rng
            out = []
            kw = {} if case["ncorr"] is None else {"ncorr": case["ncorr"]}
            for x in glass.generate(fields, args, nside, rng=rng, **kw):
                out.append(values.to_np(x))
                if case["scribble"]:
                    scribble(x)
            return np.stack(out)

        res = {}

        def probe(task):
            p = Probe()
            zero = maps([grf.Normal()] * k, p)
            if np.abs(zero).max() != 0:
                raise Violation("offset", "fields without noise do not vanish")
            cols = []
            for j in range(p.n):
                q = Probe()
                q.at = j
                cols.append(maps([grf.Normal()] * k, q).reshape(-1))
                if q.n != p.n:
                    raise Violation("draw-count", f"{q.n} draws instead of {p.n}")
            res["M"] = np.stack(cols, axis=-1)
            # random noise: linear, and transformed pointwise
            z = {}

            def tape(name, call, value):
                kind, loc, scale = seams.standard_form(name, call, value)
                v = np.asarray((value - loc) / scale).reshape(-1)
                z.setdefault("z", []).append(v)
                return value

            res["g"] = maps([grf.Normal()] * k, tape, case["seed"]).reshape(-1)
            res["z"] = np.concatenate(z["z"])
            lam = [1.0, 0.5, 1.7, 2.0, 0.9][:k]
            seen = []

            class User:
                def __init__(self, j) -> None:
                    self.j = j

                def __call__(self, x, var):
                    sched.callback_point("transformation")
                    seen.append((self.j, float(var)))
                    return x * 2 + var

            fields = [grf.Lognormal(a) if j % 2 == 0 else User(j) for j, a in enumerate(lam)]
            res["t"] = maps(fields, None, case["seed"])
            res["lam"], res["seen"] = lam, seen

        fns = [probe]
        if case["other"]:

            def noise(task):
                c2 = {**case, "k": 2, "lmax": 2, "ncorr": None, "ragged": 0, "zeros": 0}
                g2, _ = spectra(c2, case["seed"] + 1)
                fs = [grf.Normal(), grf.Lognormal()]
                for r in range(6 * case["other"]):
                    rng = wl.generator(case["xp"], r)
                    for _x in glass.generate(fs, [xp.asarray(x) for x in g2], 1, rng=rng):
                        pass

            fns.append(noise)
        simcase.simulate(case, fns, st)
        simcase.check_args(args, before, "spectra")
        M = res["M"]
        st.nontrivial = k > 1 or case["other"] > 0
        st.add("noise vectors", M.shape[1])
        st.sig += values.digest([case["seed"], k, n, nside])
        got = (M @ M.T).reshape(k, npix, k, npix)
        P = legendre(nside, n - 1)
        w = (2 * np.arange(n) + 1) / (4 * np.pi)
        var = np.einsum("l,lij->ij", w, want)
        ref = np.einsum("l,lij,lpq->ipjq", w, want, P, optimize=True)
        std = np.sqrt(np.diag(var))
        err = np.abs(got - ref).max(axis=(1, 3))
        tol = 1e-9 * std[:, None] * std[None, :]
        if not (err <= tol).all():
            i, j = np.argwhere(~(err <= tol))[0]
            raise Violation(
                "wrong-covariance",
                f"fields {i} and {j} of {k} (ncorr={case['ncorr']}): largest deviation "
                f"{err[i, j]:.3e} for deviations {std[i]:.3e}, {std[j]:.3e}",
            )
        lin = (M @ res["z"]).reshape(k, npix)
        if not (np.abs(lin - res["g"].reshape(k, npix)) <= 1e-8 * std[:, None]).all():
            raise Violation("not-linear", "maps are not linear in the noise")
        for j in range(k):
            g = res["g"].reshape(k, npix)[j]
            v = float(var[j, j])
            if j % 2 == 0:
                t = res["lam"][j] * np.expm1(g - v / 2)
            else:
                t = 2 * g + v
            if not np.allclose(res["t"][j], t, rtol=1e-8, atol=1e-8 * v**0.5):
                raise Violation(
                    "wrong-transformation",
                    f"field {j} is not the transformed Gaussian field: {res['t'][j][:3]} {t[:3]}",
                )

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        if case["other"]:
            yield {**case, "other": 0}
        if case.get("disc"):
            yield {**case, "disc": False}
        yield from simcase.simpler(case, (("zeros", 0), ("power", 0), ("spread", False), ("ragged", 0), ("scribble", False), ("lmax", 1), ("nside", 1), ("k", 1), ("xp", "n")))
        if case["k"] > 2:
            yield {**case, "k": case["k"] - 1}
        if case["lmax"] > 2:
            yield {**case, "lmax": case["lmax"] // 2}
        yield from simcase.shrink_policy(case)


CHECK = C05()
