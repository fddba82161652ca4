"""C19: samples follow the distributions they are said to follow."""

from __future__ import annotations

import math

import numpy as np

from .. import jaxenv, sched, seams, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation

ARCMIN2 = 60**6 // 100 / math.pi
SMALL = 1e-13  # probability of a false alarm of one comparison
SIGMAS = 8.5


def bound(n) -> float:
    """Dvoretzky-Kiefer-Wolfowitz: largest plausible distance of two CDFs."""
    return math.sqrt(math.log(2 / SMALL) / (2 * max(n, 1)))


def bernstein(var, top) -> float:
    """Largest plausible sum of centred values, with total variance and size."""
    log = math.log(2 / SMALL)
    return math.sqrt(2 * var * log) + 2 / 3 * top * log


class Judge:
    """Comparisons with stated distributions; all rigorous or far out."""

    def __init__(self, st) -> None:
        self.st = st

    def far(self, d, n, what, m=None) -> None:
        self.st.add("comparisons")
        eps = bound(n) + (bound(m) if m else 0.0)
        if not d <= eps + 1e-9:
            raise Violation(
                "wrong-distribution",
                f"{what}: distance {d:.4f} from the stated distribution in {n} values, at most {eps:.4f} by chance",
            )

    def uniform(self, u, what) -> None:
        """Probability integral transforms of independent values."""
        u = np.sort(np.asarray(u, dtype=float).reshape(-1))
        n = u.size
        if n < 200:
            return
        if not np.isfinite(u).all():
            raise Violation("not-finite", f"{what}: {n - np.isfinite(u).sum()} values are not finite")
        if u[0] < -1e-9 or u[-1] > 1 + 1e-9:
            raise Violation("outside-support", f"{what}: probability {u[0]!r} to {u[-1]!r}")
        i = np.arange(n)
        self.far(max((u - i / n).max(), ((i + 1) / n - u).max()), n, what)

    def steps(self, x, knots, cdf, what) -> None:
        """Values, and the CDF at some points."""
        x = np.sort(np.asarray(x, dtype=float).reshape(-1))
        if x.size < 200:
            return
        e = np.searchsorted(x, knots, side="right") / x.size
        self.far(abs(e - cdf).max(), x.size, what)

    def two(self, x, ref, what) -> None:
        x, ref = np.sort(np.asarray(x).reshape(-1)), np.sort(ref)
        if x.size < 200:
            return
        if not np.isfinite(x).all():
            raise Violation("not-finite", f"{what}: not finite")
        # values at a single point come with rounding errors
        a = np.searchsorted(ref, x + 1e-6, side="right") / ref.size
        i = np.arange(1, x.size + 1) / x.size
        b = np.searchsorted(ref, x - 1e-6, side="left") / ref.size
        self.far(max((i - a).max(), (b - (i - 1 / x.size)).max(), 0.0), x.size, what, ref.size)

    def related(self, u, v, what) -> None:
        """Values which are independent, each with a known range."""
        u, v = np.asarray(u, dtype=float).reshape(-1), np.asarray(v, dtype=float).reshape(-1)
        n = u.size
        if n < 500 or u.std() == 0 or v.std() == 0:
            return
        self.st.add("comparisons")
        # also of the distances from the centre
        for f in (lambda x: x, lambda x: abs(x - 0.5)):
            a, b = f(u), f(v)
            if a.std() < 1e-12 or b.std() < 1e-12:
                continue
            r = float(np.corrcoef(a, b)[0, 1])
            # Bernstein: rare outcomes may coincide
            top = abs(a - a.mean()).max() * abs(b - b.mean()).max() / (a.std() * b.std())
            if abs(r) * n > bernstein(n, top):
                raise Violation("not-independent", f"{what}: correlation {r:.4f} in {n} pairs")

    def distinct(self, x, what) -> None:
        """Values of a continuous distribution are all different."""
        x = np.sort(np.asarray(x, dtype=float).reshape(-1))
        self.st.add("comparisons")
        n = int((np.diff(x) == 0).sum())
        if n > 3:
            raise Violation("not-independent", f"{what}: {n} of {x.size} values are repeated")

    def serial(self, u, what) -> None:
        u = np.asarray(u, dtype=float).reshape(-1)
        for lag in (1, 2, 1000):
            if u.size > 500 + lag:
                self.related(u[:-lag], u[lag:], f"{what}: values {lag} apart")

    def mean(self, x, mean, var, what, top=1.0) -> None:
        """Sum of many values of known mean and variance."""
        self.st.add("comparisons")
        x, n = np.asarray(x, dtype=float), np.size(x)
        off = x.sum() - float(np.sum(np.broadcast_to(mean, x.shape)))
        v = float(np.sum(np.broadcast_to(var, x.shape)))
        if abs(off) > bernstein(v, top):
            raise Violation("wrong-mean", f"{what}: {off:.1f} off in {n} values, of variance {v:.1f} in total")


def phase(e):
    return np.angle(e) / (2 * math.pi) % 1.0


def cdf_at(za, wa):
    c = np.concatenate([[0.0], np.cumsum(np.diff(za) * (wa[1:] + wa[:-1]) / 2)])
    return c / c[-1]


def axis_ratios(g, zeta, xi, n):
    """Axis ratio of an ellipsoid with axes 1, zeta, xi seen from anywhere."""
    d = g.standard_normal((3, n))
    d = d * d / (d * d).sum(axis=0)
    m = (1.0, zeta * zeta, xi * xi)
    t = sum(m) - sum(a * b for a, b in zip(m, d))
    p = d[0] * m[1] * m[2] + d[1] * m[0] * m[2] + d[2] * m[0] * m[1]
    s = np.sqrt(np.maximum(t * t - 4 * p, 0.0))
    return np.sqrt(np.maximum(t - s, 0.0) / (t + s))


REF = 300_000


class Failing(seams.SimRNG):
    """The user's generator: fails at chosen draws."""

    def __init__(self, seed, fails) -> None:
        self.fails = set(fails)
        self.calls = 0
        super().__init__(seed, self.one)

    def one(self, name, call, value):
        self.draws.clear()
        self.calls += 1
        if self.calls in self.fails:
            raise sched.InjectedError("no random numbers")
        return value


class C19(Check):
    id = "C19"
    title = "samples follow the stated distributions"
    jax = True
    timeout = 300.0
    quick = 2400
    thorough = 60000
    rule = (
        "One to three tasks each take some ten thousand values from a sampler in a history of "
        "calls of different sizes (single values, a few, sizes around the internal batches, "
        "thousands) with one generator, for random populations, broadcast shapes and parameters "
        "per element, on NumPy, the strict Array API and JAX; draws fail inside some calls, which "
        "are then repeated; others sample in between. Non-trivial: values were delivered. Oracle: "
        "all values of the history, as a whole and by population, follow the stated distribution "
        "(closed form, or an independent reference model), directions are isotropic, and "
        "neighbouring values, components and calls are independent."
    )
    measure = "digest of inputs and values"
    assumptions = [
        "a comparison fails by chance with probability below 1e-13 (bounds of Dvoretzky, Kiefer "
        "and Wolfowitz for distributions, and of Bernstein for means and correlations)",
        "deviations of a distribution function below about 0.01 are not seen",
    ]
    real = ["glass.galaxies, shapes, shells, points, healpix, rng, jax", "numpy's and JAX's generators"]
    stub = ["failures of the generator", "thread scheduler"]

    KINDS = [
        "nz", "nz", "bins", "window", "phz", "phz", "phz", "gaussian", "gaussian", "intnorm",
        "ryden", "ryden", "triaxial", "triaxial", "uniform", "randang", "positions", "positions",
        "distribute", "distribute", "resample", "generator", "generator",
    ]
    # few shapes, because JAX compiles for every one
    JAX = ["phz", "triaxial", "resample", "generator", "generator", "generator"]

    def setup(self):
        jaxenv.setup()
        import glass  # noqa: F401
        import glass.jax  # noqa: F401

        import scipy.special  # noqa: F401

        wl.warm()

    def gen(self, rnd, i, tier):
        jax = rnd.chance(0.05)
        tasks = []
        for _ in range(1 if jax else rnd.choice([1, 1, 2, 3])):
            total = 40_000 if jax else rnd.choice([20_000, 60_000, 60_000, 150_000])
            calls = []
            if jax:
                calls = [total // 2] * 2
            else:
                for _ in range(rnd.choice([0, 0, 3])):
                    calls.append(rnd.choice([1, 1, 2, 30, 400, 400, 999, 1000, 1001, 2500]))
                k = rnd.choice([1, 2, 3])
                calls += [total // k] * k
                rnd.shuffle(calls)
            tasks.append(
                {
                    "kind": rnd.choice(self.JAX if jax else self.KINDS),
                    "seed": rnd.u32(),
                    "calls": calls,
                    "k": 1 if jax else rnd.choice([1, 2, 3]),
                    "shape": rnd.randrange(4),
                    "form": rnd.randrange(6),
                    "xp": "j" if jax else rnd.choice("nns"),
                    "fails": []
                    if jax or rnd.chance(0.5)
                    else sorted({rnd.randrange(1, 40) for _ in range(rnd.choice([1, 2, 4]))}),
                }
            )
        return {"tasks": tasks, "policy": simcase.policy(rnd), "sched": rnd.u32()}

    def run(self, case, st: Stats):
        outs: list = [[] for _ in case["tasks"]]
        judges = []
        fns = []
        for c, out in zip(case["tasks"], outs):
            g = np.random.default_rng(c["seed"])
            xp = wl.namespace(c["xp"])
            call, judge = getattr(self, "do_" + c["kind"])(c, g, xp)
            rng = wl.generator("j", c["seed"] + 1) if c["xp"] == "j" else Failing(c["seed"] + 1, c["fails"])
            judges.append(judge)

            def go(t, c=c, call=call, out=out, rng=rng):
                for n in c["calls"]:
                    for _ in range(9):
                        try:
                            x = call(n, rng)
                        except sched.InjectedError:
                            st.add("fault:failing generator")
                            continue
                        break
                    else:
                        raise Violation("no-values", "the call fails although the generator works again")
                    out.append((n, x))

            fns.append(go)
        simcase.simulate(case, fns, st)
        for c, out, judge in zip(case["tasks"], outs, judges):
            st.add("kind " + c["kind"])
            st.add("backend " + c["xp"])
            st.add("calls", len(out))
            judge(out, Judge(st))
        st.sig = values.digest([case["tasks"], [[values.digest(values.freeze(x)) for _, x in o] for o in outs]])

    # ---------------------------------------------------------------- redshifts

    @staticmethod
    def density(g, form):
        m = int(g.integers(4, 12))
        za = np.cumsum(g.uniform(0.02, 0.3, m))
        wa = g.uniform(0.05, 1.0, m)
        if form % 3 == 0:
            wa[g.integers(0, m)] = 0.0
            wa[0] += 0.1
        return za, wa

    @staticmethod
    def split(g, n, k):
        """Counts of k populations, n in total."""
        c = g.multinomial(n, g.dirichlet(np.full(k, 2.0)))
        if n > 3000 and k > 1:
            c = np.maximum(c, 500)
        return c

    def do_nz(self, c, g, xp):
        import glass

        k = c["k"]
        shape = [(k,), (2, k), (k, 1), ()][c["shape"]]
        npop = int(np.prod(shape, dtype=int))
        za, _ = self.density(g, c["form"])
        nz = g.uniform(0.02, 1.0, (npop, za.size))
        same = c["form"] == 5 and shape != ()  # one distribution for all
        sc = g.uniform(0.5, 2.0, npop) if c["form"] % 2 else np.ones(npop)
        zs = za * sc[:, None]
        A = {
            "z": xp.asarray(zs.reshape(*shape, -1) if c["form"] % 2 else za),
            "nz": xp.asarray(nz[0] if same else nz.reshape(*shape, -1)),
        }
        if same:
            nz[:] = nz[0]

        def call(n, rng):
            cs = self.split(g, n, npop)
            x = glass.redshifts_from_nz(xp.asarray(cs.reshape(shape)), A["z"], A["nz"], rng=rng, warn=False)
            return [cs, x]

        def judge(out, j):
            per = [[] for _ in range(npop)]
            for _, (cs, x) in out:
                for p, part in enumerate(np.split(values.to_np(x), np.cumsum(cs)[:-1])):
                    per[p].append(part)
            every = []
            for p in range(npop):
                a = np.concatenate(per[p])
                cdf = cdf_at(zs[p], nz[p])
                j.steps(a, zs[p], cdf, f"redshifts of population {p} of {npop}")
                every.append(np.interp(a, zs[p], cdf))
            j.distinct(np.concatenate(every), "redshifts")
            for u in every:
                j.serial(u, "redshifts")
            m = min(len(u) for u in every)
            for u, v in zip(every, every[1:]):
                j.related(u[:m], v[:m], "redshifts of two populations")

        return call, judge

    def do_window(self, c, g, xp):
        import glass

        za, wa = self.density(g, c["form"])
        w = glass.RadialWindow(xp.asarray(za), xp.asarray(wa), float(za.mean()))

        def call(n, rng):
            return glass.redshifts(n, w, rng=rng)

        def judge(out, j):
            a = np.concatenate([values.to_np(x) for _, x in out])
            cdf = cdf_at(za, wa)
            j.steps(a, za, cdf, "redshifts of a window")
            j.serial(np.interp(a, za, cdf), "redshifts of a window")
            j.distinct(a, "redshifts of a window")

        return call, judge

    def do_bins(self, c, g, xp):
        import glass

        za, _ = self.density(g, c["form"])
        k = c["k"] + 1
        labels = g.permutation(9)[:k]
        nz = {int(l): g.uniform(0.02, 1.0, za.size) for l in labels}
        A = {l: xp.asarray(v) for l, v in nz.items()}
        z = xp.asarray(za)

        def call(n, rng):
            b = labels[g.integers(0, k, n)]
            if c["form"] % 2:
                b = np.sort(b)
            if c["shape"] % 2 and n % 2 == 0:
                b = b.reshape(2, n // 2)
            return [b, glass.redshifts_from_bins(xp.asarray(b), z, A, rng=rng)]

        def judge(out, j):
            b = np.concatenate([x[0].reshape(-1) for _, x in out])
            a = np.concatenate([values.to_np(x[1]).reshape(-1) for _, x in out])
            u = np.zeros(a.shape)
            for l in labels:
                m = b == l
                cdf = cdf_at(za, nz[int(l)])
                j.steps(a[m], za, cdf, f"redshifts of bin {l} of {labels.tolist()}")
                u[m] = np.interp(a[m], za, cdf)
            j.serial(u, "redshifts of bins")
            for l in labels:
                j.distinct(a[b == l], f"redshifts of bin {l}")

        return call, judge

    def do_phz(self, c, g, xp):
        import glass
        from scipy.special import ndtr

        s0 = float(g.choice([0.01, 0.05, 0.2]))
        zmax = float(g.choice([0.3, 1.5, 3.0]))
        cut = c["form"]

        def call(n, rng):
            if n <= 500 and c["shape"] == 0:
                xs = [one(1, rng, True) for _ in range(n)]
                return [
                    None if xs[0][i] is None else np.concatenate([values.to_np(x[i]).reshape(-1) for x in xs])
                    for i in range(5)
                ]
            return one(n, rng, False)

        def one(n, rng, scalar):
            if scalar:
                # plain numbers
                z, s = float(g.uniform(0, zmax)), s0
                lo, hi = self.limits(cut, np.array([z]), np.array([s]))
                kw = {"xp": xp}
                args = (z, s)
                z, s = np.array([z]), np.array([s])
            else:
                z = g.uniform(0, zmax, n)
                s = g.uniform(0.5, 1.5, n) * s0 if c["shape"] == 1 else np.full(n, s0)
                lo, hi = self.limits(cut, z, s)
                kw = {}
                args = (xp.asarray(z), xp.asarray(s) if c["shape"] == 1 else s0)
            for name, v in (("lower", lo), ("upper", hi)):
                if v is not None:
                    kw[name] = float(v[0]) if scalar or v.size == 1 else xp.asarray(v)
            return [z, s, lo, hi, glass.gaussian_phz(*args, rng=rng, **kw)]

        def judge(out, j):
            us = []
            for _, (z, s, lo, hi, x) in out:
                w = s * (1 + z)
                a = ndtr((np.zeros(1) - z) / w if lo is None else (lo - z) / w)
                b = np.ones(1) if hi is None else ndtr((hi - z) / w)
                us.append((ndtr((values.to_np(x).reshape(-1) - z) / w) - a) / (b - a))
            u = np.concatenate(us)
            j.uniform(u, "photometric redshifts")
            z = np.concatenate([x[0] for _, x in out])
            for lo, hi in ((0, 0.15), (0.15, 0.5), (0.5, 1.0)):
                m = (z >= lo * zmax) & (z < hi * zmax)
                j.uniform(u[m], f"photometric redshifts of galaxies at {lo * zmax:.2f} to {hi * zmax:.2f}")
            j.related(u, z / zmax, "true redshift and error")
            j.distinct(np.concatenate([values.to_np(x[4]).reshape(-1) for _, x in out]), "photometric redshifts")
            j.serial(u, "photometric redshifts")

        return call, judge

    @staticmethod
    def limits(cut, z, s):
        w = s * (1 + z)
        if cut == 1:
            return np.array([0.0]), np.array([float(z.max() + w.max())])
        if cut == 2:
            return np.maximum(z - 0.6 * w, 0.0), z + 1.2 * w
        if cut == 3:
            return z - 0.3 * w, None
        if cut == 4:
            return None, np.maximum(z + 0.4 * w, 0.3 * w)
        return None, None

    # ------------------------------------------------------------------ shapes

    def counted(self, c, g, xp, f, modulus, sig):
        k = c["k"]
        shape = [(k,), (2, k), (k, 1), ()][c["shape"]]
        npop = int(np.prod(shape, dtype=int))
        sigma = g.choice(sig, npop, replace=npop > len(sig))
        s = float(sigma[0]) if shape == () else xp.asarray(sigma.reshape(shape))

        def call(n, rng):
            cs = self.split(g, n, npop)
            return [cs, f(int(cs[0]) if shape == () else xp.asarray(cs.reshape(shape)), s, rng=rng, xp=xp)]

        def judge(out, j):
            per = [[] for _ in range(npop)]
            for _, (cs, x) in out:
                for p, part in enumerate(np.split(values.to_np(x), np.cumsum(cs)[:-1])):
                    per[p].append(part)
            for p in range(npop):
                e = np.concatenate(per[p])
                u, v = modulus(e, sigma[p], j), phase(e)
                what = f"of population {p} of {npop} with sigma {sigma[p]}"
                j.uniform(u, "size of ellipticities " + what)
                j.uniform(v, "direction of ellipticities " + what)
                j.related(u, v, "size and direction of ellipticities " + what)
                j.distinct([abs(e.real), abs(e.imag)], "components of ellipticities " + what)
                j.serial(u, "size of ellipticities " + what)
                j.serial(v, "direction of ellipticities " + what)

        return call, judge

    def do_gaussian(self, c, g, xp):
        import glass

        def modulus(e, s, j):
            return np.expm1(-abs(e) ** 2 / (2 * s * s)) / np.expm1(-1 / (2 * s * s))

        return self.counted(c, g, xp, glass.ellipticity_gaussian, modulus, [0.02, 0.2, 0.4, 0.6, 0.9, 1.5])

    def do_intnorm(self, c, g, xp):
        import glass

        def modulus(e, s, j):
            if e.size < 200:
                return np.zeros(0)
            # the relation of the two standard deviations is a fit
            got = math.sqrt(np.mean(abs(e) ** 2) / 2)
            tol = 0.02 + SIGMAS / math.sqrt(2 * e.size)
            if abs(got / s - 1) > tol:
                raise Violation(
                    "wrong-distribution", f"standard deviation {got:.4f} of {e.size} ellipticities, not {s}"
                )
            eta2 = (2 * np.arctanh(abs(e))) ** 2
            return -np.expm1(-eta2 / eta2.mean())

        return self.counted(c, g, xp, glass.ellipticity_intnorm, modulus, [0.02, 0.1, 0.2, 0.3, 0.4])

    def grouped(self, g, c, sets, xp, f, what, size, ref):
        """Parameters per element, from a few sets."""
        k = len(sets)
        seed = int(g.integers(1 << 31))
        late: dict = {}

        def call(n, rng):
            if c["form"] == 0 or (n <= 500 and c["shape"] == 0):
                p = np.full(n, len(late) % k)
                late[len(late)] = 1
                args = [float(a) for a in sets[p[0]]]
                if n <= 500 and c["shape"] == 0:
                    x = [values.to_np(f(*args, rng=rng, xp=xp)).reshape(-1) for _ in range(n)]
                    return [p, np.concatenate(x)]
                return [p, f(*args, n, rng=rng, xp=xp)]
            p = g.integers(0, k, n)
            if c["form"] == 1:
                p = np.sort(p)
            cols = [xp.asarray(np.asarray([s[i] for s in sets])[p]) for i in range(len(sets[0]))]
            if c["form"] in (2, 3):
                return [p, f(*cols, (n,) if c["form"] == 2 else n, rng=rng, xp=xp)]
            if c["form"] == 4 and n % 2 == 0 and n > 2:
                cols = [xp.reshape(a, (2, n // 2)) for a in cols]
            if c["form"] == 5 and n % 2 == 0:
                cols = [xp.reshape(a, (n // 2, 2)) for a in cols]
            return [p, f(*cols, rng=rng)]

        def judge(out, j):
            p = np.concatenate([x[0] for _, x in out])
            a = np.concatenate([values.to_np(x[1]).reshape(-1) for _, x in out])
            if a.shape != p.shape:
                raise Violation("wrong-number", f"{a.size} values, not {p.size}")
            r = abs(a)
            h = np.random.default_rng(seed)
            u = np.zeros(a.shape)
            for q in range(k):
                m = p == q
                if not m.any():
                    continue
                x = np.sort(ref(h, *sets[q]))
                u[m] = np.searchsorted(x, r[m] - 1e-6) + np.searchsorted(x, r[m] + 1e-6)
                u[m] /= 2 * x.size
                if np.ptp(x) < 1e-5:
                    u[m] = h.random(int(m.sum()))  # only one value
                j.two(r[m], x, f"{what} for {sets[q]}")
            j.serial(u, what)
            i = 0
            for n, x in out:
                h = x[0].size // 2  # rows of one call, or two calls
                j.related(u[i : i + h], u[i + h : i + 2 * h], f"{what} of one call")
                i += x[0].size
            if np.iscomplexobj(a):
                v = phase(a)
                j.uniform(v, f"direction of {what}")
                j.related(u, v, f"size and direction of {what}")
                j.serial(v, f"direction of {what}")
                j.distinct(a.real, what)

        return call, judge

    def do_triaxial(self, c, g, xp):
        import glass

        sets = []
        for _ in range(c["k"]):
            zeta = float(g.choice([1.0, 0.9, 0.6, 0.3]))
            sets.append((zeta, zeta * float(g.choice([1.0, 0.8, 0.4, 0.1]))))
        return self.grouped(
            g, c, sets, xp, glass.triaxial_axis_ratio, "axis ratios", 0,
            lambda h, zeta, xi: axis_ratios(h, zeta, xi, REF),
        )

    def do_ryden(self, c, g, xp):
        import glass

        sets = [
            (float(g.choice([-2.4, -0.8, -0.2])), float(g.choice([0.1, 0.8, 1.2])),
             float(g.choice([0.1, 0.4, 0.85])), float(g.choice([0.05, 0.2, 0.4])))
            for _ in range(c["k"])
        ]

        def truncated(h, m, s, lo, hi):
            x = h.normal(m, s, 4 * REF)
            x = x[(x >= lo) & (x <= hi)][:REF]
            return x

        def ref(h, mu, sigma, gamma, sigma_gamma):
            e = truncated(h, mu, sigma, -np.inf, 0.0)
            f = truncated(h, gamma, sigma_gamma, 0.0, 1.0)
            n = min(e.size, f.size)
            zeta = 1 - np.exp(e[:n])
            q = axis_ratios(h, zeta, zeta * (1 - f[:n]), n)
            return (1 - q) / (1 + q)

        return self.grouped(g, c, sets, xp, glass.ellipticity_ryden04, "ellipticities", 0, ref)

    def do_resample(self, c, g, xp):
        import glass

        sigma = float(g.choice([0.05, 0.2, 0.3]))
        form = c["form"] % 3

        def call(n, rng):
            e = sigma * (g.standard_normal(n) + 1j * g.standard_normal(n))
            e = e / np.maximum(1.0, 1.01 * abs(e))
            if c["shape"] == 0:
                e = abs(e) + 0j  # all in one direction
            kw = {}
            if form and n > 900:
                kw = {["varg", "vargamma"][form - 1]: float(g.uniform(0.01, 0.5)) * sigma**2}
            return [e, kw, glass.resample_shapes(xp.asarray(e), rng=rng, **kw)]

        def judge(out, j):
            vs, us = [], []
            for _, (e, kw, x) in out:
                a = values.to_np(x)
                ratio = abs(a) / abs(e)
                if np.ptp(ratio) > 1e-6 or ratio.mean() > 1 + 1e-6:
                    raise Violation("wrong-distribution", f"sizes are scaled by {ratio.min()} to {ratio.max()}")
                if not kw and abs(ratio - 1).max() > 1e-9:
                    raise Violation("wrong-distribution", "sizes of resampled shapes differ")
                v0 = np.mean(abs(e) ** 2)
                if "vargamma" in kw and not np.isclose(np.mean(abs(a) ** 2) + kw["vargamma"], v0):
                    raise Violation("wrong-distribution", f"variance {np.mean(abs(a) ** 2)} of {v0} for {kw}")
                vs.append(phase(a))
                us.append(phase(e))
            v, u = np.concatenate(vs), np.concatenate(us)
            j.uniform(v, "direction of resampled shapes")
            j.distinct(np.concatenate([values.to_np(x[2]) for _, x in out]).real, "resampled shapes")
            j.uniform((v - u) % 1.0, "rotation of resampled shapes")
            j.related(v, u, "direction before and after")
            j.serial(v, "direction of resampled shapes")
            j.related(v, np.concatenate([np.minimum(abs(x[0]), 1) for _, x in out]), "size and direction")

        return call, judge

    # --------------------------------------------------------------- positions

    def do_uniform(self, c, g, xp):
        import glass

        k = c["k"]
        shape = [(k,), (2, k), (k, 1), ()][c["shape"]]
        npop = int(np.prod(shape, dtype=int))
        rel = g.dirichlet(np.full(npop, 3.0))

        def call(n, rng):
            ngal = n * rel / ARCMIN2
            out = []
            for lon, lat, cnt in glass.uniform_positions(
                float(ngal[0]) if shape == () else xp.asarray(ngal.reshape(shape)), rng=rng, xp=xp
            ):
                out.append((lon, lat, cnt))
            return out

        def judge(out, j):
            us, vs = [], []
            tot, lam = np.zeros(npop), np.zeros(npop)
            for n, items in out:
                lam += n * rel
                for lon, lat, cnt in items:
                    tot += values.to_np(cnt).reshape(-1)
                    us.append((values.to_np(lon) + 180) / 360)
                    vs.append((np.sin(np.radians(values.to_np(lat))) + 1) / 2)
            for p in range(npop):
                j.mean(tot[p : p + 1], lam[p], lam[p], f"number of positions of population {p}")
            u, v = np.concatenate(us), np.concatenate(vs)
            j.uniform(u, "longitude of uniform positions")
            j.uniform(v, "sine of latitude of uniform positions")
            j.related(u, v, "longitude and latitude")
            j.distinct(u, "longitude")
            j.distinct(v, "latitude")
            j.serial(u, "longitude")
            j.serial(v, "latitude")

        return call, judge

    @staticmethod
    def within(nside, ipix, lon, lat):
        """Coordinates within the pixel, uniform in equal-area projection."""
        import healpix
        import healpy as hp

        theta, phi = np.radians(90 - np.asarray(lat)), np.radians(lon)
        if (hp.ang2pix(nside, theta, phi) != ipix).any():
            raise Violation("outside-support", "a position is not in its pixel")
        # the equal-area projection: pixels are squares standing on a corner
        z = np.cos(theta)
        phi = phi % (2 * np.pi)
        t = phi / (np.pi / 2)
        sig = 2 - np.sqrt(3 * (1 - abs(z)))
        pt = t % 1.0
        polar = abs(z) > 2 / 3
        tt = np.where(polar, np.floor(t) + 0.5 + (pt - 0.5) * np.where(polar, 2 - sig, 1.0), t)
        y = np.where(polar, np.sign(z) * sig, 1.5 * z) / 1.0
        # rotate by 45 degrees; faces have unit sides
        a, b = nside * (tt + y / 2), nside * (tt - y / 2)
        del healpix
        return a % 1.0, b % 1.0

    def do_randang(self, c, g, xp):
        import glass.healpix as ghp

        nside = int(g.choice([1, 2, 4, 8]))
        lonlat = bool(c["form"] % 2)

        def call(n, rng):
            ipix = g.integers(0, 12 * nside**2, n) if c["shape"] else np.full(n, int(g.integers(0, 12 * nside**2)))
            return [ipix, *ghp.randang(nside, xp.asarray(ipix), lonlat=lonlat, rng=rng)]

        def judge(out, j):
            aa, bb = [], []
            for _, (ipix, x, y) in out:
                x, y = values.to_np(x), values.to_np(y)
                if not lonlat:
                    x, y = np.degrees(y), 90 - np.degrees(x)
                a, b = self.within(nside, ipix, x, y)
                aa.append(a)
                bb.append(b)
            self.square(np.concatenate(aa), np.concatenate(bb), j)

        return call, judge

    @staticmethod
    def square(a, b, j):
        # the offset of the grid is a convention: 0 or one half
        j.uniform(a, "position in the pixel, north-east")
        j.uniform(b, "position in the pixel, north-west")
        j.related(a, b, "coordinates in the pixel")
        j.serial(a, "position in the pixel")
        j.serial(b, "position in the pixel")

    def do_positions(self, c, g, xp):
        import healpy as hp

        import glass

        nside = int(g.choice([1, 2, 4]))
        npix = 12 * nside**2
        k = [(), (c["k"],), (2, c["k"])][c["form"] % 3]
        npop = int(np.prod(k, dtype=int))
        delta = g.uniform(-1, 2, (npop, npix))
        vis = g.uniform(0, 1, npix) if c["shape"] % 2 else None
        if vis is not None:
            vis[g.integers(0, npix)] = 0.0
        rel = g.dirichlet(np.full(npop, 3.0))
        mono = c["shape"] > 1
        bias = None if c["shape"] == 1 else float(g.uniform(0.5, 1.5))
        batch = int(g.choice([1, 50, 1000, 1_000_000]))
        if batch == 1:
            batch = 20

        def call(n, rng):
            if n > 3000 and batch < 1000:
                n = 5000
            out = []
            args = (
                xp.asarray((n * rel / ARCMIN2).reshape(k)) if k else float(n / ARCMIN2),
                xp.asarray(delta.reshape(*k, npix)),
                bias,
                None if vis is None else xp.asarray(vis),
            )
            for lon, lat, cnt in glass.positions_from_delta(
                *args, remove_monopole=mono, batch=batch, rng=rng
            ):
                out.append((lon, lat, cnt))
            return [n, out]

        def judge(out, j):
            aa, bb = [], []
            d = delta if bias is None else bias * delta
            num, lam = np.zeros((len(out), npop, npix)), np.zeros((len(out), npop, npix))
            for i, (_, (n, items)) in enumerate(out):
                m = 1 + d
                if mono:
                    m = m - m.mean(axis=-1, keepdims=True) + 1
                m = m * (n * rel / npix)[:, None]
                if vis is not None:
                    m = m * vis
                lam[i] = np.maximum(m, 0.0)
                for lon, lat, cnt in items:
                    lon, lat, cnt = values.to_np(lon), values.to_np(lat), values.to_np(cnt).reshape(-1)
                    if not lon.size:
                        continue
                    ipix = hp.ang2pix(nside, lon, lat, lonlat=True)
                    np.add.at(num[i], (np.repeat(np.arange(npop), cnt), ipix), 1)
                    a, b = self.within(nside, ipix, lon, lat)
                    aa.append(a)
                    bb.append(b)
            if aa:
                self.square(np.concatenate(aa), np.concatenate(bb), j)
            for p in range(npop):
                j.mean(num[:, p], lam[:, p], lam[:, p], f"numbers of positions of population {p}")
            # every pixel, over the calls
            s, e = num.sum(axis=0), lam.sum(axis=0)
            z = (s - e) / np.sqrt(e + 1)
            bad = np.unravel_index(abs(z).argmax(), z.shape)
            if abs(s[bad] - e[bad]) > 9 * math.sqrt(e[bad] + 1) + 25:
                raise Violation(
                    "wrong-mean", f"{s[bad]:.0f} positions in pixel {bad[1]} of population {bad[0]}, mean {e[bad]:.1f}"
                )
            edges = [0, 0.1, 0.5, 1, 1.5, 2.5, 5, 20, np.inf]
            for lo, hi in zip(edges, edges[1:]):
                m = (lam > lo) & (lam <= hi)
                j.mean(num[m], lam[m], lam[m], f"numbers of positions in pixels with means {lo} to {hi}")
            big = lam > 5
            if big.sum() > 50:
                x = (num[big] - lam[big]) ** 2 / lam[big]
                j.mean(x, 1.0, 2 + 1 / lam[big], "scatter of numbers of positions", 8.0)

        return call, judge

    def do_distribute(self, c, g, xp):
        import glass

        m = int(g.integers(2, 5))
        shells = []
        for _ in range(m):
            za = np.cumsum(g.uniform(0.05, 0.4, int(g.integers(3, 6))))
            wa = g.uniform(0.05, 1.0, za.size)
            shells.append((za, wa))
        if c["form"] == 0:
            za = np.linspace(0.0, 0.9, 4)
            shells = [(za, np.eye(4)[i]) for i in range(4)]
        zz = np.sort(g.uniform(0.0, 1.2, 1 + c["k"]))
        ws = [glass.RadialWindow(xp.asarray(a), xp.asarray(b), float(a.mean())) for a, b in shells]

        def call(n, rng):
            which = g.integers(0, zz.size, n)
            z = zz[which]
            if c["shape"] % 2 and n % 2 == 0:
                z = z.reshape(2, -1)
            return [which, glass.distribute(xp.asarray(z), ws, rng=rng)]

        def judge(out, j):
            which = np.concatenate([x[0] for _, x in out])
            a = np.concatenate([values.to_np(x[1]).reshape(-1) for _, x in out])
            for i, z in enumerate(zz):
                p = np.array([np.interp(z, za, wa, left=0.0, right=0.0) for za, wa in shells])
                p = np.concatenate([[0.0], p / p.sum()]) if p.sum() > 0 else np.eye(len(shells) + 1)[0]
                x = a[which == i]
                j.steps(x, np.arange(-1, len(shells)), np.cumsum(p), f"shells at redshift {z:.3f}")
                j.serial(x, f"shells at redshift {z:.3f}")

        return call, judge

    # -------------------------------------------------------------- generators

    def do_generator(self, c, g, xp):
        """The generators themselves."""
        import glass.rng
        from scipy.special import bdtr, ndtr, pdtr

        kind = ["random", "normal", "uniform", "standard_normal", "poisson", "multinomial"][c["form"]]
        k = c["k"] + 1
        par = {
            "normal": [(float(g.uniform(-3, 3)), float(g.uniform(0.1, 3))) for _ in range(k)],
            "uniform": [(-float(g.uniform(0, 3)), float(g.uniform(0.1, 3))) for _ in range(k)],
            "poisson": [(float(g.choice([0.0, 0.3, 3.0, 8.0, 20.0, 300.0])),) for _ in range(k)],
        }.get(kind, [()])
        pv = g.dirichlet(np.full(4, 2.0), k)
        trials = int(g.choice([1, 1, 6]))
        # generators which descend from one
        if c["xp"] == "j":
            base = wl.generator("j", c["seed"] + 2)
            gens = [base, *base.spawn(2)]
        else:
            gens = [None]
        arrays = c["shape"] % 2 == 0

        def call(n, rng):
            res = []
            for h in gens:
                r = h if h is not None else rng
                if c["shape"] < 2 or h is None:
                    r = glass.rng.Generator(rng=r, xp=xp)
                m = max(1, n // len(gens))
                p = np.arange(m) % len(par) if arrays else np.full(m, len(res) % len(par))
                if kind in ("random", "standard_normal"):
                    x = getattr(r, kind)((m,))
                elif kind == "multinomial":
                    p = np.arange(m) % k
                    x = r.multinomial(trials, self.plain(h, xp, pv[p]))
                else:
                    cols = [np.asarray([s[i] for s in par])[p] for i in range(len(par[0]))]
                    if arrays:
                        x = getattr(r, kind)(*[self.plain(h, xp, a) for a in cols])
                    else:
                        x = getattr(r, kind)(*[float(a[0]) for a in cols], size=(m,))
                res.append((p, x))
            return res

        def judge(out, j):
            seqs = []
            for i in range(len(gens)):
                p = np.concatenate([x[i][0] for _, x in out])
                a = np.concatenate([values.to_np(x[i][1]) for _, x in out])
                what = f"{kind} of generator {i}"
                if kind == "random":
                    u = a
                elif kind == "standard_normal":
                    u = ndtr(a)
                elif kind == "normal":
                    u = ndtr((a - np.array([s[0] for s in par])[p]) / np.array([s[1] for s in par])[p])
                elif kind == "uniform":
                    lo, hi = (np.array([s[b] for s in par])[p] for b in (0, 1))
                    u = (a - lo) / (hi - lo)
                elif kind == "poisson":
                    for q, (lam,) in enumerate(par):
                        x = a[p == q]
                        at = np.arange(0, int(lam + 12 * math.sqrt(lam) + 12))
                        j.steps(x, at, pdtr(at, lam) if lam else np.ones(at.shape), f"{what} with mean {lam}")
                        j.serial(x, f"{what} with mean {lam}")
                    continue
                else:
                    if (a.sum(axis=-1) != trials).any() or (a < 0).any():
                        raise Violation("outside-support", f"{what}: numbers do not sum to {trials}")
                    at = np.arange(0, trials + 1)
                    for q in range(k):
                        for b in range(pv.shape[1]):
                            x = a[p == q][:, b]
                            j.steps(x, at, bdtr(at, trials, pv[q, b]), f"{what}, outcome {b} of {pv[q]}")
                            j.serial(x, what)
                    continue
                j.uniform(u, what)
                for q in range(len(par)):
                    j.uniform(u[p == q], f"{what} with parameters {par[q]}")
                j.serial(u, what)
                seqs.append(u)
            for i, u in enumerate(seqs):
                for v in seqs[:i]:
                    j.related(u, v, f"{kind} of two generators")

        return call, judge

    @staticmethod
    def plain(h, xp, a):
        """NumPy's generator wants NumPy's arrays, or what converts to them."""
        return xp.asarray(a)

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        for ts in simcase.shrink_list(case["tasks"], 1):
            yield {**case, "tasks": ts}
        if case["policy"]["kind"] != "serial":
            yield {**case, "policy": {"kind": "serial"}}
        for i, t in enumerate(case["tasks"]):
            def put(**kw):
                return {**case, "tasks": [*case["tasks"][:i], {**t, **kw}, *case["tasks"][i + 1 :]]}

            if t["fails"]:
                yield put(fails=[])
            for cs in simcase.shrink_list(t["calls"], 1):
                yield put(calls=cs)
            for j, n in enumerate(t["calls"]):
                if n > 1000:
                    yield put(calls=[*t["calls"][:j], n // 2, *t["calls"][j + 1 :]])
            for key, v in (("xp", "n"), ("k", 1), ("shape", 0), ("form", 0)):
                if t[key] != v and not (key == "xp" and t["xp"] == "j"):
                    yield put(**{key: v})


CHECK = C19()
