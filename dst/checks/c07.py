"""C07: samplers deliver the requested number, order and labels."""

from __future__ import annotations

import math

import numpy as np

from .. import seams, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation

ARCMIN2 = 60**6 // 100 / math.pi


class Tape:
    """Scripted draws, recorded."""

    def __init__(self, case) -> None:
        self.g = np.random.default_rng([case["seed"], 5])
        self.mode = case["draws"]
        self.u: list = []
        self.n: list = []
        self.poisson: list = []
        self.cat: list = []

    def __call__(self, name, call, value):
        args, kw = call
        kind, loc, scale = seams.standard_form(name, call, value)
        size = np.size(value)
        if kind == "u01":
            u = (np.asarray(value, dtype=float) - loc) / scale
            if self.mode == "extreme":
                e = self.g.choice([0.0, 1e-12, 1e-6, 0.5, 1 - 1e-6, 1 - 2**-53], np.shape(value))
                u = np.where(self.g.random(np.shape(value)) < 0.4, e, u)
            elif self.mode == "equal":
                u = np.full(np.shape(value), 0.37)
            self.u.append(np.broadcast_to(u, np.shape(value)).reshape(-1).copy())
            out = loc + scale * u
            return out if np.shape(value) else float(out)
        if kind == "n01":
            z = np.full(np.shape(value), 0.3) if self.mode == "equal" else (np.asarray(value) - loc) / scale
            self.n.append(np.asarray(z).reshape(-1).copy())
            out = loc + scale * z
            return out if np.shape(value) else float(out)
        if name == "poisson":
            v = np.asarray(value)
            if self.mode != "honest":
                lam = np.broadcast_to(seams.argument(args, kw, 0, "lam", 1.0), v.shape)
                v = np.where(lam > 0, self.g.choice([0, 0, 1, 2, 7, 40], v.shape), 0)
            self.poisson.append(v.reshape(-1).copy())
            return v if np.shape(value) else int(v)
        if name == "multinomial":
            p = np.asarray(seams.argument(args, kw, 1, "pvals"))
            v = np.asarray(value)
            if self.mode != "honest" and seams.argument(args, kw, 0, "n") == 1:
                # any category that is possible, however unlikely
                v = np.zeros_like(v)
                flat, pp = v.reshape(-1, v.shape[-1]), np.broadcast_to(p, v.shape).reshape(-1, v.shape[-1])
                for r in range(flat.shape[0]):
                    ok = np.flatnonzero(pp[r] > 0)
                    flat[r, ok[0] if self.mode == "equal" else self.g.choice(ok)] = 1
            self.cat.append(np.argmax(v, axis=-1).reshape(-1))
            return v
        return value


def cdf_of(z, za, wa):
    """Cumulative distribution at z, straight from the definition."""
    c = np.concatenate([[0.0], np.cumsum(np.diff(za) * (wa[1:] + wa[:-1]) / 2)])
    return np.interp(z, za, c / c[-1])


class C07(Check):
    id = "C07"
    title = "samplers deliver number, order and labels"
    quick = 6000
    thorough = 80000
    rule = (
        "One call of redshifts, redshifts_from_nz, redshifts_from_bins, distribute, "
        "uniform_positions or an ellipticity sampler with random counts (zero included), "
        "shapes, supports with gaps, and the draws behind the generator seam honest, all "
        "equal, or extreme but possible; sizes around the internal batch of 1000. A second "
        "task may sample at the same time. Non-trivial: at least one value drawn. Oracle: "
        "number, order of populations, support, and that each value is the quantile of its "
        "own draw; -1 exactly for redshifts outside all shells."
    )
    measure = "digest of inputs and result"
    assumptions = ["quantiles are compared when one uniform is drawn per value"]
    real = ["glass.galaxies, shells, shapes, points, arraytools, rng", "numpy"]
    stub = ["random number generator", "thread scheduler"]

    KINDS = ["nz", "nz", "window", "bins", "bins", "distribute", "distribute", "uniform", "gaussian", "intnorm"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()

    def gen(self, rnd, i, tier):
        kind = rnd.choice(self.KINDS)
        n = rnd.choice([0, 1, 2, 3, 5, 8, 20, 60])
        if rnd.chance(0.08):
            n = rnd.choice([999, 1000, 1001, 1999, 2000, 2001])
        return {
            "kind": kind,
            "seed": rnd.u32(),
            "n": n,
            "k": rnd.choice([1, 2, 3, 4]),
            "xp": rnd.choice("nns"),
            "draws": rnd.choice(["honest", "extreme", "extreme", "equal"]),
            "shape": rnd.randrange(4),
            "other": rnd.chance(0.2),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def run(self, case, st: Stats):
        g = np.random.default_rng(case["seed"])
        xp = wl.namespace(case["xp"])
        tape = Tape(case)
        rng = seams.SimRNG(case["seed"], tape)
        A, call, judge = getattr(self, "do_" + case["kind"])(case, g, xp, rng, tape)
        before = simcase.freeze_args(A)
        out = []
        fns = [lambda t: out.append(call())]
        if case["other"]:
            spec = {"op": ["redshifts_from_nz", "distribute", "uniform_positions"][case["shape"] % 3],
                    "seed": case["seed"], "xp": case["xp"], "n": 20, "k": 2, "nside": 2}
            fns.append(lambda t: wl.call_spec(spec, seed=1))
        simcase.simulate(case, fns, st)
        simcase.check_args(A, before, "argument of " + case["kind"])
        st.add("kind " + case["kind"])
        if case["draws"] != "honest":
            st.add("fault:" + case["draws"] + " draws")
        st.sig = values.digest([case["seed"], case["kind"], values.freeze(out[0])])
        st.nontrivial = bool(tape.u or tape.n or tape.poisson or tape.cat)
        judge(out[0])

    # ---------------------------------------------------------------- redshifts

    def distribution(self, g, j, m=9):
        """n(z) on a support of its own, maybe with a gap and empty ends."""
        z = np.sort(g.uniform(0, 1, m)) + 2.0 * j
        z = np.linspace(z[0], z[-1] + 0.1, m) if g.random() < 0.5 else np.unique(z)
        p = g.uniform(0.1, 1, z.size)
        if g.random() < 0.3:
            p[: int(g.integers(1, 3))] = 0
        if g.random() < 0.3:
            p[-int(g.integers(1, 3)) :] = 0
        return z, p

    def quantiles(self, z, u, za, wa, what):
        """z are the quantiles of u, in any order."""
        lo = za[max(0, np.flatnonzero(wa > 0)[0] - 1)]
        hi = za[min(za.size - 1, np.flatnonzero(wa > 0)[-1] + 1)]
        if z.size and not ((z >= lo - 1e-9).all() and (z <= hi + 1e-9).all()):
            raise Violation("outside-support", f"{what}: {z.min()}..{z.max()} not in {lo}..{hi}")
        if u is not None:
            c = np.sort(cdf_of(z, za, wa))
            if not np.allclose(c, np.sort(u), atol=1e-9):
                raise Violation("wrong-quantile", f"{what}: {c[:4]} for draws {np.sort(u)[:4]}")

    def draws(self, tape, n):
        u = np.concatenate(tape.u) if tape.u else np.zeros(0)
        return u if u.size == n else None

    def do_nz(self, case, g, xp, rng, tape):
        import glass

        n, k = case["n"], case["k"]
        shape = [(), (k,), (2, k), (k, 1)][case["shape"]]
        npop = int(np.prod(shape))
        m = int(g.choice([2, 3, 9, 9, 40]))
        z, p = np.empty((npop, m)), np.empty((npop, m))
        uneven = g.random() < 0.4
        for j in range(npop):
            z[j] = np.linspace(0, 1 + g.random(), m) + 3.0 * j
            if uneven:
                z[j] = np.sort(g.uniform(0.1, 2, m)) + 3.0 * j
            p[j] = g.uniform(0.1, 1, m) * 10.0 ** float(g.choice([0, 0, -12, 12]))
            if g.random() < 0.4 and m > 2:
                p[j, : int(g.integers(1, 3))] = 0
            if g.random() < 0.3 and m > 4:
                p[j, -int(g.integers(1, 3)) :] = 0
        counts = g.integers(0, n + 1, npop)
        counts[g.random(npop) < 0.2] = 0
        if case["n"] >= 999:
            counts[g.integers(npop)] = n
        c = counts.reshape(shape)
        style = int(g.integers(3))
        if style == 0:  # one count for all
            counts[:] = n
            c = np.int64(n) if case["xp"] == "s" or g.random() < 0.5 else np.asarray(n)
        if style == 0 and case["xp"] == "n" and g.random() < 0.3:
            c = n
        A = {
            "count": c if isinstance(c, int) else xp.asarray(c),
            "z": xp.asarray(z.reshape(*shape, m)),
            "nz": xp.asarray(p.reshape(*shape, m)),
        }
        shared = style == 1
        if shared:  # one grid for all
            z[:] = z[0]
            A["z"] = xp.asarray(z[0])

        def judge(out):
            a = values.to_np(out)
            if a.shape != (counts.sum(),):
                raise Violation("wrong-number", f"{a.shape} for counts {counts.tolist()}")
            u = self.draws(tape, a.size)
            i = 0
            for j in range(npop):
                e = i + int(counts[j])
                self.quantiles(a[i:e], None if u is None else u[i:e], z[j], p[j], f"population {j}")
                i = e

        return A, lambda: glass.redshifts_from_nz(**A, rng=rng, warn=False), judge

    def do_window(self, case, g, xp, rng, tape):
        import glass

        z, p = self.distribution(g, 0)
        w = glass.RadialWindow(xp.asarray(z), xp.asarray(p), 0.5)
        n = case["n"]
        k = case["k"]
        counts = g.integers(0, n + 1, k) if case["shape"] % 2 else np.asarray([n])
        # a plain number is not accepted by strict backends
        arg = xp.asarray(counts) if case["shape"] % 2 else xp.asarray(np.int64(n))
        if case["xp"] == "n" and case["shape"] == 0:
            arg = n

        def judge(out):
            a = values.to_np(out)
            if a.shape != (counts.sum(),):
                raise Violation("wrong-number", f"{a.shape} for {counts.tolist()}")
            self.quantiles(a, self.draws(tape, a.size), z, p, "window")

        return {"w": w}, lambda: glass.redshifts(arg, w, rng=rng), judge

    def do_bins(self, case, g, xp, rng, tape):
        import glass

        n, k = case["n"], case["k"]
        shape = [(n,), (n, 2), (2, n), (1, n), (2, 1, n), (3, n, 2), ()][
            case["shape"] + (int(g.integers(0, 4)) if case["shape"] == 3 else 0)
        ]
        labels = [int(x) for x in g.permutation(20)[:k] - 5]
        ls = int(g.integers(6))
        if ls == 0:
            labels = [x / 3.0 for x in labels]
        elif ls == 1 and case["xp"] == "n":
            labels = [f"bin {x}" for x in labels]
        index = g.integers(0, k, shape)
        bins = np.asarray(labels)[index]
        m = 4 * k + 1
        z = np.linspace(0, 2, m)
        p = np.zeros((k, m))
        for j in range(k):
            # triangles with disjoint support
            p[j, 4 * j + 1 : 4 * j + 4] = g.uniform(0.2, 1, 3)
        order = g.permutation(k)
        nzd = {labels[j]: xp.asarray(p[j]) for j in order}
        nzd[99] = xp.asarray(p[0])
        A = {"bins": xp.asarray(bins), "z": xp.asarray(z), "nz": nzd}

        def judge(out):
            a = values.to_np(out)
            if a.shape != shape:
                raise Violation("wrong-number", f"{a.shape} for bins of shape {shape}")
            u = self.draws(tape, a.size)
            cdfs = np.zeros(a.shape)
            for j in range(k):
                s = index == j
                self.quantiles(a[s].reshape(-1), None, z, p[j], f"bin {labels[j]}")
                cdfs[s] = cdf_of(a[s], z, p[j])
            if u is not None:
                c = np.sort(cdfs.reshape(-1))
                if not np.allclose(c, np.sort(u), atol=1e-9):
                    raise Violation("wrong-quantile", "redshifts are not the quantiles of the draws")

        return A, lambda: glass.redshifts_from_bins(A["bins"], A["z"], A["nz"], rng=rng), judge

    # ------------------------------------------------------------------- shells

    def do_distribute(self, case, g, xp, rng, tape):
        import glass

        n, k = case["n"], case["k"]
        kind = int(g.integers(3))
        edges = np.concatenate([[0.1], 0.1 + np.cumsum(g.uniform(0.1, 0.4, k + 2))])
        shells, ref = [], []
        # windows have any normalisation
        amp = 10.0 ** float(g.choice([0, 0, 0, 0, -3, -9, -20, -100, 9, 50]))
        for j in range(k):
            if kind == 0:  # tophat
                za = np.linspace(edges[j], edges[j + 1], 5)
                wa = np.ones(5)
            elif kind == 1:  # triangles
                za = np.asarray([edges[j], edges[j + 1], edges[j + 2]])
                wa = np.asarray([0.0, 1.0, 0.0])
            else:  # shells with gaps between them, and unequal size
                za = np.linspace(edges[j], edges[j] + 0.6 * (edges[j + 1] - edges[j]), 4)
                wa = g.uniform(0, 1, 4)
                wa[0] = 0.0
            wa = wa * amp
            shells.append(glass.RadialWindow(xp.asarray(za), xp.asarray(wa), float(za[1])))
            ref.append((za, wa))
        shape = [(n,), (2, max(n // 2, 1)), (n, 1), (n,)][case["shape"]]
        z = g.uniform(0.0, edges[k] + 0.3, shape)
        snap = g.random(shape) < 0.15
        z = np.where(snap, g.choice(edges, shape), z)
        A = {"z": xp.asarray(z), "shells": shells}

        def judge(out):
            a = values.to_np(out)
            if a.shape != shape:
                raise Violation("wrong-number", f"{a.shape} for redshifts of shape {shape}")
            if a.size == 0:
                return
            if a.dtype.kind not in "iu":
                raise Violation("wrong-type", f"indices of type {a.dtype}")
            w = np.stack([np.interp(z, za, wa, left=0.0, right=0.0) for za, wa in ref], axis=-1)
            outside = w.sum(axis=-1) == 0
            if ((a == -1) != outside).any():
                i = tuple(np.argwhere((a == -1) != outside)[0])
                raise Violation(
                    "wrong-label", f"redshift {z[i]} gets {a[i]}, weights {w[i].tolist()}"
                )
            if (a < -1).any() or (a >= k).any():
                raise Violation("wrong-label", f"{a.min()}..{a.max()} for {k} shells")
            pick = np.take_along_axis(w, np.maximum(a, 0)[..., None], axis=-1)[..., 0]
            if ((pick <= 0) & ~outside).any():
                raise Violation("wrong-label", "shell whose weight vanishes at the redshift")
            cat = np.concatenate(tape.cat) if tape.cat else np.zeros(0)
            if cat.size == a.size and case["draws"] != "equal":
                if (cat.reshape(a.shape) - 1 != a).any():
                    raise Violation("wrong-order", "labels are not in the order of the redshifts")

        return A, lambda: glass.distribute(A["z"], A["shells"], rng=rng), judge

    # ---------------------------------------------------------------- positions

    def do_uniform(self, case, g, xp, rng, tape):
        import glass

        shape = [(), (case["k"],), (2, case["k"]), (1, 2, 2)][case["shape"]]
        mean = case["n"] / ARCMIN2
        ngal = np.asarray(g.uniform(0, 2 * mean, shape))
        if shape:
            ngal = np.where(g.random(shape) < 0.3, 0.0, ngal)
        A = {"ngal": xp.asarray(ngal)}

        def call():
            return [
                (values.to_np(a), values.to_np(b), values.to_np(c) if values.is_array(c) else c)
                for a, b, c in glass.uniform_positions(A["ngal"], rng=rng, xp=xp)
            ]

        def judge(items):
            want = np.concatenate(tape.poisson)
            if want.size != max(1, int(np.prod(shape))):
                want = None
            tot = np.zeros(shape, dtype=np.int64)
            last = -1
            for lon, lat, c in items:
                c = np.asarray(c)
                if c.shape != shape or int(c.sum()) != lon.size or lon.shape != lat.shape:
                    raise Violation("wrong-count", f"count {c.tolist()} for {lon.size} positions")
                nz = np.flatnonzero(c.reshape(-1))
                if nz.size > 1 or (nz.size and nz[0] < last):
                    raise Violation("wrong-label", f"count {c.tolist()} after population {last}")
                if nz.size:
                    last = int(nz[0])
                if not (np.isfinite(lon).all() and (abs(lon) <= 180 + 1e-9).all() and (abs(lat) <= 90).all()):
                    raise Violation("outside-support", "position is not on the sphere")
                tot = tot + c
            if want is not None and (tot.reshape(-1) != want).any():
                raise Violation("wrong-number", f"{tot.tolist()} positions, {want.tolist()} drawn")
            if (tot[ngal == 0] != 0).any():
                raise Violation("wrong-number", "positions for vanishing density")
            # every position is the image of its own two draws
            u = self.draws(tape, 2 * int(tot.sum()))
            if u is not None and items:
                lon = np.concatenate([i[0] for i in items])
                lat = np.concatenate([i[1] for i in items])
                a = np.sort(np.concatenate([(lon + 180) / 360, (np.sin(np.radians(lat)) + 1) / 2]))
                if not np.allclose(a, np.sort(u), atol=1e-7):
                    raise Violation("wrong-quantile", "positions are not the images of the draws")

        return A, call, judge

    # ------------------------------------------------------------- ellipticities

    def shapes(self, case, g, xp, rng, tape, f, image):
        n, k = case["n"], case["k"]
        shape = [(), (k,), (2, k), (k, 1)][case["shape"]]
        npop = int(np.prod(shape))
        counts = g.integers(0, n + 1, npop)
        sigma = np.sort(g.uniform(0.01, 0.3, npop)) + 0.001 * np.arange(npop)
        sigma = sigma[g.permutation(npop)]
        c, s = counts.reshape(shape), sigma.reshape(shape)
        if case["draws"] == "extreme":
            c = np.asarray(n)
            counts[:] = n
        A = {"count": xp.asarray(c), "sigma": xp.asarray(s)}

        def judge(out):
            a = values.to_np(out)
            if a.shape != (counts.sum(),):
                raise Violation("wrong-number", f"{a.shape} for counts {counts.tolist()}")
            if not np.isfinite(a).all() or (abs(a) > 1).any():
                raise Violation("outside-support", f"ellipticity {a[abs(a).argmax()]}")
            z = np.concatenate(tape.n) if tape.n else np.zeros(0)
            if z.size != 2 * a.size:
                return  # some were rejected
            i = 0
            for j in range(npop):
                e = i + int(counts[j])
                # undo the image: real and imaginary parts are the draws
                x = image(a[i:e], sigma[j])
                got = np.sort(np.concatenate([x.real, x.imag]))
                if not np.allclose(got, np.sort(z[2 * i : 2 * e]), atol=1e-7):
                    raise Violation(
                        "wrong-quantile",
                        f"population {j} of sigma {sigma[j]}: {got[:4]} from draws {np.sort(z[2*i:2*e])[:4]}",
                    )
                i = e

        return A, lambda: f(A["count"], A["sigma"], rng=rng), judge

    def do_gaussian(self, case, g, xp, rng, tape):
        import glass

        return self.shapes(case, g, xp, rng, tape, glass.ellipticity_gaussian, lambda e, s: e / s)

    def do_intnorm(self, case, g, xp, rng, tape):
        import glass

        def image(e, s):
            eta = s * ((8 + 5 * s**2) / (2 - 4 * s**2)) ** 0.5
            r = abs(e)
            # |e| = tanh(|eta| / 2)
            return np.where(r > 0, e / np.where(r > 0, r, 1), 0) * 2 * np.arctanh(r) / eta

        return self.shapes(case, g, xp, rng, tape, glass.ellipticity_intnorm, image)

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        if case["other"]:
            yield {**case, "other": False}
        yield from simcase.simpler(case, (("xp", "n"), ("draws", "honest"), ("shape", 0), ("k", 1), ("n", 1), ("n", 3), ("policy", {"kind": "serial"})))
        if case["n"] > 3:
            yield {**case, "n": case["n"] // 2}
            yield {**case, "n": case["n"] - 1}


CHECK = C07()
