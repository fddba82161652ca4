"""C08: rejection sampling stays in bounds and ends, whatever is drawn."""

from __future__ import annotations

import math

import numpy as np

from .. import seams, simcase, values
from .. import workload as wl
from ..core import Check, HarnessError, Stats, Violation

GOOD = 0.05  # a standard normal draw that is always acceptable


class Adversary:
    """
    Tape for standard draws.

    For a number of draws, any entry may be extreme; afterwards every entry
    is good.
    """

    def __init__(self, case) -> None:
        self.g = np.random.default_rng([case["seed"], 9])
        self.left = case["rounds"]
        self.p = case["p"]
        self.mode = case["mode"]
        self.size = case["size"]
        self.angles = case["angles"]
        self.calls = 0
        self.after = 0  # draws since good
        self.z: list = []
        self.first: list = []

    def __call__(self, name, call, value):
        kind, loc, scale = seams.standard_form(name, call, value)
        shape = np.shape(value)
        if kind == "n01":
            self.calls += 1
            bad = {
                "far": [-40.0, 40.0, 1e3, -1e3],
                "edge": [-1.0, 1.0, 1.5, -1.5, 2.0, -2.5],
                "huge": [1e8, -1e8, 1e15],
                "honest": [],
            }[self.mode]
            z = np.full(shape, GOOD)
            # values that tell draws apart
            z = z + 0.01 * self.g.integers(-8, 4, shape)
            if self.left > 0:
                self.left -= 1
                if bad:
                    hit = self.g.random(shape) < self.p
                    z = np.where(hit, self.g.choice(bad, shape), z)
                else:
                    z = self.g.normal(size=shape)
            else:
                self.after += 1
                if self.after > 50:
                    raise Violation("no-progress", "draws are acceptable but sampling goes on")
            self.z.append(np.asarray(z).reshape(-1))
            self.first.append(np.asarray(z).copy())
            out = loc + scale * z
            return out if shape else float(out)
        if kind == "u01":
            u = (np.asarray(value, dtype=float) - loc) / scale
            if self.angles == "zero":
                u = np.zeros(shape)
            elif self.angles == "half":
                u = np.full(shape, 0.5)
            elif self.angles == "ends":
                u = self.g.choice([0.0, 1e-9, 0.25, 0.5, 0.75, 1 - 2**-53], shape)
            out = loc + scale * u
            return out if shape else float(out)
        raise HarnessError(f"draws with {name}()")


class C08(Check):
    id = "C08"
    title = "rejection sampling"
    quick = 12000
    thorough = 200000
    rule = (
        "gaussian_phz, ellipticity_gaussian, ellipticity_intnorm, ellipticity_ryden04 or "
        "triaxial_axis_ratio with random parameters per entry and bounds of any kind; an "
        "adversary behind the generator seam returns extreme draws for any entries over up "
        "to 600 rounds, then acceptable ones. Viewing angles random, degenerate or extreme. "
        "Non-trivial: at least one entry was rejected, or angles were scripted. Oracle: "
        "finite and in bounds, every value is the image of a draw under the parameters of "
        "its own entry, entries accepted at first keep their value, and the call ends soon "
        "after draws become acceptable."
    )
    measure = "digest of inputs, draws and result"
    assumptions = ["normal and uniform draws are made with normal, standard_normal, uniform or random"]
    real = ["glass.galaxies, shapes, rng", "numpy"]
    stub = ["random number generator (adversarial)", "thread scheduler"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()

    def gen(self, rnd, i, tier):
        return {
            "kind": rnd.choice(["phz", "phz", "gaussian", "gaussian", "intnorm", "ryden", "ryden", "triaxial"]),
            "seed": rnd.u32(),
            "size": rnd.choice([1, 2, 3, 7, 20, 100]),
            "k": rnd.choice([1, 2, 3]),
            "xp": rnd.choice("nns"),
            "rounds": rnd.choice([0, 1, 2, 3, 5, 12, 12, 60, 600]),
            "p": rnd.choice([0.1, 0.5, 1.0]),
            "mode": rnd.choice(["far", "edge", "edge", "huge", "honest"]),
            "angles": rnd.choice(["random", "zero", "half", "ends"]),
            "shape": rnd.randrange(4),
            "bounds": rnd.randrange(9),
            "other": rnd.chance(0.15),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def run(self, case, st: Stats):
        g = np.random.default_rng(case["seed"])
        xp = wl.namespace(case["xp"])
        adv = Adversary(case)
        rng = seams.SimRNG(case["seed"], adv)
        A, call, judge = getattr(self, "do_" + case["kind"])(case, g, xp, rng, adv)
        before = simcase.freeze_args(A)
        out = []
        fns = [lambda t: out.append(call())]
        if case["other"]:
            spec = {"op": "ellipticity_gaussian", "seed": case["seed"], "xp": case["xp"], "n": 20, "k": 2, "nside": 1}
            fns.append(lambda t: wl.call_spec(spec, seed=1))
        simcase.simulate(case, fns, st, budget=5_000_000)
        simcase.check_args(A, before, "argument of " + case["kind"])
        st.add("kind " + case["kind"])
        st.add("normal draws", adv.calls)
        if case["mode"] != "honest" and case["rounds"]:
            st.add("fault:extreme draws")
        if case["angles"] != "random":
            st.add("fault:extreme angles")
        a = values.to_np(out[0])
        st.sig = values.digest([case["seed"], case["kind"], a, adv.calls])
        st.nontrivial = case["rounds"] > 0 or case["angles"] != "random"
        if not np.isfinite(a).all():
            raise Violation("not-finite", f"{case['kind']}: {a[~np.isfinite(a)][:3]}")
        judge(a)

    # ---------------------------------------------------------------------- phz

    def do_phz(self, case, g, xp, rng, adv):
        import glass

        n = case["size"]
        shape = [(n,), (2, n), (), (n, 1)][case["shape"]]
        z = g.uniform(0.5, 2, shape)
        s0 = g.uniform(0.05, 0.1, shape if g.random() < 0.5 else ())
        sig = (1 + z) * s0
        lo, hi = {
            0: (None, None),
            1: (z - 1.2 * sig, z + 1.2 * sig),
            2: (np.asarray(0.0), np.asarray(3.0)),
            3: (None, z + 1.2 * sig),
            4: (z - 1.2 * sig, None),
            5: (np.asarray(-1.0), None),
            6: (None, np.asarray(2.5)),
            # nothing says that bounds are positive, or finite
            7: (-z - 1.2 * sig, -z + 1.2 * sig),
            8: (np.full(shape, -np.inf), np.full(shape, np.inf)),
        }[case["bounds"]]
        if case["bounds"] == 7:
            z = -z
            sig = (1 + z) * s0
            if (sig <= 0.02).any():
                # redshifts close to -1 have no errors
                z = np.clip(z, -0.7, None)
                sig = (1 + z) * s0
            lo, hi = z - 1.2 * sig, z + 1.2 * sig
        f = lambda x: None if x is None else xp.asarray(x)  # noqa: E731
        A = {"z": xp.asarray(z), "sigma_0": xp.asarray(s0), "lower": f(lo), "upper": f(hi)}
        if case["xp"] == "n" and case["bounds"] in (2, 5, 6) and g.random() < 0.5:
            A["lower"] = None if lo is None else float(lo)
            A["upper"] = None if hi is None else float(hi)
        lo_ = 0.0 if lo is None else lo
        hi_ = np.inf if hi is None else hi

        def judge(a):
            if a.shape != shape:
                raise Violation("wrong-shape", f"{a.shape} for {shape}")
            if ((a < lo_) | (a > hi_)).any():
                raise Violation("out-of-bounds", f"redshift {a.min()}..{a.max()}")
            self.own_draws((a - z) / sig, adv, "redshift")
            # accepted at once
            f0 = adv.first[0]
            if np.shape(f0) == shape:
                first = z + sig * f0
                ok = (first >= lo_ + 1e-9) & (first <= hi_ - 1e-9)
                if not np.allclose(a[ok], first[ok], rtol=0, atol=1e-9):
                    raise Violation("accepted-changed", "an accepted redshift was drawn again")

        return A, lambda: glass.gaussian_phz(**A, rng=rng, xp=xp), judge

    def own_draws(self, t, adv, what, tol=1e-6):
        """Every standardised value is one of the draws."""
        zs = np.sort(np.concatenate(adv.z))
        t = np.asarray(t).reshape(-1)
        i = np.clip(np.searchsorted(zs, t), 1, max(1, zs.size - 1)) if zs.size > 1 else np.zeros(t.size, int)
        near = np.abs(zs[np.minimum(i, zs.size - 1)] - t)
        if zs.size > 1:
            near = np.minimum(near, np.abs(zs[i - 1] - t))
        if (near > tol * (1 + np.abs(t))).any():
            j = int(near.argmax())
            raise Violation("not-its-draw", f"{what} {j} standardises to {t[j]}, which was not drawn")

    # ------------------------------------------------------------- ellipticities

    def shapes(self, case, g, xp, rng, adv, f, image):
        n, k = case["size"], case["k"]
        shape = [(), (k,), (2, k), (k, 1)][case["shape"]]
        counts = np.asarray(g.integers(0, n + 1, shape))
        top = 0.45 if f.__name__ != "ellipticity_gaussian" else float(g.choice([0.45, 0.45, 0.7]))
        if f.__name__ == "ellipticity_intnorm":
            top = [0.45, 0.45, 0.7071][case["rounds"] % 3]
        sigma = g.uniform(0.05, top, shape)
        still = g.random(shape) < 0.1
        sigma = np.where(still, 0.0, sigma)
        form = int(g.integers(5)) if shape else 0
        if form == 1:
            # one number for all
            counts = np.full(shape, n)
            A = {"count": xp.asarray(np.int64(n)), "sigma": xp.asarray(sigma)}
        elif form == 2:
            sigma = np.full(shape, 0.3)
            still = sigma == 0
            A = {"count": xp.asarray(counts), "sigma": xp.asarray(0.3)}
        else:
            A = {"count": xp.asarray(counts), "sigma": xp.asarray(sigma)}

        if f.__name__ == "ellipticity_intnorm" and case["bounds"] == 8 and form != 2:
            # one of them has no distribution on the unit disc
            sigma = np.array(sigma)
            sigma.reshape(-1)[case["sched"] % sigma.size] = [0.5**0.5, 0.71, 0.75, 1.0, 3.0, np.nan][case["seed"] % 6]
            A["sigma"] = xp.asarray(sigma)

            def refused():
                try:
                    e = f(A["count"], A["sigma"], rng=rng)
                except ValueError:
                    return xp.zeros(0)
                # or the values are sound: this is seen to by the caller
                if (abs(values.to_np(e)) > 1 + 1e-12).any():
                    raise Violation("out-of-bounds", "sigma which is not admissible")
                return e

            return A, refused, lambda a: None

        def judge(a):
            if a.shape != (counts.sum(),):
                raise Violation("wrong-number", f"{a.shape} for {counts.tolist()}")
            if (abs(a) > 1 + 1e-12).any():
                raise Violation("out-of-bounds", f"ellipticity of modulus {abs(a).max()}")
            s = np.repeat(sigma.reshape(-1), counts.reshape(-1))
            if (a[s == 0] != 0).any():
                raise Violation("not-its-draw", "ellipticity where sigma vanishes")
            if still.reshape(-1)[0]:
                return
            a, s = a[s > 0], s[s > 0]
            x = image(a, s)
            if x is not None:
                self.own_draws(np.concatenate([x.real, x.imag]), adv, "component")
                c = int(counts.reshape(-1)[0])
                if len(adv.first) > 1 and np.shape(adv.first[0]) == (c,) == np.shape(adv.first[1]):
                    z = adv.first[0] + 1j * adv.first[1]
                    ok = abs(z) * sigma.reshape(-1)[0] < 1 - 1e-9
                    if not np.allclose(x[:c][ok], z[ok], rtol=0, atol=1e-7):
                        raise Violation("accepted-changed", "an accepted ellipticity was drawn again")

        return A, lambda: f(A["count"], A["sigma"], rng=rng), judge

    def do_gaussian(self, case, g, xp, rng, adv):
        import glass

        return self.shapes(case, g, xp, rng, adv, glass.ellipticity_gaussian, lambda e, s: e / s)

    def do_intnorm(self, case, g, xp, rng, adv):
        import glass

        def image(e, s):
            eta = s * ((8 + 5 * s**2) / (2 - 4 * s**2)) ** 0.5
            r = abs(e)
            if (r > 0.999).any():
                return None
            return np.where(r > 0, e / np.where(r > 0, r, 1), 0) * 2 * np.arctanh(r) / eta

        return self.shapes(case, g, xp, rng, adv, glass.ellipticity_intnorm, image)

    def do_ryden(self, case, g, xp, rng, adv):
        import glass

        n = case["size"]
        shape = [(n,), (2, n), (n,), (n, 1)][case["shape"]]
        mu = g.uniform(-2.2, -1.5, shape)
        sigma = g.uniform(0.3, 1.0, shape if g.random() < 0.5 else ())
        gamma = g.uniform(0.15, 0.4, shape)
        sg = g.uniform(0.02, 0.2, shape)
        A = {
            "mu": xp.asarray(mu), "sigma": xp.asarray(sigma), "gamma": xp.asarray(gamma), "sigma_gamma": xp.asarray(sg),
        }
        if g.random() < 0.25:
            # one population, shape given
            mu, sigma, gamma, sg = -1.85, 0.89, 0.25, 0.056
            A = {k: xp.asarray(v) for k, v in zip(A, (mu, sigma, gamma, sg))}
            A["size"] = shape

        def judge(a):
            if a.shape != shape:
                raise Violation("wrong-shape", f"{a.shape} for {shape}")
            e = abs(a)
            if (e > 1 + 1e-12).any():
                raise Violation("out-of-bounds", f"ellipticity of modulus {e.max()}")
            q = (1 - e) / (1 + e)
            if case["angles"] == "zero":
                # seen along the minor axis, q = zeta
                with np.errstate(all="ignore"):
                    eps = np.log1p(-q)
                ok = np.isfinite(eps) & (q < 1 - 1e-9)
                t = ((eps - mu) / sigma)[ok]
                self.own_draws(t, adv, "axis ratio", 1e-5)
            elif case["angles"] == "half":
                # seen along the intermediate axis, q = xi / zeta
                ok = q > 1e-6
                t = ((1 - q - gamma) / sg)[ok]
                self.own_draws(t, adv, "flattening", 1e-5)

        return A, lambda: glass.ellipticity_ryden04(**A, rng=rng), judge

    def do_triaxial(self, case, g, xp, rng, adv):
        import glass

        n = case["size"]
        shape = [(n,), (2, n), (n,), (n, 1)][case["shape"]]
        zeta = g.choice([1e-9, 1e-5, 0.01, 0.3, 0.9, 1.0], shape) if case["mode"] == "edge" else g.uniform(0.1, 1, shape)
        xi = zeta * (g.choice([1e-9, 0.1, 1.0], shape) if case["p"] == 0.5 else g.uniform(0.05, 1, shape))
        A = {"zeta": xp.asarray(zeta), "xi": xp.asarray(xi)}
        if g.random() < 0.25:
            zeta, xi = float(g.choice([1e-5, 0.3, 0.9, 1.0])), 0.0
            xi = zeta * float(g.choice([1e-9, 0.1, 0.5, 1.0]))
            A = {"zeta": xp.asarray(zeta), "xi": xp.asarray(xi), "size": shape}

        def judge(a):
            if a.shape != shape:
                raise Violation("wrong-shape", f"{a.shape} for {shape}")
            if (a > 1 + 1e-9).any() or (a < xi - 1e-6).any():
                raise Violation("out-of-bounds", f"axis ratio {a.min()}..{a.max()}")

        return A, lambda: glass.triaxial_axis_ratio(**A, rng=rng), judge

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        if case["other"]:
            yield {**case, "other": False}
        yield from simcase.simpler(case, (
            ("xp", "n"), ("angles", "random"), ("mode", "honest"), ("rounds", 0), ("rounds", 1),
            ("shape", 0), ("k", 1), ("size", 1), ("size", 3), ("bounds", 0), ("policy", {"kind": "serial"}),
        ))


CHECK = C08()
