"""C06: sampled positions conserve the drawn counts."""

from __future__ import annotations

import itertools
import math

import numpy as np

from .. import sched, seams, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation
from .c04 import scribble

ARCMIN2 = 60**6 // 100 / math.pi  # square arc minutes on the sphere


class Counts:
    """Tape for Poisson draws."""

    def __init__(self, mode, g, batch) -> None:
        self.mode, self.g, self.batch = mode, g, batch
        self.drawn: list = []

    def __call__(self, name, call, value):
        if name != "poisson":
            return value
        lam = np.asarray(seams.argument(*call, 0, "lam", 1.0), dtype=float)
        lam = np.broadcast_to(lam, np.shape(value))
        if self.mode == "mean":
            v = np.rint(lam).astype(np.int64)
        elif self.mode == "honest":
            v = np.asarray(value)
        else:
            v = self.script(np.asarray(value).size).reshape(np.shape(value))
            v = np.where(lam > 0, v, 0)
        self.drawn.append(v.reshape(-1).copy())
        return v if np.shape(value) else int(v)

    def script(self, n):
        """Outcomes which are possible, however unlikely."""
        g, b = self.g, min(self.batch, 400)
        v = np.zeros(n, dtype=np.int64)
        m = self.mode
        if m == "zero":
            return v
        if m == "spike":
            for _ in range(int(g.integers(1, 4))):
                v[g.integers(n)] = g.integers(1, 2 * b + 3)
        elif m == "sparse":
            at = g.random(n) < 8 / n
            v[at] = g.integers(1, 4, at.sum())
        elif m == "edge":
            # cumulative counts that hit the batch size exactly
            p = int(g.integers(n))
            for _ in range(3):
                v[p] = b
                p = min(n - 1, p + int(g.integers(1, 30)))
            v[int(g.integers(n))] += int(g.integers(0, 2))
        elif m == "ends":
            v[0] = g.integers(0, b + 2)
            v[-1] = g.integers(0, b + 2)
            if n > 1000:
                v[999] = g.integers(0, 3)
                v[1000] = g.integers(0, 3)
                v[-(n % 1000) or -1] = g.integers(0, 3)
        elif m == "dense":
            v[:] = g.integers(0, 4, n)
        return v


class C06(Check):
    id = "C06"
    title = "positions conserve drawn counts"
    quick = 1400
    thorough = 60000
    rule = (
        "One positions_from_delta() stream with random maps, populations in any of the "
        "arguments, bias models, visibility with holes, monopole removal, batch size and "
        "nside 1-16. The Poisson draws behind the generator seam are honest, set to their "
        "mean, or to rare outcomes (nothing, few full pixels, exact batch boundaries, first "
        "and last pixel, group boundaries). A second task may sample, and the consumer may "
        "overwrite batches. Non-trivial: at least one position. Oracle: counts per pixel and "
        "population from the delivered positions equal the draws, and the rounded reference "
        "mean where draws are the mean; batch limit; labels; order of populations."
    )
    measure = "digest of inputs and counts"
    assumptions = ["healpy.ang2pix locates positions (none on a pixel border)"]
    real = ["glass.points, arraytools, healpix, rng", "numpy", "healpy", "healpix"]
    stub = ["random number generator (Poisson draws)", "consumer", "bias model", "thread scheduler"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()

    def gen(self, rnd, i, tier):
        return {
            "seed": rnd.u32(),
            "nside": rnd.choice([1, 2, 4, 8, 16, 16]),
            "xp": rnd.choice("nnns"),
            "dims": rnd.choice([[], [], [2], [3], [2, 2], [1], [3, 1, 2]]),
            "where": [rnd.randrange(3) for _ in range(4)],
            "bias": rnd.choice(["none", "linear", "loglinear", "user", "float"]),
            "vis": rnd.chance(0.6),
            "mono": rnd.chance(0.4),
            "deep": rnd.chance(0.3),
            "batch": rnd.choice([1, 2, 5, 10, 33, 100, 1000, 1_000_000]),
            "mode": rnd.choice(
                ["honest", "mean", "mean", "zero", "spike", "spike", "sparse", "edge", "edge", "ends", "dense"]
            ),
            "total": rnd.choice([0, 3, 30, 300]),
            "scribble": rnd.chance(0.3),
            "other": rnd.chance(0.2),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def inputs(self, case):
        """NumPy inputs and the reference mean counts, populations flattened."""
        g = np.random.default_rng(case["seed"])
        npix = 12 * case["nside"] ** 2
        dims = tuple(case["dims"])

        def lead(how):
            # leading axes of an argument: none, all, or some of them one
            if how == 0 or not dims:
                return ()
            if how == 1:
                return dims
            return tuple(d if g.random() < 0.5 else 1 for d in dims)

        w = list(case["where"])
        if dims and all(x == 0 for x in w[:2]):
            w[1] = 1
        total = max(case["total"], 0)
        ngal = g.uniform(0.2, 1.8, lead(w[0])) * total / ARCMIN2
        lo = -1.6 if case["deep"] else -0.95
        delta = g.uniform(lo, 2.0, (*lead(w[1]), npix))
        bias = None
        if case["bias"] == "float":
            bias = float(g.uniform(0.3, 1.5))
        elif case["bias"] != "none":
            bias = g.uniform(0.3, 1.5, lead(w[2]))
            if case["bias"] == "loglinear":
                delta = np.maximum(delta, -0.9)
        vis = None
        if case["vis"]:
            vis = g.uniform(0, 1, (*lead(w[3]), npix))
            a, b = sorted(g.integers(0, npix + 1, 2))
            vis[..., a:b] = 0.0
            vis[g.random(vis.shape) < 0.2] = 0.0
        shapes = [np.shape(ngal), delta.shape[:-1]]
        if bias is not None:
            shapes.append(np.shape(bias))
        if vis is not None:
            shapes.append(vis.shape[:-1])
        d = np.broadcast_shapes(*shapes)
        x = np.broadcast_to(delta, (*d, npix))
        bb = None if bias is None else np.broadcast_to(np.asarray(bias), d)[..., None]
        if case["bias"] in ("linear", "float"):
            x = bb * x
        elif case["bias"] == "loglinear":
            x = np.expm1(bb * np.log1p(x))
        elif case["bias"] == "user":
            x = bb * x + 0.1 * x * x
        if case["mono"]:
            x = x - x.mean(axis=-1, keepdims=True)
        lam = (1 + x) * np.broadcast_to(np.asarray(ngal), d)[..., None] * ARCMIN2 / npix
        if vis is not None:
            lam = lam * np.broadcast_to(vis, (*d, npix))
        lam = np.clip(lam, 0, None)
        return ngal, delta, bias, vis, d, lam

    def run(self, case, st: Stats):
        import glass

        ngal, delta, bias, vis, d, lam = self.inputs(case)
        xp = wl.namespace(case["xp"])
        A = {
            "ngal": xp.asarray(ngal),
            "delta": xp.asarray(delta),
            "bias": bias if bias is None or isinstance(bias, float) else xp.asarray(bias),
            "vis": None if vis is None else xp.asarray(vis),
        }
        before = simcase.freeze_args(A)
        kw = {}
        if case["bias"] == "loglinear":
            kw["bias_model"] = glass.loglinear_bias
        elif case["bias"] == "user":
            kw["bias_model"] = wl.user_bias
        tape = Counts(case["mode"], np.random.default_rng([case["seed"], 1]), case["batch"])
        rng = seams.SimRNG(case["seed"], tape)
        npix = lam.shape[-1]
        npop = int(np.prod(d))
        got = np.zeros((npop, npix), dtype=np.int64)
        state = {"pop": 0, "batches": 0}

        def one(lon, lat, count):
            lon_, lat_ = values.to_np(lon), values.to_np(lat)
            import healpy

            if lon_.ndim != 1 or lon_.shape != lat_.shape:
                raise Violation("wrong-shape", f"lon {lon_.shape} lat {lat_.shape}")
            if not (np.isfinite(lon_).all() and (abs(lat_) <= 90).all()):
                raise Violation("bad-position", f"{lon_[:4]} {lat_[:4]}")
            c = np.asarray(values.to_np(count) if values.is_array(count) else count)
            if c.shape != d:
                raise Violation("wrong-count", f"count has shape {c.shape}, populations {d}")
            if int(c.sum()) != lon_.size or (c < 0).any():
                raise Violation("wrong-count", f"count {c.tolist()} for {lon_.size} positions")
            ipix = healpy.ang2pix(case["nside"], lon_, lat_, lonlat=True)
            if lon_.size > case["batch"] and np.unique(ipix).size > 1:
                raise Violation(
                    "batch-limit", f"{lon_.size} positions in {np.unique(ipix).size} pixels, batch {case['batch']}"
                )
            nz = np.flatnonzero(c.reshape(-1))
            if nz.size > 1:
                # one batch may only hold one population for labels to be useful
                raise Violation("wrong-label", f"batch mixes populations: {c.tolist()}")
            if nz.size:
                p = int(nz[0])
                if p < state["pop"]:
                    raise Violation("wrong-order", f"population {p} after {state['pop']}")
                state["pop"] = p
                np.add.at(got[p], ipix, 1)
            state["batches"] += 1

        def body(task):
            for lon, lat, count in glass.positions_from_delta(
                **A, **kw, remove_monopole=case["mono"], batch=case["batch"], rng=rng
            ):
                one(lon, lat, count)
                if case["scribble"]:
                    scribble((lon, lat, count))

        fns = [body]
        if case["other"]:
            spec = {"op": "positions_from_delta", "seed": case["seed"], "xp": case["xp"], "n": 60, "k": 2, "nside": 2}
            fns.append(lambda t: wl.call_spec(spec, seed=1))
        simcase.simulate(case, fns, st)
        simcase.check_args(A, before, "argument of positions_from_delta")
        drawn = np.concatenate(tape.drawn) if tape.drawn else np.zeros(0, dtype=np.int64)
        st.add("positions", int(got.sum()))
        st.add("batches", state["batches"])
        st.add("fault:rare draws" if case["mode"] not in ("honest", "mean") else "fair draws")
        st.nontrivial = bool(got.sum())
        st.sig = values.digest([case["seed"], got])
        if int(got.sum()) != int(drawn.sum()):
            raise Violation("lost-or-extra", f"{got.sum()} positions for {drawn.sum()} drawn")
        if (got[lam.reshape(npop, npix) == 0] != 0).any():
            raise Violation("position-in-empty-pixel", "position where the density vanishes")
        if drawn.size == got.size:
            want = drawn.reshape(npop, npix)
            if (want != got).any():
                p, q = np.argwhere(want != got)[0]
                raise Violation(
                    "wrong-pixel-count",
                    f"population {p} pixel {q}: {got[p, q]} positions, {want[p, q]} drawn",
                )
        if case["mode"] == "mean":
            r = lam.reshape(npop, npix)
            bad = abs(got - r) > 0.5 + 1e-6 * (1 + r)
            if bad.any():
                p, q = np.argwhere(bad)[0]
                raise Violation(
                    "wrong-mean",
                    f"population {p} pixel {q}: mean {got[p, q]} expected {r[p, q]:.4f}",
                )

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        if case["other"]:
            yield {**case, "other": False}
        yield from simcase.simpler(case, (
            ("dims", []), ("bias", "none"), ("vis", False), ("mono", False), ("deep", False),
            ("scribble", False), ("xp", "n"), ("mode", "honest"), ("nside", 1), ("nside", 2), ("nside", 8),
            ("total", 3), ("total", 30), ("policy", {"kind": "serial"}),
        ))


CHECK = C06()
