"""C11: the multi-plane convergence equals the direct sum, whatever happened."""

from __future__ import annotations

import numpy as np

from .. import sched, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation


class Cosmo:
    """User supplied cosmology, flat or curved, which can fail when asked."""

    def __init__(self, om, k, kind) -> None:
        self.om = om
        self.k = k
        self.kind = kind
        self.exc = 0

    def ask(self, what) -> None:
        sched.callback_point("cosmo." + what)
        t = sched.current()
        left = getattr(t, "fail_in", None) if t is not None else None
        if left is not None:
            t.fail_in = left - 1 if left > 1 else None
            if left == 1:
                t.sim.fire(t, "cosmology", what)
                raise sched.user_error("cosmo." + what, self.exc)

    def chi(self, z):
        z = np.asarray(z, dtype=float)
        return z / (1 + 0.3 * z)

    def x(self, z1, z2):
        """Transverse comoving distance in Hubble distances."""
        d = self.chi(z2) - self.chi(z1)
        if self.k > 0:
            r = np.sqrt(self.k)
            return np.sin(r * d) / r
        if self.k < 0:
            r = np.sqrt(-self.k)
            return np.sinh(r * d) / r
        return d

    def E(self, z):
        return (self.om * (1 + z) ** 3 + 1 - self.om) ** 0.5

    @property
    def Omega_m0(self):
        self.ask("Omega_m0")
        return self.om

    @property
    def hubble_distance(self):
        self.ask("hubble_distance")
        return 4.4e3

    @property
    def h(self):
        self.ask("h")
        return 0.7

    def H_over_H0(self, z):
        self.ask("H_over_H0")
        return self.E(z)

    def transverse_comoving_distance(self, z, z2=None):
        self.ask("transverse_comoving_distance")
        if isinstance(z, (list, tuple)):
            z = [float(a) for a in z]
        out = self.x(0.0, float(z)) if z2 is None else self.x(z, float(z2))
        out = out * 4.4e3
        return float(out) if np.ndim(out) == 0 else out


class Model:
    """Direct sum over all planes."""

    def __init__(self, cosmo) -> None:
        self.cosmo = cosmo
        self.planes: list = []

    def kappa(self):
        if not self.planes:
            return None
        z = self.planes[-1][1]
        out = np.zeros_like(self.planes[-1][0])
        for d, zj, wj in self.planes[:-1]:
            out = out + wj * d * self.factor(zj, z)
        return out

    def factor(self, zj, z):
        c = self.cosmo
        f = 1.5 * c.om * c.x(0, zj) * c.x(zj, z) / c.x(0, z)
        return f * (1 + zj) / c.E(zj)


class C11(Check):
    id = "C11"
    title = "multi-plane convergence equals the direct sum"
    quick = 5000
    thorough = 60000
    rule = (
        "1-3 MultiPlaneConvergence objects with a history of up to 14 operations each: add a "
        "plane or a window, a plane that is refused because its redshift does not increase or "
        "its type or shape does not fit, "
        "a cosmology failing at its n-th question followed by the same or another plane, "
        "reading, matrix and weights functions (also failing). One object per task, tasks "
        "interleave at any bytecode and share cosmology, windows and planes; sometimes one "
        "task is interrupted. Flat, open and closed cosmologies. Non-trivial: at least three "
        "planes. Oracle: direct sum over the accepted planes after every operation, matrix "
        "and weights from the same factors."
    )
    measure = "digest of history, failures and schedule"
    assumptions = [
        "distances of the cosmology are those of a homogeneous space of constant curvature",
        "an object whose add_plane is interrupted asynchronously is dropped",
    ]
    real = ["glass.lensing, shells", "numpy", "array_api_strict"]
    stub = ["cosmology", "thread scheduler", "signal delivery"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()

    def gen(self, rnd, i, tier):
        objs = []
        for _ in range(rnd.choice([1, 1, 2, 2, 3])):
            ops = []
            for _ in range(rnd.choice([2, 4, 6, 9, 14])):
                r = rnd.random()
                fail = 1 + rnd.randrange(8) if rnd.chance(0.25) else 0
                if r < 0.5:
                    ops.append(["plane", rnd.choice([0.05, 0.1, 0.3, 0.02]), rnd.randrange(4), rnd.randrange(4), fail])
                elif r < 0.75:
                    ops.append(["window", rnd.choice([0.1, 0.2, 0.4]), rnd.randrange(4), rnd.randrange(3), fail])
                elif r < 0.85:
                    ops.append(["refuse", rnd.choice([0.0, 0.01, 0.5]), rnd.randrange(4), 0, 0])
                elif r < 0.89:
                    ops.append(["unfit", rnd.choice([0.05, 0.2]), rnd.randrange(4), rnd.randrange(4), 0])
                elif r < 0.92:
                    ops.append(["read", 0, 0, 0, 0])
                else:
                    ops.append(["matrix", int(rnd.chance(0.3)), rnd.randrange(4), rnd.choice([0, 0, 1, 2]), fail])
            objs.append(ops)
        return {
            "seed": rnd.u32(),
            "objs": objs,
            "xp": rnd.choice("nns"),
            "shape": rnd.choice([[3], [12], [2, 5], [1], []]),
            "k": rnd.choice([0.0, 0.0, 0.3, -0.5]),
            "int": rnd.randrange(1, 3000) if rnd.chance(0.12) else 0,
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def windows(self, g, xp):
        """Windows with increasing redshift."""
        import glass

        n = int(g.integers(1, 7))
        out, ref = [], []
        z0 = 0.0
        for _ in range(n):
            w = float(g.uniform(0.1, 0.4))
            za = np.linspace(z0, z0 + w, 9)
            wa = g.uniform(0.2, 1, 9) * 10.0 ** g.choice([0, 0, 0, -12, 12])
            zeff = float(z0 + w * g.uniform(0.3, 0.8))
            out.append(glass.RadialWindow(xp.asarray(za), xp.asarray(wa), zeff))
            ref.append((zeff, self.weight(za, wa, zeff)))
            z0 += w * 0.9
        return out, ref

    def similar(self, g, xp, wins, wref, how):
        """The same redshifts with other weights, or other redshifts in the same windows."""
        import glass

        out, ref = [], []
        for w, (zeff, _) in zip(wins, wref):
            za, wa = values.to_np(w.za), values.to_np(w.wa)
            if how == 0:
                wa = g.uniform(0.2, 1, wa.shape)
            else:
                zeff = float(zeff + 0.03 * (za[-1] - za[0]) * g.uniform(-1, 1))
            out.append(glass.RadialWindow(xp.asarray(za.copy()), xp.asarray(wa.copy()), zeff))
            ref.append((zeff, self.weight(za, wa, zeff)))
        return out, ref

    @staticmethod
    def weight(za, wa, zeff):
        return float(np.sum((za[1:] - za[:-1]) * (wa[1:] + wa[:-1])) / 2 / np.interp(zeff, za, wa))

    def run(self, case, st: Stats):
        g = np.random.default_rng(case["seed"])
        xp = wl.namespace(case["xp"])
        shape = tuple(case["shape"])
        cosmo = Cosmo(float(g.uniform(0.1, 0.5)), case["k"], case["xp"])
        cosmo.exc = case["seed"] % 40
        pool_np = [g.normal(0, 1, shape) for _ in range(4)]
        pool = [xp.asarray(p.copy()) for p in pool_np]
        wins, wref = self.windows(g, xp)
        sets = [(wins, wref), self.similar(g, xp, wins, wref, 0), self.similar(g, xp, wins, wref, 1), (wins[:2], wref[:2])]
        before = simcase.freeze_args({"pool": pool, "wins": [a for a, _ in sets]})
        tasks = [self.task(case, j, ops, xp, cosmo, pool, pool_np, sets, st) for j, ops in enumerate(case["objs"])]
        faults = []
        if case["int"] and len(tasks) > 1:
            faults = [{"task": 0, "kind": "interrupt", "at": case["int"]}]
        simcase.simulate(case, tasks, st, faults=faults)
        simcase.check_args({"pool": pool, "wins": [a for a, _ in sets]}, before, "plane or window")
        st.sig += values.digest([case["seed"], case["objs"]])
        st.nontrivial = st["planes"] >= 3

    def task(self, case, j, ops, xp, cosmo, pool, pool_np, sets, st):
        import glass

        g = np.random.default_rng([case["seed"], 1, j])
        shape = tuple(case["shape"])

        def number(z, how):
            return [z, np.float64(z), xp.asarray(z), z][how] if case["xp"] == "n" else [z, xp.asarray(z), z, z][how]

        def check(mpc, m, what):
            want = m.kappa()
            got = mpc.kappa
            if want is None:
                if got is not None:
                    raise Violation("changed-by-failure", f"{what}: convergence of no planes")
                if float(mpc.zsrc) != 0.0:
                    raise Violation("changed-by-failure", f"{what}: redshift {mpc.zsrc} of no planes")
                return
            if got is None or tuple(got.shape) != want.shape:
                raise Violation("wrong-convergence", f"{what}: {got} want shape {want.shape}")
            a = values.to_np(got)
            scale = max(1e-3, float(np.max(np.abs(want), initial=0.0)))
            if not (np.abs(a - want) <= 1e-7 * scale).all():
                raise Violation("wrong-convergence", f"{what}: {a.ravel()[:3]} want {want.ravel()[:3]}")
            d, z, w = m.planes[-1]
            if abs(float(mpc.zsrc) - z) > 1e-13 or abs(float(mpc.wlens) - w) > 1e-9 * abs(w):
                raise Violation("wrong-state", f"{what}: at {mpc.zsrc}, {mpc.wlens} want {z}, {w}")
            if not np.array_equal(values.to_np(mpc.delta), d):
                raise Violation("wrong-state", f"{what}: matter plane {mpc.delta}")

        def guarded(task, fail, fn):
            """Whether the call was carried out."""
            task.fail_in = fail or None
            n = len(task.fired)
            try:
                fn()
            except sched.InjectedError:
                return False
            finally:
                task.fail_in = None
            if any(k == "cosmology" for k, *_ in task.fired[n:]):
                raise Violation("error-lost", "the cosmology failed and the call went on")
            return True

        def body(task):
            mpc = glass.MultiPlaneConvergence(cosmo)
            m = Model(cosmo)
            kept: list = []
            z = 0.0
            for kind, dz, p, how, fail in ops:
                what = f"object {j} after {kind} as plane {len(m.planes)}"
                if kind == "plane":
                    # weights are any numbers, vanishing ones included
                    w = float(g.uniform(0.1, 2) * g.choice([1, 1, 1, 1, 1, 0, 1e-9, 1e3, -1]))
                    znew = z + dz
                    args = (pool[p], number(znew, how))
                    kw = {} if how == 3 else {"wlens": w}
                    if how == 3:
                        w = 1.0
                    if guarded(task, fail, lambda: mpc.add_plane(*args, **kw)):
                        m.planes.append((pool_np[p], znew, w))
                        z = znew
                        st.add("planes")
                    else:
                        st.add("failed planes")
                elif kind == "window":
                    za = np.linspace(z, z + dz, 8)
                    wa = g.uniform(0.2, 1, 8) * 10.0 ** g.choice([0, 0, 0, -12, 12])
                    zeff = float(z + dz * g.uniform(0.2, 0.9))
                    win = glass.RadialWindow(xp.asarray(za), xp.asarray(wa), zeff)
                    if guarded(task, fail, lambda: mpc.add_window(pool[p], win)):
                        m.planes.append((pool_np[p], zeff, self.weight(za, wa, zeff)))
                        z = zeff
                        st.add("planes")
                    else:
                        st.add("failed planes")
                elif kind == "refuse":
                    try:
                        mpc.add_plane(pool[p], max(0.0, z - dz), 3.0)
                    except ValueError:
                        st.add("fault:refused plane")
                    else:
                        raise Violation("not-refused", f"{what}: redshift {max(0.0, z - dz)} after {z}")
                elif kind == "unfit":
                    # planes that may be accepted, or refused now or with the next plane
                    if how == 3 and m.planes:
                        d = pool_np[p].astype("f4")
                    else:
                        d = [np.arange(pool_np[p].size).reshape(shape), np.zeros((7, *shape)), np.zeros((*shape, 5))][how % 3]
                    try:
                        mpc.add_plane(xp.asarray(d), z + dz, 1.0)
                    except (TypeError, ValueError):
                        st.add("fault:unfit plane refused")
                    else:
                        z += dz
                        if d.shape != shape or (d.dtype.kind != "f" and case["xp"] == "s"):
                            # of another shape: the next plane is refused, or convergences have that shape
                            was = values.freeze([mpc.kappa, mpc.zsrc, mpc.wlens, mpc.delta])
                            try:
                                mpc.add_plane(pool[p], z + dz, 1.0)
                            except (TypeError, ValueError):
                                st.add("fault:unfit plane refused")
                                now = values.freeze([mpc.kappa, mpc.zsrc, mpc.wlens, mpc.delta])
                                if not values.same(was, now, rtol=0, atol=0):
                                    raise Violation("changed-by-failure", f"{what}: a refused plane changed the state")
                            break
                        m.planes.append((d.astype(float), z, 1.0))
                elif kind == "matrix":
                    c = cosmo
                    if dz:
                        # short-lived, at the same address perhaps
                        c = Cosmo(float(g.uniform(0.1, 0.5)), case["k"], case["xp"])
                        c.exc = cosmo.exc
                    self.matrix(task, guarded, g, xp, c, *sets[p], how, fail, st)
                    del c
                check(mpc, m, what)
                if mpc.kappa is not None:
                    kept.append((what, mpc.kappa, values.freeze(mpc.kappa)))
                for w_, raw, was in kept:
                    if not values.same(was, values.freeze(raw), rtol=0, atol=0):
                        raise Violation("changed-later", f"convergence handed out by {w_} changed by {what}")

        def outer(task):
            try:
                body(task)
            except sched.InjectedInterrupt:
                st.add("interrupted objects")

        return outer

    def matrix(self, task, guarded, g, xp, cosmo, wins, wref, how, fail, st):
        import glass

        n = len(wins)
        m = Model(cosmo)
        want = np.zeros((n, n))
        for a in range(n):
            for b in range(a):
                want[a, b] = wref[b][1] * m.factor(wref[b][0], wref[a][0])
        out = []
        if how == 0:
            ok = guarded(task, fail, lambda: out.append(glass.multi_plane_matrix(wins, cosmo)))
            what = "multi_plane_matrix"
        else:
            w = g.uniform(0, 1, (n,) if how == 1 else (n, 3))
            arr = xp.asarray(w.copy())
            ok = guarded(task, fail, lambda: out.append(glass.multi_plane_weights(arr, wins, cosmo)))
            want = want.T @ (w / w.sum(axis=0))
            what = "multi_plane_weights"
            if not np.array_equal(values.to_np(arr), w):
                raise Violation("argument-modified", "weights")
        st.add("matrices")
        if ok:
            a = values.to_np(out[0])
            scale = max(1e-3, float(np.abs(want).max(initial=0.0)))
            if a.shape != want.shape or not (np.abs(a - want) <= 1e-7 * scale).all():
                raise Violation("wrong-matrix", f"{what}: {a.ravel()[:4]} want {want.ravel()[:4]}")

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        objs = case["objs"]
        if len(objs) > 1:
            for i in range(len(objs)):
                yield {**case, "objs": objs[:i] + objs[i + 1 :]}
        for i, ops in enumerate(objs):
            for ys in simcase.shrink_list(ops, 1):
                yield {**case, "objs": [*objs[:i], ys, *objs[i + 1 :]]}
        yield from simcase.shrink_policy(case)
        yield from simcase.simpler(case, (("int", 0), ("xp", "n"), ("k", 0.0), ("shape", [1])))
        for i, ops in enumerate(objs):
            for j, o in enumerate(ops):
                for new in ([*o[:4], 0], [*o[:4], 1], [o[0], o[1], 0, o[3], o[4]]):
                    if new != o and new[4] <= o[4]:
                        yield {**case, "objs": [*objs[:i], [*ops[:j], new, *ops[j + 1 :]], *objs[i + 1 :]]}


CHECK = C11()
