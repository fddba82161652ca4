"""C16: the solvers end and tell the truth."""

from __future__ import annotations

import contextlib
import warnings

import numpy as np

from .. import sched, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation


class Log:
    """What the transformation was asked, and its script."""

    def __init__(self, script) -> None:
        self.script = script
        self.n: dict = {}
        self.last: dict = {}
        self.evals: list = []
        self.fired: list = []
        self.limit = None

    def play(self, method, x, value):
        sched.callback_point("transformation." + method)
        k = self.n[method] = self.n.get(method, 0) + 1
        if self.limit is not None and k > self.limit:
            raise Violation("no-progress", f"more than {self.limit} evaluations of {method}()")
        for s in self.script:
            if s["method"] != method or k < s["at"] or (k > s["at"] and not s["sticky"]):
                continue
            self.fired.append(f"{s['kind']} from {method}")
            kind = s["kind"]
            if kind == "raise":
                raise sched.user_error("transformation." + method, s.get("exc", 0))
            value = {
                "nan": lambda: np.full_like(value, np.nan),
                "inf": lambda: np.full_like(value, np.inf),
                "onenan": lambda: np.where(np.arange(value.size) == value.size // 2, np.nan, value),
                "zero": lambda: np.zeros_like(value),
                "huge": lambda: value * 1e200,
                "neg": lambda: -value,
                "big": lambda: value * 30.0,
                "small": lambda: value * 0.01,
                "noise": lambda: value * np.cos(np.arange(value.size) * 7.0 + k),
                "same": lambda: self.last.get(method, np.zeros_like(value)),
            }[kind]()
        if method == "corr":
            self.evals.append((np.array(x), np.array(value)))
        self.last[method] = np.array(value)
        return value


class Wild:
    """User supplied transformation: lognormal at heart."""

    def __init__(self, log, a) -> None:
        self.log = log
        self.a = a

    def __call__(self, x, var):
        return np.expm1(x - var / 2) * self.a

    def corr(self, other, x):
        if not isinstance(other, Wild):
            return NotImplemented
        return self.log.play("corr", x, self.a * other.a * np.expm1(x))

    def icorr(self, other, x):
        if not isinstance(other, Wild):
            return NotImplemented
        return self.log.play("icorr", x, np.log1p(x / (self.a * other.a)))

    def dcorr(self, other, x):
        if not isinstance(other, Wild):
            return NotImplemented
        return self.log.play("dcorr", x, self.a * other.a * np.exp(x))


def relerr(rl, cl, monopole):
    d = rl[: cl.size] - cl
    if monopole is not None:
        d[0] = 0
    with np.errstate(all="ignore"):
        q = np.where(d != 0, np.abs(d / cl), 0.0)
    return q.max() if q.size else 0.0


def random_corr(g, n, lead, form):
    """Symmetric matrices with unit diagonal, admissible ones and others."""
    i = np.arange(n)
    m = g.normal(size=(*lead, n, n + 1))
    c = m @ np.swapaxes(m, -1, -2)
    d = np.sqrt(c[..., i, i])
    c = c / d[..., None, :] / d[..., :, None]
    if form % 4:
        e = g.normal(size=(*lead, n, n)) * [0.1, 0.5, 2.0][form % 4 - 1]
        c = c + e + np.swapaxes(e, -1, -2)
    c = (c + np.swapaxes(c, -1, -2)) / 2
    c[..., i, i] = 1.0
    return c


class Failing:
    """A function of the linear algebra library whose k-th call fails."""

    def __init__(self, name, at, fired) -> None:
        self.name, self.at, self.fired = name, at, fired
        self.real = getattr(np.linalg, name)
        self.n = 0

    def __call__(self, *args, **kwargs):
        self.n += 1
        if self.n == self.at:
            self.fired.append(f"numpy.linalg.{self.name} does not converge")
            raise np.linalg.LinAlgError("did not converge (injected)")
        return self.real(*args, **kwargs)

    def __enter__(self):
        setattr(np.linalg, self.name, self)

    def __exit__(self, *exc):
        setattr(np.linalg, self.name, self.real)


KINDS = ["nan", "inf", "onenan", "zero", "huge", "neg", "big", "small", "noise", "same", "raise"]


class C16(Check):
    id = "C16"
    title = "solvers"
    quick = 3000
    thorough = 60000
    rule = (
        "glass.grf.solve() (or solve_gaussian_spectra) for random target spectra of 2-40 "
        "multipoles, reachable ones, rough ones and ones with zeros; paddings, initial "
        "solutions of any length, fixed monopole, tolerances, iteration limits; "
        "transformations of the library or user supplied ones which from or at their k-th "
        "call return NaN, infinity, zeros, wrong sign or scale, noise, stale values, or "
        "raise. A second task may run another call. Non-trivial: a scripted answer was "
        "given, or the solver had to iterate. Oracle: number of evaluations bounded; returned "
        "pair of spectra is one that was really evaluated; error not larger than initially; "
        "status recomputed from the returned spectra; healthy reachable targets converge. "
        "40% of the runs are other solvers instead: nnls(), nearcorr(), cov_nearest(), "
        "cov_clip(), regularized_spectra() and partition() with random, degenerate, rank "
        "deficient, huge, tiny or NaN input of many shapes, tolerances and iteration limits, "
        "in which the k-th call of a LAPACK function may fail. Oracle: end within 3 million "
        "steps; stationarity conditions of the optimum; variational inequality of the nearest "
        "matrix; admissible input unchanged; diagonal kept; a failure is reported, and the "
        "same call made again gives the right result."
    )
    measure = "digest of inputs, script and result"
    assumptions = ["transformcl transforms are right", "a step halves to nothing within 2300 halvings"]
    real = ["glass.grf, glass.fields.solve_gaussian_spectra", "transformcl", "numpy"]
    stub = ["user transformation", "thread scheduler"]

    def setup(self):
        import glass  # noqa: F401
        import glass.grf

        wl.warm()

    def gen(self, rnd, i, tier):
        script = []
        if rnd.chance(0.65):
            for _ in range(rnd.choice([1, 1, 2])):
                script.append({
                    "method": rnd.choice(["corr", "corr", "dcorr", "dcorr", "icorr"]), "at": rnd.choice([1, 2, 3, 4, 6, 9, 20]),
                    "kind": rnd.choice(KINDS), "sticky": rnd.chance(0.6),
                    "exc": rnd.randint(0, 40),
                })
        if rnd.chance(0.4):
            return {
                "kind": rnd.choice(["nnls", "nnls", "nearcorr", "nearcorr", "partition", "regularized"]),
                "seed": rnd.u32(),
                "n": rnd.choice([1, 2, 3, 4, 5, 6, 8, 12]),
                "more": rnd.choice([0, 0, 1, 3, 10]),
                "form": rnd.randint(0, 40),
                "rhs": rnd.randint(0, 40),
                "wild": rnd.choice([None, None, None, None, "nan", "inf", "huge", "tiny", "zerocol", "twice", "wide"]),
                "tol": rnd.choice([None, None, 1e-8, 1e-3, 0.3]),
                "maxiter": rnd.choice([None, None, None, 0, 1, 3, 1000]),
                "xp": rnd.choice("nnns"),
                "fail": rnd.choice([None, None, None, ["solve", 1], ["solve", 2], ["eigh", 1], ["eigh", 3], ["qr", 1]]),
                "other": False,
                "policy": simcase.policy(rnd),
                "sched": rnd.u32(),
            }
        return {
            "kind": rnd.choice(["solve", "solve", "solve", "fields"]) if not script else "solve",
            "script": script,
            "seed": rnd.u32(),
            "n": rnd.choice([2, 3, 5, 10, 20, 40]),
            "pad": rnd.choice([0, 0, 1, 5, 20, 80]),
            "target": rnd.choice(["reach", "reach", "smooth", "rough", "zeros", "zero0"]),
            "amp": rnd.choice([1e-6, 0.01, 0.1, 0.5]),
            "pair": rnd.choice(["wild", "wild", "wild2", "lognormal", "lognormal2", "normal", "squared"]) if not script else rnd.choice(["wild", "wild2"]),
            "initial": rnd.choice(["none", "none", "zero", "short", "long", "truth"]),
            "mono": rnd.choice([None, None, 0.0, "some"]),
            "cltol": rnd.choice([1e-5, 1e-5, 1e-8, 1e-2, 0.0]),
            "gltol": rnd.choice([1e-5, 1e-5, 1e-8, 1e-2, 0.0]),
            "maxiter": rnd.choice([20, 20, 20, 5, 1, 0, 50]),
            "xp": rnd.choice("nnns"),
            "other": rnd.chance(0.1),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def run(self, case, st: Stats):
        # user transformations are written for NumPy
        g = np.random.default_rng(case["seed"])
        out = []
        call, judge, A = getattr(self, "do_" + case["kind"])(case, g, st)
        before = simcase.freeze_args(A)
        errors = []

        fired = []
        fail = case.get("fail")
        inject = Failing(*fail, fired) if fail else contextlib.nullcontext()

        def body(task):
            try:
                with inject, warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    out.append(call())
                out.append([str(x.message) for x in w])
            except (sched.InjectedError, np.linalg.LinAlgError) as e:
                errors.append(e)

        fns = [body]
        if case["other"] and case["kind"] == "solve":
            spec = {"op": "ellipticity_gaussian", "seed": case["seed"], "xp": "n", "n": 3, "k": 2, "nside": 1}
            fns.append(lambda t: wl.call_spec(spec, seed=1))
        simcase.simulate(case, fns, st, budget=20_000_000 if "script" in case else 3_000_000)
        simcase.check_args(A, before, "argument")
        if fired:
            st.add("fault:" + fired[0])
            if not errors:
                raise Violation("error-lost", fired[0] + ", and the call went on")
            # the failure leaves nothing behind
            errors.clear()
            inject = contextlib.nullcontext()
            body(None)
            st.nontrivial = True
        judge(out, errors)

    # -------------------------------------------------------------------- solve

    def do_solve(self, case, g, st):
        import glass.grf as grf
        from transformcl import cltocorr, corrtocl

        log = Log(case["script"])
        honest = Log([])
        a, b = g.uniform(0.5, 1.5, 2)
        pair = case["pair"]
        t1, t2 = {
            "wild": (Wild(log, a), None),
            "wild2": (Wild(log, a), Wild(log, b)),
            "lognormal": (grf.Lognormal(a), None),
            "lognormal2": (grf.Lognormal(a), grf.Lognormal(b)),
            "normal": (grf.Normal(), None),
            "squared": (grf.SquaredNormal(a, 0.3), None),
        }[pair]
        h1 = Wild(honest, a) if pair.startswith("wild") else t1
        h2 = (Wild(honest, b) if t2 is not None else h1) if pair.startswith("wild") else (t2 or t1)
        n, pad = case["n"], case["pad"]
        ell = np.arange(n + pad)
        truth = case["amp"] * g.uniform(0.5, 1.5) / (1 + ell) ** g.uniform(1.5, 3)
        truth[n:] = 0
        mono = None if case["mono"] is None else (0.0 if case["mono"] == 0.0 else float(truth[0]))
        if mono is not None:
            truth[0] = mono
        tgt = case["target"]
        if tgt == "reach":
            cl = corrtocl(grf.corr(h1, h2, cltocorr(truth)))[:n]
        else:
            cl = truth[:n].copy()
            if tgt == "rough":
                cl *= g.uniform(0.2, 2, n)
            elif tgt == "zeros":
                cl[g.random(n) < 0.3] = 0.0
            elif tgt == "zero0":
                cl[0] = 0.0
        init = {
            "none": None, "zero": np.zeros(n), "short": truth[: max(1, n // 2)].copy(),
            "long": np.concatenate([truth[:n], np.ones(3)]), "truth": truth[:n].copy(),
        }[case["initial"]]
        xp = wl.namespace(case["xp"])
        A = {"cl": xp.asarray(cl.copy()), "initial": None if init is None else xp.asarray(init.copy())}
        kw = {"pad": pad, "cltol": case["cltol"], "gltol": case["gltol"], "maxiter": case["maxiter"], "monopole": mono}
        log.limit = 10 + max(1, case["maxiter"]) * 2300
        wild = pair.startswith("wild")

        def call():
            return grf.solve(A["cl"], t1, t2, initial=A["initial"], **kw)

        def judge(out, errors):
            for f in log.fired[:3]:
                st.add("fault:" + f)
            st.add("evaluations", len(log.evals))
            raised = any(f.startswith("raise") for f in log.fired)
            st.sig += values.digest([case["seed"], case["script"], len(log.evals)])
            st.nontrivial = bool(log.fired) or len(log.evals) > 1
            if errors:
                if not raised:
                    raise Violation("wrong-error", str(errors[0]))
                return
            if raised:
                raise Violation("error-lost", "the transformation raised and the solver went on")
            (gl, rl, info), _ = out
            gl, rl = values.to_np(gl), values.to_np(rl)
            if gl.shape != (n,) or rl.shape != (n + pad,):
                raise Violation("wrong-shape", f"{gl.shape} {rl.shape}")
            if info not in (0, 1, 2, 3):
                raise Violation("wrong-status", f"info {info}")
            st.add(f"info {info}")
            gt = cltocorr(np.pad(gl, (0, pad)))
            if wild:
                hits = [
                    k for k, (x, v) in enumerate(log.evals)
                    if np.allclose(x, gt, rtol=1e-9, atol=1e-12 * (1 + abs(gt).max()), equal_nan=True)
                    and np.allclose(corrtocl(v), rl, rtol=1e-9, atol=1e-12 * (1 + np.nanmax(np.abs(rl), initial=0)), equal_nan=True)
                ]
                if np.isfinite(gl).all() and not hits:
                    raise Violation("not-realised", f"cl {rl[:3]} is not what gl {gl[:3]} was transformed to")
            elif np.isfinite(gl).all():
                want = corrtocl(grf.corr(h1, h2, gt))
                if not np.allclose(rl, want, rtol=1e-9, atol=1e-12 * (1 + abs(want).max())):
                    raise Violation("not-realised", f"cl {rl[:3]} is not {want[:3]}, the transformation of gl")
            if mono is not None and not (gl[0] == mono or np.isnan(gl[0])):
                raise Violation("monopole", f"gl[0] = {gl[0]}, not {mono}")
            err = relerr(rl.copy(), cl, mono)
            if info & 1 and not err <= case["cltol"] * (1 + 1e-6) + 1e-15:
                raise Violation("false-convergence", f"info {info} with relative error {err} > {case['cltol']}")
            if wild and log.evals:
                err0 = relerr(corrtocl(log.evals[0][1]), cl, mono)
                if np.isfinite(err0) and not err <= err0 * (1 + 1e-6) + 1e-15:
                    raise Violation("made-worse", f"error {err0} became {err}")
                if case["maxiter"] > 0 and err0 <= case["cltol"] * 0.999 and not info & 1:
                    raise Violation("convergence-denied", f"initial error {err0}, info {info}")
            if info & 2 and case["gltol"] == 0.0 and wild and len(log.evals) > 1 and not (
                any(np.array_equal(x, log.evals[hits[-1]][0]) for k, (x, _) in enumerate(log.evals) if k != hits[-1]) if hits else True
            ):
                raise Violation("false-convergence", f"info {info} with gltol 0 while the solution moved")
            if info & 2 and wild and hits and case["gltol"] > 0:
                if not any(
                    self.step(x, gl, pad) <= case["gltol"] * (1 + 1e-6) + 1e-9
                    for k, (x, _) in enumerate(log.evals[: hits[-1] + 1])
                    if k != hits[-1] or np.array_equal(x, log.evals[0][0])
                ):
                    raise Violation("false-convergence", f"info {info}: last step was larger than {case['gltol']}")
            ok = (
                not log.fired and tgt == "reach" and case["maxiter"] >= 20 and case["amp"] <= 0.1
                and case["initial"] in ("none", "truth") and case["cltol"] >= 1e-5 and pair != "squared"
            )
            if ok and info == 0:
                raise Violation("not-converged", f"{pair}: healthy problem, error {err}")
            if ok:
                st.add("healthy problems solved")

        return call, judge, A

    @staticmethod
    def step(x, gl, pad):
        """Relative change from the spectrum evaluated at x to gl, less rounding."""
        from transformcl import corrtocl

        g0 = corrtocl(x)[: gl.size]
        d = np.abs(gl - g0) - 1e-12 * np.maximum(np.abs(gl).max(), np.abs(g0).max()) - 1e-300
        with np.errstate(all="ignore"):
            return np.where(d > 0, d / np.abs(g0), 0.0).max()

    # ------------------------------------------------------------------- fields

    def do_fields(self, case, g, st):
        import glass
        import glass.grf as grf
        from transformcl import cltocorr, corrtocl

        k = int(g.integers(1, 4))
        fields = [grf.Lognormal(float(g.uniform(0.5, 1.5))) if g.random() < 0.8 else grf.Normal() for _ in range(k)]
        cls, idx = [], []
        amp = min(case["amp"], 0.1)
        for i in range(k):
            for j in range(i, -1, -1):
                n = case["n"]
                if i != j and g.random() < 0.3:
                    n = int(g.integers(0, n + 1))
                ell = np.arange(n)
                c = amp * 0.7 ** (i - j) / (1 + ell) ** 2
                if n and g.random() < 0.5:
                    c[0] = 0.0
                cls.append(c)
                idx.append((i, j))
        xp = wl.namespace(case["xp"])
        A = {"cls": [xp.asarray(c.copy()) for c in cls]}

        def call():
            return glass.solve_gaussian_spectra(fields, A["cls"])

        def judge(out, errors):
            st.sig += values.digest([case["seed"], k])
            gls, warned = out
            if len(gls) != len(cls):
                raise Violation("wrong-shape", f"{len(gls)} spectra")
            for (i, j), c, gl in zip(idx, cls, gls):
                gl = values.to_np(gl)
                if gl.shape != c.shape:
                    raise Violation("wrong-shape", f"fields {i}, {j}: {gl.shape}")
                if not c.size:
                    continue
                mono = 0.0 if c[0] == 0.0 else None
                if mono is not None and gl[0] != 0.0:
                    raise Violation("monopole", f"fields {i}, {j}: {gl[0]}")
                if fields[i].__class__ is fields[j].__class__ is grf.Normal:
                    rl = gl
                else:
                    rl = corrtocl(grf.corr(fields[i], fields[j], cltocorr(np.pad(gl, (0, 2 * gl.size)))))
                err = relerr(rl.copy(), c, mono)
                st.add("pairs of fields")
                if any(f"({i}, {j})" in w for w in warned):
                    st.add("warnings")
                elif not err <= 1e-4:
                    raise Violation("false-convergence", f"fields {i}, {j}: error {err} and no warning")

        return call, judge, A

    # ------------------------------------------------- non-negative least squares

    def do_nnls(self, case, g, st):
        import glass.algorithm as alg

        n = case["n"]
        m = n + case["more"]
        form = case["form"] % 4
        if form == 0:
            a = g.normal(size=(m, n))
        elif form == 1:
            a = g.uniform(0, 1, (m, n))
        elif form == 2:
            # overlapping windows
            z = np.linspace(0, 1, m)[:, None]
            a = np.maximum(0, 1 - np.abs(z - np.linspace(0, 1, n)) * n * g.uniform(0.2, 3)) + 1e-3
        else:
            a = np.linalg.qr(g.normal(size=(m, n)))[1] if m >= n else g.normal(size=(m, n))
        b = g.normal(size=a.shape[0])
        if case["rhs"] % 3 == 1:
            b = a @ np.where(g.random(n) < 0.5, g.random(n), 0.0)
        elif case["rhs"] % 3 == 2:
            b = a @ g.normal(size=n)
        w = case["wild"]
        if w in ("nan", "inf"):
            a[g.integers(a.shape[0]), g.integers(n)] = np.nan if w == "nan" else np.inf
        elif w == "huge":
            a, b = a * 1e120, b * 1e100
        elif w == "tiny":
            a, b = a * 1e-120, b * 1e-100
        elif w == "zerocol":
            a[:, g.integers(n)] = 0.0
        elif w == "twice":
            a = np.concatenate([a, a[:, :1]], axis=1)
        elif w == "wide":
            a, b = a[: max(1, n // 2)], b[: max(1, n // 2)]
        xp = wl.namespace(case["xp"])
        A = {"a": xp.asarray(a), "b": xp.asarray(b)}
        kw = {k: v for k, v in (("tol", case["tol"]), ("maxiter", case["maxiter"])) if v is not None}

        def call():
            return alg.nnls(A["a"], A["b"], **kw)

        def judge(out, errors):
            st.sig += values.digest([case["seed"], n, m])
            st.nontrivial = True
            st.add("least squares problems")
            if errors:
                # linearly dependent columns may be refused
                if w is None and np.linalg.cond(a) < 1e10:
                    raise Violation("healthy-refused", f"{a.shape}: {errors[0]}")
                return
            x = values.to_np(out[0])
            if x.shape != (a.shape[1],):
                raise Violation("wrong-shape", f"{x.shape}")
            if w in ("nan", "inf"):
                return
            if not (x >= 0).all():
                raise Violation("negative", f"solution {x}")
            with np.errstate(all="ignore"):
                r = b - a @ x
                if w is None and not np.linalg.norm(r) <= np.linalg.norm(b) * (1 + 1e-9):
                    raise Violation("made-worse", f"residual {np.linalg.norm(r)} of {np.linalg.norm(b)}")
                if (case["maxiter"] or 3 * n) < 3 * n or case["maxiter"] == 0 or w in ("huge", "tiny", "wide", "twice"):
                    return
                if np.linalg.cond(a) > 1e7 and w != "zerocol":
                    return
                grad = a.T @ r
                scale = np.linalg.norm(a, axis=0) * np.linalg.norm(b) + 1e-300
                tol = case["tol"] or 0.0
                if (np.abs(grad[x > 0]) > 1e-7 * scale[x > 0]).any():
                    raise Violation("not-optimal", f"{a.shape}: gradient {grad} at x {x}")
                if (grad[x == 0] > tol + 1e-7 * scale[x == 0]).any():
                    raise Violation("not-optimal", f"{a.shape}: gradient {grad} above {tol} at x {x}")
            st.add("optimal solutions")

        return call, judge, A

    # ------------------------------------------------------- nearest correlation

    def do_nearcorr(self, case, g, st):
        import glass.algorithm as alg

        n = min(case["n"], 6)
        lead = [(), (1,), (3,), (2, 2), (3, 1), (2, 1, 2)][case["form"] % 6]
        a = random_corr(g, n, lead, case["rhs"])
        w = case["wild"]
        if w in ("nan", "inf"):
            a[..., 0, -1] = a[..., -1, 0] = np.nan if w == "nan" else np.inf
        elif w == "huge":
            i = np.arange(n)
            a = a * 1e6
            a[..., i, i] = 1.0
        which = ["nearcorr", "nearcorr", "cov_nearest", "cov_clip"][case["rhs"] // 4 % 4]
        scale = np.ones((*lead, n))
        if which == "cov_nearest":
            scale = g.uniform(0.1, 10, (*lead, n))
            if case["more"] == 1 and w is None:
                scale[..., 0] = 0.0
        xp = wl.namespace(case["xp"])
        full = a * scale[..., None, :] * scale[..., :, None]
        A = {"a": xp.asarray(full)}
        kw = {}
        if which != "cov_clip":
            if case["maxiter"] is not None:
                kw["niter"] = case["maxiter"]
            if case["tol"] is not None:
                kw["tol"] = case["tol"] * 1e-3
        elif case["tol"] is not None:
            kw["rtol"] = case["tol"]

        def call():
            return getattr(alg, which)(A["a"], **kw)

        def judge(out, errors):
            st.sig += values.digest([case["seed"], n, lead, which])
            st.nontrivial = True
            st.add("matrices")
            if errors:
                if w not in ("nan", "inf"):
                    raise Violation("healthy-refused", f"{which}: {errors[0]}")
                return
            y, warned = values.to_np(out[0]), out[1]
            if y.shape != full.shape:
                raise Violation("wrong-shape", f"{which}: {y.shape}, not {full.shape}")
            if w in ("nan", "inf"):
                if np.isfinite(y).all() and not warned and kw.get("niter", 1) > 0:
                    raise Violation("hidden", f"{which}: finite result for {w}")
                return
            if not np.allclose(y, np.swapaxes(y, -1, -2), rtol=1e-12, atol=1e-12 * np.abs(y).max(initial=0)):
                raise Violation("asymmetric", which)
            if which == "cov_clip":
                self.judge_clip(full, y, kw.get("rtol"))
                return
            d = np.diagonal(full, axis1=-2, axis2=-1)
            if not np.allclose(np.diagonal(y, axis1=-2, axis2=-1), d, rtol=1e-12, atol=0):
                raise Violation("diagonal-changed", f"{which}: {np.diagonal(y, axis1=-2, axis2=-1)}, not {d}")
            denied = any("not found" in x for x in warned)
            with np.errstate(all="ignore"):
                s = scale[..., None, :] * scale[..., :, None]
                c = np.where(s > 0, y / np.where(s > 0, s, 1.0), 0.0)
            i = np.arange(n)
            c[..., i, i] = 1.0
            ref = a.copy()
            if which == "cov_nearest":
                ref = np.where(s > 0, a, 0.0)
                ref[..., i, i] = np.where(scale > 0, 1.0, 0.0)
            good = np.linalg.eigvalsh(np.where(np.eye(n) > 0, 1.0, ref))[..., 0].min() > 1e-9
            if good and kw.get("niter", 1) > 0:
                st.add("admissible matrices")
                if denied and kw.get("tol", 0.0) >= 1e-12 and (scale > 0).all():
                    raise Violation("convergence-denied", f"{which}: a correlation matrix was not accepted")
                if not np.allclose(c, np.where(np.eye(n) > 0, 1.0, ref), rtol=0, atol=1e-9):
                    raise Violation("changed", f"{which}: an admissible matrix was changed")
                return
            if denied or kw.get("niter") == 0:
                st.add("warnings")
                if kw.get("niter") == 0 and not warned:
                    raise Violation("false-convergence", "no iterations and no warning")
                return
            tol = kw.get("tol", n * 2.3e-16)
            if np.linalg.eigvalsh(c)[..., 0].min() < -tol * n - 1e-9:
                raise Violation("false-convergence", f"{which}: eigenvalues {np.linalg.eigvalsh(c)}")
            if tol > 1e-6 or w == "huge":
                return
            # variational inequality: no correlation matrix lies closer
            st.add("nearest matrices")
            for _ in range(10):
                v = random_corr(g, n, (), 0)
                if _ < 5:
                    v = np.sign(g.normal(size=n))
                    v = np.outer(v, v)
                ip = ((ref - c) * (v - c))[..., ~np.eye(n, dtype=bool)].sum(-1)
                if (ip > 1e-5 * (1 + np.abs(ref).max()) ** 2 * n).any():
                    raise Violation("not-nearest", f"{which}: {c.reshape(-1, n, n)[0]} for {ref.reshape(-1, n, n)[0]}: {ip}")

        return call, judge, A

    @staticmethod
    def judge_clip(a, y, rtol):
        n = a.shape[-1]
        w, v = np.linalg.eigh(a)
        low = (n * 2.220446049250313e-16 if rtol is None else rtol) * w[..., -1:]
        if (w[..., -1] <= 0).any():
            return
        want = (v * np.maximum(w, low)[..., None, :]) @ np.swapaxes(v, -1, -2)
        if not np.allclose(y, want, rtol=1e-9, atol=1e-9 * np.abs(want).max()):
            raise Violation("wrong-clip", f"{y.reshape(-1, n, n)[0]}, not {want.reshape(-1, n, n)[0]}")

    # -------------------------------------------------------------- regularised

    def do_regularized(self, case, g, st):
        import glass

        k = min(case["n"], 4)
        method = ["nearest", "clip"][case["form"] % 2]
        lmax = [None, None, 3, 12][case["rhs"] % 4]
        length = 1 + case["more"]
        spec, idx = [], []
        amp = g.uniform(0.1, 3, k)
        for i in range(k):
            for j in range(i, -1, -1):
                n = length if i == j or g.random() < 0.7 else int(g.integers(0, length + 1))
                rho = 1.0 if i == j else g.uniform(-1.3, 1.3) if case["rhs"] % 3 else 0.1
                spec.append(amp[i] * amp[j] * rho / (1.0 + np.arange(n)) ** 1.5)
                idx.append((i, j))
        xp = wl.namespace(case["xp"])
        A = {"spectra": [xp.asarray(s) for s in spec]}
        kw = {} if lmax is None else {"lmax": lmax}
        if method == "nearest":
            kw["niter"] = 200
        size = max(s.size for s in spec) if lmax is None else lmax + 1
        cov = np.zeros((size, k, k))
        for (i, j), s in zip(idx, spec):
            s = s[:size]
            cov[: s.size, i, j] = cov[: s.size, j, i] = s

        def call():
            return glass.regularized_spectra(A["spectra"], method=method, **kw)

        def judge(out, errors):
            st.sig += values.digest([case["seed"], k, method])
            st.nontrivial = True
            st.add("sets of spectra")
            if errors:
                raise Violation("healthy-refused", f"{method}: {errors[0]}")
            got, warned = [values.to_np(x) for x in out[0]], out[1]
            if len(got) != len(spec) or any(x.shape != (size,) for x in got):
                raise Violation("wrong-shape", f"{[x.shape for x in got]}, not {len(spec)} of {size}")
            new = np.zeros((size, k, k))
            for (i, j), s in zip(idx, got):
                new[:, i, j] = new[:, j, i] = s
            if method == "clip":
                keep = np.linalg.eigvalsh(cov)[:, -1] > 0
                self.judge_clip(cov[keep], new[keep], None)
                return
            d, e = np.diagonal(cov, axis1=-2, axis2=-1), np.diagonal(new, axis1=-2, axis2=-1)
            if not np.allclose(d, e, rtol=1e-12, atol=0):
                raise Violation("diagonal-changed", f"{e}, not {d}")
            if any("not found" in x for x in warned):
                st.add("warnings")
                return
            top = np.abs(cov).max(axis=(-1, -2), initial=0)
            if (np.linalg.eigvalsh(new)[:, 0] < -1e-9 * (top + 1e-300)).any():
                raise Violation("false-convergence", f"eigenvalues {np.linalg.eigvalsh(new)}")
            ok = np.linalg.eigvalsh(cov)[:, 0] > 1e-9 * top
            if not np.allclose(new[ok], cov[ok], rtol=1e-8, atol=1e-12):
                raise Violation("changed", "admissible spectra were changed")

        return call, judge, A

    # ----------------------------------------------------------------- partition

    def do_partition(self, case, g, st):
        import glass

        n = 1 + case["n"]
        method = ["nnls", "nnls", "lstsq"][case["form"] % 3]
        zb = np.concatenate([[0.0], np.cumsum(g.uniform(0.05, 0.3, n + 1))])
        if case["form"] % 2:
            raw = [(np.array([zb[i], zb[i + 1], zb[i + 2]]), np.array([0.0, 1.0, 0.0])) for i in range(n)]
        else:
            raw = []
            for i in range(n):
                za = np.linspace(zb[i], zb[i + 1 + case["rhs"] % 2], 7)
                raw.append((za, g.uniform(0.2, 1) * za + 0.1))
        z = np.linspace(0.0, zb[-1], 25 + case["more"])
        dims = [(), (2,), (2, 2)][case["rhs"] % 3]
        f = g.uniform(0, 1, (*dims, z.size)) ** 3
        if case["rhs"] % 5 == 1:
            f = np.where(z > zb[n // 2], f, 0.0)
        elif case["rhs"] % 5 == 2:
            f = f - 0.4
        xp = wl.namespace(case["xp"])
        A = {
            "z": xp.asarray(z), "f": xp.asarray(f),
            "shells": [glass.RadialWindow(xp.asarray(x), xp.asarray(y)) for x, y in raw],
        }

        def call():
            return glass.partition(A["z"], A["f"], A["shells"], method=method)

        def judge(out, errors):
            st.sig += values.digest([case["seed"], n, method])
            st.nontrivial = True
            st.add("partitions")
            grid = z
            for za, _ in raw:
                grid = np.union1d(grid, za)
            dz = np.gradient(grid)
            m = np.stack([np.interp(grid, za, wa, left=0.0, right=0.0) for za, wa in raw])
            m = m / np.trapezoid(m, grid, axis=-1)[:, None] * dz
            m = np.concatenate([m, np.full((n, 1), 100.0)], axis=1).T
            if errors:
                if np.linalg.cond(m) < 1e10:
                    raise Violation("healthy-refused", f"{method}: {errors[0]}")
                return
            x = values.to_np(out[0])
            if x.shape != (n, *dims):
                raise Violation("wrong-shape", f"{x.shape}, not {(n, *dims)}")
            if method == "nnls" and not (x >= 0).all():
                raise Violation("negative", f"weights {x}")
            if np.linalg.cond(m) > 1e7:
                return
            for i in np.ndindex(dims):
                b = np.append(np.interp(grid, z, f[i], left=0.0, right=0.0) * dz, 100.0 * np.trapezoid(f[i], z))
                xi = x[(slice(None), *i)]
                grad = m.T @ (b - m @ xi)
                tol = 1e-7 * np.linalg.norm(m, axis=0) * np.linalg.norm(b)
                free = xi > 0 if method == "nnls" else np.ones(n, dtype=bool)
                if (np.abs(grad)[free] > tol[free]).any() or (grad > tol).any():
                    raise Violation("not-optimal", f"{method}: gradient {grad} at weights {xi}")
            st.add("optimal solutions")

        return call, judge, A

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        if "script" not in case:
            yield from simcase.simpler(case, (
                ("fail", None), ("xp", "n"), ("wild", None), ("tol", None), ("maxiter", None), ("n", 1), ("n", 2), ("n", 3),
                ("more", 0), ("more", 1), ("form", 0), ("rhs", 0), ("policy", {"kind": "serial"}),
            ))
            return
        for ys in simcase.shrink_list(case["script"]):
            yield {**case, "script": ys}
        for k, s in enumerate(case["script"]):
            if s["at"] > 1:
                yield {**case, "script": [*case["script"][:k], {**s, "at": s["at"] - 1}, *case["script"][k + 1 :]]}
        yield from simcase.simpler(case, (
            ("other", False), ("xp", "n"), ("n", 2), ("n", 5), ("pad", 0), ("pad", 5), ("initial", "none"), ("mono", None),
            ("maxiter", 1), ("maxiter", 5), ("policy", {"kind": "serial"}),
        ))


CHECK = C16()
