"""C10: array backends are interchangeable replicas."""

from __future__ import annotations

import numpy as np

from .. import jaxenv, replicas, sched, seams, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation

# operations with results that depend on the backend for good reason:
# distance_grid() returns what the cosmology returns, default generators differ
LEFT_OUT = {"grids", "rng", "vmap"}


class Leader:
    """The draws of the first replica, made extreme or failing by script."""

    def __init__(self, case) -> None:
        self.case = case
        self.k = 0
        self.log: list = []
        self.g = np.random.default_rng(case["seed"])

    def __call__(self, name, call, value):
        self.k += 1
        c = self.case
        if c["fail"] and self.k == c["fail"]:
            self.log.append((name, None))
            raise sched.InjectedError(f"draw {self.k} fails")
        if self.k <= c["extreme"] and np.ndim(value):
            form, loc, scale = seams.standard_form(name, call, value)
            hit = self.g.random(np.shape(value)) < 0.3
            if form == "u01":
                x = self.g.choice([0.0, 1e-12, 0.5, 1 - 2**-53], np.shape(value))
            elif form == "n01":
                x = self.g.choice([-9.0, -3.0, 0.0, 3.0, 9.0], np.shape(value))
            else:
                x = None
            if x is not None:
                value = np.where(hit, loc + scale * x, value)
        self.log.append((name, np.array(value)))
        return value


class Follower:
    """Hands out the draws of the leader."""

    def __init__(self, leader, code) -> None:
        self.log = leader.log
        self.code = code
        self.k = 0

    def __call__(self, name, call, value):
        if self.k >= len(self.log):
            raise Violation("different-draws", f"backend {self.code}: {name}() after {self.k} draws")
        other, v = self.log[self.k]
        self.k += 1
        if v is None:
            raise sched.InjectedError(f"draw {self.k} fails")
        if other != name or np.shape(v) != np.shape(value):
            raise Violation(
                "different-draws",
                f"backend {self.code}: draw {self.k} is {name} {np.shape(value)}, not {other} {np.shape(v)}",
            )
        return np.array(v) if np.ndim(v) else v[()]


class C10(Check):
    id = "C10"
    title = "array backends"
    jax = True
    batch = 40
    quick = 900
    thorough = 60000
    timeout = 300.0
    rule = (
        "1-5 public calls, streams, refused calls or whole simulations, made one after "
        "another with one generator by up to three replicas: NumPy (first; its draws are "
        "recorded, sometimes replaced by extreme ones or failures), then a strict "
        "implementation of the Array API and JAX, as two interleaved tasks which are "
        "handed the same draws. Non-trivial: something was returned and draws were made or "
        "all is deterministic. Oracle: same items, values, shapes, kinds and exceptions; "
        "arrays of the backend; same number and shapes of draws; arguments unchanged."
    )
    measure = "digest of inputs and results"
    assumptions = [
        "rounding differs by less than 1e-8",
        "JAX with 64-bit numbers, as in the documentation",
    ]
    real = ["glass (all modules)", "numpy, array_api_strict, jax, healpy"]
    stub = ["random number generator (same draws for all)", "thread scheduler", "HEALPix data"]

    def setup(self):
        jaxenv.setup()
        import glass  # noqa: F401
        import glass.jax  # noqa: F401

        wl.warm()
        self.names = sorted(n for n, o in wl.OPS.items() if n not in LEFT_OUT and not o.heavy)

    def gen(self, rnd, i, tier):
        jax = rnd.chance(0.4)
        specs = []
        for _ in range(rnd.choice([1, 1, 2, 3, 5])):
            s = wl.random_spec(rnd, names=[*self.names, "pipeline"], big=0.0 if jax else 0.06)
            s["twin"] = True
            if jax:  # few shapes, because JAX compiles for every one
                s["n"] = rnd.choice([1, 5])
                s["k"] = rnd.choice([1, 2])
                s["nside"] = rnd.choice([1, 2])
                s["seed"] %= 50
            specs.append(s)
        return {
            "specs": specs,
            "codes": rnd.choice(["j", "sj"]) if jax else "s",
            "seed": rnd.u32(),
            "extreme": rnd.choice([0, 0, 0, 1, 3]),
            "fail": rnd.choice([0] * 7 + [1, 2, 4]),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def play(self, case, code, tape):
        """All calls by one replica."""
        import glass.rng

        rng = seams.SimRNG(case["seed"], tape)
        gen = rng if code == "n" else glass.rng.Generator(rng=rng, xp=wl.namespace(code))
        out = []
        for spec in case["specs"]:
            o = wl.OPS[spec["op"]]
            if code != "n" and code not in o.xps + "j":
                out.append(None)
                continue
            A, fn = wl.build({**spec, "xp": code})
            before = simcase.freeze_args(A)
            out.append(wl.outcome(lambda: wl.collect(o, fn(A, gen if o.rng else None))))  # noqa: B023
            simcase.check_args(A, before, f"argument of {spec['op']} ({code})")
        return out, len(rng.draws)

    def run(self, case, st: Stats):
        leader = Leader(case)
        want = []
        simcase.simulate({"policy": {"kind": "serial"}, "sched": 0}, [lambda t: want.append(self.play(case, "n", leader))], st)
        want, draws = want[0]
        got: dict = {}

        def body(code):
            def fn(task):
                f = Follower(leader, code)
                got[code] = (self.play(case, code, f)[0], f.k)

            return fn

        simcase.simulate(case, [body(c) for c in case["codes"]], st)
        st.add("draws", draws)
        if case["fail"] and case["fail"] <= draws + 1 and any(v is None for _, v in leader.log):
            st.add("fault:failing draw")
        if case["extreme"]:
            st.add("fault:extreme draws")
        st.nontrivial = True
        st.sig += values.digest([case["specs"], case["seed"]])
        for code, (res, k) in got.items():
            for spec, w, r in zip(case["specs"], want, res):
                st.add(f"calls of {code}")
                self.compare(spec, code, w, r)
            if k != len(leader.log):
                raise Violation("different-draws", f"backend {code} made {k} draws, NumPy {len(leader.log)}")

    def compare(self, spec, code, w, r):
        what = f"{spec['op']} with backend {code}"
        if w[0] != r[0]:
            raise Violation("different-outcome", f"{what}: {values.brief(r)} instead of {values.brief(w)}")
        if w[0] != "value":
            if w[1][:2] != r[1][:2]:  # messages may differ
                raise Violation("different-error", f"{what}: {values.brief(r)} instead of {values.brief(w)}")
            return
        for path, kind, text in replicas.compare(w[1], r[1], code):
            raise Violation("different-" + kind, f"{what} {path}: {text}")

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        for ys in simcase.shrink_list(case["specs"], least=1):
            yield {**case, "specs": ys}
        if len(case["codes"]) > 1:
            for c in case["codes"]:
                yield {**case, "codes": c}
        if case["fail"]:
            yield {**case, "fail": 0}
        if case["extreme"]:
            yield {**case, "extreme": 0}
        yield from simcase.shrink_policy(case)
        for i, s in enumerate(case["specs"][:3]):
            for s2 in wl.shrink_spec(s):
                yield {**case, "specs": [*case["specs"][:i], s2, *case["specs"][i + 1 :]]}


CHECK = C10()
