"""C03: random results are a function of inputs and generator only."""

from __future__ import annotations

import json
import os
import random
import subprocess
import sys
import time

import numpy as np

from .. import core, seams, simcase, values
from .. import workload as wl
from ..core import Check, HarnessError, Stats, Violation, fresh
from ..rnd import Rnd

# operations all of whose floating point output is random and continuous
CONTINUOUS = {
    "positions_from_delta",
    "uniform_positions",
    "redshifts",
    "redshifts_from_nz",
    "redshifts_from_bins",
    "gaussian_phz",
    "triaxial_axis_ratio",
    "ellipticity_ryden04",
    "ellipticity_gaussian",
    "ellipticity_intnorm",
    "resample_shapes",
    "generate",
}


def floats(x, out):
    """All float and complex arrays of a frozen result in order."""
    if isinstance(x, tuple) and x and x[0] == "arr":
        if x[4].dtype.kind in "fc":
            out.append(np.asarray(x[4]).ravel())
    elif isinstance(x, (tuple, list)):
        for y in x:
            floats(y, out)
    return out


def all_floats(outs):
    fs = floats(outs, [])
    return np.concatenate(fs) if fs else np.empty(0)


class C03(Check):
    id = "C03"
    title = "randomness comes from the given generator only"
    quick = 3600
    thorough = 60000
    timeout = 120.0
    rule = (
        "One public call in a perturbed process: global NumPy and Python random states "
        "reseeded, ambient default generators salted (when the user gives a generator), "
        "clock and process id faked, other calls made before, between draws another task "
        "running. Also: a generator used for a sequence of calls, the same call without a "
        "generator twice, two different seeds, and, for a sample, a new interpreter with a "
        "different hash seed. Non-trivial: the call drew random numbers or is compared "
        "across processes. Oracle: same result as in a fresh unperturbed process; the "
        "generator ends in the same state; calls without generator are repeatable; two "
        "seeds share no continuous value; process-wide state unchanged."
    )
    measure = "digest of case and result"
    assumptions = ["results are compared with relative tolerance 1e-9"]
    real = ["all of glass except glass.jax and glass.ext", "numpy", "healpy", "healpix"]
    stub = ["ambient entropy (numpy default_rng, global random states, clock, pid)", "thread scheduler"]

    def setup(self):
        seams.patch_default_rng()
        import glass  # noqa: F401

        wl.warm()
        self.names = sorted(n for n, o in wl.OPS.items() if not o.heavy)
        self.rng_names = sorted(n for n, o in wl.OPS.items() if o.rng and not o.heavy)
        self.cont = sorted(CONTINUOUS)

    def gen(self, rnd, i, tier):
        kind = rnd.choice(
            ["perturb", "perturb", "perturb", "default", "default", "seeds", "seeds", "sequence"]
        )
        if i % 150 == 7:
            kind = "interpreter"
        names = {
            "perturb": self.rng_names if rnd.chance(0.7) else self.names,
            "default": self.names,
            "seeds": self.cont,
            "sequence": self.rng_names,
            "interpreter": self.names,
        }[kind]
        m = {"sequence": rnd.choice([2, 3, 4]), "interpreter": 40}.get(kind, 1)
        specs = [wl.random_spec(rnd, names=names, big=0.12) for _ in range(m)]
        history = [
            wl.random_spec(rnd, names=self.names, big=0.0)
            for _ in range(rnd.choice([0, 0, 1, 2]))
        ]
        if rnd.chance(0.4):
            history.append(wl.twin(rnd, specs[0]))
        return {
            "kind": kind,
            "specs": specs,
            "history": history,
            # the arguments were used for another call, and overwritten since
            "reuse": rnd.chance(0.3),
            "seed": rnd.u32(),
            "seed2": rnd.u32(),
            "salt": rnd.u32(),
            "other": rnd.chance(0.4),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    # -- perturbation

    def perturb(self, case, salt):
        r = Rnd("perturb", case["salt"])
        np.random.seed(r.getrandbits(31))
        random.seed(r.u32())
        shift = r.uniform(-1e9, 1e9)
        real_time, real_ns, real_mono = time.time, time.time_ns, time.perf_counter
        time.time = lambda: real_time() + shift
        time.time_ns = lambda: real_ns() + int(shift * 1e9)
        time.perf_counter = lambda: real_mono() + 1000.0
        pid = r.randrange(2, 30000)
        os.getpid = lambda: pid
        if salt:
            seams.Entropy.salt = r.u32()
        for s in case["history"]:
            wl.call_spec(s, seed=r.u32())

    def run(self, case, st: Stats):
        getattr(self, "run_" + case["kind"])(case, st)

    def simulated(self, case, st, fn):
        out = []
        fns = [simcase.checked(lambda t: out.append(fn()), case["specs"][0]["op"])]
        if case["other"]:
            other = wl.random_spec(Rnd("other", case["salt"]), names=self.names, big=0.0)
            fns.append(lambda t: wl.call_spec(other, seed=case["seed2"]))
        simcase.simulate(case, fns, st)
        return out[0]

    def reused(self, spec):
        """Arguments which have been used with other data before."""
        A, fn = wl.build(spec)
        B, gn = wl.build({**spec, "data": 10**7})
        wl.call_spec(spec, B, gn, 1)
        values.overwrite(B, A)
        if values.same(values.freeze(B), values.freeze(A), rtol=0.0, atol=0.0):
            return B, fn
        return A, fn

    def run_perturb(self, case, st):
        s = case["specs"][0]
        o = wl.OPS[s["op"]]

        def call(reuse=False):
            A, fn = self.reused(s) if reuse else wl.build(s)
            rng = seams.SimRNG(case["seed"]) if o.rng else None
            out = wl.outcome(lambda: wl.collect(o, fn(A, rng)))
            state = values.digest(repr(rng.bit_generator.state)) if rng else None
            return out, state, rng.draws if rng else []

        want, wstate, wdraws = fresh(call)
        # rng op also creates default generators by itself
        self.perturb(case, salt=o.rng and s["op"] != "rng")
        amb = simcase.ambient()
        out, state, draws = self.simulated(case, st, lambda: call(case["reuse"]))
        seams.Entropy.salt = None
        st.add("draws", len(draws))
        st.nontrivial = bool(draws) or not o.rng
        st.sig += values.digest([s["op"], s["seed"], case["seed"]])
        simcase.check_ambient(amb, s["op"])
        simcase.check_equal(out, want, f"{s['op']} in a perturbed process", "not-reproducible")
        if state != wstate:
            raise Violation(
                "generator-state",
                f"{s['op']} leaves the generator in a different state: {draws[:8]} / {wdraws[:8]}",
            )

    def run_default(self, case, st):
        s = case["specs"][0]
        o = wl.OPS[s["op"]]

        def call():
            A, fn = wl.build(s)
            return wl.outcome(lambda: wl.collect(o, fn(A, None)))

        want = fresh(call)
        self.perturb(case, salt=False)
        amb = simcase.ambient()
        first = self.simulated(case, st, call)
        second = call()
        st.sig += values.digest(["d", s["op"], s["seed"]])
        simcase.check_ambient(amb, s["op"])
        simcase.check_equal(first, want, f"{s['op']} without generator", "not-reproducible")
        simcase.check_equal(second, want, f"{s['op']} without generator, again", "not-reproducible")

    def run_seeds(self, case, st):
        s = case["specs"][0]
        o = wl.OPS[s["op"]]
        A, fn = wl.build(s)
        a, b = [
            wl.outcome(
                lambda x=x: wl.collect(o, fn(A, wl.generator(s["xp"], case[x])))
            )
            for x in ("seed", "seed2")
        ]
        if case["seed"] == case["seed2"]:
            return
        x, y = all_floats(a), all_floats(b)
        st.sig = values.digest([a, b])
        st.nontrivial = x.size > 0
        st.add("values compared", int(x.size))
        m = min(x.size, y.size)
        x, y = x[:m], y[:m]
        eq = (x == y) & (x != 0)
        if s["op"] == "positions_from_delta" or s["op"] == "uniform_positions":
            # no longitude or latitude may recur in any other place either
            both = np.intersect1d(all_floats(a), all_floats(b))
            if both.size:
                raise Violation("shared-randomness", f"{s['op']}: {both[:4]} with two seeds")
        if eq.any():
            raise Violation(
                "shared-randomness",
                f"{s['op']}: {int(eq.sum())} of {m} values are the same for two seeds: {x[eq][:4]}",
            )
        # the same within one call: independent draws never coincide
        if s["op"] in ("positions_from_delta", "uniform_positions", "redshifts_from_nz"):
            v = all_floats(a)
            if np.unique(v).size != v.size:
                raise Violation("repeated-randomness", f"{s['op']}: values recur in one call")

    def run_sequence(self, case, st):
        """One generator for several calls: later calls see fresh randomness."""
        specs = [{**s, "xp": "n"} for s in case["specs"]]

        def seq():
            rng = seams.SimRNG(case["seed"])
            out = []
            for s in specs:
                o = wl.OPS[s["op"]]
                A, fn = wl.build(s)
                out.append(wl.outcome(lambda: wl.collect(o, fn(A, rng))))
            return out

        want = fresh(seq)
        self.perturb(case, salt=all(s["op"] != "rng" for s in specs))
        got = self.simulated(case, st, seq)
        seams.Entropy.salt = None
        st.sig += values.digest(got)
        for s, g, w in zip(specs, got, want):
            simcase.check_equal(g, w, f"{s['op']} in a sequence", "not-reproducible")
        s = specs[0]
        if s["op"] in CONTINUOUS:

            def twice():
                rng = seams.SimRNG(case["seed"])
                o = wl.OPS[s["op"]]
                A, fn = wl.build(s)
                return [wl.outcome(lambda: wl.collect(o, fn(A, rng))) for _ in range(2)]

            a, b = map(all_floats, twice())
            m = min(a.size, b.size)
            eq = (a[:m] == b[:m]) & (a[:m] != 0)
            if eq.any():
                raise Violation(
                    "shared-randomness", f"{s['op']} called twice with one generator repeats values"
                )

    def run_interpreter(self, case, st):
        """A new interpreter with another hash seed gives the same."""
        specs = case["specs"]
        want = [
            wl.call_spec(s, seed=case["seed"]) for s in specs
        ]
        env = {**os.environ, "PYTHONHASHSEED": str(case["salt"] % 4000000000)}
        p = subprocess.run(
            [sys.executable, "-B", "-W", "ignore", "-m", "dst.checks.c03"],
            input=json.dumps({"specs": specs, "seed": case["seed"]}).encode(),
            capture_output=True,
            env=env,
            cwd=core.ROOT,
            timeout=100,
            check=False,
        )
        if p.returncode != 0:
            raise HarnessError(p.stderr.decode()[-2000:])
        import pickle

        got = pickle.loads(p.stdout)
        st.sig = values.digest(got)
        st.add("fault:other interpreter")
        for s, g, w in zip(specs, got, want):
            simcase.check_equal(g, w, f"{s['op']} in another interpreter", "not-reproducible")

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        if case["other"]:
            yield {**case, "other": False}
        if case["reuse"]:
            yield {**case, "reuse": False}
        for ys in simcase.shrink_list(case["history"]):
            yield {**case, "history": ys}
        for ys in simcase.shrink_list(case["specs"], 1):
            yield {**case, "specs": ys}
        yield from simcase.shrink_policy(case)
        for i, s in enumerate(case["specs"][:4]):
            for s2 in wl.shrink_spec(s):
                yield {**case, "specs": [*case["specs"][:i], s2, *case["specs"][i + 1 :]]}


CHECK = C03()


if __name__ == "__main__":
    from ..run import setup_environment

    store = os.environ["HEALPY_DATAPATH"]
    setup_environment()
    os.environ["HEALPY_DATAPATH"] = store
    core.quiet()
    body = json.loads(sys.stdin.read())
    out = [wl.call_spec(s, seed=body["seed"]) for s in body["specs"]]
    sys.stdout.buffer.write(values.pickles(out))
