"""C02: interrupted and failing calls leave nothing behind."""

from __future__ import annotations

from .. import sched, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation, fresh


def injected(e) -> bool:
    """Is this, or was this caused by, a fault of ours."""
    seen = 0
    while e is not None and seen < 20:
        if isinstance(
            e, (sched.InjectedError, sched.InjectedMemoryError, sched.InjectedInterrupt)
        ):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


class C02(Check):
    id = "C02"
    title = "interrupted and failing calls leave nothing behind"
    quick = 4000
    thorough = 60000
    rule = (
        "A first task makes 1-2 public API calls, one of which is hit by a fault: Ctrl-C "
        "or a failing allocation at a realistic bytecode of glass, an exception from a user "
        "callback (cosmology, bias model, weight, shift, transformation), or the consumer "
        "closing or throwing into a stream. Sometimes a second task runs concurrently. "
        "Afterwards the same and other calls are made with the same arguments. Non-trivial: "
        "a fault fired. Oracle: the failing call raises that exception, "
        "arguments and process-wide state are unchanged, no lock is "
        "held, and all other calls return what they return in a fresh process."
    )
    measure = "digest of fault site (code object and offset), operation and schedule"
    assumptions = [
        "asynchronous interrupts arrive where CPython checks for signals; allocations fail "
        "in bytecodes that allocate; inside extension modules no fault is injected",
        "a stateful MultiPlaneConvergence hit by an asynchronous fault is dropped (C11 has "
        "the failing cosmology)",
    ]
    real = ["all of glass except glass.jax and glass.ext", "numpy", "healpy", "healpix", "transformcl"]
    stub = ["thread scheduler", "signal delivery", "allocation failure", "user callbacks"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()
        self.names = sorted(n for n, o in wl.OPS.items() if not o.heavy)
        self.cb = sorted(n for n, o in wl.OPS.items() if o.cb and not o.heavy)

    def gen(self, rnd, i, tier):
        kind = rnd.choice(["interrupt", "interrupt", "alloc", "alloc", "callback"])
        first = wl.random_spec(
            rnd, names=self.cb if kind == "callback" else self.names, big=0.02
        )
        after = [first]
        for _ in range(rnd.choice([0, 1, 2])):
            after.append(wl.random_spec(rnd, names=self.names, big=0.0))
        if rnd.chance(0.5):
            after.insert(0, wl.twin(rnd, first))
        elif rnd.chance(0.6):
            after.insert(0, {**first, "seed": rnd.u32(), "n": rnd.choice(wl.SIZES)})
        return {
            "first": first,
            "after": after,
            "other": wl.random_spec(rnd, names=self.names, big=0.0) if rnd.chance(0.25) else None,
            "kind": kind,
            # position of the fault as a fraction of the steps of the call, or of
            # the places in the code it passes
            "where": rnd.random(),
            # what user code raises
            "exc": rnd.randint(0, 40),
            "by": rnd.choice(["step", "site", "site"]),
            "seed": rnd.u32(),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def run(self, case, st: Stats):
        first, after, other = case["first"], case["after"], case["other"]
        seed = case["seed"]

        def ref(spec):
            return fresh(lambda: wl.call_spec(spec, seed=seed))

        def length():
            """Reference result and number of steps."""
            A, fn = wl.build(first)
            s = Stats()
            out = []
            sim = simcase.simulate(
                {"policy": {"kind": "serial"}, "sched": 0},
                [lambda t: out.append(wl.call_spec(first, A, fn, seed))],
                s,
                record=case["kind"],
            )
            sites = [x for x in sim.sites.values()]
            return out[0], sim.steps, sim.tasks[0].callbacks, sites

        want, steps, ncb, sites = fresh(length)
        if case["by"] == "site" and sites:
            x = case["where"] * len(sites)
            at = sites[int(x)]
            # first, second or third time
            at = at[int((x % 1) * len(at))]
        elif case["kind"] == "callback":
            at = 1 + int(case["where"] * ncb)
        else:
            at = 1 + int(case["where"] * steps)
        fault = {"task": 0, "kind": case["kind"], "at": at, "exc": case["exc"]}
        wants = [ref(s) for s in after]
        A, fn = wl.build(first)
        before = simcase.freeze_args(A)
        amb = simcase.ambient()
        got, errors = [], []

        def body(task):
            o = wl.OPS[first["op"]]
            try:
                rng = wl.generator(first["xp"], seed) if o.rng else None
                got.append(wl.collect(o, fn(A, rng)))
            except (sched.SimAbort, sched.StepBudget):
                raise
            except BaseException as e:  # noqa: BLE001
                errors.append(e)

        fns = [simcase.checked(body, f"{first['op']} with {fault}")]
        other_out = []
        if other:
            other_want = ref(other)
            oA, ofn = wl.build(other)
            fns.append(lambda task: other_out.append(wl.call_spec(other, oA, ofn, seed)))
        sim = simcase.simulate(case, fns, st, faults=[fault])
        st.add("calls", 1 + len(after))
        st.nontrivial = sum(sim.fired.values()) > 0
        fired = sim.tasks[0].fired
        st.sig += values.digest([first["op"], fired])
        what = f"{first['op']} with {fired}"
        simcase.check_args(A, before, what)
        if fired:
            if errors:
                if not injected(errors[0]):
                    raise Violation(
                        "fault-disguised", f"{what} raised {type(errors[0]).__name__}: {errors[0]}"
                    )
            else:
                raise Violation("fault-swallowed", f"{what} returned {values.brief(got[0])}")
        else:
            out = ("value", got[0]) if got else ("error", values.freeze(errors[0]))
            simcase.check_equal(out, want, what)
        del errors[:]
        if other:
            simcase.check_equal(other_out[0], other_want, f"{other['op']} beside {what}")
        simcase.check_ambient(amb, what)
        # afterwards, in the same process, on the same arguments
        results = []

        def later(task):
            for s in after:
                a, f = (A, fn) if s == first else wl.build(s)
                results.append(wl.call_spec(s, a, f, seed))

        st2 = Stats()
        simcase.simulate({"policy": {"kind": "serial"}, "sched": 0}, [later], st2)
        st.add("steps", st2["steps"])
        for s, out, w in zip(after, results, wants):
            simcase.check_equal(out, w, f"{s['op']} after {what}", "poisoned")

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        if case["other"]:
            yield {**case, "other": None}
        for ys in simcase.shrink_list(case["after"]):
            yield {**case, "after": ys}
        yield from simcase.shrink_policy(case)
        for s in wl.shrink_spec(case["first"]):
            yield {**case, "first": s, "after": [s if a == case["first"] else a for a in case["after"]]}


CHECK = C02()
