"""C01: concurrent calls do not influence each other."""

from __future__ import annotations

from .. import simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation, fresh
from ..rnd import Rnd


class C01(Check):
    id = "C01"
    title = "concurrent calls are isolated"
    quick = 4000
    thorough = 60000
    rule = (
        "2-4 tasks (threads) each make 1-3 public API calls drawn from a catalogue of all "
        "public functions, with read-only arguments shared between tasks and one generator "
        "per call; a seeded scheduler switches tasks between any two bytecode instructions "
        "of glass. Non-trivial: at least one switch happened while a call was in progress. "
        "Oracle: every call returns what it returns alone in a fresh process, and no "
        "argument is ever seen modified at a switch or at the end."
    )
    measure = "digest of the sequence of (task, task step) at every switch"
    assumptions = [
        "code outside of glass (NumPy, healpy, CPython) is atomic between two bytecodes of glass",
        "results are compared with relative tolerance 1e-9",
    ]
    real = ["all of glass except glass.jax and glass.ext", "numpy", "healpy", "healpix", "transformcl"]
    stub = ["thread scheduler", "user cosmology, bias model, weight, shift, transformation"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()

        self.names = sorted(n for n, o in wl.OPS.items() if not o.heavy)

    def gen(self, rnd, i, tier):
        nt = rnd.choice([2, 2, 2, 3, 3, 4])
        pool = [
            wl.random_spec(rnd, names=self.names, big=0.03)
            for _ in range(rnd.choice([1, 1, 2, 3]))
        ]
        r = rnd.random()
        if r < 0.45:
            # the same operation on other data
            pool = [pool[0], *(wl.twin(rnd, pool[0]) for _ in range(rnd.choice([1, 1, 2])))]
        elif r < 0.65:
            # the same operation with different sizes
            pool = [
                {**pool[0], "seed": rnd.u32(), "n": rnd.choice(wl.SIZES), "k": rnd.choice([1, 2, 3])}
                for _ in range(2)
            ] + pool[:1]
        tasks = []
        for t in range(nt):
            if r < 0.65:
                # tasks are always at different ones
                m = rnd.choice([2, 3, 4, 6]) if pool[0]["n"] < 200 else 1
                tasks.append([[(t + j) % len(pool), 1] for j in range(m)])
                continue
            tasks.append(
                [
                    [rnd.randrange(len(pool)), rnd.choice([1, 1, rnd.u32()])]
                    for _ in range(rnd.choice([1, 1, 2, 3]))
                ]
            )
        return {"pool": pool, "tasks": tasks, "policy": simcase.policy(rnd), "sched": rnd.u32()}

    def run(self, case, st: Stats):
        pool, tasks = case["pool"], case["tasks"]
        want = {}
        for t in tasks:
            for s, seed in t:
                if (s, seed) not in want:
                    want[s, seed] = fresh(lambda s=s, seed=seed: wl.call_spec(pool[s], seed=seed))
        built = [wl.build(s) for s in pool]
        before = [simcase.freeze_args(A) for A, _ in built]
        got = [[] for _ in tasks]
        nwatch = [0]

        def watch(task):
            nwatch[0] += 1
            if nwatch[0] > 60 and nwatch[0] % 16:
                return
            for j, (A, _) in enumerate(built):
                simcase.check_args(A, before[j], f"argument of {pool[j]['op']} at a switch")

        def body(ti):
            def go(task):
                for s, seed in tasks[ti]:
                    A, fn = built[s]
                    got[ti].append(wl.call_spec(pool[s], A, fn, seed))

            return go

        sim = simcase.simulate(case, [body(i) for i in range(len(tasks))], st, watch=watch)
        st.nontrivial = sim.switches > 0
        st.add("calls", sum(map(len, tasks)))
        for j, (A, _) in enumerate(built):
            simcase.check_args(A, before[j], f"argument of {pool[j]['op']}")
        for ti, t in enumerate(tasks):
            for (s, seed), out in zip(t, got[ti]):
                if out[0] == "error":
                    st.add("calls raising")
                simcase.check_equal(out, want[s, seed], f"task {ti}: {pool[s]['op']}")

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        t = case["tasks"]
        if len(t) > 1:
            for i in range(len(t)):
                yield {**case, "tasks": t[:i] + t[i + 1 :]}
        for i in range(len(t)):
            for j in range(len(t[i])):
                if len(t[i]) > 1:
                    yield {**case, "tasks": t[:i] + [t[i][:j] + t[i][j + 1 :]] + t[i + 1 :]}
        yield from simcase.shrink_policy(case)
        for i, s in enumerate(case["pool"]):
            for s2 in wl.shrink_spec(s):
                yield {**case, "pool": [*case["pool"][:i], s2, *case["pool"][i + 1 :]]}


CHECK = C01()
