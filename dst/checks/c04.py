"""C04: streams are independent of each other and of their consumer."""

from __future__ import annotations

import gc

from .. import sched, seams, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation, fresh

STREAMS = [
    "positions_from_delta",
    "uniform_positions",
    "generate",
    "generate_deprecated",
    "iternorm",
    "convergence",
]


def scribble(x) -> int:
    """What a consumer does with arrays it owns; returns how many."""
    import numpy as np

    n = 0
    if isinstance(x, (list, tuple)):
        for y in x:
            n += scribble(y)
    elif values.is_array(x) and getattr(x, "ndim", 0) > 0:
        a = x._array if hasattr(x, "_array") else x
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a[...] = 77
            n += 1
    return n


class C04(Check):
    id = "C04"
    title = "streams are isolated"
    quick = 1600
    thorough = 60000
    rule = (
        "1-4 streams (sampled positions, generated fields, scaling vectors, convergence "
        "planes), some over the same arguments, driven by a seeded consumer: advance any "
        "stream, from any of up to 3 threads with switches inside the advance, close early, "
        "throw, drop and collect, keep items and overwrite items it received, make other "
        "calls in between. Non-trivial: at least two streams interleaved, or a fault. "
        "Oracle: every stream delivers a prefix of what it delivers alone in a fresh "
        "process, kept items never change, a closed stream ends, arguments are unmodified."
    )
    measure = "digest of the consumer's actions and schedule"
    assumptions = [
        "two threads do not advance the same stream at the same time",
        "cls2cov() is excluded: its items share one buffer, which existing tests require",
    ]
    real = ["glass.points, fields, lensing, healpix, rng", "numpy", "healpy", "healpix"]
    stub = ["thread scheduler", "consumer", "user cosmology, bias model, transformation"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()
        self.names = sorted(n for n, o in wl.OPS.items() if not o.heavy)

    def gen(self, rnd, i, tier):
        ns = rnd.choice([1, 2, 2, 3, 4])
        specs, streams = [], []
        for _ in range(ns):
            if specs and rnd.chance(0.5):
                streams.append([rnd.randrange(len(specs)), rnd.choice([0, rnd.u32()])])
            elif specs and rnd.chance(0.4):
                # the same on other data
                specs.append(wl.twin(rnd, rnd.choice(specs)))
                streams.append([len(specs) - 1, rnd.choice([0, rnd.u32()])])
            else:
                specs.append(wl.random_spec(rnd, names=STREAMS, big=0.02))
                streams.append([len(specs) - 1, rnd.choice([0, rnd.u32()])])
        acts = []
        for _ in range(rnd.choice([6, 12, 25, 40])):
            a = rnd.choice(
                ["next"] * 12 + ["close", "throw", "drop", "scribble", "scribble", "call", "new"]
            )
            acts.append([a, rnd.randrange(ns), rnd.u32()])
        # split over threads by stream
        return {
            "specs": specs,
            "streams": streams,
            "acts": acts,
            "threads": rnd.choice([1, 1, 2, 3]),
            "move": rnd.chance(0.3),
            "policy": simcase.policy(rnd),
            "sched": rnd.u32(),
        }

    def run(self, case, st: Stats):
        specs = case["specs"]
        want = []
        for s, seed in case["streams"]:
            want.append(fresh(lambda s=s, seed=seed: self.alone(specs[s], seed)))
        built = [wl.build(s) for s in specs]
        before = [simcase.freeze_args(A) for A, _ in built]

        def start(j):
            s, seed = case["streams"][j]
            A, fn = built[s]
            rng = wl.generator(specs[s]["xp"], seed) if wl.OPS[specs[s]["op"]].rng else None
            return fn(A, rng)

        n = len(case["streams"])
        live = [start(j) for j in range(n)]
        pos = [0] * n
        ended = [False] * n
        kept: list = [[] for _ in range(n)]
        mine: list = [set() for _ in range(n)]
        nt = case["threads"]

        def act(a, j, arg):
            name = f"stream {j} ({specs[case['streams'][j][0]]['op']})"
            if a == "next":
                if live[j] is None:
                    return
                try:
                    item = next(live[j])
                    out = ("value", values.freeze(item))
                except StopIteration:
                    item, out = None, ("end", None)
                except (sched.SimAbort, sched.StepBudget):
                    raise
                except Exception as e:  # noqa: BLE001
                    item, out = None, ("error", values.freeze(e))
                st.add("items")
                if ended[j]:
                    w = ("end", None)
                else:
                    w = want[j][pos[j]]
                simcase.check_equal(out, w, f"{name} item {pos[j]}", "stream-differs")
                if out[0] == "value":
                    kept[j].append((item, out[1]))
                    pos[j] += 1
                else:
                    ended[j] = True
            elif a == "close":
                if live[j] is not None:
                    st.add("fault:close")
                    live[j].close()
                    ended[j] = True
            elif a == "throw":
                if live[j] is not None and not ended[j]:
                    st.add("fault:throw")
                    try:
                        live[j].throw(sched.InjectedError("thrown by the consumer"))
                    except sched.InjectedError:
                        pass
                    except StopIteration:
                        pass
                    ended[j] = True
            elif a == "drop":
                st.add("fault:drop")
                live[j] = None
                gc.collect()
            elif a == "scribble":
                if kept[j]:
                    st.add("fault:overwrite item")
                    k = arg % len(kept[j])
                    if scribble(kept[j][k][0]):
                        mine[j].add(k)
            elif a == "call":
                from ..rnd import Rnd

                wl.call_spec(wl.random_spec(Rnd("c", arg), names=self.names, big=0.0), seed=1)
            elif a == "new":
                live[j] = start(j)
                pos[j] = 0
                ended[j] = False
                self.verify(j, kept, mine, st)
                kept[j], mine[j] = [], set()

        def body(t):
            def go(task):
                for k, (a, j, arg) in enumerate(case["acts"]):
                    # a stream stays with one thread
                    if j % nt == t:
                        act(a, j, arg)

            return go

        if nt == 1 and case["move"]:
            # hand over the streams to another thread half way
            half = len(case["acts"]) // 2
            for part in (case["acts"][:half], case["acts"][half:]):

                def go(task, part=part):
                    for a, j, arg in part:
                        act(a, j, arg)

                simcase.simulate(case, [go], st)
        else:
            simcase.simulate(case, [body(t) for t in range(nt)], st)
        for j in range(n):
            self.verify(j, kept, mine, st)
        for j, (A, _) in enumerate(built):
            simcase.check_args(A, before[j], f"argument of {specs[j]['op']}")
        st.nontrivial = n > 1 or any(k.startswith("fault:") for k in st.count)
        st.sig += values.digest([case["acts"], case["streams"], specs])

    def alone(self, spec, seed):
        """All items of the stream, with the end or error."""
        A, fn = wl.build(spec)
        rng = wl.generator(spec["xp"], seed) if wl.OPS[spec["op"]].rng else None
        out = []
        it = fn(A, rng)
        while True:
            try:
                out.append(("value", values.freeze(next(it))))
            except StopIteration:
                out.append(("end", None))
                return out
            except Exception as e:  # noqa: BLE001
                out.append(("error", values.freeze(e)))
                return out

    def verify(self, j, kept, mine, st):
        """Items we keep and did not touch are what they were."""
        for k, (item, was) in enumerate(kept[j]):
            if k in mine[j]:
                continue
            st.add("kept items")
            now = values.freeze(item)
            if not values.same(now, was, rtol=0.0, atol=0.0):
                raise Violation(
                    "item-changed",
                    f"stream {j} item {k}: {values.brief(was)} -> {values.brief(now)}",
                )

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        for ys in simcase.shrink_list(case["acts"]):
            yield {**case, "acts": ys}
        if case["threads"] > 1:
            yield {**case, "threads": 1}
        if case["move"]:
            yield {**case, "move": False}
        yield from simcase.shrink_policy(case)
        for i, s in enumerate(case["specs"]):
            for s2 in wl.shrink_spec(s):
                yield {**case, "specs": [*case["specs"][:i], s2, *case["specs"][i + 1 :]]}


CHECK = C04()
