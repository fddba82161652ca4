"""C09: the JAX generator never hands out randomness twice."""

from __future__ import annotations

import math

import numpy as np

from .. import jaxenv, sched, simcase, values
from ..core import Check, Stats, Violation

SHAPE = (4,)
# how the shape of a draw is given, by kind
SIZES = [(4,), 4, (2, 2), None, (), 1]
FORMS = {
    "random": 6, "standard_normal": 6, "uniform": 9, "normal": 9, "poisson": 3,
    "split": 6, "spawn": 4, "multinomial": 1,
}
# a multinomial draw compiles every time
KINDS = ("random", "uniform", "normal", "standard_normal", "poisson", "split", "spawn") * 10 + ("multinomial",)


class C09(Check):
    id = "C09"
    title = "JAX generator"
    jax = True
    batch = 250
    quick = 2000
    thorough = 120000
    timeout = 120.0
    rule = (
        "1-4 tasks make up to 5 draws each from one or two shared glass.jax.Generator objects "
        "(directly, through glass.rng.Generator, from children and split keys), including "
        "draws which fail, with Ctrl-C or a failing allocation at a bytecode of glass.jax in "
        "some tasks. Locks are simulated. Non-trivial: at least two draws. Oracle: the history "
        "is linearizable against sequential draws from the initial key (an interrupted draw "
        "may or may not have happened); the underlying randomness of all draws, children and "
        "split keys, before and after the fault, differs; no lock stays held; later draws work."
    )
    measure = "digest of history, faults and schedule"
    assumptions = [
        "jax.random functions are functions of the key and atomic",
        "two draws only agree to 1e-11 when they use the same key",
    ]
    real = ["glass.jax, glass.rng", "jax"]
    stub = ["threading.Lock", "thread scheduler", "signal delivery", "allocation failure"]

    def setup(self):
        jaxenv.setup()
        import glass  # noqa: F401
        import glass.jax
        import glass.rng  # noqa: F401

    def gen(self, rnd, i, tier):
        tasks = []
        impl = rnd.choice([None, None, None, None, "rbg"])
        for _ in range(rnd.choice([1, 2, 2, 3, 4])):
            ops = []
            for _ in range(rnd.choice([1, 2, 2, 3, 5])):
                kind = rnd.choice(KINDS)
                if impl == "rbg" and kind in ("poisson", "multinomial"):
                    kind = "uniform"  # JAX does not have it
                form = rnd.randrange(FORMS[kind]) if rnd.chance(0.5) else 0
                ops.append(
                    [kind, rnd.randrange(2), rnd.choice(["own", "own", "own", "wrap", "bad"]), form]
                )
            tasks.append(ops)
        faults = []
        for t in range(len(tasks)):
            if rnd.chance(0.25):
                faults.append({"task": t, "kind": rnd.choice(["interrupt", "alloc"]), "at": 1 + rnd.randrange(120)})
        return {
            "tasks": tasks,
            "two": rnd.chance(0.3),
            "impl": impl,
            "related": rnd.choice(["seed", "spawn", "key"]),
            "seed": rnd.randrange(1000),
            "made": rnd.chance(0.04),
            "faults": faults,
            "policy": {
                "kind": "rand", "mean": rnd.choice([2, 5, 10, 30]), "long": rnd.choice([0.0, 0.1, 0.3]),
            },
            "sched": rnd.u32(),
        }

    # ------------------------------------------------------------------ draws

    def draw(self, rng, kind, how, form=0):
        """One draw; result in plain form."""
        import jax.numpy as jnp

        import glass.rng

        if how == "bad":
            # does not work, and must not do any harm
            with np.errstate(all="ignore"):
                if kind in ("split", "spawn"):
                    return ("ok", rng.split("x") if kind == "split" else rng.spawn("x"))
                if kind == "random":
                    return ("ok", rng.random((2.5,)))
                if kind == "standard_normal":
                    return ("ok", rng.standard_normal("x"))
                a = jnp.zeros(2)
                if kind == "multinomial":
                    return ("ok", rng.multinomial(3, jnp.ones((2, 3)) / 3, (5,)))
                if kind == "poisson":
                    return ("ok", rng.poisson(a, (3,)))
                return ("ok", getattr(rng, kind)(a, 1.0, (3,)))
        if how == "wrap" and kind not in ("split", "spawn"):
            rng = glass.rng.Generator(rng=rng, xp=jnp)
        size = SIZES[form % 6]
        if kind == "random":
            v = rng.random(size)
        elif kind == "standard_normal":
            v = rng.standard_normal(size)
        elif kind in ("uniform", "normal"):
            a, b = (-1.0, 3.0) if kind == "uniform" else (2.0, 3.0)
            fn = getattr(rng, kind)
            if form < 6:
                v = fn(a, b, size)
            elif form == 6:
                v = fn(jnp.full(4, a), b)
            elif form == 7:
                v = fn(jnp.full((2, 1), a), jnp.full(2, b))
            else:
                v = fn(a, jnp.full(4, b), (4,))
        elif kind == "poisson":
            v = [lambda: rng.poisson(1e6, SHAPE), lambda: rng.poisson(jnp.full(4, 1e6)),
                 lambda: rng.poisson(jnp.full(4, 1e6), (4,))][form]()
        elif kind == "multinomial":
            v = rng.multinomial(1000000, jnp.asarray([0.25, 0.25, 0.25, 0.25]))
        elif kind == "split":
            v = rng.split([2, None, (), 1, (2, 2), 3][form])
        else:
            return rng.spawn([2, 1, 0, 3][form])
        return v

    def plain(self, kind, v):
        """Comparable form of a result."""
        import jax

        if kind == "split":
            return np.asarray(jax.random.key_data(v))
        if kind == "spawn":
            return np.array([np.asarray(jax.random.key_data(c.key)) for c in v])
        return np.asarray(v)

    def underlying(self, kind, v):
        """Uniform numbers behind the result, for comparison between kinds."""
        import glass.jax

        if kind == "random":
            return [np.asarray(v)]
        if kind == "uniform":
            return [(np.asarray(v) + 1.0) / 4.0]
        if kind in ("normal", "standard_normal"):
            z = (np.asarray(v) - 2.0) / 3.0 if kind == "normal" else np.asarray(v)
            return [np.array([0.5 * (1 + math.erf(x / math.sqrt(2))) for x in z.ravel()]).reshape(z.shape)]
        if kind == "split":
            return [np.asarray(glass.jax.Generator.from_key(k).random(SHAPE)) for k in v.reshape(-1)]
        if kind == "spawn":
            return [np.asarray(c.random(SHAPE)) for c in v]
        return []

    def base(self, case):
        import jax

        import glass.jax

        impl = case["impl"]
        a = glass.jax.Generator(case["seed"], impl=impl)
        if not case["two"]:
            return [a]
        if case["related"] == "seed":
            return [a, glass.jax.Generator(case["seed"] + 1, impl=impl)]
        if case["related"] == "key":
            return [a, glass.jax.Generator.from_key(jax.random.key(case["seed"] + 1, impl=impl))]
        return a.spawn(2)

    def run_made(self, case, st: Stats):
        """Generators made from a seed, or by calls which are not given one."""
        import jax.numpy as jnp

        import glass
        import glass.jax
        import glass.rng

        s = case["seed"]
        kinds = [[o[0] for o in t if o[0] not in ("split", "spawn")] or ["random"] for t in case["tasks"]]
        make = {
            "wrapper": lambda s: glass.rng.Generator(seed=s, xp=jnp),
            "default_rng": lambda s: glass.rng.default_rng(seed=s, xp=jnp),
            "jax": lambda s: glass.jax.Generator(s),
        }
        out: dict = {}

        def run(t, how, seed, name):
            def body(task):
                g = make[how](seed)
                vs = [np.asarray(self.draw(g, k, "own")) for k in kinds[t]]
                u = np.asarray(g.random(SHAPE))
                out[t, how, name] = (*vs, u)

            return body

        def call(t, n):
            def body(task):
                e = glass.ellipticity_gaussian(jnp.asarray([2, 3]), jnp.asarray([0.2, 0.3]))
                out["call", n] = (np.asarray(e),)

            return body

        fns = []
        for how in make:
            t = s % len(kinds)
            fns += [run(t, how, s, "one"), run(t, how, s, "same"), run(t, how, s + 1 + case["sched"] % 9, "other")]
        fns += [call(0, 0), call(0, 1)]
        # all at the same time, or one after the other
        if case["two"]:
            simcase.simulate({**case, "faults": []}, fns, st)
        else:
            for f in fns:
                simcase.simulate({**case, "faults": []}, [f], st)
        st.nontrivial = True
        st.add("generators made", len(fns) - 2)
        st.sig += values.digest([case["tasks"], s, case["two"]])

        def eq(a, b):
            return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))

        for how in make:
            one, same, other = (out[s % len(kinds), how, n] for n in ("one", "same", "other"))
            if not eq(one, same):
                raise Violation("not-its-seed", f"{how}: two generators with one seed differ")
            if np.isclose(one[-1], other[-1], rtol=0, atol=1e-11).any():
                raise Violation("randomness-reused", f"{how}: generators of different seeds agree")
        if not eq(out["call", 0], out["call", 1]):
            raise Violation("not-its-seed", "calls without a generator differ")

    def run(self, case, st: Stats):
        import jax

        if case.get("made"):
            return self.run_made(case, st)
        gens = self.base(case)
        keys0 = [np.asarray(jax.random.key_data(g.key)) for g in gens]
        hist: list = []  # dicts of one operation each
        clock = [0]

        def now():
            clock[0] += 1
            return clock[0]

        def task_fn(tid, ops):
            def body(task):
                for kind, g, how, form in ops:
                    g = g % len(gens)
                    rec = {"task": tid, "gen": g, "kind": kind, "how": how, "form": form, "call": now(), "ret": None, "out": None}
                    hist.append(rec)
                    try:
                        rec["raw"] = self.draw(gens[g], kind, how, form)
                    except (sched.SimAbort, sched.StepBudget):
                        raise
                    except (sched.InjectedInterrupt, sched.InjectedMemoryError) as e:
                        rec["out"] = "fault"
                        rec["error"] = type(e).__name__
                    except Exception as e:  # noqa: BLE001
                        if how != "bad":
                            raise
                        rec["out"] = "refused"
                    else:
                        rec["out"] = "ok" if how != "bad" else "accepted"
                    rec["ret"] = now()

            return body

        sim = simcase.simulate(
            case, [task_fn(t, ops) for t, ops in enumerate(case["tasks"])], st, faults=case["faults"]
        )
        n = sum(1 for r in hist if r["out"] == "ok")
        st.add("draws", n)
        st.nontrivial = n >= 2
        st.sig += values.digest([case["tasks"], [t.fired for t in sim.tasks]])
        for r in hist:
            st.add("op " + r["kind"])
            if r["out"] == "refused":
                st.add("fault:invalid draw")
        # usable afterwards
        for g in range(len(gens)):
            if gens[g].lock is not None and gens[g].lock.locked():
                raise Violation("lock-held", "after all draws ended")
            for kind in ("standard_normal", "random", "split"):
                rec = {"task": -1, "gen": g, "kind": kind, "how": "own", "form": 0, "call": now()}
                rec["raw"] = self.draw(gens[g], kind, "own")
                rec["ret"], rec["out"] = now(), "ok"
                hist.append(rec)
        # no randomness twice
        seen: list = []
        for r in hist:
            if r["out"] == "ok":
                r["plain"] = self.plain(r["kind"], r["raw"])
                if r["kind"] == "poisson" or r["kind"] == "multinomial":
                    seen_ints = [q for q in hist if q is not r and q.get("plain") is not None and q["kind"] == r["kind"]]
                    for q in seen_ints:
                        if np.array_equal(q["plain"], r["plain"]):
                            raise Violation("randomness-reused", f"{r['kind']} returns {r['plain']} twice")
                    continue
                for u in self.underlying(r["kind"], r["raw"]):
                    for q, w in seen:
                        m = min(w.size, u.size)
                        if np.abs(u.ravel()[:m] - w.ravel()[:m]).max() < 1e-11:
                            raise Violation(
                                "randomness-reused",
                                f"{q['kind']} of task {q['task']} and {r['kind']} of task {r['task']} share a key",
                            )
                    seen.append((r, u))
        for g in range(len(gens)):
            self.linearize(g, keys0[g], [r for r in hist if r["gen"] == g], st, case["impl"])

    def linearize(self, g, key0, hist, st, impl):
        """Some sequential order of the draws gives these results."""
        import jax

        import glass.jax

        must = [r for r in hist if r["out"] == "ok"]
        may = [r for r in hist if r["out"] != "ok"]
        cache: dict = {}

        def step(kb, kind, form):
            if (kb, kind, form) not in cache:
                key = jax.random.wrap_key_data(
                    np.frombuffer(kb, dtype=key0.dtype).reshape(key0.shape), impl=impl
                )
                rng = glass.jax.Generator.from_key(key)
                v = self.plain(kind, self.draw(rng, kind, "own", form))
                cache[kb, kind, form] = (v, np.asarray(jax.random.key_data(rng.key)).tobytes())
            return cache[kb, kind, form]

        seen = set()

        def search(kb, todo, opt):
            if not todo:
                return True
            if (kb, todo, opt) in seen:
                return False
            seen.add((kb, todo, opt))
            if len(seen) > 20000:
                st.add("linearizability undecided")
                return True
            first = min(must[i]["ret"] for i in todo)
            for i in todo:
                r = must[i]
                if r["call"] > first:
                    continue
                v, nk = step(kb, r["kind"], r["form"])
                if v.shape == r["plain"].shape and np.array_equal(v, r["plain"]):
                    if search(nk, todo - {i}, opt):
                        return True
            for i in opt:
                # a draw that failed may have taken randomness
                if may[i]["call"] > first:
                    continue
                _, nk = step(kb, may[i]["kind"], may[i]["form"])
                if search(nk, todo, opt - {i}):
                    return True
            return False

        if not search(key0.tobytes(), frozenset(range(len(must))), frozenset(range(len(may)))):
            ops = [(r["task"], r["kind"], r["how"], r["out"]) for r in hist]
            raise Violation("not-linearizable", f"generator {g}: {ops}")
        st.add("histories checked")

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        t = case["tasks"]
        if len(t) > 1:
            for i in range(len(t)):
                yield {
                    **case, "tasks": t[:i] + t[i + 1 :],
                    "faults": [{**f, "task": f["task"] - (f["task"] > i)} for f in case["faults"] if f["task"] != i],
                }
        for i in range(len(t)):
            for ys in simcase.shrink_list(t[i], 1):
                yield {**case, "tasks": [*t[:i], ys, *t[i + 1 :]]}
        for ys in simcase.shrink_list(case["faults"]):
            yield {**case, "faults": ys}
        if case["two"]:
            yield {**case, "two": False}
        yield from simcase.shrink_policy(case)


CHECK = C09()
