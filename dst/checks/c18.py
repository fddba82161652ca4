"""C18: streams do the work for the items asked for, and nothing is kept."""

from __future__ import annotations

import gc
import math
import tracemalloc
import weakref

import numpy as np

from .. import sched, seams, simcase, values
from .. import workload as wl
from ..core import Check, Stats, Violation, fresh

UNIT = 4 * math.pi * (180 * 60 / math.pi) ** 2  # square arc minutes on the sphere


class Meter(seams.SimRNG):
    """The user's generator, which counts what is taken from it."""

    def __init__(self, seed, fail=None) -> None:
        super().__init__(seed, self.count)
        self.taken: dict = {}
        self.left = fail

    def count(self, name, call, value):
        if self.left is not None:
            if self.left == 0:
                raise sched.InjectedError("no random numbers")
            self.left -= 1
        self.taken[name] = self.taken.get(name, 0) + int(np.size(value))
        self.draws.clear()
        return value

    @property
    def total(self) -> int:
        return sum(self.taken.values())


def arrays(x, depth=0):
    """All arrays, and user objects, in an argument or result."""
    if depth > 8 or x is None or isinstance(x, (str, bytes, int, float, complex, np.generic)):
        return
    if values.is_array(x):
        yield x
        inner = getattr(x, "_array", None)
        if isinstance(inner, np.ndarray):
            yield inner
        return
    if isinstance(x, dict):
        for y in x.values():
            yield from arrays(y, depth + 1)
    elif isinstance(x, (list, tuple)):
        if hasattr(x, "_fields"):
            pass
        for y in x:
            yield from arrays(y, depth + 1)
    elif hasattr(x, "__dict__") and not callable(x) and not isinstance(x, type):
        if not type(x).__module__.startswith(("numpy", "jax", "array_api")):
            yield x
            for y in vars(x).values():
                yield from arrays(y, depth + 1)


def refs(x):
    out = []
    for y in arrays(x):
        try:
            out.append((weakref.ref(y), f"{type(y).__name__}{getattr(y, 'shape', '')}"))
        except TypeError:
            pass
    return out


class Watch:
    """Items the consumer has let go of."""

    def __init__(self, what, lag=2) -> None:
        self.what = what
        self.lag = lag
        self.first = 0
        self.items: list = []

    def gone(self, item) -> None:
        self.items.append(refs(item))

    def check(self, st, every=False) -> None:
        """Items are freed by the time ``lag`` more are delivered."""
        while self.items and (every or len(self.items) > self.lag):
            for r, name in self.items.pop(0):
                if r() is not None:
                    raise Violation(
                        "item-kept",
                        f"{self.what} keeps {name} of item {self.first} "
                        + ("after its end" if every else f"when {self.lag} more are delivered"),
                    )
                st.add("freed")
            self.first += 1


def batch_of(x):
    count = values.to_np(x[2])
    return values.freeze([x[0], x[1], np.flatnonzero(count), int(count.sum())])


class Memory:
    """Traced memory; items and arguments of the harness are let go before."""

    def __enter__(self):
        tracemalloc.start(1)
        self.base = tracemalloc.get_traced_memory()[0]
        return self

    def __exit__(self, *exc):
        tracemalloc.stop()

    def now(self) -> int:
        return tracemalloc.get_traced_memory()[0] - self.base

    def peak(self) -> int:
        p = tracemalloc.get_traced_memory()[1] - self.base
        tracemalloc.reset_peak()
        return p


class Recorder:
    """A transformation of the user."""

    def __init__(self, kind, fail=False) -> None:
        self.kind = kind
        self.fail = fail
        self.calls = 0
        self.seen: list = []

    def __call__(self, x, var):
        sched.callback_point("transformation")
        self.calls += 1
        if self.fail:
            raise sched.InjectedError("transformation")
        self.seen = refs(x)
        if self.kind == "same":
            return x
        if self.kind == "exp":
            return x * x + float(var)
        return x + 1.0


class C18(Check):
    id = "C18"
    title = "streams are lazy and nothing is kept"
    quick = 4500
    thorough = 40000
    rule = (
        "A stream of fields, scaling vectors, covariance rows, positions, uniform positions "
        "or convergence planes is advanced item by item under a memory meter, with counted "
        "draws and callbacks, endless inputs where possible, and a failure (bad spectrum, "
        "covariance not positive definite, failing transformation, bias model, generator or "
        "producer) planted at a random later input; the consumer drops items, stops early, "
        "closes, throws, or runs to the end. Otherwise any public call of the workload is "
        "made, undisturbed or hit by an interrupt, a failing allocation or user code that "
        "raises, and repeated with other data. Oracle: the stream on inputs cut after the "
        "items asked for, in a fresh process: same items, draws and callbacks; memory does "
        "not grow with the items delivered and is bounded by the batch; dropped items, and "
        "all arguments and results of an ended call, are freed; repeated calls do not grow."
    )
    measure = "digest of inputs, stop and fault"
    assumptions = [
        "memory allocated by extension modules outside NumPy is not traced",
        "an item may be kept until two more are delivered",
        "uniform_positions() draws the numbers of points of all populations first",
    ]
    real = ["glass.points, fields, lensing, healpix, rng and all called by the workload", "numpy", "healpy", "healpix"]
    stub = ["random number generator (counted)", "consumer", "user callbacks", "signal delivery", "allocation failure"]

    def setup(self):
        import glass  # noqa: F401

        wl.warm()
        self.names = sorted(n for n, o in wl.OPS.items() if not o.heavy)
        self.cb = sorted(n for n, o in wl.OPS.items() if o.cb and not o.heavy)

    # ------------------------------------------------------------- generate

    def gen(self, rnd, i, tier):
        kind = rnd.choice(
            ["fields"] * 4 + ["scaling", "scaling", "rows", "positions", "positions", "positions",
             "uniform", "planes", "calls", "calls", "calls", "calls"]
        )
        case = {"kind": kind, "seed": rnd.u32(), "xp": rnd.choice("nnns")}
        if kind == "calls":
            fault = rnd.choice([None, None, "interrupt", "alloc", "callback", "stop"])
            spec = wl.random_spec(rnd, names=self.cb if fault == "callback" else self.names, big=0.1)
            return {**case, "spec": spec, "fault": fault, "where": rnd.random(), "exc": rnd.randint(0, 40)}
        case["k"] = rnd.choice([1, 2, 3, 4, 6, 9, 14])
        case["nside"] = rnd.choice([1, 2, 4, 8, 16])
        case["n"] = rnd.choice([1, 2, 30, 45, 60])
        case["ncorr"] = rnd.choice([None, 0, 1, 1, 2, 3])
        case["cut"] = rnd.random()
        case["fail"] = rnd.choice([None, None, "input", "math", "callback", "rng"])
        case["stop"] = rnd.choice(["end", "end", "close", "drop", "throw"])
        case["points"] = rnd.choice([0, 3, 100, 1000, 20000, 20000])
        case["batch"] = rnd.choice([1, 7, 50, 100, 300, 1000, 1_000_000])
        if case["points"] > 100 * case["batch"]:
            case["batch"] = 100
        case["same"] = rnd.chance(0.3)
        if kind in ("positions", "uniform") and rnd.chance(0.6):
            case["nside"] = rnd.choice([1, 2, 4])
        return case

    def run(self, case, st: Stats):
        st.sig = values.digest(case if case["kind"] == "calls" else {k: v for k, v in case.items() if k != "_run"})
        st.add("kind " + case["kind"])
        getattr(self, "run_" + case["kind"])(case, st)

    # --------------------------------------------------------------- common

    def finish(self, case, box, st, watch, ended):
        """What the consumer does after the last item it wants."""
        it = box.pop()
        how = case["stop"]
        if not ended:
            st.add("fault:" + how)
        if how == "close":
            it.close()
        elif how == "throw" and not ended:
            try:
                it.throw(sched.InjectedError("consumer"))
            except (sched.InjectedError, StopIteration):
                pass
        # CPython may leave the variables of a closed generator until it is freed
        alive = it if ended else None
        it = None
        watch.check(st, every=True)
        return alive

    # --------------------------------------------------------------- fields

    def spectra(self, case, k):
        e = np.random.default_rng([case["seed"], 1])
        xp = wl.namespace(case["xp"])
        n = case["n"]
        amp = e.uniform(0.5, 1.5, case["k"])
        out = []
        for i in range(k):
            for j in range(i, -1, -1):
                out.append(amp[i] * amp[j] * 0.4 ** (i - j) / (1 + np.arange(n)) ** 1.2)
        return out, xp

    def run_fields(self, case, st):
        import glass

        k, ncorr, nside, n = case["k"], case["ncorr"], case["nside"], case["n"]
        cut = 1 + int(case["cut"] * k)  # items that are asked for
        kinds = ["same" if case["same"] else ["plus", "exp"][j % 2] for j in range(k)]
        fail = case["fail"]
        if cut == k:
            fail = None

        def stream(upto, whole):
            cls, xp = self.spectra(case, upto)
            bad = None
            if whole and fail == "input":
                j = cut * (cut + 1) // 2
                cls[j] = cls[j] - 10.0
                bad = ValueError
            elif whole and fail == "math" and ncorr != 0:
                j = cut * (cut + 1) // 2 + 1
                cls[j] = cls[j] * 100.0
                bad = ValueError
            rng = Meter(case["seed"])
            ts = [Recorder(kinds[j]) for j in range(upto)]
            if whole and fail == "callback":
                ts[cut].fail = True
                bad = sched.InjectedError
            gls = [xp.asarray(c) for c in cls]
            before = rng.total
            it = glass.generate(ts, gls, nside, ncorr=k - 1 if ncorr is None else ncorr, rng=rng)
            if rng.total != before or any(t.calls for t in ts):
                raise Violation("eager", "generate() draws before an item is asked for")
            return it, rng, ts, bad

        def part():
            it, rng, ts, _ = stream(cut, False)
            items = [values.freeze(x) for x in it]
            return items, rng.total

        want, drawn = fresh(part)
        corr = k - 1 if ncorr is None else min(ncorr, k - 1)
        unit = 8 * n * (n + 1)  # one set of coefficients, half the draws
        slack = 6000 + 0.4 * unit
        with Memory() as mem:
            it, rng, ts, bad = stream(k, True)
            if fail == "rng":
                bad = sched.InjectedError
            watch = Watch("generate()")
            grf = Watch("generate()")
            level = None
            for j in range(cut):
                x = next(it)
                st.add("items")
                simcase.check_equal(values.freeze(x), want[j], f"item {j} of {k}", "depends-on-later", rtol=1e-6, atol=1e-9)
                watch.gone(x)
                grf.items.append(ts[j].seen)
                ts[j].seen = []
                x = None
                calls = [t.calls for t in ts]
                if calls != [1] * (j + 1) + [0] * (k - j - 1):
                    raise Violation("eager", f"transformations called {calls} times when {j + 1} items are delivered")
                watch.check(st)
                grf.check(st)
                now = mem.now()
                if j >= corr + 2:
                    if level is None:
                        level = now
                    elif now > level + slack + 4500 * (j - corr):
                        raise Violation(
                            "memory-grows", f"{now - level} bytes more after item {j} than after item {corr + 2}, "
                            f"one set of coefficients has {unit}",
                        )
                    st.add("levels")
            if rng.total != drawn:
                raise Violation("eager", f"{rng.total} numbers drawn for {cut} of {k} items, these need {drawn}")
            st.nontrivial = cut < k or fail is not None
            ended = False
            if fail == "rng":
                rng.left = 0
            if bad is not None:
                st.add("fault:" + fail)
                try:
                    x = next(it)
                except bad:
                    ended = True
                else:
                    raise Violation("fault-swallowed", f"item {cut} delivered in spite of failing {fail}")
            elif case["stop"] == "end":
                for x in it:
                    watch.gone(x)
                    x = None
                    watch.check(st)
                ended = True
            for t in ts:
                t.seen = []
            box = [it]
            it = None
            keep = self.finish(case, box, st, watch, ended)
            grf.check(st, every=True)
            # only the harness' own things remain
            ts = rng = None
            gc.collect()
            left = mem.now()
            if left > 40_000 + unit and keep is not None:
                raise Violation("memory-kept", f"{left} bytes remain after the stream has ended")

    # -------------------------------------------------------------- scaling

    def run_scaling(self, case, st):
        import glass

        xp = wl.namespace(case["xp"])
        g = np.random.default_rng([case["seed"], 2])
        lead = [(), (3,), (200,), (20, 20)][int(g.integers(4))]
        nc = case["ncorr"] if case["ncorr"] is not None else 2
        grow = bool(g.integers(2))
        items = 2 + int(case["cut"] * 12)
        fail = case["fail"] if case["fail"] in ("input", "math", "callback") else None
        watch_in = Watch("iternorm() (inputs)")
        pulled = [0]

        def rows():
            j = 0
            while True:
                pulled[0] += 1
                m = min(j, nc) if grow else nc
                row = np.zeros((*lead, m + 1))
                row[..., 0] = g.uniform(0.5, 2.0, lead)
                for c in range(1, m + 1):
                    row[..., c] = g.uniform(-0.1, 0.1, lead)
                if j == items and fail == "callback":
                    raise sched.InjectedError("producer")
                if j == items and fail == "math":
                    row[..., 0] = -1.0
                if j == items and fail == "input":
                    row = np.zeros((*lead, 2, 1))
                row = xp.asarray(row)
                watch_in.gone(row)
                yield row
                row = None
                j += 1

        level = None
        unit = 8 * int(np.prod(lead)) * (nc + 1)
        with Memory() as mem:
            it = glass.iternorm(rows())
            if pulled[0]:
                raise Violation("eager", "iternorm() takes rows before an item is asked for")
            watch = Watch("iternorm()")
            for j in range(items):
                w = next(it)
                st.add("items")
                if pulled[0] != j + 1:
                    raise Violation("eager", f"iternorm() has taken {pulled[0]} rows for {j + 1} items")
                if not bool(xp.all(xp.isfinite(w))):
                    raise Violation("different-result", f"item {j} is not finite")
                watch.gone(w)
                w = None
                watch.check(st)
                watch_in.check(st)
                if j >= nc + 3:
                    now = mem.now()
                    if level is None:
                        level = now
                    elif now > level + 5000 + 1000 * (j - nc) + 0.4 * unit:
                        raise Violation("memory-grows", f"{now - level} bytes more after item {j} than after item {nc + 3}")
                    st.add("levels")
            ended = False
            if fail:
                st.add("fault:" + fail)
                try:
                    next(it)
                except (ValueError, sched.InjectedError):
                    ended = True
                else:
                    raise Violation("fault-swallowed", f"item {items} delivered in spite of failing {fail}")
            box = [it]
            it = None
            keep = self.finish({**case, "stop": "close" if case["stop"] == "end" else case["stop"]}, box, st, watch, ended)
            watch_in.check(st, every=True)
            del keep

    def run_rows(self, case, st):
        import glass

        k, n = case["k"], case["n"]
        nc = k - 1 if case["ncorr"] is None else min(case["ncorr"], k - 1)
        cut = 1 + int(case["cut"] * k)
        cls, xp = self.spectra(case, k)
        want = []
        for i in range(k):
            row = np.zeros((n, nc + 1))
            for j in range(min(i, nc) + 1):
                row[:, j] = cls[i * (i + 1) // 2 + j] / 2
            want.append(row)
        if cut < k:
            cls[cut * (cut + 1) // 2] -= 10.0
        level = None
        unit = 8 * n * (nc + 1)
        gls = [xp.asarray(c) for c in cls]
        with Memory() as mem:
            it = glass.cls2cov(gls, n, k, nc)
            for j in range(cut):
                x = next(it)
                st.add("items")
                if not np.allclose(values.to_np(x)[:, : min(j, nc) + 1], want[j][:, : min(j, nc) + 1], rtol=1e-12):
                    raise Violation("depends-on-later", f"row {j} of {k}")
                x = None
                if j >= 3:
                    now = mem.now()
                    if level is None:
                        level = now
                    elif now > level + 3000 + 200 * j + 0.4 * unit:
                        raise Violation("memory-grows", f"{now - level} bytes more after row {j} than after row 3")
                    st.add("levels")
            st.nontrivial = cut < k
            if cut < k:
                st.add("fault:input")
                try:
                    next(it)
                except ValueError:
                    pass
                else:
                    raise Violation("fault-swallowed", f"row {cut} delivered in spite of negative spectrum")

    # ------------------------------------------------------------ positions

    def run_positions(self, case, st):
        import glass

        P = 1 + case["k"] % 5
        nside, batch = case["nside"], case["batch"]
        npix = 12 * nside**2
        xp = wl.namespace(case["xp"])
        e = np.random.default_rng([case["seed"], 3])
        points = case["points"] if case["xp"] == "n" else min(case["points"], 1000)
        share = e.dirichlet(np.ones(P)) * points / UNIT
        delta = e.uniform(-0.5, 1.0, (P, npix))
        if e.random() < 0.3:
            share[int(e.integers(P))] = 0.0
        vis = np.where(e.random(npix) < 0.2, 0.0, 1.0) if e.random() < 0.4 else None
        cut = 1 + int(case["cut"] * P)  # populations wanted
        fail = case["fail"] if cut < P and case["fail"] in ("callback", "rng") else None
        calls = [0]

        def stream(upto, whole):
            calls[0] = 0

            def bias_model(d, b):
                if whole and fail == "callback" and calls[0] == cut:
                    raise sched.InjectedError("bias model")
                calls[0] += 1
                return b * d

            rng = Meter(case["seed"])
            it = glass.positions_from_delta(
                xp.asarray(share[:upto]), xp.asarray(delta[:upto]), 1.0,
                None if vis is None else xp.asarray(vis),
                bias_model=bias_model, batch=batch, rng=rng,
            )
            if rng.total or calls[0]:
                raise Violation("eager", "positions_from_delta() draws before an item is asked for")
            return it, rng

        def part():
            it, rng = stream(cut, False)
            return [batch_of(x) for x in it], rng.total

        want, drawn = fresh(part)
        with Memory() as mem:
            it, rng = stream(P, True)
            watch = Watch("positions_from_delta()")
            delivered = 0
            worst = 1
            mem.peak()
            for j in range(len(want)):
                x = next(it)
                st.add("items")
                simcase.check_equal(batch_of(x), want[j], f"batch {j}", "depends-on-later")
                count = values.to_np(x[2])
                p = int(np.flatnonzero(count)[0]) if count.any() else max(0, calls[0] - 1)
                size = int(count.sum())
                if size > batch:
                    worst = max(worst, size)
                delivered += size
                watch.gone((x[0], x[1]))
                x = count = None
                if calls[0] > p + 1:
                    raise Violation("eager", f"bias model called {calls[0]} times at population {p}")
                n_counts = rng.taken.get("poisson", 0)
                n_other = rng.total - n_counts
                if n_counts > (p + 1) * npix:
                    raise Violation("eager", f"{n_counts} numbers of points drawn at population {p} of {npix} pixels")
                if n_other > 4 * delivered + 16:
                    raise Violation("eager", f"{n_other} random numbers for {delivered} delivered positions")
                watch.check(st)
                # populations of the inputs, this population, this batch and the one before
                bound = 40_000 + 1000 * j + 8 * (3 * P * npix + 12 * npix) + 8 * 24 * (min(batch, points) + worst)
                peak = mem.peak()
                if peak > bound:
                    raise Violation(
                        "memory-grows", f"{peak} bytes for batches of {batch}, {delivered} of {points} points so far"
                    )
                st.add("levels")
            st.nontrivial = len(want) > 0
            ended = False
            if fail:
                st.add("fault:" + fail)
                if fail == "rng":
                    rng.left = 0
                try:
                    next(it)
                except sched.InjectedError:
                    ended = True
                except StopIteration:
                    raise Violation("fault-swallowed", f"failing {fail} of population {cut} has no effect") from None
                else:
                    raise Violation("fault-swallowed", f"a batch is delivered in spite of failing {fail}")
            elif case["stop"] == "end":
                for x in it:
                    watch.gone((x[0], x[1]))
                    x = None
                    watch.check(st)
                ended = True
            box = [it]
            it = None
            keep = self.finish(case, box, st, watch, ended)
            watch.items = []
            gc.collect()
            if keep is not None:
                left = mem.now()
                if left > 60_000:
                    raise Violation("memory-kept", f"{left} bytes remain after the stream has ended")

    def run_uniform(self, case, st):
        import glass

        P = 1 + case["k"]
        xp = wl.namespace(case["xp"])
        e = np.random.default_rng([case["seed"], 4])
        points = max(100, case["points"])
        ngal = e.dirichlet(np.ones(P)) * points / UNIT
        rng = Meter(case["seed"])
        cut = 1 + int(case["cut"] * P)
        with Memory() as mem:
            it = glass.uniform_positions(xp.asarray(ngal), rng=rng)
            if rng.total:
                raise Violation("eager", "uniform_positions() draws before an item is asked for")
            watch = Watch("uniform_positions()")
            delivered = 0
            before = 0
            mem.peak()
            for j in range(cut):
                x = next(it)
                st.add("items")
                size = int(x[0].shape[0])
                delivered += size
                watch.gone((x[0], x[1]))
                x = None
                watch.check(st)
                other = rng.total - rng.taken.get("poisson", 0)
                if other > 4 * delivered + 16:
                    raise Violation("eager", f"{other} random numbers for {delivered} delivered positions")
                peak = mem.peak()
                if peak > 30_000 + 8 * 10 * (size + before):
                    raise Violation("memory-grows", f"{peak} bytes at item {j} of {size} points")
                before = size
                st.add("levels")
            ended = False
            if cut < P and case["fail"] == "rng":
                rng.left = 0
                st.add("fault:rng")
                try:
                    next(it)
                except sched.InjectedError:
                    ended = True
                else:
                    raise Violation("fault-swallowed", "points without random numbers")
            elif case["stop"] == "end":
                for x in it:
                    watch.gone((x[0], x[1]))
                    x = None
                ended = True
            box = [it]
            it = None
            self.finish(case, box, st, watch, ended)

    # --------------------------------------------------------------- planes

    def run_planes(self, case, st):
        import glass

        nside = case["nside"]
        e = np.random.default_rng([case["seed"], 5])
        xp = wl.namespace(case["xp"])
        cosmo = wl.StrictCosmology() if case["xp"] == "s" else wl.SimCosmology()
        held = weakref.ref(cosmo)
        planes = 4 + int(case["cut"] * 12)
        npix = 12 * nside**2
        with Memory() as mem:
            mpc = glass.MultiPlaneConvergence(cosmo)
            cosmo = None
            wd = Watch("MultiPlaneConvergence (planes)")
            wk = Watch("MultiPlaneConvergence (kappa)")
            level = None
            z = 0.0
            for j in range(planes):
                z += float(e.uniform(0.05, 0.3))
                if e.random() < 0.2:
                    # a plane which is refused
                    st.add("fault:refused")
                    bad = xp.asarray(e.normal(size=npix))
                    r = refs(bad)
                    try:
                        mpc.add_plane(bad, z - 5.0, 1.0)
                    except ValueError:
                        pass
                    bad = None
                    for q, name in r:
                        if q() is not None:
                            raise Violation("item-kept", f"refused plane {name} is kept")
                d = xp.asarray(e.normal(size=npix))
                za = np.linspace(z - 0.04, z + 0.04, 5)
                w = glass.RadialWindow(xp.asarray(za), xp.asarray(np.ones(5)), z)
                if e.random() < 0.5:
                    mpc.add_window(d, w)
                else:
                    mpc.add_plane(d, z, 0.1)
                kap = mpc.kappa
                st.add("items")
                if e.random() < 0.6:
                    wk.gone(kap)
                else:
                    wk.gone([])
                wd.gone(d)
                d = w = kap = None
                wd.check(st)
                wk.check(st)
                now = mem.now()
                if j >= 3:
                    if level is None:
                        level = now
                    elif now > level + 5000 + 1500 * j + 4 * npix:
                        raise Violation("memory-grows", f"{now - level} bytes more after plane {j} than after plane 3")
                    st.add("levels")
            mpc = None
            wd.check(st, every=True)
            wk.check(st, every=True)
            if held() is not None:
                raise Violation("item-kept", "cosmology is kept")

    # ---------------------------------------------------------------- calls

    def run_calls(self, case, st):
        spec, kind = case["spec"], case["fault"]
        o = wl.OPS[spec["op"]]
        seed = case["seed"]
        at = None
        if kind in ("interrupt", "alloc", "callback"):

            def length():
                A, fn = wl.build(spec)
                sim = simcase.simulate(
                    {"policy": {"kind": "serial"}, "sched": 0},
                    [lambda t: wl.call_spec(spec, A, fn, seed)], Stats(), record=kind,
                )
                return list(sim.sites.values())

            sites = fresh(length)
            if sites:
                x = case["where"] * len(sites)
                s = sites[int(x)]
                at = {"task": 0, "kind": kind, "at": s[int((x % 1) * len(s))], "exc": case["exc"]}
        A, fn = wl.build(spec)
        kept = refs(A)
        results = []

        def body(task):
            try:
                rng = wl.generator(spec["xp"], seed) if o.rng else None
                out = fn(A, rng)
                if not o.stream:
                    results.extend(refs(out))
                    return
                results.append((weakref.ref(out), "stream"))
                for j, x in enumerate(out):
                    if j < 20:
                        results.extend(refs(x))
                    if kind == "stop" and j >= int(case["where"] * 4):
                        st.add("fault:stop")
                        out.close()
                        break
            except (sched.SimAbort, sched.StepBudget):
                raise
            except BaseException:  # noqa: BLE001
                st.add("raised")

        if at is None:
            body(None)
        else:
            simcase.simulate({"policy": {"kind": "serial"}, "sched": 0}, [body], st, faults=[at])
            st.extra.clear()
        st.nontrivial = True
        del A, fn, body
        if kind is not None:
            gc.collect()
        for r, name in kept + results:
            if r() is not None:
                raise Violation("kept", f"{spec['op']}() keeps {name}" + (f" after {kind}" if at else ""))
            st.add("freed")
        # again and again, on other data
        large = case["where"] < 0.4 and spec["op"] not in ("pipeline",)
        base = {**spec, "n": 500, "nside": 8} if large else spec
        st.add("large", large)

        def again(js):
            for j in js:
                t = {**base, "data": j + 1}
                A, fn = wl.build(t)
                n = sum(getattr(r, "nbytes", 0) for r in arrays(A))
                out = wl.outcome(lambda: wl.collect(o, fn(A, wl.generator(t["xp"], seed + j) if o.rng else None)))
                A = fn = out = None
                gc.collect()
                sizes.append(mem.now())
            return n

        sizes: list = []
        with Memory() as mem:
            n = again(range(9))
            suspicious = sizes[-1] > sizes[2] + 6000 + 2 * n and all(y > x + 100 for x, y in zip(sizes[2:], sizes[3:]))
        st.add("repeated")
        if suspicious:
            # what others lose is not counted
            other = [tracemalloc.Filter(False, "*/scipy/*"), tracemalloc.Filter(False, __file__), tracemalloc.Filter(False, tracemalloc.__file__)]
            with Memory() as mem:
                again(range(3))
                for _ in range(2):
                    tracemalloc.take_snapshot().filter_traces(other).compare_to(tracemalloc.take_snapshot(), "lineno")
                x = tracemalloc.take_snapshot().filter_traces(other)
                again(range(3, 9))
                y = tracemalloc.take_snapshot().filter_traces(other)
                diff = y.compare_to(x, "lineno")
                grown = sum(d.size_diff for d in diff)
                where = [f"{d.traceback} {d.size_diff}" for d in diff[:3]]
            if grown > 6000 + 2 * n:
                raise Violation("memory-grows", f"repeated {spec['op']}() grows by {grown}: {where} {sizes}")

    def shrinks(self, case):
        if case["kind"] == "calls":
            if case["fault"]:
                yield {**case, "fault": None}
            for s in wl.shrink_spec(case["spec"]):
                yield {**case, "spec": s}
            return
        yield from simcase.simpler(
            case,
            [("xp", "n"), ("fail", None), ("stop", "end"), ("nside", 1), ("nside", 2), ("k", 2), ("k", 4), ("n", 2),
             ("n", 12), ("points", 100), ("points", 1000), ("batch", 100), ("same", False)],
        )


CHECK = C18()
