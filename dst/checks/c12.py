"""C12: saved spectra come back exactly or not at all."""

from __future__ import annotations

import os
import pathlib

import numpy as np

from .. import disk, sched, simcase, values
from ..core import Check, Stats, Violation


class Content:
    """What is known about a file."""

    def __init__(self) -> None:
        self.allowed: list = []  # spectra which may be loaded
        self.error = True  # whether loading may fail
        self.readers: list = []

    def may(self, cls) -> None:
        for c in [self, *self.readers]:
            c.allowed = [*c.allowed, cls]
            c.error = True

    def spoil(self) -> None:
        for c in [self, *self.readers]:
            c.error = True

    def is_now(self, cls) -> None:
        self.allowed = [cls]
        self.error = False


def equal(a, b) -> bool:
    return (
        isinstance(a, list)
        and len(a) == len(b)
        and all(
            isinstance(x, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype and x.tobytes() == y.tobytes()
            for x, y in zip(a, b)
        )
    )


def show(c) -> str:
    return str([(x.shape, x.dtype.str, x[:3].tolist()) if hasattr(x, "shape") else x for x in c][:4])


class C12(Check):
    id = "C12"
    title = "saved spectra come back exactly or not at all"
    quick = 5000
    thorough = 300000
    rule = (
        "1-3 tasks save, load, corrupt and truncate one or two files each in histories of up "
        "to 10 operations, and load the files of the others at any time. I/O faults: disk "
        "full, I/O errors on open, read, write, truncate and close, short reads and writes, "
        "crash of the process in any of these with part of the write done, failing allocation "
        "and Ctrl-C in glass. Corruption: bit flips (anywhere, and in headers), lost blocks (512 or 4096 bytes), "
        "truncation, garbage at the end. Spectra of any lengths, with special values. "
        "Non-trivial: a successful load or a fault. Oracle: model of which spectra a file may "
        "give; a healthy acknowledged file must load exactly; a failed save must raise."
    )
    measure = "digest of history, faults and schedule"
    assumptions = [
        "files are accessed with Python's open()",
        "a crash loses what the process had not yet written, not what it had",
        "nobody else writes to a file while it is saved; file names end in .npz",
    ]
    real = ["glass.user save_cls, load_cls", "numpy", "zipfile"]
    stub = ["open() under the scratch directory", "thread scheduler", "process crash", "disk corruption"]

    def setup(self):
        import zipfile  # noqa: F401

        import glass

        assert glass.save_cls
        import numpy.lib.npyio  # noqa: F401

    def gen(self, rnd, i, tier):
        ntask = rnd.choice([1, 1, 1, 2, 3])
        tasks = []
        for t in range(ntask):
            ops = []
            for _ in range(rnd.choice([2, 3, 5, 8, 10])):
                r = rnd.random()
                fault = None
                if rnd.chance(0.35):
                    on = rnd.choice(["write", "write", "write", "write", "close", "open", "truncate"])
                    kind = rnd.choice(["ENOSPC", "EIO", "short", "crash" if ntask == 1 else "EIO"])
                    fault = {
                        "on": on, "at": 1 + (rnd.randrange(14) if on == "write" else 0), "kind": kind,
                        "keep": rnd.choice([0.0, 0.3, 0.9, 1.0]), "sticky": rnd.chance(0.5),
                    }
                if r < 0.45 or not ops:
                    ops.append([
                        "save", rnd.randrange(2), rnd.u32(), rnd.choice([1, 1, 2, 3, 6, 10]), rnd.choice([0, 3, 10, 30, 3000]),
                        rnd.choice(["<f8", "<f8", "<f4"]), rnd.choice(["str", "path"]), fault,
                    ])
                elif r < 0.8:
                    if fault is not None:
                        fault["on"] = rnd.choice(["read", "read", "open"])
                        fault["at"] = 1 + (rnd.randrange(6) if fault["on"] == "read" else 0)
                        if fault["kind"] in ("ENOSPC", "crash"):
                            fault["kind"] = "EIO"
                    ops.append(["load", rnd.randrange(2 * ntask), fault])
                else:
                    ops.append([
                        "corrupt", rnd.randrange(2),
                        rnd.choice(["flip", "flip", "digit", "digit", "cut", "zero", "tail", "remove"]),
                        rnd.random(), rnd.randrange(8),
                    ])
            ops += [["load", 2 * t, None], ["load", 2 * t + 1, None]]
            tasks.append(ops)
        faults = []
        if rnd.chance(0.15):
            faults = [{"task": rnd.randrange(ntask), "kind": rnd.choice(["interrupt", "alloc"]), "at": 1 + rnd.randrange(150)}]
        return {
            "tasks": tasks,
            "faults": faults,
            "policy": {"kind": "rand", "mean": rnd.choice([1, 3, 10, 40]), "long": rnd.choice([0.0, 0.1, 0.4])},
            "sched": rnd.u32(),
        }

    def spectra(self, seed, n, size, dtype):
        g = np.random.default_rng(seed)
        out = []
        for _ in range(n):
            m = int(g.integers(0, size + 1)) if g.random() < 0.6 else size
            a = g.normal(0, 1, m)
            if m and g.random() < 0.2:
                a[g.integers(0, m)] = g.choice([np.nan, np.inf, -0.0, 5e-324, 1e300, 0.0])
            with np.errstate(all="ignore"):
                out.append(a.astype(dtype))
        return out

    def run(self, case, st: Stats):
        d = disk.Disk()
        self.model: dict = {}
        try:
            disk.install(d)
            sim = simcase.simulate(
                case, [self.task(t, ops, d, st) for t, ops in enumerate(case["tasks"])], st, faults=case["faults"]
            )
        finally:
            disk.uninstall()
            d.remove()
            st.log += d.log
        for f in d.fired:
            st.add("fault:" + f)
        st.sig += values.digest([case["tasks"], d.fired, [t.fired for t in sim.tasks]])
        st.nontrivial = st["loaded"] > 0 or bool(d.fired)

    def task(self, tid, ops, d, st):
        import glass

        def name(f, kind="str"):
            p = d.path(f"{f}.npz")
            return pathlib.Path(p) if kind == "path" else p

        def content(f):
            return self.model.setdefault(f, Content())

        def save(task, op):
            _, f, seed, n, size, dtype, kind, fault = op
            f += 2 * tid
            cls = self.spectra(seed, n, size, dtype)
            given = [c.copy() for c in cls]
            c = content(f)
            c.may(given)
            nf = len(task.fired)
            d.arm(fault)
            err = None
            try:
                glass.save_cls(name(f, kind), cls)
            except (sched.SimAbort, sched.StepBudget):
                raise
            except disk.SimCrash:
                err = "crash"
            except (OSError, sched.InjectedInterrupt, sched.InjectedMemoryError) as e:
                err = type(e).__name__
            fired = d.disarm()
            st.add("saves")
            if err == "crash":
                d.restart()
            elif err is None:
                if fired and fault["kind"] != "short" and fault["on"] in ("write", "close"):
                    raise Violation("error-lost", f"save_cls succeeded in spite of {d.log[-1]}")
                c.is_now(given)
                st.add("acknowledged saves")
            elif not fired and len(task.fired) == nf:
                raise Violation("unexpected-error", f"save_cls failed on a healthy disk: {err}")
            if not equal(cls, given):
                raise Violation("argument-modified", "save_cls changed the spectra")

        def load(task, op):
            _, f, fault = op
            c = content(f)
            r = Content()
            r.allowed, r.error = list(c.allowed), c.error
            c.readers.append(r)
            nf = len(task.fired)
            d.arm(fault)
            got = err = None
            try:
                got = glass.load_cls(name(f))
            except (sched.SimAbort, sched.StepBudget):
                raise
            except BaseException as e:  # noqa: BLE001
                err = e
            fired = d.disarm()
            c.readers.remove(r)
            if err is not None:
                st.add("failed loads")
                if fired or len(task.fired) > nf or r.error:
                    return
                raise Violation("lost", f"acknowledged spectra cannot be loaded: {type(err).__name__}: {err}")
            st.add("loaded")
            if r.error:
                st.add("loaded though uncertain")
            if not any(equal(got, a) for a in r.allowed):
                raise Violation(
                    "different-spectra",
                    f"loaded {show(got)} from a file with {show(r.allowed[-1]) if r.allowed else 'nothing'}",
                )
            for a in got:
                if a.size and a.flags.writeable:
                    a[...] = 7

        def corrupt(task, op):
            _, f, how, pos, bit = op
            f += 2 * tid
            p = d.path(f"{f}.npz")
            c = content(f)
            if not os.path.exists(p):
                return
            data = bytearray(disk._real_open(p, "rb").read())
            if not data and how != "remove":
                return
            i = int(pos * len(data))
            if how == "digit":
                # one bit of a digit in a header
                at = []
                k = data.find(b"'shape': (")
                while k >= 0:
                    j = k + 10
                    while j < len(data) and data[j] != 0x29:
                        at.append(j)
                        j += 1
                    k = data.find(b"'shape': (", j)
                if not at:
                    return
                data[at[int(pos * len(at))]] ^= 1 << (bit % 4)
            elif how == "flip":
                data[i] ^= 1 << bit
            elif how == "cut":
                data = data[:i]
            elif how == "zero":
                b = [512, 4096][bit % 2]
                i -= i % b
                data[i : i + b] = bytes(len(data[i : i + b]))
            elif how == "tail":
                data += bytes(range(1 + bit * 7))
            c.spoil()
            st.add("fault:corruption " + how)
            d.log.append(f"corruption {how} of file {f} at {i} of {len(data)}")
            # in place, as the disk does
            if how == "remove":
                os.unlink(p)
                c.allowed = []
                return
            with disk._real_open(p, "r+b") as fp:
                fp.write(data)
                fp.truncate()

        def body(task):
            for op in ops:
                sched.callback_point("user")
                {"save": save, "load": load, "corrupt": corrupt}[op[0]](task, op)

        return body

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        t = case["tasks"]
        if len(t) > 1:
            yield {**case, "tasks": t[:-1], "faults": [f for f in case["faults"] if f["task"] < len(t) - 1]}
        for i in range(len(t)):
            for ys in simcase.shrink_list(t[i], 1):
                yield {**case, "tasks": [*t[:i], ys, *t[i + 1 :]]}
        for ys in simcase.shrink_list(case["faults"]):
            yield {**case, "faults": ys}
        yield from simcase.shrink_policy(case)
        for i in range(len(t)):
            for j, o in enumerate(t[i]):
                new = []
                if o[0] == "save":
                    if o[3] > 1:
                        new.append([*o[:3], o[3] - 1, *o[4:]])
                    if o[4] > 3:
                        new.append([*o[:4], 3, *o[5:]])
                    if o[7] is not None:
                        new.append([*o[:7], None])
                elif o[0] == "load" and o[2] is not None:
                    new.append([*o[:2], None])
                for v in new:
                    yield {**case, "tasks": [*t[:i], [*t[i][:j], v, *t[i][j + 1 :]], *t[i + 1 :]]}


CHECK = C12()
