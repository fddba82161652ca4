"""C13: catalogue files contain every written row exactly once, in order."""

from __future__ import annotations

import contextlib
import os
import shutil
import tempfile

import numpy as np

from .. import sched, simcase, values
from ..core import Check, Stats, Violation

DTYPES = ["f8", "f8", "f4", "i8", "i4", "i2", "u1", "?", "c16", "S4", ">f8", "f8x2", "f4x3"]


class Boundary:
    """Calls of fitsio that write; the outermost ones can fail."""

    def __init__(self) -> None:
        self.depth: dict = {}
        self.fired: list = []

    def wrap(self, fn, name):
        def method(obj, *args, **kwargs):
            t = sched.current()
            if t is None or self.depth.get(t):
                return fn(obj, *args, **kwargs)
            self.depth[t] = 1
            try:
                sched.callback_point("fitsio." + name)
                f = getattr(t, "fits_fault", None)
                hit = False
                if f is not None:
                    f["left"] -= 1
                    hit = f["left"] == 0
                if hit and f["kind"] == "before":
                    self.fire(t, f, name)
                out = fn(obj, *args, **kwargs)
                if hit:
                    self.fire(t, f, name)
                return out
            finally:
                self.depth[t] = 0

        return method

    def fire(self, t, f, name):
        self.fired.append(f"{f['kind']} {name}")
        t.fits_fault = None
        t.fits_fired = True
        t.sim.fire(t, "fitsio error " + f["kind"], name)
        raise OSError("FITSIO status = 106: error writing to FITS file (simulated)")


class BodyError(Exception):
    """Failure in the body of the user."""


class C13(Check):
    id = "C13"
    title = "catalogue files"
    quick = 5000
    thorough = 150000
    rule = (
        "1-3 tasks, each with 1-3 catalogue writers whose writes interleave within the task "
        "and between tasks. 0-12 chunks of 0-2000 rows, 1-4 columns of any type and width, "
        "given as keywords (in any order, strided), as a structured array or both, with or without "
        "extension name, into new or existing files. Faults: exception in the body, fitsio "
        "failing before or after its n-th write (given up or retried), Ctrl-C and failing "
        "allocation in glass. The caller overwrites its arrays after every write. "
        "Non-trivial: at least two chunks. Oracle: rows read back with fitsio are those of "
        "all writes in order; after a failure those of a prefix (the one in flight may or may "
        "not be there); the error arrives; the file is closed."
    )
    measure = "digest of history, faults and schedule"
    assumptions = [
        "fitsio reports its errors (a full disk noticed only while closing is not reported by "
        "fitsio) and reads back what is in the file",
        "one writer is used by one task",
    ]
    real = ["glass.user write_catalog", "fitsio and CFITSIO on real files in a scratch directory"]
    stub = ["failures of fitsio calls", "thread scheduler", "signal delivery"]

    def setup(self):
        import fitsio
        from fitsio.hdu.table import TableHDU

        import glass

        assert glass.write_catalog
        self.b = Boundary()
        for cls, names in (
            (fitsio.FITS, ("write_table", "create_table_hdu", "write")),
            (TableHDU, ("write", "append", "write_column", "write_columns", "resize")),
        ):
            for n in names:
                if hasattr(cls, n):
                    setattr(cls, n, self.b.wrap(getattr(cls, n), n))

    def gen(self, rnd, i, tier):
        tasks = []
        for _ in range(rnd.choice([1, 1, 2, 3])):
            ws = []
            for _ in range(rnd.choice([1, 1, 2, 3])):
                ws.append({
                    "ext": rnd.choice([None, None, "CATALOG", "cat", "Gal-1"]),
                    "cols": [rnd.choice(DTYPES) for _ in range(rnd.choice([1, 2, 3, 4]))],
                    "chunks": [rnd.choice([0, 1, 1, 2, 5, 17, 100, 2000]) for _ in range(rnd.choice([0, 1, 2, 3, 5, 12]))],
                    "how": rnd.choice(["kw", "kw", "perm", "rec", "mixed", "stride", "both"]),
                    "old": rnd.chance(0.2),
                    "path": rnd.chance(0.3),
                })
            n = sum(len(w["chunks"]) for w in ws)
            fault = None
            r = rnd.random()
            if r < 0.2:
                fault = {"kind": "body", "left": rnd.randrange(n + 1)}
            elif r < 0.45:
                fault = {"kind": rnd.choice(["before", "before", "after"]), "left": 1 + rnd.randrange(n + 2 * len(ws)), "retry": rnd.chance(0.5)}
            tasks.append({"writers": ws, "seed": rnd.u32(), "fault": fault})
        faults = []
        if rnd.chance(0.15):
            faults = [{"task": rnd.randrange(len(tasks)), "kind": rnd.choice(["interrupt", "alloc"]), "at": 1 + rnd.randrange(400)}]
        return {
            "tasks": tasks, "faults": faults,
            "policy": {"kind": "rand", "mean": rnd.choice([3, 10, 40, 150]), "long": rnd.choice([0.0, 0.1, 0.4])},
            "sched": rnd.u32(),
        }

    def column(self, g, code, n):
        if "x" in code:
            t, k = code.split("x")
            return g.normal(0, 1, (n, int(k))).astype(t)
        if code == "S4":
            return np.array([b"%03d" % v for v in g.integers(0, 999, n)], dtype="S4")
        if code == "?":
            return g.random(n) < 0.5
        if code == "c16":
            return g.normal(0, 1, n) + 1j * g.normal(0, 1, n)
        if code == "u1":
            return g.integers(0, 255, n).astype("u1")
        if code[0] == "i":
            return g.integers(-9999, 9999, n).astype(code)
        return g.normal(0, 1, n).astype(code)

    def run(self, case, st: Stats):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        root = tempfile.mkdtemp(prefix="dst-fits-", dir=base)
        self.results: list = []
        try:
            sim = simcase.simulate(
                case, [self.task(j, t, root, st) for j, t in enumerate(case["tasks"])], st, faults=case["faults"]
            )
            self.judge(root, st)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        st.sig += values.digest([case["tasks"], [t.fired for t in sim.tasks]])
        st.nontrivial = st["chunks"] >= 2

    def task(self, j, spec, root, st):
        import pathlib

        import glass

        g = np.random.default_rng(spec["seed"])

        def prepare(k, w):
            path = os.path.join(root, f"{j}-{k}.fits")
            names = [f"C{i}" if i % 2 else f"col_{i}" for i in range(len(w["cols"]))]
            chunks = [{n: self.column(g, c, m) for n, c in zip(names, w["cols"])} for m in w["chunks"]]
            rec = {
                "path": path, "names": names, "chunks": chunks, "done": 0, "flight": False,
                "failed": False, "half": 0, "ext": w["ext"], "what": f"{j}-{k}", "opened": False,
            }
            if w["old"]:
                import fitsio

                with fitsio.FITS(path, "rw", clobber=True) as f:
                    f.write(np.arange(7.0))
                    f.write_table([np.arange(5)], names=["old"], extname=w["ext"])
            self.results.append(rec)
            return rec

        recs = [prepare(k, w) for k, w in enumerate(spec["writers"])]
        todo = [k for k, w in enumerate(spec["writers"]) for _ in w["chunks"]]
        g.shuffle(todo)
        fault = spec["fault"]

        def write(out, w, rec, chunk):
            """Give the writer one chunk, then overwrite it."""
            names = list(rec["names"])
            how = w["how"]
            if how == "mixed":
                how = ["kw", "rec", "perm", "both"][int(g.integers(4))]
            cols = {n: chunk[n].copy() for n in names}
            if how == "perm" and rec["done"]:
                g.shuffle(names)
            if how == "stride":
                cols = {n: np.repeat(c, 2, axis=0)[::2] for n, c in cols.items()}
            n = len(next(iter(cols.values())))
            # an array and keywords in one call: the rows of the array come first
            half = n // 2 if how == "both" else 0
            rec["half"] = half
            if how in ("rec", "both"):
                chunk = {k: c[half:] for k, c in chunk.items()} if half else chunk
                first = {k: c[:half] if half else c for k, c in cols.items()}
                cols = {k: c[half:].copy() for k, c in cols.items()}
                n = half or n
                a = np.zeros(n, dtype=[(k, c.dtype, c.shape[1:]) for k, c in first.items()])
                for k, c in first.items():
                    a[k] = c
                keep = a.copy()
                try:
                    out.write(a, **(cols if half else {}))
                finally:
                    if a.dtype != keep.dtype or a.tobytes() != keep.tobytes():
                        raise Violation("argument-modified", "write() changed the array")
                    for k in names if half else []:
                        if cols[k].dtype != chunk[k].dtype or cols[k].tobytes() != chunk[k].tobytes():
                            raise Violation("argument-modified", "write() changed a column")
                a[...] = np.zeros((), dtype=a.dtype)
                for c in cols.values():
                    c[...] = np.zeros((), dtype=c.dtype)
            else:
                try:
                    out.write(**{n: cols[n] for n in names})
                finally:
                    for n in names:
                        if cols[n].dtype != chunk[n].dtype or cols[n].tobytes() != chunk[n].tobytes():
                            raise Violation("argument-modified", "write() changed a column")
                for c in cols.values():
                    c[...] = np.zeros((), dtype=c.dtype)

        def body(task):
            task.fits_fired = False
            task.fits_fault = dict(fault) if fault and fault["kind"] != "body" else None
            left = fault["left"] if fault and fault["kind"] == "body" else None
            raised = None
            retried = False
            nf = len(task.fired)
            try:
                with contextlib.ExitStack() as stack:
                    outs = []
                    for w, rec in zip(spec["writers"], recs):
                        p = pathlib.Path(rec["path"]) if w["path"] else rec["path"]
                        outs.append(stack.enter_context(glass.write_catalog(p, ext=w["ext"])))
                        rec["opened"] = True
                    for k in todo:
                        if left is not None:
                            if left == 0:
                                raise BodyError("body")
                            left -= 1
                        rec = recs[k]
                        chunk = rec["chunks"][rec["done"]]
                        rec["flight"] = True
                        try:
                            write(outs[k], spec["writers"][k], rec, chunk)
                        except OSError:
                            if not (task.fits_fired and fault.get("retry") and fault["kind"] == "before") or rec["half"]:
                                raise
                            retried = True
                            st.add("retries")
                            write(outs[k], spec["writers"][k], rec, chunk)
                        rec["flight"] = False
                        rec["done"] += 1
                        st.add("chunks")
                    if left is not None:
                        raise BodyError("body")
            except (sched.SimAbort, sched.StepBudget):
                raise
            except (BodyError, OSError, sched.InjectedInterrupt, sched.InjectedMemoryError) as e:
                raised = e
            task.fits_fault = None
            for rec in recs:
                rec["failed"] = raised is not None
            want = []
            if left is not None:
                want.append(BodyError)
            if task.fits_fired and not retried:
                want.append(OSError)
            asyn = any(k in ("interrupt", "alloc") for k, *_ in task.fired[nf:])
            if asyn:
                want += [sched.InjectedInterrupt, sched.InjectedMemoryError]
            if raised is None and want and not asyn:
                raise Violation("error-lost", f"task {j}: {want[0].__name__} did not reach the caller")
            if raised is not None and not any(isinstance(raised, w) for w in want):
                raise Violation("wrong-error", f"task {j}: {type(raised).__name__}: {raised}")
            st.add("failed bodies", raised is not None)

        return body

    def judge(self, root, st):
        import fitsio

        fds = []
        for fd in os.listdir("/proc/self/fd"):
            with contextlib.suppress(OSError):
                fds.append(os.readlink(f"/proc/self/fd/{fd}"))
        for rec in self.results:
            path, what = rec["path"], rec["what"]
            if path in fds:
                raise Violation("not-closed", f"file {what}")
            if not rec["opened"]:
                continue
            with fitsio.FITS(path) as f:
                n = len(f)
                table = f[1].read() if n > 1 else None
                ext = f[1].get_extname() if n > 1 else None
            if n > 2:
                raise Violation("wrong-structure", f"file {what}: {n} HDUs")
            ok = [(rec["done"], 0)] + ([(rec["done"] + 1, 0), (rec["done"], rec["half"])] if rec["flight"] else [])
            got = 0 if table is None else len(table)
            st.add("files read back")
            if table is None:
                if rec["done"] == 0 or (sum(len(next(iter(c.values()))) for c in rec["chunks"][: rec["done"]]) == 0):
                    continue
                raise Violation("rows-lost", f"file {what}: no table after {rec['done']} writes")
            if ext != (rec["ext"] or ""):
                raise Violation("wrong-structure", f"file {what}: extension {ext!r}")
            if not any(self.matches(table, rec, k, h) for k, h in ok):
                size = [len(next(iter(c.values()))) for c in rec["chunks"]]
                raise Violation(
                    "wrong-rows", f"file {what}: {got} rows {table[:2]} after {rec['done']} writes of {size} rows"
                )
            st.add("rows", got)

    def matches(self, table, rec, k, half):
        chunks = rec["chunks"][:k]
        if half:
            chunks = [*chunks, {n: c[:half] for n, c in rec["chunks"][k].items()}]
        if not chunks:
            return len(table) == 0
        if list(table.dtype.names) != rec["names"]:
            return False
        for n in rec["names"]:
            want = np.concatenate([c[n] for c in chunks])
            got = table[n]
            if want.dtype.kind == "S":
                got = np.asarray(got).astype("S")
            elif got.dtype.kind != want.dtype.kind or got.dtype.itemsize != want.dtype.itemsize:
                return False
            if got.shape != want.shape or not np.array_equal(got, want):
                return False
        return True

    concretise = staticmethod(simcase.concretise)

    def shrinks(self, case):
        t = case["tasks"]
        if len(t) > 1:
            for i in range(len(t)):
                if not any(f["task"] >= i for f in case["faults"]):
                    yield {**case, "tasks": t[:i] + t[i + 1 :]}
        for ys in simcase.shrink_list(case["faults"]):
            yield {**case, "faults": ys}

        def put(i, new):
            return {**case, "tasks": [*t[:i], new, *t[i + 1 :]]}

        for i, x in enumerate(t):
            ws = x["writers"]
            for k in range(len(ws)):
                if len(ws) > 1:
                    yield put(i, {**x, "writers": ws[:k] + ws[k + 1 :]})
                for ys in simcase.shrink_list(ws[k]["chunks"]):
                    yield put(i, {**x, "writers": [*ws[:k], {**ws[k], "chunks": ys}, *ws[k + 1 :]]})
                if len(ws[k]["cols"]) > 1:
                    yield put(i, {**x, "writers": [*ws[:k], {**ws[k], "cols": ws[k]["cols"][:-1]}, *ws[k + 1 :]]})
                for key, v in (("old", False), ("path", False), ("how", "kw"), ("ext", None)):
                    if ws[k][key] != v:
                        yield put(i, {**x, "writers": [*ws[:k], {**ws[k], key: v}, *ws[k + 1 :]]})
            if x["fault"]:
                yield put(i, {**x, "fault": None})
        yield from simcase.shrink_policy(case)


CHECK = C13()
