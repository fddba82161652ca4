"""
Deterministic scheduler for real threads.

Every task is a real thread, but exactly one of them holds the baton at any
time.  The baton can only change hands at *points*: before any bytecode
instruction of the code under test (``sys.monitoring``), at simulated locks,
and in simulated user callbacks.  Who runs next, and for how many points, is
decided by a list of segments ``[task, points]``; the list comes from a seeded
generator or from a replay file.  Faults are exceptions raised at a point.
"""

from __future__ import annotations

import _thread
import dis
import gc
import hashlib
import os
import random
import sys
import threading
import types
import zlib
from collections import Counter

import numpy as np

REPO = os.environ.get("DST_REPO", "/repo") + "/glass/"
TOOL = 4
ALL = 1 << 60

_active: "Sim | None" = None
_get_ident = _thread.get_ident


class StepBudget(BaseException):
    """The run did not make progress within its budget of steps."""


class SimAbort(BaseException):
    """The simulation is being torn down."""


class Deadlock(Exception):
    """No task can run."""


class InjectedError(Exception):
    """Failure injected by the simulator, as raised by user code."""


class InjectedMemoryError(MemoryError):
    """Allocation failure injected by the simulator."""


class InjectedInterrupt(KeyboardInterrupt):
    """Ctrl-C injected by the simulator."""


# user code may raise anything, the library must not mistake it for its own
KINDS = [
    None, ValueError, TypeError, KeyError, IndexError, AttributeError, ZeroDivisionError,
    FloatingPointError, RuntimeError, NotImplementedError, OSError, ImportError,
    np.linalg.LinAlgError,
]
VARIANTS = [
    InjectedError if k is None else type(f"Injected{k.__name__}", (InjectedError, k), {})
    for k in KINDS
]


def user_error(name: str, which: int = 0) -> InjectedError:
    cls = VARIANTS[which % len(VARIANTS)]
    if name.startswith("cosmo.") and issubclass(cls, AttributeError):
        # an attribute that raises this is an attribute that is not there
        cls = InjectedError
    return cls(f"injected in {name}")


EXC = {
    "interrupt": InjectedInterrupt,
    "alloc": InjectedMemoryError,
    "callback": InjectedError,
}

# instructions after which CPython may deliver a signal
_EVAL_BREAK = {"RESUME", "CALL", "CALL_FUNCTION_EX", "JUMP_BACKWARD"}
# instructions which allocate
_ALLOCATE = {
    "BINARY_OP",
    "BINARY_SUBSCR",
    "BUILD_LIST",
    "BUILD_TUPLE",
    "BUILD_MAP",
    "CALL",
    "CALL_FUNCTION_EX",
}

_codes: dict[types.CodeType, None] = {}
_elig: dict[types.CodeType, dict[int, tuple[bool, bool]]] = {}


def _add_code(code) -> None:
    if code in _codes or not code.co_filename.startswith(REPO):
        return
    _codes[code] = None
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _add_code(c)


def collect_codes() -> int:
    """Find all code of the repository that is loaded."""
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            _add_code(f.__code__)
    return len(_codes)


def eligibility(code):
    """Per offset: can an interrupt arrive, can an allocation fail."""
    e = _elig.get(code)
    if e is None:
        e = {}
        prev: list = []
        for ins in dis.get_instructions(code):
            p = prev[-1].opname if prev else ""
            intr = p in _EVAL_BREAK
            alloc = ins.opname in _ALLOCATE
            if ins.opname == "CALL" and len(prev) >= 3:
                # do not fail the call of __exit__() in a with statement
                if all(q.opname == "LOAD_CONST" and q.argval is None for q in prev[-3:]):
                    alloc = False
            e[ins.offset] = (intr, alloc)
            prev.append(ins)
        _elig[code] = e
    return e


_installed: dict = {}


def install(kind: str = "instruction") -> None:
    """Turn every instruction (or line, or jump) of the code under test into a point."""
    mon = sys.monitoring
    ev = mon.events
    if "tool" not in _installed:
        mon.use_tool_id(TOOL, "dst")
        _installed["tool"] = True
        mon.register_callback(TOOL, ev.INSTRUCTION, _on_event)
        mon.register_callback(TOOL, ev.LINE, _on_line)
        mon.register_callback(TOOL, ev.JUMP, _on_jump)
    want = {
        "instruction": ev.INSTRUCTION,
        "line": ev.LINE,
        "jump": ev.JUMP,
        "off": 0,
    }[kind]
    if _installed.get("kind") == kind and _installed.get("n") == len(_codes):
        return
    for c in _codes:
        mon.set_local_events(TOOL, c, want)
    _installed["kind"] = kind
    _installed["n"] = len(_codes)


def _on_event(code, offset):
    sim = _active
    if sim is not None:
        t = sim.by_ident.get(_get_ident())
        if t is not None:
            sim.point(t, code, offset)


def _on_line(code, line):
    sim = _active
    if sim is not None:
        t = sim.by_ident.get(_get_ident())
        if t is not None:
            sim.point(t, None, line)


def _on_jump(code, off, dest):
    sim = _active
    if sim is not None:
        t = sim.by_ident.get(_get_ident())
        if t is not None:
            sim.point(t, None, off)


def callback_point(name: str = "callback") -> None:
    """A point in simulated user code; user code may also fail here."""
    sim = _active
    if sim is not None:
        t = sim.by_ident.get(_get_ident())
        if t is not None:
            sim.callback(t, name)


def current() -> "Task | None":
    sim = _active
    return None if sim is None else sim.by_ident.get(_get_ident())


class Task:
    def __init__(self, sim, tid, fn, name) -> None:
        self.sim = sim
        self.tid = tid
        self.fn = fn
        self.name = name
        self.steps = 0
        self.callbacks = 0
        self.baton = _thread.allocate_lock()
        self.baton.acquire()
        self.done = False
        self.waiting = None
        self.error = None
        self.faults = []
        self.fired = []

    def boot(self) -> None:
        self.baton.acquire()
        sim = self.sim
        sim.by_ident[_get_ident()] = self
        try:
            if not sim.aborting:
                self.fn(self)
        except SimAbort:
            pass
        except BaseException as e:  # noqa: BLE001
            self.error = e
            if isinstance(e, StepBudget):
                sim.failure = e
        finally:
            del sim.by_ident[_get_ident()]
            self.done = True
            sim.leave(self)


class Sim:
    """
    One simulated execution.

    policy
        ``{"kind": "segs", "segs": [[task, n], ...]}`` for a fixed schedule or
        ``{"kind": "rand", "mean": m}`` for a seeded one.
    faults
        List of ``{"task": t, "kind": k, "at": step}``.
    """

    def __init__(
        self, policy, rnd, faults=(), budget=3_000_000, watch=None, points="instruction"
    ) -> None:
        self.policy = policy
        self.rnd = rnd
        self.faults = list(faults)
        self.budget = budget
        self.watch = watch
        self.kind = points
        self.tasks: list[Task] = []
        self.by_ident: dict[int, Task] = {}
        self.steps = 0
        self.next_at = 0
        self.segs_in = list(policy.get("segs", ())) if policy["kind"] == "segs" else None
        self.segs_out: list[list[int]] = []
        self.switches = 0
        self.fired: Counter = Counter()
        self.aborting = False
        self.failure: BaseException | None = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.trace = hashlib.sha256()
        self.events: list[str] = []
        # where a fault of this kind could have happened: steps by place
        self.record: str | None = None
        # policy which switches at the same few places in the code every time
        self.hot: dict[int, frozenset] | None = {} if policy["kind"] == "hot" else None
        self.hot_until = self.hot_epoch = 0
        self.sites: dict[object, list[int]] = {}

    # -- setup

    def spawn(self, fn, name=None) -> Task:
        tid = len(self.tasks)
        t = Task(self, tid, fn, name or f"t{tid}")
        t.faults = sorted(
            (f for f in self.faults if f["task"] == tid), key=lambda f: f["at"]
        )
        self.tasks.append(t)
        return t

    def run(self) -> None:
        global _active
        install(self.kind)
        assert _active is None
        threads = [
            threading.Thread(target=t.boot, daemon=True, name=t.name)
            for t in self.tasks
        ]
        _active = self
        try:
            for th in threads:
                th.start()
            self.dispatch(None)
            self.main.acquire()
        finally:
            _active = None
        if self.failure is not None:
            raise self.failure
        for th in threads:
            th.join()

    # -- running (always with the baton)

    def runnable(self):
        return [t for t in self.tasks if not t.done and t.waiting is None]

    def next_segment(self, cur):
        """Decide who runs next and for how long."""
        run = self.runnable()
        if not run:
            return None
        if self.segs_in is not None:
            while self.segs_in:
                tid, n = self.segs_in.pop(0)
                if tid < len(self.tasks) and self.tasks[tid] in run:
                    return self.tasks[tid], n
            # keep going, then run the others one after another
            t = cur if cur in run else run[0]
            return t, ALL
        others = [t for t in run if t is not cur] or run
        t = others[self.rnd.randrange(len(others))]
        p = self.policy
        if p["kind"] == "serial":
            return t, ALL
        r = self.rnd.random()
        mean = p.get("mean", 50)
        if r < p.get("long", 0.05):
            n = ALL
        elif r < 0.3:
            n = 1 + self.rnd.randrange(4)
        else:
            n = 1 + int(self.rnd.expovariate(1.0 / mean))
        return t, n

    def dispatch(self, cur) -> None:
        """Hand the baton to the next task; cur must not run afterwards."""
        nxt = self.next_segment(cur)
        if nxt is None:
            if any(not t.done for t in self.tasks) and not self.aborting:
                names = [
                    f"{t.name} waits for {t.waiting!r}" for t in self.tasks if not t.done
                ]
                self.failure = Deadlock("; ".join(names))
            self.main.release()
            return
        t, n = nxt
        self.start_segment(t, n)
        t.baton.release()

    def start_segment(self, t, n) -> None:
        self.next_at = self.steps + n
        self.seg = [t.tid, n, t.steps]
        self.trace.update(b"%d:%d;" % (t.tid, t.steps))

    def end_segment(self, t) -> None:
        n = t.steps - self.seg[2]
        if self.segs_out and self.segs_out[-1][0] == t.tid:
            self.segs_out[-1][1] += n
        else:
            self.segs_out.append([t.tid, n])

    def switch(self, t) -> None:
        if self.watch is not None:
            self.watch(t)
        self.end_segment(t)
        nxt = self.next_segment(t)
        u, n = nxt
        self.start_segment(u, n)
        if u is t:
            return
        self.switches += 1
        u.baton.release()
        t.baton.acquire()
        if self.aborting:
            raise SimAbort

    def leave(self, t) -> None:
        self.end_segment(t)
        if self.failure is not None:
            self.aborting = True
            self.main.release()
            return
        self.dispatch(t)

    def point(self, t, code, offset) -> None:
        if self.failure is not None or self.aborting:
            raise SimAbort
        self.steps += 1
        t.steps += 1
        if self.steps > self.budget:
            self.failure = StepBudget(f"no result within {self.budget} steps")
            raise self.failure
        if self.hot is not None and code is not None:
            if self.steps >= self.hot_until:
                self.hot.clear()
                self.hot_until = self.steps + self.policy["epoch"]
                self.hot_epoch += 1
            h = self.hot.get(id(code))
            if h is None:
                h = self.hot[id(code)] = self.places(code)
            if offset in h and self.rnd.random() < 0.8:
                self.next_at = 0
        if self.record is not None and code is not None:
            i = ("interrupt", "alloc", "callback").index(self.record)
            if i < 2 and eligibility(code).get(offset, (False, False))[i]:
                self.visit((code, offset), t.steps)
        if t.faults and t.steps >= t.faults[0]["at"]:
            f = t.faults[0]
            k = f["kind"]
            if k != "callback" and code is not None:
                intr, alloc = eligibility(code).get(offset, (False, False))
                if (k == "interrupt" and intr) or (k == "alloc" and alloc):
                    t.faults.pop(0)
                    where = f"{code.co_qualname}+{offset}"
                    self.fire(t, k, where)
                    raise EXC[k](f"injected at {where}")
        if self.steps >= self.next_at:
            self.switch(t)

    def callback(self, t, name) -> None:
        """Point in user code."""
        if self.failure is not None or self.aborting:
            raise SimAbort
        t.callbacks += 1
        if self.record == "callback":
            self.visit(name, t.callbacks)
        self.steps += 1
        t.steps += 1
        if t.faults and t.faults[0]["kind"] == "callback":
            if t.callbacks >= t.faults[0]["at"]:
                f = t.faults.pop(0)
                self.fire(t, "callback", name)
                raise user_error(name, f.get("exc", 0))
        if self.steps >= self.next_at:
            self.switch(t)

    def places(self, code) -> frozenset:
        p = self.policy
        r = random.Random(zlib.crc32(f"{p['salt']} {self.hot_epoch} {code.co_qualname}".encode()))
        return frozenset(o for o in eligibility(code) if r.random() * p["one_in"] < 1)

    def visit(self, site, at) -> None:
        xs = self.sites.setdefault(site, [])
        if len(xs) < 3:
            xs.append(at)

    def fire(self, t, kind, where) -> None:
        self.fired[kind] += 1
        t.fired.append((kind, where, t.steps))
        self.events.append(f"fault {kind} in {t.name} at {where}")

    # -- locks

    def wait_for(self, t, lock, count=True) -> None:
        t.waiting = lock
        self.end_segment(t)
        if count:
            self.fired["lock contention"] += 1
        nxt = self.next_segment(t)
        if nxt is None:
            names = [f"{u.name} waits for a lock" for u in self.tasks if not u.done]
            self.failure = Deadlock("; ".join(names))
            self.aborting = True
            self.main.release()
            t.baton.acquire()  # never returns, process ends
        u, n = nxt
        self.start_segment(u, n)
        self.switches += 1
        u.baton.release()
        t.baton.acquire()
        if self.aborting:
            raise SimAbort


class Bell:
    """What simulated workers wait for when there is nothing to do."""

    def wait(self) -> None:
        t = current()
        t.sim.wait_for(t, self, count=False)

    def ring(self) -> None:
        sim = _active
        if sim is not None:
            for u in sim.tasks:
                if u.waiting is self:
                    u.waiting = None


class SimLock:
    """Lock whose waiting is decided by the simulator."""

    reentrant = False

    def __init__(self) -> None:
        self._owner = None
        self._count = 0
        self._real = _thread.allocate_lock()

    def _me(self):
        t = current()
        return t if t is not None else _get_ident()

    def acquire(self, blocking=True, timeout=-1) -> bool:
        t = current()
        me = self._me()
        if t is not None:
            t.sim.point(t, None, 0)
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if t is None:
                # outside of a simulation nobody else can release it
                raise Deadlock("lock is held by a task that is gone")
            if timeout is not None and timeout >= 0:
                return False
            if self._owner == me:
                t.waiting = None
            t.sim.wait_for(t, self)
        self._owner = me
        self._count = 1
        return True

    def release(self) -> None:
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count > 0:
            return
        self._owner = None
        sim = _active
        if sim is not None:
            for u in sim.tasks:
                if u.waiting is self:
                    u.waiting = None

    def locked(self) -> bool:
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args) -> None:
        self.release()


class SimRLock(SimLock):
    reentrant = True


_real_Lock = threading.Lock
_real_RLock = threading.RLock


def patch_threading() -> None:
    """Code of the repository gets simulated locks; everybody else real ones."""

    def lock():
        g = sys._getframe(1).f_globals.get("__name__", "")
        return SimLock() if g.startswith("glass") else _real_Lock()

    def rlock(*args, **kwargs):
        g = sys._getframe(1).f_globals.get("__name__", "")
        return SimRLock() if g.startswith("glass") else _real_RLock(*args, **kwargs)

    threading.Lock = lock
    threading.RLock = rlock
