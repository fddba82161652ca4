"""
Seam for files: Python's open() under a scratch directory.

The bytes are in real files, but every open, read, write, seek, truncate and
close goes through the simulator, which decides on failures, short transfers
and crashes, and on who runs next.
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import tempfile

from . import sched

_real_open = io.open
_disk: "Disk | None" = None


class SimCrash(BaseException):
    """The simulated process is dead."""


class Disk:
    """A directory with faults."""

    def __init__(self) -> None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix="dst-", dir=base)
        self.gen = 0  # process incarnation
        self.dead = False
        self.full: set = set()  # tasks out of space
        self.plans: dict = {}  # task or None -> fault
        self.count: dict = {}
        self.fired: list[str] = []
        self.log: list[str] = []
        self.stats = None

    def path(self, name) -> str:
        return os.path.join(self.root, name)

    def remove(self) -> None:
        shutil.rmtree(self.root, ignore_errors=True)

    # -- faults

    def arm(self, fault) -> None:
        """Fault for the present operation of this task."""
        t = sched.current()
        self.plans[t] = dict(fault) if fault else None
        self.count[t] = {}

    def disarm(self):
        """End of an operation; whether its fault fired."""
        t = sched.current()
        f = self.plans.pop(t, None)
        self.full.discard(t)
        return bool(f and f.get("fired"))

    def restart(self) -> None:
        """A new process on the same disk."""
        self.gen += 1
        self.dead = False

    def point(self, op, what, gen=None):
        """
        An I/O call.  Returns the fault that happens in it, or None.
        """
        if self.dead or (gen is not None and gen != self.gen):
            raise SimCrash
        sched.callback_point("io." + op)
        if self.dead:
            raise SimCrash
        t = sched.current()
        if op == "write" and t in self.full:
            raise OSError(errno.ENOSPC, "No space left on device (simulated)")
        f = self.plans.get(t)
        if f is None or f["on"] != op:
            return None
        n = self.count[t][op] = self.count[t].get(op, 0) + 1
        if n != f["at"]:
            return None
        f["fired"] = True
        self.fired.append(f"{f['kind']} on {op}")
        self.log.append(f"fault {f['kind']} on {op} no. {n} of {os.path.basename(str(what))}")
        return f

    def fail(self, f) -> None:
        k = f["kind"]
        if k == "crash":
            self.dead = True
            raise SimCrash
        if k == "ENOSPC":
            if f.get("sticky"):
                self.full.add(sched.current())
        raise OSError(getattr(errno, k), f"{k} (simulated)")


class SimRaw(io.FileIO):
    def __init__(self, file, mode, disk) -> None:
        self.disk = disk
        self.gen = disk.gen
        f = disk.point("open", file)
        if f is not None and f["kind"] != "short":
            disk.fail(f)
        super().__init__(file, mode)

    def write(self, b):
        b = bytes(b)
        f = self.disk.point("write", self.name, self.gen)
        if f is None:
            return super().write(b)
        keep = int(f.get("keep", 0.5) * len(b))
        if f["kind"] == "short":
            return super().write(b[: max(1, keep)])
        if keep:
            super().write(b[:keep])
        self.disk.fail(f)

    def _reading(self, n):
        f = self.disk.point("read", self.name, self.gen)
        if f is None:
            return n
        if f["kind"] == "short":
            return max(1, int(n * f.get("keep", 0.5))) if n > 0 else n
        self.disk.fail(f)

    def readinto(self, b):
        m = memoryview(b).cast("B")
        return super().readinto(m[: self._reading(len(m))])

    def read(self, n=-1):
        return super().read(self._reading(n))

    def readall(self):
        self._reading(-1)
        return super().readall()

    def truncate(self, size=None):
        f = self.disk.point("truncate", self.name, self.gen)
        if f is not None and f["kind"] != "short":
            self.disk.fail(f)
        return super().truncate(size)

    def close(self) -> None:
        if self.closed:
            return
        if self.disk.dead or self.gen != self.disk.gen:
            super().close()
            return
        try:
            f = self.disk.point("close", self.name, self.gen)
            if f is not None and f["kind"] != "short":
                self.disk.fail(f)
        finally:
            super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _disk
    if d is None or isinstance(file, int) or opener is not None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    try:
        name = os.path.abspath(os.fsdecode(os.fspath(file)))
    except TypeError:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not name.startswith(d.root + os.sep):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = SimRaw(name, rawmode, d)
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in mode for c in "wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)


def install(disk) -> None:
    global _disk
    _disk = disk
    builtins.open = sim_open
    io.open = sim_open


def uninstall() -> None:
    global _disk
    _disk = None
    builtins.open = _real_open
    io.open = _real_open
