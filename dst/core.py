"""
Runner: generates cases from VERIF_SEED, runs each one in a fresh forked
process, minimises and records violations, writes evidence.

Exit codes: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
"""

from __future__ import annotations

import ctypes
import gc
import json
import os
import pathlib
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import sched, values
from .rnd import Rnd
from .sched import REPO

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPLAYS = ROOT / "replays"
EVIDENCE = ROOT / "evidence"
KNOWN = ROOT / "known_findings.json"


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, cls: str, detail: str = "") -> None:
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class HarnessError(Exception):
    """The check itself is broken."""


# ---------------------------------------------------------------- processes


_LIBC = ctypes.CDLL(None)


def _fork() -> int:
    """Fork a child which ends with its parent, wherever it is caught."""
    parent = os.getpid()
    pid = os.fork()
    if pid == 0:
        _LIBC.prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
        if os.getppid() != parent:
            os._exit(71)
    return pid


def _write(fd: int, obj) -> None:
    data = values.pickles(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read(fd: int, deadline: float | None):
    """Read one message; None at end of file, raises TimeoutError."""
    buf = b""
    need = 8
    size = None
    while len(buf) < need:
        left = None if deadline is None else deadline - time.monotonic()
        if left is not None and left <= 0:
            raise TimeoutError
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            raise TimeoutError
        chunk = os.read(fd, min(1 << 20, need - len(buf)))
        if not chunk:
            return None
        buf += chunk
        if size is None and len(buf) == 8:
            (size,) = struct.unpack("<Q", buf)
            buf, need = b"", size
    return pickle.loads(buf)


def in_child(fn, timeout: float = 60.0):
    """
    Run ``fn()`` in a forked copy of this process.

    Returns ("ok", value), ("timeout", None), ("died", status).
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = _fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                out = ("raised", (type(e).__name__, str(e), traceback.format_exc()))
            _write(w, out)
        except BrokenPipeError:
            code = 71
        except BaseException:  # noqa: BLE001
            code = 70
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    try:
        try:
            msg = _read(r, time.monotonic() + timeout)
        except TimeoutError:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return ("timeout", None)
        _, status = os.waitpid(pid, 0)
        if msg is None:
            return ("died", status)
        return msg
    finally:
        os.close(r)


def stream_child(gen, timeout: float):
    """
    Items of ``gen()`` computed in a forked copy of this process.

    Returns the items delivered and how it ended: "ok", "timeout" (nothing for
    ``timeout`` seconds), "died" or "raised".
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = _fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                for x in gen():
                    _write(w, ("item", x))
                out = ("ok", None)
            except BaseException:  # noqa: BLE001
                out = ("raised", traceback.format_exc())
            _write(w, out)
        except BaseException:  # noqa: BLE001
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    items = []
    try:
        while True:
            try:
                msg = _read(r, time.monotonic() + timeout)
            except TimeoutError:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return items, "timeout"
            if msg is None:
                os.waitpid(pid, 0)
                return items, "died"
            if msg[0] != "item":
                os.waitpid(pid, 0)
                return items, msg[0]
            items.append(msg[1])
    finally:
        os.close(r)


def fresh(fn, timeout: float = 60.0):
    """Value of ``fn()`` in a process where nothing has happened before."""
    kind, val = in_child(fn, timeout)
    if kind == "ok":
        return val
    if kind == "timeout":
        raise Violation("no-progress", "reference execution does not terminate")
    if kind == "raised":
        raise HarnessError(f"reference raised {val[2]}")
    raise HarnessError(f"reference process died: {val}")


# -------------------------------------------------------------------- check


class Check:
    """One property: generate, run, shrink."""

    id = "C00"
    title = ""
    jax = False
    quick = 400
    thorough = 8000
    timeout = 60.0
    batch = 1  # cases per process (jax)
    level = "exploration"
    rule = ""
    assumptions: list[str] = []
    real: list[str] = []
    stub: list[str] = []

    def setup(self) -> None:
        """Called once before forking."""

    def gen(self, rnd: Rnd, i: int, tier: str) -> dict:
        raise NotImplementedError

    def run(self, case: dict, st: "Stats") -> None:
        """Raise Violation if the property does not hold."""
        raise NotImplementedError

    def shrinks(self, case: dict):
        """Yield smaller cases."""
        return iter(())

    def concretise(self, case: dict, extra: dict) -> dict | None:
        """The same case with every decision of the scheduler written down."""
        return None


class Stats:
    """What one run did."""

    def __init__(self) -> None:
        self.count: Counter = Counter()
        self.sig = ""
        self.nontrivial = True
        self.note = ""
        self.log: list[str] = []
        self.extra: dict = {}

    def __getitem__(self, k):
        return self.count[k]

    def add(self, k, n=1) -> None:
        self.count[k] += n


def quiet() -> None:
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def _blame_glass(e: BaseException) -> bool:
    """Did the error arise in glass, in a library it called, or in user code it called."""
    frames = traceback.extract_tb(e.__traceback__)
    for f in reversed(frames):
        if f.filename.startswith(REPO) or f.filename.endswith("/dst/workload.py"):
            return any(g.filename.startswith(REPO) for g in frames)
        if f.filename.startswith(str(ROOT)) and f.name not in ("_draw", "method"):
            return False
    return False


# some cases fake the clock
real_clock = time.monotonic


def run_case(check: Check, case: dict) -> dict:
    """Run one case in this process."""
    quiet()
    if check.batch == 1:
        gc.collect()
    gc.disable()
    st = Stats()
    out = {"cls": None, "detail": "", "error": None}
    t0 = real_clock()
    try:
        check.run(case, st)
    except Violation as v:
        out["cls"], out["detail"] = v.cls, v.detail
    except sched.StepBudget as e:
        out["cls"], out["detail"] = "no-progress", str(e)
    except sched.Deadlock as e:
        out["cls"], out["detail"] = "deadlock", str(e)
    except HarnessError as e:
        out["error"] = str(e)
    except BaseException as e:  # noqa: BLE001
        tb = traceback.format_exc()
        if _blame_glass(e):
            out["cls"] = "unexpected-exception"
            out["detail"] = f"{type(e).__name__}: {e}"
            out["tb"] = tb
        else:
            out["error"] = tb
    out.update(
        count=dict(st.count), sig=st.sig, nontrivial=st.nontrivial, note=st.note,
        log=st.log, extra=st.extra, secs=real_clock() - t0,
    )
    return out


def run_history(check: Check, cases: list[dict]) -> dict:
    """Run cases one after another in one process; the result of the last one."""
    out = None
    for c in cases:
        out = run_case(check, c)
        if out["cls"] is not None or out["error"] is not None:
            break
    return out


def isolated(check: Check, cases: list[dict], factor: float = 1.0) -> dict:
    """Run in a forked process."""
    kind, val = in_child(
        lambda: run_history(check, cases), check.timeout * factor * max(1, len(cases) / 4)
    )
    if kind == "ok":
        return val
    base = {"count": {}, "sig": "", "nontrivial": False, "note": "", "log": [], "extra": {}}
    if kind == "timeout":
        return {
            "cls": "no-progress",
            "detail": "no result within the wall-clock limit",
            "error": None,
            "wall": True,
            **base,
        }
    if kind == "died":
        sigk = os.WTERMSIG(val) if os.WIFSIGNALED(val) else None
        if sigk in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
            return {
                "cls": "crash",
                "detail": f"process killed by signal {sigk}",
                "error": None,
                **base,
            }
        return {"cls": None, "detail": "", "error": f"run died: {val}", **base}
    return {"cls": None, "detail": "", "error": str(val), **base}


def make_case(check: Check, seed: int, i: int, tier: str) -> dict:
    rnd = Rnd(seed, check.id, i)
    case = check.gen(rnd, i, tier)
    case["_run"] = [seed, i]
    return json.loads(json.dumps(case))


# -------------------------------------------------------------------- known


def known_findings(pid: str) -> list[dict]:
    if not KNOWN.exists():
        return []
    data = json.loads(KNOWN.read_text())
    return [k for k in data.get("findings", []) if k["property"] == pid]


def is_known(known: list[dict], res: dict) -> dict | None:
    for k in known:
        if k["class"] == res["cls"] and k["match"] in res["detail"]:
            return k
    return None


# ----------------------------------------------------------------- minimise


def minimise(check: Check, case: dict, res: dict) -> tuple:
    """Shrink as long as the same class of violation persists."""
    budget_s = float(os.environ.get("DST_SHRINK", "60"))
    t0 = time.monotonic()
    tried = 0
    improved = True
    cand = check.concretise(case, res.get("extra", {}))
    if cand is not None:
        cand = json.loads(json.dumps(cand))
        r = isolated(check, [cand])
        if r["cls"] == res["cls"]:
            case, res = cand, r
    while improved and time.monotonic() - t0 < budget_s:
        improved = False
        for cand in check.shrinks(case):
            if time.monotonic() - t0 > budget_s:
                break
            cand = json.loads(json.dumps(cand))
            tried += 1
            r = isolated(check, [cand])
            if r["cls"] == res["cls"]:
                case, res, improved = cand, r, True
                break
    return case, res, tried


def replay_file(check: Check, cases: list[dict], res: dict, extra: dict) -> str:
    REPLAYS.mkdir(exist_ok=True)
    body = {
        "property": check.id,
        "violation": {"class": res["cls"], "detail": res["detail"]},
        "cases": cases,
        "trace": res.get("log", []),
        **extra,
    }
    name = f"{check.id}-{values.hashlib.sha256(json.dumps(cases).encode()).hexdigest()[:12]}.json"
    path = REPLAYS / name
    path.write_text(json.dumps(body, indent=1))
    return str(path)


# --------------------------------------------------------------------- main


def worker(check, seed, tier, indices, wfd, nw) -> None:
    b = max(1, check.batch)
    for k in range(0, len(indices), b):
        group = indices[k : k + b]
        cases = [make_case(check, seed, i, tier) for i in group]
        if b == 1:
            _write(wfd, (group, [isolated(check, cases)]))
            continue

        def go(cases=cases):
            for c in cases:
                r = run_case(check, c)
                yield r
                if r["cls"] or r["error"]:
                    break

        # the first case may have to import and compile things
        val, how = stream_child(go, check.timeout * 2)
        k = len(val)
        if how != "ok" and k < len(cases):
            # the next one is the culprit, alone or after the others
            res = isolated(check, [cases[k]])
            if k and res["cls"] is None:
                res = isolated(check, cases[: k + 1])
            val.append(res)
        _write(wfd, (group[: len(val)], val))


def explore(check: Check, seed: int, tier: str, n: int, workers: int, cap_s: float):
    """Run all cases; yield (i, group, result) in order of completion."""
    pids = {}
    poll = select.poll()
    for w in range(workers):
        r, wfd = os.pipe()
        b = max(1, check.batch)
        # contiguous batches, dealt round robin
        idx = [
            i
            for g in range(w, (n + b - 1) // b, workers)
            for i in range(g * b, min(n, g * b + b))
        ]
        pid = _fork()
        if pid == 0:
            try:
                os.close(r)
                worker(check, seed, tier, idx, wfd, workers)
                os._exit(0)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                os._exit(70)
        os.close(wfd)
        pids[r] = pid
        poll.register(r, select.POLLIN | select.POLLHUP)
    t0 = time.monotonic()
    try:
        while pids:
            for fd, _ev in poll.poll(1000):
                msg = _read(fd, None)
                if msg is None:
                    poll.unregister(fd)
                    os.close(fd)
                    _, status = os.waitpid(pids.pop(fd), 0)
                    if status != 0:
                        yield None, None, {"cls": None, "error": "worker died"}
                    continue
                group, results = msg
                for j, res in enumerate(results):
                    yield group[j], group[: j + 1], res
            if time.monotonic() - t0 > cap_s:
                yield None, None, {"cls": None, "error": None, "capped": True}
                return
    finally:
        for fd, pid in pids.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(fd)


def main(check: Check, argv: list[str]) -> int:
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    workers = int(os.environ.get("DST_WORKERS", "8"))
    n = check.quick if tier == "quick" else check.thorough
    n = int(os.environ.get("DST_RUNS", n))
    cap = float(os.environ.get("DST_CAP", "600" if tier == "quick" else "7200"))
    check.setup()
    sched.collect_codes()
    gc.collect()
    gc.freeze()

    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        body = json.loads(pathlib.Path(path).read_text())
        res = isolated(check, body["cases"], 2.0)
        for line in res.get("log", []):
            print("  " + line)
        if res["error"]:
            print("ERROR", res["error"])
            return 2
        if res["cls"] is None:
            print("replay: property held")
            return 0
        print(f"replay: {res['cls']}: {res['detail']}")
        if "tb" in res:
            print(res["tb"])
        print(f"VIOLATION property={check.id} replay={path}")
        return 1

    if "--digest" in argv:
        # determinism self-test: one line per case
        for i, _g, res in explore(check, seed, tier, n, workers, cap):
            if i is None:
                print("ERROR", res)
                continue
            print(i, res["cls"], res["sig"], sorted(res["count"].items()))
        return 0

    if "--case" in argv:
        i = int(argv[argv.index("--case") + 1])
        case = make_case(check, seed, i, tier)
        print(json.dumps(case, indent=1))
        res = isolated(check, [case]) if "--inline" not in argv else run_case(check, case)
        print(json.dumps(res, indent=1, default=str))
        return 0

    known = known_findings(check.id)
    seen_known: dict[str, dict] = {}
    total: Counter = Counter()
    sigs: set = set()
    done = nontrivial = 0
    samples: list = []
    violations: list = []
    errors: list = []
    capped = False
    slowest = 0.0
    it = explore(check, seed, tier, n, workers, cap)
    for i, group, res in it:
        if res.get("capped"):
            capped = True
            break
        if res["error"]:
            errors.append((i, res["error"]))
            if len(errors) > 5:
                break
            continue
        done += 1
        slowest = max(slowest, res.get("secs", 0.0))
        total.update(res["count"])
        if res["cls"] is not None:
            k = is_known(known, res)
            if k is not None:
                seen_known[k["id"]] = k
                continue
            violations.append((i, group, res))
            break
        if res["nontrivial"]:
            nontrivial += 1
            sigs.add(res["sig"])
            if len(samples) < 4 and (done % max(1, n // 4) == 1 or done == n):
                samples.append(
                    {
                        "case": make_case(check, seed, i, tier),
                        "log": res["log"][:20],
                        "counts": res["count"],
                    }
                )
    it.close()

    status = 0
    line = None
    if violations:
        i, group, res = violations[0]
        if check.batch == 1:
            group = [i]
        cases = [make_case(check, seed, i, tier)]
        first = isolated(check, cases, 2.0)
        if first["cls"] is None and len(group) > 1:
            # depends on what happened before in the same process
            cases = [make_case(check, seed, j, tier) for j in group]
            first = isolated(check, cases, 2.0)
            t1 = time.monotonic()
            while first["cls"] is not None and len(cases) > 1:
                for j in range(len(cases) - 1):
                    if time.monotonic() - t1 > 120:
                        break
                    cand = cases[:j] + cases[j + 1 :]
                    r = isolated(check, cand, 2.0)
                    if r["cls"] is not None:
                        cases, first = cand, r
                        break
                else:
                    break
                if time.monotonic() - t1 > 120:
                    break
        retries = 0
        while first["cls"] is None and retries < 2:
            retries += 1
            first = isolated(check, cases, 2.0)
        if first["cls"] is None:
            errors.append((i, f"violation was not reproduced: {res['cls']} {res['detail']}"))
        else:
            tried = 0
            orig = cases
            if len(cases) == 1 and not first.get("wall"):
                small, sres, tried = minimise(check, cases[0], first)
                cases, final = [small], sres
            else:
                final = first
            path = replay_file(
                check, cases, final, {"seed": seed, "run": i, "shrink_steps": tried,
                                      "original": orig},
            )
            rc = subprocess.run(
                [sys.executable, *_flags(), "-m", "dst.run", check.id, "--replay", path],
                cwd=ROOT, capture_output=True, text=True, timeout=600,
            )
            if rc.returncode != 1 and cases is not orig:
                path = replay_file(
                    check, orig, first, {"seed": seed, "run": i, "shrink_steps": tried}
                )
                rc = subprocess.run(
                    [sys.executable, *_flags(), "-m", "dst.run", check.id, "--replay", path],
                    cwd=ROOT, capture_output=True, text=True, timeout=600,
                )
            print(f"seed={seed} run={i} class={final['cls']}")
            print(f"detail: {final['detail']}")
            if "tb" in final:
                print(final["tb"])
            for l in final.get("log", [])[:60]:
                print("  " + l)
            print(f"replay in fresh process: {'reproduced' if rc.returncode == 1 else 'NOT reproduced'}")
            line = f"VIOLATION property={check.id} replay={path}"
            status = 1
    if status == 0 and errors:
        for i, e in errors[:3]:
            print(f"ERROR in run {i}: {e}", file=sys.stderr)
        status = 2
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={check.id} {k['what']}")

    wall = time.monotonic() - t0
    cov = {
        "evaluations": done,
        "distinct_nontrivial": len(sigs),
        "rule": check.rule,
        "samples": samples,
        "seed_base": seed,
        "runs_planned": n,
        "capped_by_time": capped,
        "runs_per_hour": int(done / wall * 3600) if wall > 0 else 0,
        "simulated_steps": int(total.get("steps", 0)),
        "simulated_time": "unit is one scheduling point (bytecode instruction, lock, "
        "callback or I/O call of the code under test); it has no clocks of its own",
        "faults_injected": {k[6:]: v for k, v in sorted(total.items()) if k.startswith("fault:")},
        "probes": {k: v for k, v in sorted(total.items()) if not k.startswith("fault:")},
        "distinct_measure": "runs with a different signature: " + getattr(check, "measure", "history digest"),
        "components_real": check.real,
        "components_stub": check.stub,
        "workers": workers,
        "slowest_run_s": round(slowest, 2),
        "errors": len(errors),
    }
    EVIDENCE.mkdir(exist_ok=True)
    ev = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": round(wall, 2),
        "violations": 1 if status == 1 else 0,
    }
    (EVIDENCE / f"{check.id}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(
        f"{check.id} tier={tier} seed={seed} runs={done} distinct={len(sigs)} "
        f"wall={wall:.1f}s steps={total.get('steps', 0)}"
        + (f" errors={len(errors)}" if errors else "")
    )
    if line:
        print(line)
    if capped and status == 0:
        print(f"time cap reached after {done} of {n} runs")
        if done < n / 4:
            # says too little about the rest
            return 2
    return status


def _flags() -> list[str]:
    return ["-B", "-W", "ignore"]
