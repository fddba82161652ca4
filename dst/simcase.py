"""Pieces shared by the checks: running tasks, shrinking, ambient state."""

from __future__ import annotations

import os
import random
import sys
import threading
import warnings

import numpy as np

from . import sched, values
from .core import Violation
from .rnd import Rnd


def policy(rnd) -> dict:
    """A random scheduling policy."""
    r = rnd.random()
    if r < 0.04:
        return {"kind": "serial"}
    if r < 0.5:
        return {
            "kind": "hot",
            "salt": rnd.u32(),
            "one_in": rnd.choice([30, 100, 100, 200]),
            "epoch": rnd.choice([300, 300, 1000, 3000]),
            "mean": rnd.choice([100, 500, 2000, 10000]),
            "long": rnd.choice([0.0, 0.0, 0.1]),
        }
    return {
        "kind": "rand",
        "mean": rnd.choice([5, 20, 50, 150, 400]),
        "long": rnd.choice([0.0, 0.02, 0.05, 0.2]),
    }


def simulate(case, fns, st, *, faults=(), watch=None, budget=60_000_000, points="instruction", record=None):
    """Run functions as tasks of one simulation."""
    sim = sched.Sim(
        case["policy"], Rnd("sched", case["sched"]), faults, budget, watch, points
    )
    sim.record = record
    for f in fns:
        sim.spawn(f)
    try:
        sim.run()
    finally:
        st.add("steps", sim.steps)
        st.add("switches", sim.switches)
        st.add("tasks", len(sim.tasks))
        for k, v in sim.fired.items():
            st.add("fault:" + k, v)
        st.extra["segs"] = sim.segs_out
        st.sig += sim.trace.hexdigest()[:16]
        st.log += sim.events
        st.log.append(
            "schedule [task, steps]: "
            + " ".join(f"{a}:{b}" for a, b in sim.segs_out[:40])
            + (" ..." if len(sim.segs_out) > 40 else "")
        )
    for t in sim.tasks:
        if t.error is not None:
            raise t.error
    return sim


def concretise(case, extra):
    if case.get("policy", {}).get("kind") in ("rand", "hot") and extra.get("segs"):
        return {**case, "policy": {"kind": "segs", "segs": extra["segs"]}}
    return None


def shrink_list(xs, least=0):
    """Smaller versions of a list, large steps first."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            ys = xs[:i] + xs[i + size :]
            if len(ys) >= least and len(ys) < n:
                yield ys
        size //= 2


def shrink_policy(case):
    p = case.get("policy")
    if not p:
        return
    if p["kind"] == "segs":
        segs = p["segs"]
        if len(segs) > 200:
            for m in (50, 100, 200):
                yield {**case, "policy": {"kind": "segs", "segs": segs[:m]}}
        for ys in shrink_list(segs):
            yield {**case, "policy": {"kind": "segs", "segs": merged(ys)}}
    elif p["kind"] in ("rand", "hot"):
        yield {**case, "policy": {"kind": "serial"}}


def merged(segs):
    out = []
    for t, n in segs:
        if out and out[-1][0] == t:
            out[-1] = [t, out[-1][1] + n]
        else:
            out.append([t, n])
    return out


def freeze_args(A):
    return values.freeze(A)


def check_args(A, before, what):
    after = values.freeze(A)
    if not values.same(after, before, rtol=0.0, atol=0.0):
        raise Violation(
            "argument-modified", f"{what}: {values.brief(before)} -> {values.brief(after)}"
        )


def ambient():
    """Process state which a library call has no business changing."""
    return {
        "np.random": values.digest(list(map(str, np.random.get_state(legacy=False).items()))),
        "random": values.digest(repr(random.getstate())),
        "environ": sorted(os.environ.items()),
        "cwd": os.getcwd(),
        "errstate": np.geterr(),
        "printoptions": sorted(map(str, np.get_printoptions().items())),
        "warnings": [str(f) for f in warnings.filters],
        "recursionlimit": sys.getrecursionlimit(),
        "threads": threading.active_count(),
    }


def check_ambient(before, what):
    after = ambient()
    for k in before:
        if before[k] != after[k]:
            raise Violation(
                "ambient-state", f"{what} changed {k}: {str(before[k])[:80]} -> {str(after[k])[:80]}"
            )


def settings():
    """Settings of the current thread."""
    return {"errstate": np.geterr(), "errcall": np.geterrcall(), "bufsize": np.getbufsize()}


def checked(fn, what):
    """A task which leaves the settings of its thread as they were."""

    def go(task):
        before = settings()
        try:
            return fn(task)
        finally:
            after = settings()
            if after != before and not task.sim.aborting:
                raise Violation("ambient-state", f"{what} leaves settings {after}, were {before}")

    return go


def check_equal(got, want, what, cls="different-result", **kw):
    if not values.same(got, want, **kw):
        raise Violation(cls, f"{what}: got {values.brief(got)} want {values.brief(want)}")


def simpler(case, pairs):
    """
    Cases with one entry replaced by a simpler value.

    Pairs for one key are in order of preference: only values before the
    present one are tried, so that shrinking ends.
    """
    prefs: dict = {}
    for key, v in pairs:
        prefs.setdefault(key, []).append(v)
    for key, vs in prefs.items():
        for v in vs:
            if case[key] == v:
                break
            if isinstance(v, (int, float)) and not isinstance(v, bool) and case[key] < v:
                continue
            yield {**case, key: v}
