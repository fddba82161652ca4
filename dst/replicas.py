"""Comparing frozen results of array backends."""

from __future__ import annotations

import numpy as np

from . import values

NAMES = {"n": "numpy", "s": "strict", "j": "jax"}


def _number(x) -> bool:
    return isinstance(x, bool) or (isinstance(x, tuple) and x[:1] in (("num",), ("arr",)))


def _array(x):
    if isinstance(x, bool):
        return np.asarray(x)
    return x[4] if x[0] == "arr" else np.asarray(x[2])


def compare(a, b, code, path="", rtol=1e-8, atol=1e-11):
    """
    Differences of the result b of a backend from the result a of NumPy.

    Scalars and arrays without dimensions count as the same.
    """
    if _number(a) or _number(b):
        if not (_number(a) and _number(b)):
            yield path, "structure", f"{values.brief(a, 120)} became {values.brief(b, 120)}"
            return
        x, y = _array(a), _array(b)
        if x.shape != y.shape:
            yield path, "shape", f"{x.shape} became {y.shape}"
            return
        if x.dtype.kind in "fc" or y.dtype.kind in "fc":
            if not values.arr_close(x.astype(complex), y.astype(complex), rtol, atol):
                yield path, "value", f"{values.brief(x, 120)} became {values.brief(y, 120)}"
        elif not np.array_equal(x, y):
            yield path, "value", f"{values.brief(x, 120)} became {values.brief(y, 120)}"
        if y.ndim and isinstance(b, tuple) and b[0] == "arr" and b[1] != NAMES[code]:
            yield path, "backend", f"array of {b[1]}"
        ka, kb = ("i" if k in "iu" else k for k in (x.dtype.kind, y.dtype.kind))
        if x.ndim and x.size and ka != kb:
            yield path, "kind", f"{x.dtype} became {y.dtype}"
        return
    if isinstance(a, (tuple, list)):
        if not isinstance(b, (tuple, list)) or len(a) != len(b) or (a and isinstance(a[0], str) and a[0] != b[0]):
            yield path, "structure", f"{values.brief(a, 120)} became {values.brief(b, 120)}"
            return
        for k, (x, y) in enumerate(zip(a, b)):
            p = path if isinstance(a, tuple) and a and isinstance(a[0], str) else f"{path}[{k}]"
            yield from compare(x, y, code, p, rtol, atol)
        return
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            yield path, "structure", f"{values.brief(a, 120)} became {values.brief(b, 120)}"
            return
        for k in a:
            yield from compare(a[k], b[k], code, f"{path}[{k!r}]", rtol, atol)
        return
    if a != b:
        yield path, "structure", f"{values.brief(a, 120)} became {values.brief(b, 120)}"
