"""Canonical, picklable forms of results, and their comparison."""

from __future__ import annotations

import hashlib
import math
import pickle

import numpy as np


class Missing:
    pass


def _backend(x) -> str:
    m = type(x).__module__.split(".")[0]
    if m == "numpy":
        return "numpy"
    if m == "array_api_strict":
        return "strict"
    if m.startswith("jax"):
        return "jax"
    return m


def is_array(x) -> bool:
    return isinstance(x, (np.ndarray, np.generic)) or (
        hasattr(x, "__array_namespace__") and hasattr(x, "shape") and hasattr(x, "dtype")
    )


def to_np(x):
    """Independent NumPy copy of an array of any backend."""
    if _backend(x) == "jax":
        import jax

        if jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
            x = jax.random.key_data(x)
    return np.array(x, copy=True)


class Held:
    """An item to be kept and looked at, but not overwritten."""

    def __init__(self, item) -> None:
        self.item = item


def freeze(x, depth: int = 0):
    """Turn a result into nested plain data; arrays are copied."""
    if depth > 12:
        return ("deep",)
    if isinstance(x, Held):
        return freeze(x.item, depth)
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if type(x) in (int, float, complex):
        return ("num", type(x).__name__, x)
    if is_array(x):
        a = to_np(x)
        return ("arr", _backend(x), a.dtype.str, a.shape, a)
    if isinstance(x, (list, tuple)):
        return (
            "seq",
            "tuple" if isinstance(x, tuple) else "list",
            [freeze(y, depth + 1) for y in x],
        )
    if isinstance(x, dict):
        return ("map", [(freeze(k), freeze(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__, str(x))
    n = type(x).__name__
    if hasattr(x, "za") and hasattr(x, "wa"):
        return ("obj", n, [freeze(x.za), freeze(x.wa), freeze(x.zeff)])
    if hasattr(x, "__dict__") and type(x).__module__.startswith("glass"):
        return (
            "obj",
            n,
            [(k, freeze(v, depth + 1)) for k, v in sorted(vars(x).items())],
        )
    if callable(x):
        return ("callable", getattr(x, "__name__", n))
    return ("opaque", n)


def digest(x) -> str:
    h = hashlib.sha256()

    def walk(y):
        if isinstance(y, np.ndarray):
            h.update(y.dtype.str.encode() + repr(y.shape).encode())
            h.update(np.ascontiguousarray(y).tobytes())
        elif isinstance(y, (list, tuple)):
            h.update(b"(")
            for z in y:
                walk(z)
            h.update(b")")
        else:
            h.update(repr(y).encode())

    walk(freeze(x))
    return h.hexdigest()[:16]


def _num_close(a, b, rtol, atol) -> bool:
    if a == b:
        return True
    try:
        if isinstance(a, complex) or isinstance(b, complex):
            a, b = complex(a), complex(b)
            return bool(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        if math.isnan(a) and math.isnan(b):
            return True
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    except TypeError:
        return False


def arr_close(a: np.ndarray, b: np.ndarray, rtol: float, atol: float) -> bool:
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if a.dtype.kind in "OSUV" or b.dtype.kind in "OSUV":
        return bool(np.all(a == b))
    if a.dtype.kind in "biu" and b.dtype.kind in "biu":
        return bool(np.all(a == b))
    with np.errstate(all="ignore"):
        same = (a == b) | ((a != a) & (b != b))
        if same.all():
            return True
        d = np.abs(a - b)
        big = np.maximum(np.abs(a), np.abs(b))
        fin = big[np.isfinite(big)]
        scale = float(fin.max()) if fin.size else 0.0
        ok = same | (d <= atol * max(1.0, scale) + rtol * big)
    return bool(ok.all())


def same(a, b, *, rtol=1e-9, atol=1e-13, types=True) -> bool:
    """Compare two frozen values."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] != b[0]:
            if not types and {a[0], b[0]} <= {"num", "arr"}:
                return arr_close(
                    np.asarray(a[-1]), np.asarray(b[-1]), rtol, atol
                )
            return False
        k = a[0]
        if k == "num":
            if types and a[1] != b[1]:
                return False
            return _num_close(a[2], b[2], rtol, atol)
        if k == "arr":
            if types and a[1:3] != b[1:3]:
                return False
            return arr_close(a[4], b[4], rtol, atol)
        if k == "seq":
            if types and a[1] != b[1]:
                return False
            return len(a[2]) == len(b[2]) and all(
                same(x, y, rtol=rtol, atol=atol, types=types)
                for x, y in zip(a[2], b[2])
            )
        if k == "exc":
            return a[1] == b[1] and (not types or a[2] == b[2])
        if k in ("map", "obj"):
            return len(a) == len(b) and all(
                same(x, y, rtol=rtol, atol=atol, types=types)
                for x, y in zip(a[1:], b[1:])
            )
        if len(a) != len(b):
            return False
        return all(
            same(x, y, rtol=rtol, atol=atol, types=types) for x, y in zip(a, b)
        )
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            same(x, y, rtol=rtol, atol=atol, types=types) for x, y in zip(a, b)
        )
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) == 0
    return a == b


def brief(x, limit: int = 300) -> str:
    """Short rendering of a frozen value."""

    def r(y):
        if isinstance(y, tuple) and y and y[0] == "arr":
            a = y[4]
            t = np.array2string(a.ravel()[:6], precision=6, threshold=6)
            return f"{y[1]}{list(a.shape)}{t}"
        if isinstance(y, tuple) and y and y[0] == "num":
            return repr(y[2])
        if isinstance(y, tuple) and y and y[0] == "seq":
            return "[" + ", ".join(r(z) for z in y[2][:6]) + "]"
        if isinstance(y, (tuple, list)):
            return "(" + ", ".join(r(z) for z in y[:6]) + ")"
        return repr(y)

    s = r(x)
    return s if len(s) <= limit else s[:limit] + "..."


def pickles(x) -> bytes:
    return pickle.dumps(x, protocol=5)


def overwrite(b, a):
    """
    Overwrite arrays in ``b`` with the values of ``a``, in place.

    Returns what takes the place of ``b`` in its container, None if impossible.
    """
    if type(b) is not type(a):
        return None
    if is_array(b):
        if b.shape != a.shape or b.dtype != a.dtype or isinstance(b, np.generic):
            return a
        b[...] = a
        return b
    if isinstance(b, dict):
        for k in list(b):
            if k not in a:
                return None
            b[k] = overwrite(b[k], a[k])
        return b
    if isinstance(b, list):
        if len(b) != len(a):
            return None
        b[:] = [overwrite(x, y) for x, y in zip(b, a)]
        return b
    if hasattr(b, "za") and hasattr(b, "wa"):
        za, wa = overwrite(b.za, a.za), overwrite(b.wa, a.wa)
        return type(b)(za, wa, a.zeff)
    return a
