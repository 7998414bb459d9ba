"""Comparators and small independent reference implementations."""
import numpy as np

from harness.core import Violation


def fail(msg):
    raise Violation(msg)


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def as_array(x, what):
    if isinstance(x, (list, tuple)):
        raise Violation(f"{what}: result is a {type(x).__name__}, not an array")
    try:
        a = np.asarray(x)
    except Exception as exc:  # noqa: BLE001
        raise Violation(f"{what}: result is not an array: {type(x)} ({exc})") from exc
    if a.dtype == object:
        raise Violation(f"{what}: result has dtype object: {x!r}"[:300])
    return a


def close(actual, expected, what, rtol=1e-9, atol=1e-11, scale=None):
    """|actual - expected| <= atol + rtol * max|expected| (shape included)."""
    a, e = as_array(actual, what), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}")
    if a.dtype.kind not in "biufc":
        raise Violation(f"{what}: dtype {a.dtype}")
    if a.size == 0:
        return
    fin = np.isfinite(e)
    if not np.array_equal(np.isfinite(a), fin):
        raise Violation(f"{what}: non-finite entries differ\n got {_s(a)}\n expected {_s(e)}")
    if not fin.all():
        na, ne = a[~fin], e[~fin]
        if not np.array_equal(np.isnan(na), np.isnan(ne)) or not np.array_equal(
            na[~np.isnan(na)], ne[~np.isnan(ne)]
        ):
            raise Violation(f"{what}: non-finite entries differ\n got {_s(a)}\n exp {_s(e)}")
    if not fin.any():
        return
    a2, e2 = a[fin].astype(complex), e[fin].astype(complex)
    ref = np.max(np.abs(e2)) if scale is None else scale
    err = np.max(np.abs(a2 - e2))
    tol = atol + rtol * ref
    if not err <= tol:
        raise Violation(
            f"{what}: max abs difference {err:.3e} > {tol:.3e}\n got {_s(a)}\n expected {_s(e)}"
        )


def _s(a):
    txt = np.array2string(np.asarray(a), threshold=40, precision=10)
    return txt if len(txt) < 800 else txt[:800] + "..."


def equal(actual, expected, what, dtype=False):
    a, e = as_array(actual, what), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}")
    if dtype and a.dtype != e.dtype:
        raise Violation(f"{what}: dtype {a.dtype}, expected {e.dtype}")
    if not np.array_equal(a, e, equal_nan=a.dtype.kind in "fc" and e.dtype.kind in "fc"):
        raise Violation(f"{what}: values differ\n got {_s(a)}\n expected {_s(e)}")


def finite(x, what):
    a = as_array(x, what)
    if a.dtype.kind not in "biufc" or not np.all(np.isfinite(a)):
        raise Violation(f"{what}: non-finite result {_s(a)}")
    return a


def raises(types, func, what):
    """``func`` must raise one of ``types``."""
    try:
        res = func()
    except types:
        return
    except Exception as exc:  # noqa: BLE001
        raise Violation(
            f"{what}: raised {type(exc).__name__} ({exc}) instead of {types}"
        ) from exc
    raise Violation(f"{what}: accepted, returned {res!r}"[:500])


class Frozen:
    """Assert that arrays given to the code under test are not modified by it."""

    def __init__(self, what, **arrays):
        self.what = what
        self.arrays = {k: v for k, v in arrays.items() if isinstance(v, (np.ndarray, list))}
        self.saved = {
            k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else [
                np.array(i, copy=True) if isinstance(i, np.ndarray) else i for i in v])
            for k, v in self.arrays.items()
        }

    def check(self):
        for k, v in self.arrays.items():
            s = self.saved[k]
            if isinstance(v, list):
                ok = len(v) == len(s) and all(
                    np.array_equal(a, b, equal_nan=np.asarray(a).dtype.kind in "fc")
                    for a, b in zip(v, s)
                )
            elif v.dtype == object:
                ok = len(v) == len(s) and all(np.array_equal(a, b) for a, b in zip(v, s))
            else:
                ok = v.dtype == s.dtype and np.array_equal(
                    v, s, equal_nan=v.dtype.kind in "fc"
                )
            if not ok:
                raise Violation(f"{self.what}: argument {k!r} was modified by the call")

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.check()
        return False


def soft(x, t):
    """Soft threshold (real or complex)."""
    x = np.asarray(x)
    mag = np.abs(x)
    with np.errstate(all="ignore"):
        return np.where(mag > t, x * (1 - t / np.where(mag == 0, 1, mag)), 0 * x)
