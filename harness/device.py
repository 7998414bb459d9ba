"""A strict stand-in for cupy: arrays that live "on a device" and refuse to be mixed with host arrays.

It imitates what cupy does where the code under test could tell: numpy functions and operators applied to device
arrays return device arrays, host arrays of at least one dimension are refused (TypeError), and nothing is converted
to a host array implicitly.
"""
import importlib.machinery
import sys
import types

import numpy as np


def _strip(v, what):
    if isinstance(v, ndarray):
        return v._a
    if isinstance(v, np.ndarray) and v.ndim > 0:
        raise TypeError(f"Unsupported type <class 'numpy.ndarray'> (host array given to {what})")
    if isinstance(v, (list, tuple)):
        return type(v)(_strip(i, what) for i in v)
    if isinstance(v, dict):
        return {k: _strip(i, what) for k, i in v.items()}
    return v


def _wrap(v):
    if isinstance(v, (np.ndarray, np.generic)):
        return ndarray(np.asarray(v))
    if isinstance(v, (list, tuple)):
        return type(v)(_wrap(i) for i in v)
    return v


class ndarray(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 100

    def __init__(self, a):
        if a.dtype == object:
            raise ValueError("Unsupported dtype object")
        self._a = a

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        name = ufunc.__name__
        out = kwargs.pop("out", None)
        res = getattr(ufunc, method)(*[_strip(i, name) for i in inputs], **{k: _strip(v, name) for k, v in kwargs.items()})
        if out is not None:
            if not isinstance(out[0], ndarray):
                raise TypeError(f"the result of {name} on device arrays does not fit in a host array")
            out[0]._a[...] = res
            return out[0]
        return _wrap(res)

    def __array_function__(self, func, kinds, args, kwargs):
        return _wrap(func(*_strip(args, func.__name__), **_strip(kwargs, func.__name__)))

    def __array__(self, *args, **kwargs):
        raise TypeError("Implicit conversion to a NumPy array is not allowed.")

    def get(self):
        return self._a.copy()

    def item(self, *a):
        return self._a.item(*a)

    def tolist(self):
        return self._a.tolist()

    def __float__(self):
        return float(self._a)

    def __int__(self):
        return int(self._a)

    def __complex__(self):
        return complex(self._a)

    def __bool__(self):
        return bool(self._a)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return (ndarray(np.asarray(v)) for v in self._a)

    def __getitem__(self, key):
        return _wrap(self._a[_strip(key, "getitem")])

    def __setitem__(self, key, value):
        self._a[_strip(key, "setitem")] = _strip(value, "setitem")

    def __format__(self, spec):
        return format(self._a.item() if self._a.ndim == 0 else str(self._a), spec)

    def __repr__(self):
        return f"device({self._a!r})"

    def toDlpack(self):
        import torch

        return torch.utils.dlpack.to_dlpack(torch.from_numpy(self._a.copy()))

    def __getattr__(self, name):
        if name.startswith("__") or name == "_a":
            raise AttributeError(name)
        value = getattr(self._a, name)
        if callable(value):
            return lambda *a, **k: _wrap(value(*_strip(a, name), **_strip(k, name)))
        return _wrap(value) if isinstance(value, np.ndarray) else value


class _Module(types.ModuleType):
    def __init__(self, name, base):
        super().__init__(name)
        self._base = base
        self.__spec__ = importlib.machinery.ModuleSpec(name, None)
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        value = getattr(self._base, name)
        if isinstance(value, types.ModuleType):
            return _Module(f"cupy.{name}", value)
        if isinstance(value, type) or not callable(value):
            return value
        return lambda *a, **k: _wrap(value(*_strip(a, name), **_strip(k, name)))


class _Random(_Module):
    def default_rng(self, seed=None):
        rng = np.random.default_rng(seed)
        return types.SimpleNamespace(random=lambda *a, **k: _wrap(rng.random(*a, **k)), standard_normal=lambda *a, **k: _wrap(rng.standard_normal(*a, **k)))


def _upload(v, *args, copy=True, **kwargs):
    """cupy.array: the one way from the host to the device."""
    if isinstance(v, (list, tuple)):
        v = [i.item() if isinstance(i, ndarray) and i.ndim == 0 else (i._a if isinstance(i, ndarray) else i) for i in v]
    return ndarray(np.array(v._a if isinstance(v, ndarray) else v, *args, **kwargs))


def install():
    mod = _Module("cupy", np)
    mod.ndarray = ndarray
    mod.array = _upload
    mod.asarray = lambda v, *a, **k: v if isinstance(v, ndarray) and not a and not k else _upload(v.numpy() if hasattr(v, "numpy") else v, *a, **k)
    mod.asnumpy = lambda v: v.get()
    mod.copyto = lambda dst, src, **k: np.copyto(_need_device(dst)._a, _strip(src, "copyto"), **k)
    mod.copy = lambda v, **k: ndarray(_need_device(v)._a.copy())
    mod.random = _Random("cupy.random", np.random)
    mod.from_dlpack = lambda t: _upload(t.numpy())
    mod.fromDlpack = mod.from_dlpack
    sys.modules["cupy"] = mod
    return mod


def _need_device(v):
    if not isinstance(v, ndarray):
        raise TypeError(f"a device array is needed, not {type(v)}")
    return v
