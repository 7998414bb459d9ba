"""C30: changing the backend of an array never changes its values, shape or type."""
import importlib.util
import sys

import numpy as np
from hypothesis import strategies as st
from modopt.base import backend as be
from modopt.opt.algorithms.base import SetUp

from harness.core import Prop
from harness.gen import array, fixed, lay, layouts, shapes
from harness.oracle import Frozen, close, equal, need

HAVE_TF = importlib.util.find_spec("tensorflow") is not None
HAVE_TORCH = importlib.util.find_spec("torch") is not None
PROP = Prop(
    "C30",
    [
        "CPU only: cupy is not installed, so every request for it must fall back to numpy with a warning",
        f"tensorflow available: {HAVE_TF}; torch available: {HAVE_TORCH}",
    ],
)
NAMES = ["numpy", "tensorflow", "cupy", "jax", "", "NumPy"]
DT = ["float64", "float32", "int64", "int32", "complex128", "complex64", "bool", "float16"]


def arr(draw, dt=None):
    dt = dt or draw(st.sampled_from(DT))
    a = draw(array(shapes(0, 3, 1, 5, big=[(2, 3, 2, 2), (1, 2, 1, 3, 2), (300,)]), dtype="float64" if dt in ("bool", "float16") else dt))
    return (a > 0) if dt == "bool" else a.astype(dt)


@st.composite
def case(draw, dt=None):
    return {"x": arr(draw, dt), "order": draw(layouts), "path": draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5))}


class Stderr:
    def __enter__(self):
        import io

        self.old, sys.stderr = sys.stderr, io.StringIO()
        self.buf = sys.stderr
        return self

    def __exit__(self, *a):
        sys.stderr = self.old
        return False


def backend_of(name):
    if name == "tensorflow" and HAVE_TF:
        return "tensorflow"
    return "numpy"


@PROP.sub("get", fixed(name=st.sampled_from(NAMES)), quick=60, shards=1, rule="a backend that is not available or not numpy")
def get(c):
    with Stderr() as err:
        mod, name = be.get_backend(c["name"])
    need(name == backend_of(c["name"]), lambda: f"get_backend({c['name']!r}) reports {name!r}")
    need(mod is be.LIBRARIES[name] and mod is not None, "get_backend returns another module than it reports")
    warned = "Reverting to numpy" in err.buf.getvalue() or "not possible" in err.buf.getvalue()
    need(warned == (name != c["name"]), lambda: f"warning printed: {warned}, requested {c['name']!r}, got {name!r}")
    close(np.asarray(mod.sum(mod.array([1.0, 2.0]))), 3.0, "the module works")
    return c["name"] != "numpy"


@PROP.sub("path", case(), quick=1200, factor=20, shards=8, rule="the array visits at least two backends")
def path(c):
    x = lay(c["x"], c["order"])
    cur, seen = x, "numpy"
    kinds = set()
    with Frozen("change_backend", x=x), Stderr():
        for name in c["path"]:
            target = backend_of(name)
            new = be.change_backend(cur, name)
            kinds.add(target)
            need(be.get_array_module(new) is be.LIBRARIES[target], lambda: f"change_backend(..., {name!r}) gave {type(new)}")  # noqa: B023
            if target == seen:
                need(new is cur, "change_backend copied data that is already there")
            back = be.move_to_cpu(new)
            need(isinstance(back, np.ndarray) or (np.ndim(x) == 0 and np.isscalar(back)), lambda: f"move_to_cpu returned {type(back)}")  # noqa: B023
            equal(back, c["x"], f"data after {c['path']}")
            need(np.asarray(back).dtype == c["x"].dtype, lambda: f"dtype {np.asarray(back).dtype} after {c['path']}, was {c['x'].dtype}")  # noqa: B023
            if target == "numpy":
                need(back is new, "move_to_cpu copied an array that is on the CPU")
            cur, seen = new, target
    return len(kinds) > 1


@PROP.sub("setup_copy", case(), quick=600, factor=20, shards=4, rule="non-empty data")
def setup_copy(c):
    """Algorithms work on their own copy of their input, on their own backend."""
    x = lay(c["x"], c["order"])
    name = c["path"][0]
    with Stderr():
        alg = SetUp(compute_backend=name, progress=False)
    need(alg.compute_backend == backend_of(name) and alg.xp is be.LIBRARIES[backend_of(name)], lambda: f"backend {alg.compute_backend} for {name!r}")
    out = alg.copy_data(x)
    equal(be.move_to_cpu(out), c["x"], "copy_data")
    if alg.compute_backend == "numpy":
        need(not np.shares_memory(out, x), "copy_data returned memory of its input")
        if out.ndim:
            out[...] = 0
            equal(x, c["x"], "the input after its copy was overwritten")
    return c["x"].size > 0


@PROP.sub("torch", case(dt="float32"), quick=600, factor=20, shards=4, rule="non-empty data")
def torch_(c):
    if not HAVE_TORCH:
        return False
    import torch

    x = lay(c["x"], "C" if c["order"] in ("neg", "off", "ro") else c["order"])
    if x.ndim == 0:
        return False
    with Frozen("convert_to_tensor", x=x):
        t = be.convert_to_tensor(x)
    need(isinstance(t, torch.Tensor) and t.dtype == torch.float32 and tuple(t.shape) == x.shape, lambda: f"convert_to_tensor gave {type(t)} {t.dtype} {tuple(t.shape)}")
    equal(t.numpy(), c["x"], "convert_to_tensor")
    back = be.convert_to_cupy_array(t)
    equal(back, c["x"], "convert_to_cupy_array(convert_to_tensor(x))")
    g = torch.tensor(np.ascontiguousarray(c["x"]), requires_grad=True)
    equal(be.convert_to_cupy_array(g), c["x"], "convert_to_cupy_array of a tensor that requires grad")
    d = torch.tensor(c["x"].astype(float))
    equal(be.convert_to_cupy_array(d), c["x"].astype(float), "convert_to_cupy_array of a double tensor")
    return True


@PROP.sub("module", case(), quick=400, factor=10, shards=2, rule="non-empty data")
def module(c):
    x = c["x"]
    need(be.get_array_module(x) is np, "numpy array")
    need(be.get_array_module(x.tolist()) is np, "list")
    need(be.get_array_module(None) is np, "no array")
    need(be.move_to_cpu(x) is x, "move_to_cpu of a numpy array")
    if HAVE_TF:
        tnp = be.LIBRARIES["tensorflow"]
        with Stderr():
            t = be.change_backend(c["x"].tolist(), "tensorflow")
        need(be.get_array_module(t) is tnp, lambda: f"a list moved to tensorflow is a {type(t)}")
        need(be.get_array_module(tnp.array(x)) is tnp, "tensorflow array")
    return x.size > 0
