"""C23: argument checks convert to the documented type or raise, without changing values."""
import numpy as np
from hypothesis import strategies as st
from modopt.base import types as ty

from harness.core import Prop
from harness.gen import array, elem, fixed, layouts, lay, shapes
from harness.oracle import Frozen, equal, need, raises

PROP = Prop("C23", ["check_float/check_int take Python numbers, lists, tuples and numpy arrays"])

DTS = ["float64", "float32", "float16", "int64", "int32", "int8", "uint8", "bool", "uint64", ">f8", ">i4"]
huge = st.one_of(st.integers(-(2**62), 2**62), st.integers(2**53, 2**53 + 9), st.integers(-(2**31) - 3, -(2**31) + 3))
real = st.one_of(st.integers(-(10**9), 10**9).map(lambda i: i / 7.0), st.sampled_from([1e15 + 0.5, -2.9999999999, 1e-300, -0.0, 4503599627370497.5]))


@st.composite
def value(draw):
    kind = draw(st.sampled_from(["int", "float", "list", "tuple", "nested", "array", "array", "array"]))
    if kind == "int":
        v = draw(st.one_of(st.integers(-(2**40), 2**40), huge))
    elif kind == "float":
        v = draw(st.one_of(elem, real))
    elif kind in ("list", "tuple"):
        few = draw(st.integers(0, 3))
        v = draw(st.lists(draw(st.sampled_from([st.one_of(elem, st.integers(-9, 9)), elem, huge, real])), min_size=0 if few else 21, max_size=6 if few else 60))
        v = tuple(v) if kind == "tuple" else v
    elif kind == "nested":
        n = draw(st.integers(1, 3))
        v = draw(st.lists(st.lists(draw(st.sampled_from([st.integers(-9, 9), huge, real])), min_size=n, max_size=n), min_size=1, max_size=3))
    else:
        dt = draw(st.sampled_from(DTS))
        v = draw(array(shapes(0, 4, 1, 5, big=[(300,), (30, 20)]), dtype="int64" if dt == "bool" else dt)).astype(dt)
    return dict(v=v, kind=kind, order=draw(layouts))


def arg(c):
    return lay(c["v"], c["order"]) if c["kind"] == "array" else c["v"]


@PROP.sub("check_float", value(), quick=2500, rule="an input whose type has to change, or an array")
def check_float(c):
    v = arg(c)
    with Frozen("check_float", v=v):
        res = ty.check_float(v)
    if c["kind"] in ("int", "float"):
        need(type(res) is float and res == float(v), lambda: f"check_float({v!r}) gave {res!r}")
        return c["kind"] == "int"
    need(isinstance(res, np.ndarray), lambda: f"check_float({type(v)}) gave {type(res)}")
    need(np.issubdtype(res.dtype, np.floating), lambda: f"check_float gave dtype {res.dtype}")
    src = np.asarray(v)
    if isinstance(v, np.ndarray) and v.dtype.kind == "f":
        need(res.dtype == v.dtype, "check_float changed the dtype of an array that was already floating")
    else:
        need(res.dtype == np.float64, lambda: f"check_float gave dtype {res.dtype}")
    equal(res, src.astype(np.float64) if src.dtype.kind != "f" else src, "check_float values")
    return True


@PROP.sub("check_int", value(), quick=2500, rule="an input whose type has to change, or an array")
def check_int(c):
    v = arg(c)
    if c["kind"] in ("list", "tuple"):
        v = type(v)(v)
    with Frozen("check_int", v=v):
        res = ty.check_int(v)
    if c["kind"] in ("int", "float"):
        exp = int(np.trunc(v)) if c["kind"] == "float" else v
        need(type(res) is int and res == exp, lambda: f"check_int({v!r}) gave {res!r}")
        return c["kind"] == "float"
    need(isinstance(res, np.ndarray), lambda: f"check_int({type(v)}) gave {type(res)}")
    need(np.issubdtype(res.dtype, np.integer), lambda: f"check_int gave dtype {res.dtype}")
    src = np.asarray(v)
    if isinstance(v, np.ndarray) and v.dtype.kind in "iu":
        need(res.dtype == v.dtype, "check_int changed the dtype of an array that was already integer")
    equal(res, np.trunc(src.astype(float)).astype(int) if src.dtype.kind not in "iu" else src, "check_int values")
    return True


BAD = ["'1.0'", "None", "{'a': 1}", "{1, 2}", "b'1'", "1 + 2j", "object()", "print", "range(3)"]


@PROP.sub("reject", fixed(bad=st.sampled_from(BAD), which=st.sampled_from(["float", "int", "nd"])), quick=100, shards=1, rule="every case is an unsupported type")
def reject(c):
    bad = eval(c["bad"])  # noqa: S307 - constants above
    if c["which"] == "float":
        raises(TypeError, lambda: ty.check_float(bad), f"check_float({c['bad']})")
    elif c["which"] == "int":
        raises(TypeError, lambda: ty.check_int(bad), f"check_int({c['bad']})")
    else:
        for extra in ([1.0], (1,), 3, 2.5):
            raises(TypeError, lambda: ty.check_npndarray(extra), "check_npndarray of a non-array")  # noqa: B023
        raises(TypeError, lambda: ty.check_npndarray(bad), f"check_npndarray({c['bad']})")
    return True


@PROP.sub(
    "npndarray",
    st.sampled_from(["float64", "float32", "int64", "complex128"]).flatmap(
        lambda d: fixed(
            a=array(shapes(1, 3, 1, 4), dtype=d), order=layouts,
            want=st.sampled_from([None, "floating", "integer", "complexfloating", "float64", "number"]),
            writeable=st.booleans(), verbose=st.booleans(), start=st.booleans(), view=st.booleans(),
        )
    ),
    quick=2000, rule="a dtype restriction is given or the write flag changes",
)
def npndarray(c):
    a = np.array(c["a"])
    base = a.copy()
    if c["view"]:
        a = np.array(np.stack([a, a]))[1]  # a view of a larger array, which stays writeable
    want = None if c["want"] is None else getattr(np, c["want"])
    a.flags.writeable = c["start"]
    if want is not None and not np.issubdtype(a.dtype, want):
        raises(TypeError, lambda: ty.check_npndarray(a, dtype=want, writeable=c["writeable"], verbose=c["verbose"]), "check_npndarray with the wrong dtype")
    else:
        ty.check_npndarray(a, dtype=want, writeable=c["writeable"], verbose=c["verbose"])
        need(a.flags.writeable == c["writeable"], "check_npndarray did not set the write flag")
    equal(a, base, "check_npndarray values", dtype=True)
    return c["want"] is not None or c["start"] != c["writeable"]


@PROP.sub("callable", fixed(kind=st.sampled_from(["func", "lambda", "cls", "method", "builtin", "obj", "int", "str", "list", "none", "array"])), quick=60, shards=1, rule="every case")
def check_callable(c):
    class Obj:
        def __call__(self):
            return 1

        def meth(self):
            return 2

    vals = {
        "func": check_float, "lambda": lambda: 0, "cls": Obj, "method": Obj().meth, "builtin": len, "obj": Obj(),
        "int": 1, "str": "len", "list": [len], "none": None, "array": np.zeros(2),
    }
    v = vals[c["kind"]]
    if callable(v):
        need(ty.check_callable(v) is v, "check_callable must return its argument unchanged")
    else:
        raises(TypeError, lambda: ty.check_callable(v), f"check_callable({c['kind']})")
    return True
