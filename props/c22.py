"""C22: array adjustments (rotate, rotate_stack, pad2d, fancy_transpose, ftr, ftl)."""
import itertools

import numpy as np
from hypothesis import strategies as st
from modopt.base import np_adjust as na

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay, shapes
from harness.oracle import Frozen, equal, need, raises

PROP = Prop("C22", ["rotate takes 2D arrays, rotate_stack stacks of 2D arrays"])
DT = st.sampled_from(["float64", "float32", "int64", "complex128", "uint8"])


@PROP.sub(
    "rotate",
    DT.flatmap(lambda d: fixed(stack=array(shapes(3, 3, 1, 7, big=[(2, 33, 20), (12, 5, 4)]), dtype=d), order=layouts, aslist=st.booleans())),
    quick=1500, rule="a stack whose images differ from their own rotation",
)
def rotate(c):
    stack = c["stack"]
    n, h, w = stack.shape
    exp = np.empty_like(stack)
    for k, y, x in itertools.product(range(n), range(h), range(w)):
        exp[k, h - 1 - y, w - 1 - x] = stack[k, y, x]
    arg = lay(stack, c["order"])
    given = list(arg) if c["aslist"] else arg
    with Frozen("rotate_stack", arg=arg):
        res = na.rotate_stack(given)
    equal(res, exp, "rotate_stack", dtype=True)
    equal(na.rotate_stack(res), stack, "rotate_stack twice", dtype=True)
    for k in range(n):
        with Frozen("rotate", arg=arg):
            one = na.rotate(arg[k])
        equal(one, exp[k], "rotate", dtype=True)
        equal(na.rotate(one), stack[k], "rotate twice")
    return not np.array_equal(exp, stack)


@st.composite
def pad_case(draw):
    kind = draw(st.sampled_from(["int", "tuple1", "tuple2", "list1", "list2", "arr1", "arr2", "arr0"]))
    most = draw(st.sampled_from([6] * 18 + [70, 300]))
    p = [draw(st.integers(0, most)), draw(st.integers(0, most))]
    return dict(
        data=draw(DT.flatmap(lambda d: array(shapes(2, 2, 1, 6, big=[(1, 40), (33, 9), (20, 20)]), dtype=d))),
        kind=kind, p=p, aslist=draw(st.booleans()), order=draw(layouts),
    )


@PROP.sub("pad2d", pad_case(), quick=1500, rule="different paddings per axis or a non-square image, padding > 0")
def pad2d(c):
    kind, (p, q) = c["kind"], c["p"]
    if not kind.endswith("2"):
        q = p
    pad = {
        "int": p, "tuple1": (p,), "tuple2": (p, q), "list1": [p], "list2": [p, q],
        "arr1": np.array([p]), "arr2": np.array([p, q]), "arr0": np.array(p),
    }[kind]
    data = lay(c["data"], c["order"])
    h, w = data.shape
    exp = np.zeros((h + 2 * p, w + 2 * q), dtype=data.dtype)
    for y in range(h):
        for x in range(w):
            exp[y + p, x + q] = data[y, x]
    with Frozen("pad2d", data=data, pad=pad):
        res = na.pad2d(data.tolist() if c["aslist"] else data, pad)
    equal(res, exp, "pad2d", dtype=not c["aslist"])
    need(not np.shares_memory(res, data), "pad2d returned a view of its input")
    return p + q > 0 and (p != q or h != w)


@PROP.sub("pad2d_reject", fixed(pad=st.sampled_from(["1", 1.5, None, {1: 1}, {2}]), data=array(shapes(2, 2, 1, 4))), quick=60, shards=1, rule="a padding of an unsupported type")
def pad2d_reject(c):
    raises(ValueError, lambda: na.pad2d(c["data"], c["pad"]), "pad2d with an invalid padding")
    return True


@PROP.sub(
    "transpose",
    DT.flatmap(lambda d: fixed(a=array(shapes(1, 5, 1, 4, big=[(9, 17), (2, 3, 1, 2, 3, 2), (30, 1, 7), (2, 1, 2, 1, 2, 1, 3)]), dtype=d), roll=st.integers(-7, 7), order=layouts)),
    quick=1500, rule="at least two axes of different length",
)
def transpose(c):
    a = lay(c["a"], c["order"])
    nd = a.ndim

    def ref(arr, roll):
        # output axis i is input axis (i - roll) mod ndim
        perm = [(i - roll) % nd for i in range(nd)]
        out = np.empty(tuple(arr.shape[p] for p in perm), dtype=arr.dtype)
        for idx in np.ndindex(*arr.shape):
            out[tuple(idx[p] for p in perm)] = arr[idx]
        return out

    with Frozen("fancy_transpose", a=a):
        res = na.fancy_transpose(a, c["roll"])
        r1, l1 = na.ftr(a), na.ftl(a)
        d1 = na.fancy_transpose(a)
    equal(res, ref(c["a"], c["roll"]), "fancy_transpose", dtype=True)
    equal(r1, ref(c["a"], 1), "ftr", dtype=True)
    equal(d1, ref(c["a"], 1), "fancy_transpose default", dtype=True)
    equal(l1, ref(c["a"], -1), "ftl", dtype=True)
    equal(na.ftl(na.ftr(a)), c["a"], "ftl(ftr(x))")
    equal(na.ftr(na.ftl(a)), c["a"], "ftr(ftl(x))")
    equal(na.fancy_transpose(na.fancy_transpose(a, c["roll"]), -c["roll"]), c["a"], "fancy_transpose inverse")
    x = a
    for _ in range(nd):
        x = na.ftr(x)
    equal(x, c["a"], "ndim applications of ftr")
    return nd > 1 and len(set(a.shape)) > 1
