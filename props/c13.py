"""C13: linear operators are linear and adj_op is the adjoint of op."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st
from modopt.opt.linear import Identity, LinearCombo, MatrixOperator, WaveletConvolve
from modopt.signal.validation import transpose_test
from modopt.signal.wavelet import filter_convolve, filter_convolve_stack

from harness.core import Prop
from harness.gen import array, elem, fixed, lay, layouts, seeds
from harness.oracle import Frozen, close, equal, need, raises

PROP = Prop(
    "C13",
    [
        "WaveletConvolve: filters with odd sides (the adjoint of a centred even filter is not centred), not larger than the data for the astropy method",
        "WaveletTransform is covered by C14",
    ],
)


def inner(a, b):
    return np.vdot(np.asarray(b), np.asarray(a))


def adjoint(op, adj, x, y, what, scale, linear_with=None, rtol=1e-9):
    fx, ay = np.asarray(op(x)), np.asarray(adj(y))
    need(fx.shape == y.shape, lambda: f"{what}: op maps {x.shape} to {fx.shape}, expected {y.shape}")
    need(ay.shape == x.shape, lambda: f"{what}: adj_op maps {y.shape} to {ay.shape}, expected {x.shape}")
    lhs, rhs = inner(fx, y), inner(x, ay)
    need(abs(lhs - rhs) <= rtol * scale + 1e-25, lambda: f"{what}: <op x, y> = {lhs}, <x, adj_op y> = {rhs}")
    return fx, ay


@st.composite
def matrix_case(draw):
    top = draw(st.sampled_from([6, 6, 6, 12, 40, 130]))
    m, n = draw(st.integers(1, top)), draw(st.integers(1, top))
    dts = draw(st.sampled_from([("float64", "float64"), ("complex128", "complex128"), ("float64", "complex128"), ("complex128", "float64"), ("int64", "float64"), ("realcomplex", "complex128"),
                                ("complex64", "complex64"), ("complex64", "complex128"), ("float32", "float64"), ("int8", "complex128"), ("complex128", "int64"), ("float32", "complex64")]))
    form = draw(st.sampled_from([None, None, None, "herm", "sym", "skew", "diag", "upper", "unit"]))
    if form:
        n = m
    a = draw(array((m, n), dtype="float64" if dts[0] == "realcomplex" else dts[0]))
    if dts[0] == "realcomplex":
        a = a.astype(complex)
    if form:
        t = {"herm": lambda: a + a.conj().T, "sym": lambda: a + a.T, "skew": lambda: a - a.conj().T, "diag": lambda: np.diag(np.diag(a)), "upper": lambda: np.triu(a), "unit": lambda: np.linalg.qr(a.astype(np.result_type(a, np.float32)))[0]}[form]()
        a = t.astype(a.dtype) if form != "unit" or a.dtype.kind in "fc" else a
    cols = draw(st.sampled_from([None, None, 1, 3, 9]))
    shx, shy = ((n,), (m,)) if cols is None else ((n, cols), (m, cols))
    return {"a": a, "x": draw(array(shx, dtype=dts[1])), "y": draw(array(shy, dtype=dts[1])), "x2": draw(array(shx, dtype=dts[1])), "s": draw(elem), "order": draw(layouts)}


@PROP.sub("matrix", matrix_case(), quick=3000, factor=20, rule="non-zero matrix that is not symmetric")
def matrix(c):
    a, x, y = lay(c["a"], c["order"]), lay(c["x"], c["order"]), c["y"]
    op = MatrixOperator(a)
    rtol = 1e-4 if np.result_type(a, x) in (np.float32, np.complex64) else 1e-9
    with Frozen("MatrixOperator", a=a, x=x, y=y):
        scale = np.linalg.norm(a) * np.linalg.norm(x) * np.linalg.norm(y)
        fx, ay = adjoint(op.op, op.adj_op, x, y, "MatrixOperator", scale, rtol=rtol)
        close(fx, c["a"] @ c["x"], "MatrixOperator.op", rtol=rtol * 1e-3 if rtol < 1e-6 else 1e-5, atol=1e-25, scale=np.linalg.norm(a) * np.linalg.norm(x))
        close(ay, c["a"].conj().T @ y, "MatrixOperator.adj_op", rtol=rtol * 1e-3 if rtol < 1e-6 else 1e-5, atol=1e-25, scale=np.linalg.norm(a) * np.linalg.norm(y))
    return bool(np.any(a)) and not (a.shape[0] == a.shape[1] and np.allclose(a, a.conj().T) and np.allclose(a, a.T))


@st.composite
def conv_case(draw):
    k, nf = draw(st.integers(1, 3)), draw(st.integers(1, 4))
    top = draw(st.sampled_from([9, 9, 9, 24]))
    if top > 9:
        k, nf = draw(st.integers(1, 8)), draw(st.integers(1, 7))
    h, w = draw(st.integers(1, top)), draw(st.integers(1, top))
    method = draw(st.sampled_from(["scipy", "default", "astropy"]))
    odd = lambda top: draw(st.sampled_from([s for s in (1, 3, 5, 7) if s <= top]))
    fh, fw = (odd(h), odd(w)) if method == "astropy" else (odd(7), odd(7))
    return {
        "f": draw(array((nf, fh, fw), scale=False)), "x": draw(array((k, h, w), scale=False)), "x2": draw(array((k, h, w), scale=False)),
        "y": draw(array((k, nf, h, w), scale=False)), "s": draw(elem), "method": method, "order": draw(layouts), "unit": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-8, 1e6])),
    }


@PROP.sub("wavelet_convolve", conv_case(), quick=1500, factor=25, shards=8, rule="at least one filter with several taps, not symmetric under rotation")
def wavelet_convolve(c):
    f, x, y = lay(c["f"], c["order"]), lay(c["x"] * c["unit"], c["order"]), lay(c["y"], c["order"])
    c = {**c, "x2": c["x2"] * c["unit"]}
    kw = {} if c["method"] == "default" else {"method": c["method"]}
    op = WaveletConvolve(f, **kw)
    l1 = float(np.sum(np.abs(f))) + 1e-25
    with Frozen("WaveletConvolve", f=f, x=x, y=y):
        scale = l1 * np.linalg.norm(x) * np.linalg.norm(y)
        fx, ay = adjoint(op.op, op.adj_op, x, y, f"WaveletConvolve ({c['method']})", scale)
        # the operator is the stack of single-image filterings
        close(fx, np.array([filter_convolve(e, f, **kw) for e in x]), "WaveletConvolve.op against single images", rtol=1e-9, atol=1e-25, scale=l1 * np.linalg.norm(x))
        close(ay, np.array([filter_convolve(e, f, filter_rot=True, **kw) for e in y]), "WaveletConvolve.adj_op against single images", rtol=1e-9, atol=1e-25, scale=l1 * np.linalg.norm(y))
        close(op.op(c["s"] * x + c["x2"]), c["s"] * fx + np.asarray(op.op(c["x2"])), "linearity of WaveletConvolve.op", rtol=1e-9, atol=1e-25, scale=l1 * (abs(c["s"]) * np.linalg.norm(x) + np.linalg.norm(c["x2"])))
    return any(np.count_nonzero(q) > 1 and not np.allclose(q, q[::-1, ::-1]) for q in f)


@PROP.sub("identity", fixed(x=array((3, 2), dtype=complex), y=array((3, 2), dtype=complex)), quick=200, shards=1, rule="every case")
def identity(c):
    op = Identity()
    equal(op.op(c["x"]), c["x"], "Identity.op")
    equal(op.adj_op(c["y"]), c["y"], "Identity.adj_op")
    need(float(op.cost(c["x"])) == 0, "Identity.cost")
    return True


@st.composite
def combo_case(draw):
    n, k = draw(st.integers(1, 7)), draw(st.sampled_from([1, 2, 2, 3, 3, 4, 7]))
    dt = draw(st.sampled_from(["float64", "float64", "complex128"]))
    rows = [draw(st.integers(1, 6)) for _ in range(k)]
    if draw(st.booleans()):
        rows = [rows[0]] * k
    w = draw(st.one_of(st.none(), st.lists(st.sampled_from([1.0, 0.5, 2.0, 0.25, 0.1, -1.0, 0.0]), min_size=k, max_size=k)))
    unit = draw(st.sampled_from([1.0, 1.0, 1e-8, 1e7]))
    src = [draw(st.integers(0, i)) if draw(st.integers(0, 3)) == 0 else i for i in range(k)]  # the same operator listed more than once
    src = [j if src[j] == j else i for i, j in enumerate(src)]
    rows = [rows[j] for j in src]
    mats = [draw(array((m, n), dtype=dt, scale=False)) for m in rows]
    return {"src": src, "mats": [mats[j] for j in src], "x": draw(array((n,), dtype=dt, scale=False)) * unit, "ys": [draw(array((m,), dtype=dt, scale=False)) for m in rows], "w": w}


@PROP.sub("combo", combo_case(), quick=1500, factor=15, rule="at least two operators, none of them zero")
def combo(c):
    """<op x, y> in the (weighted) product space equals <x, adj_op y>."""
    k = len(c["mats"])
    ops = [MatrixOperator(a) for a in c["mats"]]
    op = LinearCombo([ops[j] for j in c["src"]], weights=c["w"])
    w = c["w"] or [1.0 / k] * k
    with Frozen("LinearCombo", x=c["x"], **{f"a{i}": a for i, a in enumerate(c["mats"])}):
        fx = op.op(c["x"])
        need(len(fx) == k, lambda: f"LinearCombo of {k} operators returned {len(fx)} results")
        ys = np.empty(k, dtype=object)
        for i, y in enumerate(c["ys"]):
            ys[i] = y
        back = op.adj_op(ys)
    lhs = sum(wi * inner(f, y) for wi, f, y in zip(w, fx, c["ys"]))
    rhs = inner(c["x"], back)
    scale = sum(np.linalg.norm(a) * np.linalg.norm(y) for a, y in zip(c["mats"], c["ys"])) * np.linalg.norm(c["x"]) * max(map(abs, w))
    need(abs(lhs - rhs) <= 1e-9 * scale, lambda: f"LinearCombo: weighted <op x, y> = {lhs}, <x, adj_op y> = {rhs}")
    return k > 1 and all(np.any(a) for a in c["mats"])


@PROP.sub("transpose_test", fixed(a=array((3, 4), scale=False), b=array((4, 3), scale=False), true=st.booleans(), seed=seeds, gen=st.booleans(), args=st.booleans()), quick=600, factor=10, rule="operators that are not the transpose of each other, or non-zero ones that are")
def transpose_check(c):
    a = c["a"]
    at = a.T if c["true"] else c["b"]
    seen = {}

    def f(x, args):
        seen["x"], seen["xa"] = np.array(x), args
        return a @ x

    def ft(y, args):
        seen["y"], seen["ya"] = np.array(y), args
        return at @ y

    buf = io.StringIO()
    rng = np.random.default_rng(c["seed"]) if c["gen"] else c["seed"]
    kw = {"x_args": "p"} if c["args"] else {"x_args": "p", "y_args": "q"}
    with contextlib.redirect_stdout(buf):
        transpose_test(f, ft, (4,), y_shape=(3,), rng=rng, **kw)
    val = float(re.search(r"=\s*([-+0-9.eE]+)", buf.getvalue()).group(1))
    need(seen["x"].shape == (4,) and seen["y"].shape == (3,), "shapes of the random arrays")
    need(seen["xa"] == "p" and seen["ya"] == ("p" if c["args"] else "q"), "extra arguments passed to the operators")
    want = abs(np.dot(a @ seen["x"], seen["y"]) - np.dot(seen["x"], at @ seen["y"]))
    need(abs(val - want) <= 1e-10 * (1 + np.abs(a).sum() + np.abs(at).sum()), lambda: f"reported {val}, expected {want}")
    sq = c["a"][:, :3]
    sqt = sq.T if c["true"] else c["b"][:3]
    seen2 = {}

    def op(x, args):
        seen2["x"], seen2["xa"] = np.array(x), args
        return sq @ x

    def opt(y, args):
        seen2["y"], seen2["ya"] = np.array(y), args
        return sqt @ y

    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        transpose_test(op, opt, (3, 2) if c["gen"] else (3,), x_args="p", rng=rng)
    val = float(re.search(r"=\s*([-+0-9.eE]+)", buf.getvalue()).group(1))
    need(seen2["x"].shape == seen2["y"].shape == ((3, 2) if c["gen"] else (3,)), "shape of the second array when it is not given")
    need(seen2["xa"] == seen2["ya"] == "p", "extra arguments when the second ones are not given")
    want = abs(np.sum((sq @ seen2["x"]) * seen2["y"]) - np.sum(seen2["x"] * (sqt @ seen2["y"])))
    need(abs(val - want) <= 1e-10 * (1 + np.abs(sq).sum() + np.abs(sqt).sum()), lambda: f"reported {val}, expected {want}")
    raises(TypeError, lambda: transpose_test(3, ft, (4,)), "operator not callable")
    raises(TypeError, lambda: transpose_test(f, "g", (4,)), "transpose operator not callable")
    return bool(np.any(a))
