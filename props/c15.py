"""C15: gradients are the derivatives of the costs they report."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.gradient import GradBasic, GradParent
from modopt.opt.linear import MatrixOperator

from harness.core import Prop
from harness.gen import array, elem, fixed, lay, layouts
from harness.oracle import Frozen, close, equal, need, raises

PROP = Prop("C15", ["linear measurement operators given as matrices (GradBasic is the least-squares gradient)"])


@st.composite
def case(draw):
    hi = draw(st.sampled_from([6] * 9 + [40]))
    m, n = draw(st.integers(1, hi)), draw(st.integers(1, hi))
    dt = draw(st.sampled_from(["float64", "float64", "complex128"]))
    return {"A": draw(array((m, n), dtype=dt, scale=False)), "b": draw(array((m,), dtype=dt, scale=False)), "pts": draw(st.lists(array((n,), dtype=dt, scale=False), min_size=1, max_size=4)),
            "d": draw(array((n,), dtype=dt, scale=False)), "new": draw(st.one_of(st.none(), array((m,), dtype=dt, scale=False))), "verbose": draw(st.booleans()), "order": draw(layouts), "h": draw(st.floats(-1.5, 1.5).map(lambda e: 10.0**e))}


@PROP.sub("derivative", case(), quick=4000, factor=25, shards=8, rule="non-zero operator and direction")
def derivative(c):
    A, b, d = c["A"], lay(c["b"], c["order"]), c["d"]
    c = dict(c, pts=[lay(x, c["order"]) for x in c["pts"]])
    with Frozen("GradBasic", A=A, b=b, d=d, **{f"x{i}": x for i, x in enumerate(c["pts"])}):
        g = GradBasic(b, lambda v: A @ v, lambda v: A.conj().T @ v, verbose=c["verbose"])
        grads = []
        for x in c["pts"]:
            g.get_grad(x)
            grads.append(g.grad)
            cost = float(g.cost(x, verbose=c["verbose"]))
            want = 0.5 * float(np.linalg.norm(A @ x - b) ** 2)
            sc = float(np.linalg.norm(A, 2) * np.linalg.norm(x) + np.linalg.norm(b)) + 1e-9
            close(cost, want, "GradBasic.cost", rtol=1e-10, atol=1e-11, scale=sc**2)
            close(g.grad, A.conj().T @ (A @ x - b), "GradBasic.grad", rtol=1e-10, atol=1e-11, scale=sc * float(np.linalg.norm(A, 2)))
            # the cost is quadratic: the central difference is exact
            h = c["h"]
            diff = (float(g.cost(x + h * d)) - float(g.cost(x - h * d))) / (2 * h)
            slope = float(np.vdot(g.grad, d).real)
            s2 = (sc + h * float(np.linalg.norm(A, 2) * np.linalg.norm(d))) ** 2 / h
            need(abs(diff - slope) <= 1e-9 * s2 + 1e-9, lambda: f"directional derivative of the cost {diff}, <grad, d> = {slope}")
            close(g.trans_op_op(x), A.conj().T @ (A @ x), "trans_op_op", rtol=1e-10, atol=1e-11, scale=sc * float(np.linalg.norm(A, 2)))
        equal(g.obs_data, b, "obs_data")
        if c["new"] is not None:
            # stochastic use: the observed data is replaced between two calls
            g.obs_data = c["new"]
            x = c["pts"][0]
            g.get_grad(x)
            close(g.grad, A.conj().T @ (A @ x - c["new"]), "gradient after replacing obs_data", rtol=1e-9, atol=1e-10)
            close(float(g.cost(x)), 0.5 * float(np.linalg.norm(A @ x - c["new"]) ** 2), "cost after replacing obs_data", rtol=1e-9, atol=1e-10)
        # earlier gradients are not overwritten by later calls
        for x, old in zip(c["pts"], grads):
            close(old, A.conj().T @ (A @ x - b), "a gradient read earlier changed", rtol=1e-9, atol=1e-10)
    return bool(np.any(A)) and bool(np.any(d))


@st.composite
def stack_case(draw):
    # the data have a shape of their own, and the operator maps to another one
    p, q = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    lead = draw(st.sampled_from([(4,), (1,), (2, 3), (9,), (1, 1), (2, 1, 2), (4,), (2, 3), (2, 1, 2), (1700,), (60, 70)]))
    dt = draw(st.sampled_from(["float64", "float64", "complex128"]))
    return {"m": draw(array((p, q), dtype=dt, scale=False)), "x": draw(array((*lead, q), dtype=dt, scale=False)), "y": draw(array((*lead, p), dtype=dt, scale=False)), "order": draw(layouts)}


@PROP.sub("stacks", stack_case(), quick=800, factor=10, rule="non-zero operator")
def stacks(c):
    """Operators acting on stacks: cost and gradient of the whole array."""
    m = c["m"]
    x, y = lay(c["x"], c["order"]), lay(c["y"], c["order"])
    with Frozen("GradBasic", m=m, x=x, y=y):
        g = GradBasic(y, lambda v: v @ m.T, lambda v: v @ m.conj(), verbose=False)
        g.get_grad(x)
        r = c["x"] @ m.T - c["y"]
        close(g.grad, r @ m.conj(), "gradient of a stack", rtol=1e-10, atol=1e-10)
        close(float(g.cost(x)), 0.5 * np.sum(np.abs(r) ** 2), "cost of a stack", rtol=1e-10, atol=1e-10)
    return bool(np.any(m))


@PROP.sub("parent", fixed(b=array((3,), scale=False), ints=st.booleans(), x=array((3,), scale=False), k=elem, dt=st.sampled_from([None, "float", "floating"])), quick=600, factor=10, rule="every case")
def parent(c):
    dt = {None: None, "float": float, "floating": np.floating}[c["dt"]]
    b = np.rint(c["b"]).astype(int) if c["ints"] and dt is not None else c["b"]
    calls = []

    def get_grad(x):
        g.grad = c["k"] * x

    g = GradParent(b, lambda v: v + 1, lambda v: 2 * v, get_grad=get_grad, cost=lambda *a, **k: calls.append(a) or 7.0, data_type=dt, verbose=False)
    close(g.obs_data, b, "obs_data", rtol=0, atol=0)
    if dt is not None:
        need(g.obs_data.dtype.kind == "f", lambda: f"obs_data dtype {g.obs_data.dtype} with data_type float")
    g.get_grad(c["x"])
    close(g.grad, c["k"] * c["x"], "grad set by get_grad", rtol=1e-12, atol=1e-12)
    for kind in ("float32", "float64"):
        val = (c["k"] * c["x"]).astype(kind)
        g.grad = val
        equal(g.grad, val, f"gradient set to a {kind} array")
    need(g.cost(c["x"]) == 7.0 and len(calls) == 1, "cost callable")
    close(g.trans_op_op(c["x"]), 2 * (c["x"] + 1), "trans_op_op", rtol=1e-12, atol=1e-12)
    # values that are not finite are passed through
    odd = np.array([np.nan, c["k"], np.inf])
    close(np.nan_to_num(g.trans_op_op(odd), nan=77.0, posinf=99.0), [77.0, 2 * (c["k"] + 1), 99.0], "trans_op_op of data that is not finite", rtol=1e-12, atol=1e-12)
    g.op = lambda v: v * 3
    close(g.trans_op_op(c["x"]), 6 * c["x"], "trans_op_op after replacing op", rtol=1e-12, atol=1e-12)
    return True


BAD = ["3", "None", "'f'", "[1]"]


@PROP.sub("reject", fixed(bad=st.sampled_from(BAD), data=st.sampled_from(["[1.0]", "1.0", "'a'", "(1,)"]), cplx=st.booleans()), quick=80, shards=1, rule="every case is invalid")
def reject(c):
    f, bad, y = (lambda v: v), eval(c["bad"]), np.ones(3)
    raises(TypeError, lambda: GradBasic(y, bad, f, verbose=False), "op not callable")
    raises(TypeError, lambda: GradBasic(y, f, bad, verbose=False), "trans_op not callable")
    if bad is not None:
        raises(TypeError, lambda: GradParent(y, f, f, get_grad=bad, verbose=False), "get_grad not callable")
        raises(TypeError, lambda: GradParent(y, f, f, cost=bad, verbose=False), "cost not callable")
    raises(TypeError, lambda: GradBasic(eval(c["data"]), f, f, verbose=False), "data that is not an array")
    raises(TypeError, lambda: GradBasic(np.arange(3), f, f, data_type=np.complexfloating, verbose=False), "data of a type other than data_type")
    return True
