"""C10: separable proximity operators are the exact proximal maps of the costs they report."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.linear import Identity, LinearParent, MatrixOperator
from modopt.opt.proximity import ElasticNet, IdentityProx, Positivity, ProximityParent, Ridge, SparseThreshold

from harness.core import Prop
from harness.gen import STYLES, array, elem, expand, fixed, lay, layouts, nonneg_elem, pos_elem, seeds, shapes
from harness.oracle import Frozen, close, equal, need, raises, soft

PROP = Prop(
    "C10",
    [
        "Ridge applies its linear operator inside op (as coded); the proximal characterisation is asserted for an identity operator and the formula for any operator",
        "hard thresholding is not a proximal map: only its formula is asserted, away from |x| = threshold",
    ],
)


@st.composite
def weight(draw, shape, size_ok=True):
    kind = draw(st.sampled_from(["scalar", "array", "last", "zero"]))
    if kind == "zero":
        return 0.0
    if kind == "array":
        return draw(array(shape, elements=nonneg_elem, styles=("nonneg",), scale=False))
    if kind == "last" and len(shape) > 1:
        return draw(array(shape[-1:], elements=nonneg_elem, styles=("nonneg",), scale=False))
    return draw(st.one_of(pos_elem, pos_elem, pos_elem, st.floats(-9, 12).map(lambda e: 10.0**e)))


@st.composite
def case(draw, complex_ok=True):
    shape = draw(shapes(1, 4, 1, 4, big=[(40,), (12, 9), (300,), (1500,), (7, 5, 3, 12), (50, 50), (1, 1), (65, 1)]))
    dt = draw(st.sampled_from(["float64", "float64", "complex128"])) if complex_ok else "float64"
    fac = draw(st.one_of(st.sampled_from([None, None, 1.0, 0.5, 2.0, 0.0, 3, "array"]), st.sampled_from([None, "array"]), st.floats(-6, 9).map(lambda e: 10.0**e)))
    if fac == "array":
        fac = draw(array(shape, elements=pos_elem, styles=("nonneg",), scale=False)) + 0.01
    return {
        "x": draw(array(shape, dtype=dt)), "order": draw(layouts), "w": draw(weight(shape)), "w2": draw(weight(shape)), "fac": fac,
        "q": draw(array(shape, dtype=dt)), "tie": draw(st.booleans()),
    }


def prep(c):
    x = c["x"]
    f = 1.0 if c["fac"] is None else c["fac"]
    if c["tie"] and x.size:
        # make some entries sit exactly at the threshold
        t = np.broadcast_to(np.asarray(c["w"] * f), x.shape)
        x = x.copy()
        x.reshape(-1)[::2] = t.reshape(-1)[::2] if x.flags.c_contiguous else x.reshape(-1)[::2]
    return lay(x, c["order"]), f


def apply(op, x, c):
    return op.op(x) if c["fac"] is None else op.op(x, extra_factor=c["fac"])


def laws(op, x, p, cost_of, f, c, what):
    """p must beat every candidate in 1/2 |p - x|^2 / f + cost, when f is a positive scalar."""
    if isinstance(f, np.ndarray) or f <= 0:
        return
    val = lambda q: 0.5 * float(np.sum(np.abs(q - x) ** 2)) + f * float(cost_of(q))
    best = val(p)
    for q in (x, np.zeros_like(x), c["q"], p + 1e-3 * c["q"], p - 1e-3 * c["q"], 0.5 * (p + x), p * 0.9, p * 1.1):
        need(best <= val(q) + 1e-9 * (1 + abs(best)), lambda: f"{what}: objective {best} at the result, {val(q)} at another point")


@PROP.sub("sparse", case(), quick=4000, factor=25, shards=8, rule="some entries survive and some do not")
def sparse(c):
    x, f = prep(c)
    w = c["w"]
    op = SparseThreshold(Identity(), w)
    with Frozen("SparseThreshold", x=x, w=w, fac=c["fac"]):
        p = apply(op, x, c)
        cost = op.cost(p)
    t = w * f
    close(p, soft(x, np.broadcast_to(t, x.shape)), "SparseThreshold.op (soft)", rtol=1e-12, atol=1e-13)
    need(np.asarray(p).dtype == x.dtype, lambda: f"dtype {np.asarray(p).dtype} for {x.dtype} input")
    close(float(cost), np.sum(np.abs(w * np.asarray(p))), "SparseThreshold.cost", rtol=1e-11, atol=1e-11)
    laws(op, x, np.asarray(p), op.cost, f, c, "SparseThreshold")
    a = np.abs(x)
    if not np.any(np.abs(a - t) < 1e-12 * (1 + a)):
        hard = SparseThreshold(Identity(), w, thresh_type="hard")
        equal(apply(hard, x, c), np.where(a >= t, x, 0), "SparseThreshold.op (hard)")
    return bool(np.any(np.asarray(p) != 0)) and bool(np.any(np.asarray(p) == 0))


@PROP.sub("cost_domain", fixed(x=array((4,)), L=array((3, 4)), w=st.one_of(pos_elem, array((3,), elements=nonneg_elem, styles=("nonneg",))), a=pos_elem, b=pos_elem, cplx=st.booleans(), x2=array((4,)), verbose=st.booleans()),
          quick=1200, factor=10, rule="non-zero transform")
def cost_domain(c):
    """Costs are taken on the transformed data (linear.op), the weights included."""
    x, L, w = c["x"], c["L"], c["w"]
    if c["cplx"]:
        x = x + 1j * c["x2"]
    lin = MatrixOperator(L)
    z = L @ x
    kw = {"verbose": True} if c["verbose"] else {}
    with Frozen("cost", x=x, L=L, w=w):
        close(float(SparseThreshold(lin, w).cost(x, **kw)), np.sum(w * np.abs(z)), "SparseThreshold.cost", rtol=1e-10, atol=1e-10)
        close(float(Ridge(lin, w).cost(x, **kw)), np.sum(w * np.abs(z) ** 2), "Ridge.cost", rtol=1e-10, atol=1e-10)
        close(float(ElasticNet(lin, c["a"], w).cost(x, **kw)), np.sum(c["a"] * np.abs(z) ** 2 + w * np.abs(z)), "ElasticNet.cost", rtol=1e-10, atol=1e-10)
        close(float(ElasticNet(lin, w, c["b"]).cost(x, **kw)), np.sum(w * np.abs(z) ** 2 + c["b"] * np.abs(z)), "ElasticNet.cost", rtol=1e-10, atol=1e-10)
        need(float(Positivity().cost(x.real, **kw)) == 0 and float(IdentityProx().cost(x)) == 0, "cost of Positivity / IdentityProx is zero")
    sq = LinearParent(lambda v: 3.0 * v[::-1], lambda v: v)
    ws = c["a"]
    close(Ridge(sq, ws).op(x, extra_factor=c["b"]), 3.0 * x[::-1] / (1 + 2 * ws * c["b"]), "Ridge.op", rtol=1e-12, atol=1e-12)
    return bool(np.any(z))


@PROP.sub("ridge", case(), quick=2000, factor=20, rule="non-zero input, weight and factor")
def ridge(c):
    x, f = prep(c)
    op = Ridge(Identity(), c["w"])
    with Frozen("Ridge", x=x, w=c["w"], fac=c["fac"]):
        p = apply(op, x, c)
        op.cost(x)
    close(p, x / (1 + 2 * c["w"] * f), "Ridge.op", rtol=1e-12, atol=1e-13)
    laws(op, x, np.asarray(p), op.cost, f, c, "Ridge")
    return bool(np.any(x)) and bool(np.any(np.asarray(c["w"]) * f))


@PROP.sub("elastic", case(), quick=3000, factor=20, rule="some entries survive and both weights are non-zero")
def elastic(c):
    x, f = prep(c)
    op = ElasticNet(Identity(), c["w2"], c["w"])
    with Frozen("ElasticNet", x=x, w=c["w"], w2=c["w2"], fac=c["fac"]):
        p = apply(op, x, c)
        op.cost(x)
    want = soft(x, np.broadcast_to(c["w"] * f, x.shape)) / (1 + 2 * c["w2"] * f)
    close(p, want, "ElasticNet.op", rtol=1e-12, atol=1e-13)
    laws(op, x, np.asarray(p), op.cost, f, c, "ElasticNet")
    return bool(np.any(want != 0)) and bool(np.any(c["w2"])) and bool(np.any(c["w"]))


@PROP.sub("positivity", case(complex_ok=False), quick=1500, factor=20, rule="entries of both signs")
def positivity(c):
    x, f = prep({**c, "tie": False})
    with Frozen("Positivity", x=x):
        p = apply(Positivity(), x, c)
        i = apply(IdentityProx(), x, c)
        if c["fac"] is not None:
            equal(Positivity().op(x, c["fac"]), np.maximum(x, 0), "Positivity.op with a positional factor")
    equal(p, np.maximum(x, 0), "Positivity.op")
    equal(i, x, "IdentityProx.op")
    q = np.maximum(c["q"], 0)
    need(np.linalg.norm(p - x) <= np.linalg.norm(q - x) + 1e-12 * (1 + np.linalg.norm(x)), "Positivity.op is not the closest non-negative array")
    return bool(np.any(x > 0)) and bool(np.any(x < 0))


@PROP.sub("nonexpansive", case(), quick=1500, factor=20, rule="two different points with different images")
def nonexpansive(c):
    x, f = prep(c)
    y = c["q"]
    moved = False
    for op in (SparseThreshold(Identity(), c["w"]), Ridge(Identity(), c["w"]), ElasticNet(Identity(), c["w2"], c["w"])):
        px, py = np.asarray(apply(op, x, c)), np.asarray(apply(op, y, c))
        lhs = float(np.sum(np.abs(px - py) ** 2))
        rhs = float(np.vdot(px - py, x - y).real)
        need(lhs <= rhs + 1e-9 * (1 + abs(rhs)), lambda: f"{type(op).__name__}: not firmly non-expansive: {lhs} > {rhs}")
        moved |= lhs > 0
    return moved


@PROP.sub("mutable_weights", fixed(x=array((5,)), w1=array((5,), elements=nonneg_elem, styles=("nonneg",)), w2=array((5,), elements=nonneg_elem, styles=("nonneg",)), inplace=st.booleans()), quick=500, factor=10, rule="weights that change the result")
def mutable_weights(c):
    """Weights replaced or updated in place (reweighting) take effect at the next call."""
    x, w = c["x"], c["w1"].copy()
    op = SparseThreshold(Identity(), w)
    close(op.op(x), soft(x, c["w1"]), "before the change of weights", rtol=1e-12, atol=1e-13)
    if c["inplace"]:
        w[:] = c["w2"]
    else:
        op.weights = c["w2"].copy()
    close(op.op(x), soft(x, c["w2"]), "after the change of weights", rtol=1e-12, atol=1e-13)
    close(float(op.cost(x)), np.sum(c["w2"] * np.abs(x)), "cost after the change of weights", rtol=1e-10, atol=1e-10)
    return not np.allclose(soft(x, c["w1"]), soft(x, c["w2"]))


HIST = {
    "soft": (lambda w, v: SparseThreshold(Identity(), w), lambda x, w, v, f: soft(x, w * f), lambda x, w, v: w * np.sum(np.abs(x))),
    "hard": (lambda w, v: SparseThreshold(Identity(), w, thresh_type="hard"), lambda x, w, v, f: np.where(np.abs(x) >= w * f, x, 0), lambda x, w, v: w * np.sum(np.abs(x))),
    "ridge": (lambda w, v: Ridge(Identity(), w), lambda x, w, v, f: x / (1 + 2 * w * f), lambda x, w, v: w * np.sum(np.abs(x) ** 2)),
    "enet": (lambda w, v: ElasticNet(Identity(), w, v), lambda x, w, v, f: soft(x, v * f) / (1 + 2 * w * f), lambda x, w, v: w * np.sum(np.abs(x) ** 2) + v * np.sum(np.abs(x))),
    "pos": (lambda w, v: Positivity(), lambda x, w, v, f: np.maximum(np.real(x), 0), lambda x, w, v: 0.0),
    "id": (lambda w, v: IdentityProx(), lambda x, w, v, f: x, lambda x, w, v: 0.0),
}
step = fixed(shape=shapes(1, 3, 1, 4), style=st.sampled_from(STYLES), seed=seeds, dt=st.sampled_from(["float64", "float64", "complex128", "float32"]),
             f=st.sampled_from([None, 1.0, 0.5, 2.0, 0.0, 1e-3, 100.0]), what=st.sampled_from(["op", "op", "cost", "again", "setw"]))


@PROP.sub("history", fixed(kind=st.sampled_from(sorted(HIST)), w=st.sampled_from([0.3, 1.0, 2.5, 0.0]), v=st.sampled_from([0.2, 1.0]), steps=st.lists(step, min_size=2, max_size=14)), quick=1200, factor=25, shards=4,
          rule="at least three applications of the same operator")
def history(c):
    """One operator used on a sequence of arrays of any shape and type, with any factors."""
    mk, ref, cost = HIST[c["kind"]]
    w, v = c["w"], c["v"]
    op, n, x = mk(w, v), 0, None
    for k, s in enumerate(c["steps"]):
        dt = s["dt"] if c["kind"] != "pos" or s["dt"] != "complex128" else "float64"
        if s["what"] == "setw" and hasattr(op, "weights"):
            w = 0.1 + (s["seed"] % 40) / 10
            op.weights = w
        if s["what"] == "again" and x is not None:
            x[...] = expand(s["seed"], x.shape, s["style"], x.dtype)  # the same array with new contents
        else:
            x = np.array(expand(s["seed"], s["shape"], s["style"], dt))
        f = 1.0 if s["f"] is None else s["f"]
        if c["kind"] == "hard" and np.any(np.abs(np.abs(x) - w * f) < 1e-6 * (1 + w * f)):
            continue
        tol = 1e-5 if x.dtype == np.float32 else 1e-11
        tag = f"{c['kind']} (weight {w}), call {k}"
        if s["what"] == "cost":
            close(float(op.cost(x)), cost(x.astype(complex), w, v), tag + ": cost", rtol=tol, atol=1e-12)
        else:
            with Frozen(tag, x=x):
                p = op.op(x) if s["f"] is None else op.op(x, extra_factor=f)
            want = ref(x.astype(complex), w, v, f)
            close(np.asarray(p).astype(complex), want, tag + f": op with factor {s['f']}", rtol=tol, atol=1e-12)
            n += 1
    return n > 2


@PROP.sub("parent", fixed(bad=st.sampled_from(["1", "None", "'f'", "[1]"]), x=elem), quick=60, shards=1, rule="every case")
def parent(c):
    f, g = (lambda v, *a, **k: v + 1), (lambda v, *a, **k: 2 * v)
    p = ProximityParent(f, g)
    need(p.op(c["x"]) == c["x"] + 1 and p.cost(c["x"]) == 2 * c["x"], "ProximityParent forwards its op and cost")
    raises(TypeError, lambda: ProximityParent(eval(c["bad"]), g), "ProximityParent with an op that is not callable")
    raises(TypeError, lambda: ProximityParent(f, eval(c["bad"])), "ProximityParent with a cost that is not callable")
    raises(ValueError, lambda: SparseThreshold(Identity(), 1.0, thresh_type="medium").op(np.ones(3)), "unknown threshold type")
    return True
