"""C27: cwbReweight follows w <- w / (1 + |x| / (n w0)) over any history, in place."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.linear import Identity
from modopt.opt.proximity import SparseThreshold
from modopt.opt.reweight import cwbReweight

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay, pos_elem, shapes
from harness.oracle import close, equal, need, raises, soft

PROP = Prop("C27", ["weights and threshold factors are strictly positive"])


@st.composite
def case(draw):
    shape = draw(shapes(1, 3, 1, 5, big=[(90,)]))
    n = draw(st.integers(0, draw(st.sampled_from([6] * 9 + [40]))))
    form = draw(st.sampled_from(["float", "float", "int", "list", "float32"]))
    w = np.abs(draw(array(shape, styles=("normal", "ties", "nonneg", "tinyfrac", "ints")))) + draw(st.sampled_from([0.1, 1.0, 5.0]))
    unit = draw(st.one_of(st.just(1.0), st.just(1.0), st.floats(-14, 8).map(lambda e: 10.0**e)))
    w = w * (1.0 if form == "int" else unit)
    if form == "int":
        w = np.ceil(w)
    return dict(
        w=w, form=form, factor=draw(st.one_of(pos_elem, st.integers(1, 4), st.none(), st.sampled_from(["array", "intarray", "listed"]))),
        data=[draw(array(shape, dtype=draw(st.sampled_from(["float64", "float64", "int64", "complex128"])))) for _ in range(n)],
        lists=draw(st.booleans()), order=draw(layouts), verbose=draw(st.booleans()),
    )


@PROP.sub("history", case(), quick=2000, rule="at least two reweightings with non-zero data")
def history(c):
    form = c["form"]
    w = {"float": lambda: lay(c["w"], "C" if c["order"] == "ro" else c["order"]), "int": lambda: c["w"].astype(int), "list": c["w"].tolist, "float32": lambda: c["w"].astype(np.float32)}[form]()
    factor = c["factor"]
    if isinstance(factor, str):
        factor = 1 + np.arange(c["w"].size).reshape(c["w"].shape) % 5
        factor = {"array": factor + 0.25, "intarray": factor, "listed": factor.tolist()}[c["factor"]]
    kw = {} if factor is None else {"thresh_factor": factor}
    rw = cwbReweight(w, verbose=c["verbose"], **kw)
    fac = np.asarray(1.0 if factor is None else factor, dtype=float)
    w0 = np.asarray(w, dtype=float).copy()
    model = w0.copy()
    tol = dict(rtol=1e-5, atol=1e-38) if form == "float32" else dict(rtol=1e-11, atol=1e-300)
    close(rw.weights, model, "initial weights", **tol)
    close(rw.original_weights, w0, "original weights", **tol)
    for x in c["data"]:
        arg = lay(x, c["order"])
        keep = arg.copy()
        before = np.array(rw.weights)
        rw.reweight(arg.tolist() if c["lists"] else arg)
        equal(arg, keep, "reweight modified its input")
        model = model / (1.0 + np.abs(x if np.iscomplexobj(x) else x.astype(float)) / (fac * w0))
        close(rw.weights, model, "weights after reweighting", **tol)
        close(rw.original_weights, w0, "original weights after reweighting", **tol)
        need(np.all(np.asarray(rw.weights) <= before), "reweighting increased a weight")
        need(np.array_equal(np.asarray(rw.weights)[x == 0], before[x == 0]), "weight of a zero coefficient changed")
        close(rw.thresh_factor, fac, "thresh_factor")
    return sum(bool(np.any(x)) for x in c["data"]) > 1


@PROP.sub("shared", case(), quick=600, rule="at least one reweighting with non-zero data")
def shared(c):
    """A sparsity operator built on the reweighter's weights sees every reweighting."""
    w = lay(c["w"], "C" if c["order"] == "ro" else c["order"])
    rw = cwbReweight(w)
    prox = SparseThreshold(Identity(), rw.weights)
    model = c["w"].copy()
    probe = np.linspace(-6, 6, model.size).reshape(model.shape)
    for x in c["data"]:
        rw.reweight(x)
        model = model / (1.0 + np.abs(x) / c["w"])
        close(prox.op(probe), soft(probe, model), "threshold of an operator sharing the weights", rtol=1e-11, atol=1e-290, scale=float(np.max(np.abs(probe))))
        close(prox.cost(probe), np.sum(np.abs(model * probe)), "cost of an operator sharing the weights", rtol=1e-11)
    return any(np.any(x) for x in c["data"])


@PROP.sub("reject", fixed(a=shapes(1, 3, 1, 4), b=shapes(1, 3, 1, 4)), quick=300, shards=1, rule="shapes that differ")
def reject(c):
    rw = cwbReweight(np.full(c["a"], 2.0))
    if c["a"] == c["b"]:
        rw.reweight(np.ones(c["b"]))
        return False
    raises(ValueError, lambda: rw.reweight(np.ones(c["b"])), "reweight with data of another shape")
    equal(rw.weights, np.full(c["a"], 2.0), "weights after a rejected reweighting")
    return True
