"""C34: verbose output reports the true values, quiet code prints nothing, warnings appear exactly when due."""
import io
import re
from contextlib import redirect_stderr, redirect_stdout

import numpy as np
from hypothesis import strategies as st
from modopt.base import backend
from modopt.base.types import check_npndarray
from modopt.math.matrix import PowerMethod
from modopt.opt import algorithms as al
from modopt.opt import linear, proximity
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.reweight import cwbReweight
from modopt.signal.svd import svd_thresh

from harness.core import Prop
from harness.gen import array, fixed, pos_elem, seeds
from harness.oracle import close, equal, need
from props.algkit import make_grad, make_prox, problem, prox_spec

PROP = Prop(
    "C34",
    [
        "only the reported numbers and whether something is printed are compared, not the wording of a message",
        "the ADMM cost always prints (it is built verbose), so ADMM with a cost is not part of the silence check",
    ],
)

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")


class Captured:
    def __enter__(self):
        self.o, self.e = io.StringIO(), io.StringIO()
        self.stack = redirect_stdout(self.o), redirect_stderr(self.e)
        for s in self.stack:
            s.__enter__()
        return self

    def __exit__(self, *a):
        for s in self.stack[::-1]:
            s.__exit__(*a)
        self.out, self.err = self.o.getvalue(), self.e.getvalue()
        return False


def numbers(text):
    return [float(t) for t in NUM.findall(text)]


def shows(text, value, what):
    value = float(value)
    need(any(abs(n - value) <= 1e-6 * max(1e-300, abs(value)) or n == value or (n != n and value != value) for n in numbers(text)), lambda: f"{what}: the printed text {text!r} does not show the value {value!r}")


PX = {
    "l1": lambda: proximity.SparseThreshold(linear.Identity(), 0.7),
    "ridge": lambda: proximity.Ridge(linear.Identity(), 0.7),
    "net": lambda: proximity.ElasticNet(linear.Identity(), 0.4, 0.7),
    "owl": lambda: proximity.OrderedWeightedL1Norm(np.array([0.9, 0.5, 0.3, 0.1])),
    "ksupport": lambda: proximity.KSupportNorm(0.5, 2),
    "group": lambda: proximity.GroupLASSO(0.6),
    "lowrank": lambda: proximity.LowRankMatrix(0.8),
    "pos": lambda: proximity.Positivity(),
    "composed": lambda: proximity.LinearCompositionProx(linear.MatrixOperator(2 * np.eye(4)), proximity.SparseThreshold(linear.Identity(), 0.7)),
    "grad": lambda: GradBasic(np.array([1.0, -1.0, 2.0, 0.5]), lambda x: 2 * x, lambda x: 2 * x, verbose=False),
}
SILENT = ("group",)  # reports its cost without a verbose mode


@st.composite
def cost_case(draw):
    name = draw(st.sampled_from(sorted(PX)))
    shape = (2, 2, 2) if name == "lowrank" else ((4,) if name != "group" else (4, 2))
    return {"name": name, "x": draw(array(shape, styles=("normal", "tinyfrac", "ties", "nonneg")))}


@PROP.sub("operator_costs", cost_case(), quick=700, factor=15, rule="the data are not all zero")
def operator_costs(c):
    """verbose=True shows the value, verbose=False or nothing prints nothing; the value is the same."""
    op, x = PX[c["name"]](), c["x"]
    with Captured() as q1:
        plain = op.cost(x)
    with Captured() as q2:
        off = op.cost(x, verbose=False)
    with Captured() as v:
        on = op.cost(x, verbose=True)
    need(q1.out == q2.out == "" and q1.err == q2.err == "", lambda: f"{c['name']}: cost printed {q1.out + q2.out + q1.err + q2.err!r} without verbose")
    need(float(plain) == float(off) == float(on), lambda: f"{c['name']}: cost {plain}, quiet {off}, verbose {on}")
    if c["name"] not in SILENT:
        shows(v.out, np.min(x) if c["name"] == "pos" else on, f"{c['name']} cost")
    return bool(np.any(x))


VALUE = st.one_of(pos_elem, pos_elem, pos_elem, pos_elem, st.sampled_from([float("inf"), float("nan"), 1e100, -3.5, 0.0, 1e-12]))


class Op:
    def __init__(self, seq):
        self.seq, self.kw = list(seq), []

    def cost(self, *args, **kwargs):
        self.kw.append(kwargs)
        return self.seq.pop(0)


@PROP.sub("cost_object", fixed(seq=st.lists(VALUE, min_size=1, max_size=12), interval=st.sampled_from([1, 1, 2, 3]), rng=st.sampled_from([2, 4])), quick=500, factor=15, rule="at least one convergence test")
def cost_object(c):
    res, ops = [], []
    for verbose in (False, True):
        op = Op(c["seq"] * c["interval"])
        obj = costObj([op], verbose=verbose, cost_interval=c["interval"], test_range=c["rng"])
        out, window = [], []
        for k in range(len(c["seq"])):
            with Captured() as cap, np.errstate(all="ignore"):
                flag = obj.get_cost(np.zeros(2))
            out.append((bool(flag), float(obj.cost)))
            due = (k + 1) % c["interval"] == 0
            if verbose and due:
                shows(cap.out, obj.cost, "cost object")
                shows(cap.out, k + 1, "cost object (iteration)")
                window.append(float(obj.cost))
                if len(window) == c["rng"]:
                    with np.errstate(all="ignore"):
                        new, old = np.mean(window[c["rng"] // 2 :]), np.mean(window[: c["rng"] // 2])
                        change = abs(new - old) / abs(new) if not abs(new) <= 1e-15 else 0.0
                    window = []
                    if not np.isfinite(change):
                        continue
                    need(any(abs(g - change) <= 1e-6 * change + 1e-12 for g in numbers(cap.out)), lambda: f"cost object printed {cap.out!r} when it tested a change of the cost of {change}")
            elif not verbose or not due:
                need(cap.out == "" and cap.err == "", lambda: f"cost object printed {cap.out!r} (verbose={verbose}, evaluation due: {due})")
        res.append(out)
        ops.append(op)
    need(repr(res[0]) == repr(res[1]), lambda: f"costs and decisions {res[0]} when quiet, {res[1]} when verbose")
    for verbose, op in zip((False, True), ops):
        need(all(bool(k.get("verbose", False)) == verbose for k in op.kw), lambda: f"operators asked to be verbose: {[k.get('verbose') for k in op.kw]}, cost object verbose={verbose}")
    return len(c["seq"]) // c["interval"] >= c["rng"]


@st.composite
def alg_case(draw):
    p = draw(problem(complex_ok=False, shapes=[(2,), (3,)]))
    return {"p": p, "prox": draw(prox_spec()), "name": draw(st.sampled_from(["fb", "gfb", "pogm", "condat", "gd", "adam", "admm"])), "n": draw(st.integers(1, 10)), "cost": draw(st.booleans()), "conv": draw(st.booleans())}


def make_alg(c, **kw):
    p, pr = c["p"], make_prox(c["prox"])
    g, x, b = make_grad(c["p"]), np.array(c["p"]["x0"]), float(0.5 / c["p"]["lip"])
    cost = costObj([g, pr], verbose=False, tolerance=1e9 if c["conv"] else 1e-12, test_range=2) if c["cost"] else None
    if c["name"] == "fb":
        return al.ForwardBackward(x, g, pr, cost=cost, beta_param=b, auto_iterate=False, **kw)
    if c["name"] == "gfb":
        return al.GenForwardBackward(x, g, [pr, pr], cost=cost, gamma_param=b, auto_iterate=False, **kw)
    if c["name"] == "pogm":
        return al.POGM(x, x, x, x, g, pr, cost=cost, beta_param=b, auto_iterate=False, **kw)
    if c["name"] == "condat":
        return al.Condat(x, x, g, pr, pr, cost=cost, sigma=0.5, tau=b, auto_iterate=False, **kw)
    if c["name"] == "admm":
        one = linear.Identity()
        return al.ADMM(x, x, 0 * x, one, one, 0 * x + 1, (lambda init, obs: 0.5 * obs, lambda init, obs: 0.3 * obs), **kw)
    cls = al.VanillaGenericGradOpt if c["name"] == "gd" else al.ADAMGradOpt
    return cls(x, g, pr, cost, eta=b, **kw)


@PROP.sub("solvers", alg_case(), quick=400, factor=15, rule="a cost object is used")
def solvers(c):
    """A quiet solver prints nothing; a verbose one says so when it converges; same result."""
    with Captured() as q:
        a = make_alg(c, progress=False)
        a.iterate(max_iter=c["n"])
    need(q.out == "" and q.err == "", lambda: f"{c['name']}: printed {q.out + q.err!r} with verbose and progress off")
    with Captured() as v:
        b = make_alg(c, progress=False, verbose=True)
        b.iterate(max_iter=c["n"])
    with Captured():
        d = make_alg(c, progress=True)
        d.iterate(max_iter=c["n"])
    equal(b.x_final, a.x_final, f"{c['name']}: verbose against quiet result")
    equal(d.x_final, a.x_final, f"{c['name']}: result with and without a progress bar")
    if c["name"] != "admm":
        need(bool(v.out.strip()) == bool(b.converge), lambda: f"{c['name']}: verbose run printed {v.out!r}, converged: {b.converge}")
    return c["cost"]


class Foreign:
    """Has everything an operator needs but inherits none of the operator classes."""

    def __init__(self, inner):
        self.inner = inner

    def __getattr__(self, name):
        return getattr(self.inner, name)


@PROP.sub("operator_warning", fixed(case=alg_case(), which=st.sampled_from(["grad", "prox", "none"])), quick=300, factor=10, rule="a foreign operator is given")
def operator_warning(c):
    """An operator that inherits none of the operator classes is accepted with a warning."""
    d = c["case"]
    if d["name"] == "admm":
        return False
    g, pr, x = make_grad(d["p"]), make_prox(d["prox"]), np.array(d["p"]["x0"])
    g = Foreign(g) if c["which"] == "grad" else g
    pr = Foreign(pr) if c["which"] == "prox" else pr
    kw = {"cost": None, "progress": False, "auto_iterate": False}
    with Captured() as cap:
        if d["name"] == "fb":
            al.ForwardBackward(x, g, pr, **kw)
        elif d["name"] == "gfb":
            al.GenForwardBackward(x, g, [pr], **kw)
        elif d["name"] == "pogm":
            al.POGM(x, x, x, x, g, pr, **kw)
        elif d["name"] == "condat":
            al.Condat(x, x, g, pr, make_prox(d["prox"]), linear=linear.Identity(), **kw)
        else:
            al.VanillaGenericGradOpt(x, g, pr, None, progress=False)
    need(cap.out == "", lambda: f"construction printed {cap.out!r}")
    need(("Foreign" in cap.err) == (c["which"] != "none"), lambda: f"{d['name']} with a foreign {c['which']} operator wrote {cap.err!r}")
    return c["which"] != "none"


@PROP.sub("power_method", fixed(seed=seeds, n=st.integers(1, 25), tol=st.sampled_from([1e-6, 1e-2, 0.0])), quick=200, factor=10, rule="at least two iterations")
def power_method(c):
    a = np.diag([1.0, 0.6, 0.3])
    out = []
    for verbose in (False, True):
        calls = [0]

        def op(x):
            calls[0] += 1
            return a @ x

        with Captured() as cap:
            pm = PowerMethod(op, (3,), auto_run=False, verbose=verbose, rng=c["seed"])
            pm.get_spec_rad(max_iter=c["n"], tolerance=c["tol"])
        out.append((calls[0], pm.spec_rad))
        if verbose:
            shows(cap.out, calls[0], "power method (iterations)")
        else:
            need(cap.out == cap.err == "", lambda: f"power method printed {cap.out!r} when quiet")
    need(out[0] == out[1], lambda: f"quiet (calls, radius) {out[0]}, verbose {out[1]}")
    return out[0][0] > 1


@PROP.sub("reweight", fixed(x=array((3,)), n=st.integers(1, 5)), quick=150, factor=10, rule="several reweightings")
def reweight(c):
    q, v = cwbReweight(np.ones(3)), cwbReweight(np.ones(3), verbose=True)
    for k in range(c["n"]):
        with Captured() as cap:
            q.reweight(c["x"])
        need(cap.out == cap.err == "", lambda: f"quiet reweighting printed {cap.out!r}")
        with Captured() as cap:
            v.reweight(c["x"])
        shows(cap.out, k + 1, "reweighting (count)")
    equal(q.weights, v.weights, "weights of a verbose and of a quiet reweighting")
    return c["n"] > 1


@PROP.sub("warnings", fixed(x=array((4, 3), styles=("normal",), max_elem=0, scale=False), n=st.integers(1, 5), wr=st.booleans(), req=st.booleans(), verbose=st.booleans(), name=st.sampled_from(["numpy", "cupy", "nonsense", "tensorflow"])), quick=400, factor=10, rule="a warning is due")
def warnings_(c):
    due = False
    with Captured() as cap:
        svd_thresh(c["x"], n_pc=c["n"], thresh_type="hard")
    # keeping all three values is announced, and so is leaving all values unchanged
    need((cap.err != "") == (c["n"] >= 3) and cap.out == "", lambda: f"svd_thresh(n_pc={c['n']}) of a rank 3 matrix wrote {cap.err!r}")
    due |= c["n"] >= 3
    a = np.arange(3)
    a.flags.writeable = c["wr"]
    if c["wr"] or not c["req"]:
        with Captured() as cap:
            check_npndarray(a, writeable=c["req"], verbose=c["verbose"])
        want = c["wr"] and not c["req"] and c["verbose"]
        need((cap.err != "") == want and cap.out == "", lambda: f"check_npndarray (writeable before: {c['wr']}, requested: {c['req']}, verbose: {c['verbose']}) wrote {cap.err!r}")
        due |= want
    have = backend.LIBRARIES.get(c["name"]) is not None
    with Captured() as cap:
        xp, name = backend.get_backend(c["name"])
    need((cap.err != "") == (not have) and cap.out == "", lambda: f"get_backend({c['name']!r}) wrote {cap.err!r}")
    need(name == (c["name"] if have else "numpy"), lambda: f"get_backend({c['name']!r}) named {name!r}")
    k = proximity.KSupportNorm(0.5, c["n"])
    with Captured() as cap:
        k.op(c["x"][:, 0])
    need((cap.err != "") == (c["n"] > 4) and cap.out == "", lambda: f"KSupportNorm(k={c['n']}) on 4 values wrote {cap.err!r}")
    close(k.k_value, min(c["n"], 4), "k after the call")
    return due
