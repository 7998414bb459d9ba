"""C33: an argument left out takes its documented default value."""
import os

import numpy as np
from hypothesis import strategies as st
from modopt.base import observable as obs
from modopt.base import np_adjust, types
from modopt.math import convolve as conv
from modopt.math import matrix, metrics, stats
from modopt.opt import algorithms as al
from modopt.opt import gradient, linear, proximity, reweight
from modopt.opt.cost import costObj
from modopt.signal import filter as filt
from modopt.signal import noise, positivity, svd, wavelet

from harness.core import Prop
from harness.gen import fixed, seeds
from harness.oracle import need
from props import catalogue
from props.c32 import Scratch
from props.algkit import make_grad, make_prox, problem, prox_spec

PROP = Prop(
    "C33",
    [
        "the documented defaults are those of the docstrings at the pinned commit, and of the signature where the docstring is silent; the boundary mode of the wavelet transform, on which the two disagree, is left out",
        "the call with defaults left out is compared with the same call with the documented values written out, so the property says nothing about what the values do",
    ],
)


def rnd(seed, *shape):
    return np.random.RandomState(seed).standard_normal(shape) * 2


# ------------------------------------------------------------------------------- solvers
UPD = {"beta_update": None, "lambda_update": None, "gamma_update": None, "rho_update": None, "sigma_update": None, "tau_update": None}
FISTA = {"restart_strategy": None, "min_beta": None, "s_greedy": None, "xi_restart": None, "a_cd": None, "p_lazy": 1, "q_lazy": 1, "r_lazy": 4}
SETUP = {"metric_call_period": 5, "verbose": False, "step_size": None, "compute_backend": "numpy"}
GD = {"eta": 1.0, "eta_update": None, "epsilon": 1e-6, "epoch_size": 1}
SOLVERS = {
    "fb": {"beta_param": 1.0, "lambda_param": 1.0, "beta_update": None, "lambda_update": "fista", **FISTA, **SETUP},
    "gfb": {"gamma_param": 1.0, "lambda_param": 1.0, "gamma_update": None, "lambda_update": None, "weights": "equal", **SETUP},
    "pogm": {"beta_param": 1.0, "sigma_bar": 1.0, **SETUP},
    "condat": {"rho": 0.5, "sigma": 1.0, "tau": 1.0, "rho_update": None, "sigma_update": None, "tau_update": None, "linear": "identity", "reweight": None, **SETUP},
    "vanilla": {**GD, **SETUP}, "ada": {**GD, **SETUP}, "saga": {**GD, **SETUP},
    "rmsprop": {"gamma": 0.5, **GD, **SETUP},
    "momentum": {"beta": 0.9, **GD, **SETUP},
    "adam": {"gamma": 0.9, "beta": 0.9, **GD, **SETUP},
    "admm": {"tau": 1, **SETUP}, "fastadmm": {"tau": 1, "alpha": 1, "eta": 0.999, **SETUP},
}
GRADS = {
    "vanilla": al.VanillaGenericGradOpt, "ada": al.AdaGenericGradOpt, "rmsprop": al.RMSpropGradOpt,
    "momentum": al.MomentumGradOpt, "adam": al.ADAMGradOpt, "saga": al.SAGAOptGradOpt,
}


@st.composite
def solver_case(draw):
    name = draw(st.sampled_from(sorted(SOLVERS)))
    p = draw(problem(complex_ok=False, shapes=[(2,), (3,), (2, 2)]))
    p["A"] = p["A"] * float(0.9 / np.sqrt(p["lip"]))
    return {
        "name": name, "p": p, "prox": draw(prox_spec(kinds=["soft", "ridge", "shift"])), "prox2": draw(prox_spec(kinds=["soft", "ridge", "shift"])),
        "iters": draw(st.sampled_from(["default", 3, 7, 12])), "keep": draw(st.one_of(st.just([]), st.lists(st.sampled_from(sorted(SOLVERS[name])), max_size=4, unique=True))),
        "progress": draw(st.booleans()),
    }


def run_solver(c, kw, explicit):
    """Returns everything the operators and metrics see, and the result."""
    p, name, trace, kw = c["p"], c["name"], [], dict(kw)
    g = make_grad(p)
    base = g.get_grad

    def get_grad(x):
        trace.append(np.array(x, copy=True))
        base(x)

    g.get_grad = get_grad
    seen = []
    spec = {"m": {"metric": lambda x, k: seen.append((k, np.array(x, copy=True))) or 0.0, "mapping": {"x_new": "x", "idx": "k"}, "cst_kwargs": {}, "early_stopping": False}}
    pr, pr2, x0 = make_prox(c["prox"]), make_prox(c["prox2"]), np.array(p["x0"])
    com = {"metrics": spec, "progress": c["progress"], **kw}
    if com.get("weights", 0) == "equal":
        com["weights"] = [0.5, 0.5]
    if com.get("linear", 0) == "identity":
        com["linear"] = linear.Identity()
    if name == "fb":
        alg = al.ForwardBackward(x0, g, pr, cost=None, auto_iterate=False, linear=linear.Identity(), **com)
    elif name == "gfb":
        alg = al.GenForwardBackward(x0, g, [pr, pr2], cost=None, auto_iterate=False, linear=linear.Identity(), **com)
    elif name == "pogm":
        alg = al.POGM(x0, x0, x0, x0, g, pr, cost=None, auto_iterate=False, linear=linear.Identity(), **com)
    elif name == "condat":
        alg = al.Condat(x0, x0, g, pr, pr2, cost=None, auto_iterate=False, **com)
    elif name in GRADS:
        alg = GRADS[name](x0, g, pr, None, **com)
    else:
        fn, fn2 = (lambda init, obs: trace.append(("u", np.array(init), np.array(obs))) or 0.5 * obs - 0.2 * init), (lambda init, obs: trace.append(("v", np.array(init), np.array(obs))) or 0.4 * init - 0.7 * obs)
        one = linear.Identity()
        two = linear.LinearParent(lambda v: -2.0 * v, lambda v: -2.0 * v)
        cls = al.ADMM if name == "admm" else al.FastADMM
        alg = cls(x0, 0.3 * x0, 0 * x0, one, two, np.ones(x0.shape), (fn, fn2), cost_funcs=None, **com)
    if c["iters"] == "default":
        alg.iterate(max_iter=150) if explicit else alg.iterate()
    else:
        alg.iterate(max_iter=c["iters"])
    return trace, seen, np.array(alg.x_final)


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if a is None or isinstance(a, (str, bool, type)):
        return type(a) is type(b) and a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == object or b.dtype == object:
        return a.shape == b.shape and all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind not in "fc":
        return bool(np.array_equal(a, b))
    fin = np.isfinite(a)
    if not np.array_equal(fin, np.isfinite(b)):
        return False
    return bool(np.all(np.abs(a[fin] - b[fin]) <= 1e-12 * (1e-300 + np.max(np.abs(a[fin]), initial=0))))


@PROP.sub("solvers", solver_case(), quick=1600, factor=20, shards=8, rule="at least one default left out that the explicit call writes out, and the solver moved")
def solvers(c):
    full = SOLVERS[c["name"]]
    part = {k: full[k] for k in c["keep"]}
    want = run_solver(c, full, True)
    got = run_solver(c, part, False)
    need(len(got[0]) == len(want[0]), lambda: f"{c['name']} with defaults for all but {sorted(part)}: {len(got[0])} operator calls, with the documented values written out {len(want[0])}")
    need(same([k for k, _ in got[1]], [k for k, _ in want[1]]), lambda: f"{c['name']} with defaults for all but {sorted(part)}: metrics at {[k for k, _ in got[1]]}, with the documented values written out {[k for k, _ in want[1]]}")
    for i, (a, b) in enumerate(zip(got[0], want[0])):
        need(same(a, b), lambda: f"{c['name']} with defaults for all but {sorted(part)}: operator call {i} sees {a!r}, with the documented values written out {b!r}")
    need(same(got, want), lambda: f"{c['name']} with defaults for all but {sorted(part)}: result {got[2]!r}, with the documented values written out {want[2]!r}")
    return len(part) < len(full) and not np.array_equal(want[2], c["p"]["x0"])


@PROP.sub("auto", fixed(name=st.sampled_from(["fb", "gfb", "pogm", "condat"]), nrw=st.integers(0, 1)), quick=40, shards=4, factor=3, rule="every case")
def auto(c):
    """The solvers run 150 iterations on construction unless told otherwise; one reweighting."""
    p = {"A": np.array([[0.9, 0.2], [0.1, 0.8]]), "b": np.array([1.0, -2.0]), "shape": (2,)}
    g, n, rw = make_grad(p), [0], [0]
    base = g.get_grad

    def get_grad(x):
        n[0] += 1
        base(x)

    g.get_grad = get_grad
    x, pr = np.array([0.5, 1.5]), make_prox({"kind": "soft", "w": 0.1})

    class Rew:
        def reweight(self, v):
            rw[0] += 1

    kw = {"cost": None, "progress": False}
    if c["name"] == "fb":
        al.ForwardBackward(x, g, pr, **kw)
    elif c["name"] == "gfb":
        al.GenForwardBackward(x, g, [pr], **kw)
    elif c["name"] == "pogm":
        al.POGM(x, x, x, x, g, pr, **kw)
        n[0] -= 1
    else:
        al.Condat(x, x, g, pr, pr, sigma=0.3, tau=0.3, reweight=Rew() if c["nrw"] else None, **kw)
        need(rw[0] == c["nrw"], lambda: f"Condat: {rw[0]} reweightings by default")
    want = 300 if c["name"] == "condat" and c["nrw"] else 150
    need(n[0] in (want, want + (c["name"] == "pogm")), lambda: f"{c['name']}: {n[0]} gradient evaluations on construction, documented {want}")
    return True


@PROP.sub("iterate", fixed(seed=seeds, keep=st.lists(st.sampled_from(["max_iter", "n_rewightings"]), max_size=2, unique=True), n=st.integers(1, 6), sigma=st.sampled_from([0.1, 0.3])), quick=60, shards=4, factor=5, rule="the reweighting changed the solution")
def iterate(c):
    """Condat.iterate runs 150 iterations with one reweighting unless told otherwise; also after construction with other numbers."""
    A, b = rnd(c["seed"], 3, 3), rnd(c["seed"] ^ 1, 3)
    A = A * 0.9 / np.linalg.norm(A, 2)

    def run(first, *args, **kw):
        w = np.full(3, 0.2)

        class Rew:
            calls = 0

            def reweight(self, v):
                self.calls += 1
                w[:] = w / (1.0 + np.abs(np.array(v)))

        g, n, rw = make_grad({"A": A, "b": b, "shape": (3,)}), [0], Rew()
        base = g.get_grad

        def get_grad(v):
            n[0] += 1
            base(v)

        g.get_grad = get_grad
        dual = proximity.ProximityParent(lambda v, extra_factor=1.0: np.sign(v) * np.maximum(np.abs(v) - w * extra_factor, 0), lambda v, *a, **k: 0.0)
        alg = al.Condat(np.ones(3), np.zeros(3), g, make_prox({"kind": "none", "w": 1.0}), dual, sigma=c["sigma"], tau=0.5, reweight=rw, cost=None, progress=False, **first)
        alg.iterate(*args, **kw)
        return n[0], rw.calls, np.array(alg.x_final), np.array(alg.y_final)

    full = {"max_iter": 150, "n_rewightings": 1}
    part = {k: full[k] for k in c["keep"]}
    for first in ({"auto_iterate": False}, {"max_iter": c["n"], "n_rewightings": c["n"] % 3}):
        want, got = run(first, **full), run(first, **part)
        need(same(got, want), lambda: f"Condat.iterate({part}) after {first}: {got}, with max_iter=150 and n_rewightings=1: {want}")
        got = run(first, c["n"])
        need(same(got, run(first, max_iter=c["n"], n_rewightings=1)), lambda: f"Condat.iterate({c['n']}) after {first} differs from the same with n_rewightings=1")
    return not same(want[2], run(first, max_iter=150, n_rewightings=0)[2])


# ------------------------------------------------------------------------------- functions
def _cost(kw, seed):
    vals = list(np.round(5 + rnd(seed, 12) * 10.0 ** (-float(seed % 5)), 9)) + [3.0, 3.0 * (1 + 1.4e-4), 3.0, 3.0 * (1 + 0.8e-4)] * 2

    class O:
        it = iter(vals)

        def cost(self, *a, **k):
            return next(self.it)

    c = costObj([O()], **{"verbose": False, **kw})
    out = [c.cost]
    for _ in range(20):
        out.append(bool(c.get_cost(0.0)))
        out.append(float(c.cost))
    return out


def _metric(kw, seed):
    vals = [1.0 + 10.0 ** -(k * 0.3 + seed % 3) for k in range(25)] + [1.0, 1.0018, 1.0, 1.0018, 1.0]
    it = iter(vals)
    m = obs.MetricObserver("m", lambda x: next(it), {"x": "x"}, {}, **kw)
    out = []
    for k in range(30):
        s = obs.SignalObject()
        s.x, s.idx = 0, k
        m(s)
        out.append(bool(m.converge_flag))
    return out


def _metric_early(kw, seed):
    return _metric({"early_stopping": True, **kw}, seed)


def _power(kw, seed):
    kw = dict(kw)
    d = rnd(seed, 4, 4)
    a, n = d @ d.T + 0.1 * np.eye(4), [0]

    def op(x):
        n[0] += 1
        return a @ x

    init = {k: kw.pop(k) for k in ("data_type", "auto_run", "compute_backend") if k in kw}
    pm = matrix.PowerMethod(op, (4,), rng=seed, **init)
    out = [n[0], pm.spec_rad, pm.inv_spec_rad]
    pm.get_spec_rad(**kw)
    return [*out, n[0], pm.spec_rad, pm.inv_spec_rad]


def _power_slow(kw, seed):
    """Nearly equal eigenvalues, so that the iteration limit and the tolerance both matter."""
    n = [0]
    d = np.array([1.0, 1.0 - 10.0 ** -(1 + seed % 3), 0.5])

    def op(x):
        n[0] += 1
        return d * x

    pm = matrix.PowerMethod(op, (3,), auto_run=False, rng=seed)
    pm.get_spec_rad(**kw)
    return [n[0], pm.spec_rad]


def _fits(kw, seed):
    with Scratch(output=np.arange(8.0).reshape(2, 2, 2)) as scr:
        res = wavelet.call_mr_transform(rnd(seed, 3, 3), **kw)
        words = scr.args()[0]
        place = [os.path.relpath(os.path.dirname(os.path.abspath(w)), os.getcwd()) for w in words[-2:]]
        return [len(words), place, len(scr.left()), np.asarray(res)]


def _mr_filters(kw, seed):
    out = np.zeros((3, 5, 5))
    out[:, 1, 1 + seed % 3] = 1
    out[2] = 0.5
    with Scratch(output=out) as scr:
        res = wavelet.get_mr_filters((5, 5), **kw)
        return [np.asarray(res), len(scr.args()[0])]


def _grad_parent(kw, seed):
    b = rnd(seed, 3)
    g = gradient.GradBasic(b, lambda x: x, lambda x: x, **{"verbose": False, **kw})
    g.get_grad(np.arange(3))
    return [b.flags.writeable, g.grad, g.cost(np.arange(3.0))]


def _lowrank(kw, seed):
    op = proximity.LowRankMatrix(1.5, **{k: v for k, v in kw.items() if k != "extra_factor" and k != "rank"})
    call = {k: v for k, v in kw.items() if k in ("extra_factor", "rank")}
    return op.op(rnd(seed, 3, 2, 2), **call)


def _prox(make):
    def run(kw, seed):
        return make().op(rnd(seed, 4), **kw)

    return run


def _owl(kw, seed):
    return proximity.OrderedWeightedL1Norm(np.array([1.0, 0.6, 0.2, 0.1])).op(rnd(seed, 4), **kw)


def _combo(kw, seed):
    one = proximity.SparseThreshold(linear.Identity(), 0.4)
    x = np.empty(2, dtype=object)
    x[0], x[1] = rnd(seed, 3), rnd(seed + 1, 2)
    return proximity.ProximityCombo([one, one]).op(x, **kw)


def _lincombo(kw, seed):
    kw = dict(kw)
    op = linear.LinearCombo([linear.MatrixOperator(rnd(seed, 2, 3)), linear.MatrixOperator(rnd(seed + 1, 2, 3))], **kw)
    return op.adj_op(op.op(rnd(seed, 3)))


def _cwb(kw, seed):
    r = reweight.cwbReweight(np.abs(rnd(seed, 4)) + 0.1, **kw)
    r.reweight(rnd(seed + 1, 4))
    return r.weights


def _npnd(kw, seed):
    a = np.arange(4)
    a.flags.writeable = bool(seed % 2)
    types.check_npndarray(a, **{"verbose": False, **kw})
    return a.flags.writeable


def _svd_n(kw, seed):
    return svd.svd_thresh(rnd(seed, 9, 5), n_pc=1 + seed % 3, **kw)


def _transpose(kw, seed):
    import io
    from contextlib import redirect_stdout

    from modopt.signal.validation import transpose_test
    a, args = rnd(seed, 3, 3), []

    def op(x, arg):
        args.append(arg)
        return a @ x

    buf = io.StringIO()
    with redirect_stdout(buf):
        transpose_test(op, lambda y, arg: args.append(arg) or (a.T + 0.5) @ y, **{"x_shape": (3,), "rng": seed, **kw})
    return [buf.getvalue(), args]


FUNCS = {
    "costObj": (_cost, {"initial_cost": 1e6, "tolerance": 1e-4, "cost_interval": 1, "test_range": 4, "plot_output": None}),
    "MetricObserver": (_metric, {"early_stopping": False, "wind": 6, "eps": 1e-3}),
    "MetricObserver early": (_metric_early, {"wind": 6, "eps": 1e-3}),
    "PowerMethod": (_power, {"data_type": float, "auto_run": True, "compute_backend": "numpy", "tolerance": 1e-6, "max_iter": 20, "extra_factor": 1.0}),
    "PowerMethod slow": (_power_slow, {"tolerance": 1e-6, "max_iter": 20, "extra_factor": 1.0}),
    "call_mr_transform": (_fits, {"opt": "", "path": "./", "remove_files": True}),
    "get_mr_filters": (_mr_filters, {"opt": "", "coarse": False, "trim": False}),
    "GradBasic": (_grad_parent, {"data_type": None, "input_data_writeable": False}),
    "LowRankMatrix": (_lowrank, {"thresh_type": "soft", "lowr_type": "standard", "initial_rank": None, "operator": None, "extra_factor": 1.0, "rank": None}),
    "SparseThreshold.op": (_prox(lambda: proximity.SparseThreshold(linear.Identity(), 0.7)), {"extra_factor": 1.0}),
    "SparseThreshold": (lambda kw, s: proximity.SparseThreshold(linear.Identity(), 0.7, **kw).op(rnd(s, 5)), {"thresh_type": "soft"}),
    "Ridge.op": (_prox(lambda: proximity.Ridge(linear.Identity(), 0.7)), {"extra_factor": 1.0}),
    "ElasticNet.op": (_prox(lambda: proximity.ElasticNet(linear.Identity(), 0.3, 0.7)), {"extra_factor": 1.0}),
    "KSupportNorm.op": (_prox(lambda: proximity.KSupportNorm(0.5, 2)), {"extra_factor": 1.0}),
    "GroupLASSO.op": (_prox(lambda: proximity.GroupLASSO(0.5)), {"extra_factor": 1.0}),
    "OrderedWeightedL1Norm.op": (_owl, {"extra_factor": 1.0}),
    "LinearCompositionProx.op": (_prox(lambda: proximity.LinearCompositionProx(linear.MatrixOperator(np.eye(4)[::-1].copy()), proximity.SparseThreshold(linear.Identity(), 0.4))), {"extra_factor": 1.0}),
    "ProximityCombo.op": (_combo, {"extra_factor": 1.0}),
    "LinearCombo": (_lincombo, {"weights": None}),
    "cwbReweight": (_cwb, {"thresh_factor": 1.0, "verbose": False}),
    "check_npndarray": (_npnd, {"dtype": None, "writeable": True}),
    "thresh": (lambda kw, s: noise.thresh(rnd(s, 6), 1.0, **kw), {"threshold_type": "hard"}),
    "add_noise": (lambda kw, s: noise.add_noise(np.abs(rnd(s, 6)) * 3, rng=s, **kw), {"sigma": 1.0, "noise_type": "gauss"}),
    "svd_thresh": (lambda kw, s: svd.svd_thresh(rnd(s, 9, 5), threshold=3.0, **kw), {"n_pc": None, "thresh_type": "hard"}),
    "svd_thresh n_pc": (_svd_n, {"threshold": None, "thresh_type": "hard"}),
    "svd_thresh_coef_fast": (lambda kw, s: svd.svd_thresh_coef_fast(rnd(s, 9, 7), 3.0, **kw)[1], {"n_vals": -1, "extra_vals": 5, "thresh_type": "hard"}),
    "svd_thresh_coef": (lambda kw, s: svd.svd_thresh_coef(rnd(s, 9, 5), lambda z: z, 0.8, **kw), {"thresh_type": "hard"}),
    "find_n_pc": (lambda kw, s: int(svd.find_n_pc(np.linalg.svd(np.cumsum(rnd(s, 9, 5), axis=0), full_matrices=False)[0] + (s % 3) * 0.2, **kw)), {"factor": 0.5}),
    "gaussian_filter": (lambda kw, s: filt.gaussian_filter(rnd(s, 4), 1.3, **kw), {"norm": True}),
    "positive": (lambda kw, s: positivity.positive(rnd(s, 4), **kw), {"ragged": False}),
    "convolve": (lambda kw, s: conv.convolve(rnd(s, 5, 5), rnd(s + 1, 3, 3), **kw), {"method": "scipy"}),
    "convolve_stack": (lambda kw, s: conv.convolve_stack(rnd(s, 2, 5, 5), rnd(s + 1, 2, 3, 3), **kw), {"rot_kernel": False, "method": "scipy"}),
    "filter_convolve": (lambda kw, s: wavelet.filter_convolve(rnd(s, 5, 5), rnd(s + 1, 2, 3, 3), **kw), {"filter_rot": False, "method": "scipy"}),
    "filter_convolve_stack": (lambda kw, s: wavelet.filter_convolve_stack(rnd(s, 2, 5, 5), rnd(s + 1, 2, 3, 3), **kw), {"filter_rot": False, "method": "scipy"}),
    "WaveletConvolve": (lambda kw, s: linear.WaveletConvolve(rnd(s + 1, 2, 3, 3), **kw).op(rnd(s, 1, 5, 5)), {"method": "scipy"}),
    "WaveletTransform": (lambda kw, s: linear.WaveletTransform("haar", (32,), mode="periodization", **kw).op(rnd(s, 32)), {"level": 4, "n_batch": 1, "n_jobs": 1, "compute_backend": "numpy"}),
    "gram_schmidt": (lambda kw, s: matrix.gram_schmidt(rnd(s, 3, 3), **kw), {"return_opt": "orthonormal"}),
    "stats.psnr": (lambda kw, s: stats.psnr(rnd(s, 3, 3), rnd(s + 1, 3, 3), **kw), {"method": "starck", "max_pix": 255}),
    "stats.psnr wiki": (lambda kw, s: stats.psnr(rnd(s, 3, 3), rnd(s + 1, 3, 3), method="wiki", **kw), {"max_pix": 255}),
    "psnr_stack": (lambda kw, s: stats.psnr_stack(rnd(s, 3, 3, 3), rnd(s + 1, 3, 3, 3), **kw), {"metric": np.mean, "method": "starck"}),
    "gaussian_kernel": (lambda kw, s: stats.gaussian_kernel((5, 5), 1.0 + s % 3, **kw), {"norm": "max"}),
    "fancy_transpose": (lambda kw, s: np_adjust.fancy_transpose(rnd(s, 2, 3, 4), **kw), {"roll": 1}),
    "metrics.mse": (lambda kw, s: metrics.mse(rnd(s, 4, 4), rnd(s + 1, 4, 4), **kw), {"mask": None}),
    "metrics.snr": (lambda kw, s: metrics.snr(rnd(s, 4, 4), rnd(s + 1, 4, 4), **kw), {"mask": None}),
    "metrics.psnr": (lambda kw, s: metrics.psnr(rnd(s, 4, 4), rnd(s + 1, 4, 4), **kw), {"mask": None}),
    "metrics.nrmse": (lambda kw, s: metrics.nrmse(rnd(s, 4, 4), rnd(s + 1, 4, 4), **kw), {"mask": None}),
    "metrics.ssim": (lambda kw, s: metrics.ssim(rnd(s, 8, 8), rnd(s + 1, 8, 8), **kw), {"mask": None}),
    "transpose_test": (_transpose, {"x_args": None, "y_shape": (3,), "y_args": None}),
}


@st.composite
def func_case(draw):
    name = draw(st.sampled_from(sorted(FUNCS)))
    return {"name": name, "seed": draw(st.integers(0, 100000)), "keep": draw(st.one_of(st.just([]), st.lists(st.sampled_from(sorted(FUNCS[name][1])), max_size=3, unique=True)))}


@PROP.sub("functions", func_case(), quick=3000, factor=20, shards=8, rule="at least one default left out")
def functions(c):
    run, full = FUNCS[c["name"]]
    part = {k: full[k] for k in c["keep"]}
    want, got = run(dict(full), c["seed"]), run(part, c["seed"])
    need(same(got, want), lambda: f"{c['name']} with defaults for all but {sorted(part)}: {got!r}, with the documented values written out {want!r}"[:1500])
    return len(part) < len(full)


# --------------------------------------------------------------- with any other options
OPTIONAL = sorted(n for n in catalogue.ENTRIES if any(catalogue.NOTHING is not catalogue.Arg(w, None).default for w in catalogue.ENTRIES[n][0] if w != "*"))


def outcome(call, changes):
    try:
        with np.errstate(all="ignore"):
            return catalogue.flat(call(**changes))
    except (ValueError, TypeError, np.linalg.LinAlgError) as e:
        return type(e).__name__


@PROP.sub("catalogue", fixed(name=st.sampled_from(OPTIONAL), seed=seeds, pick=seeds), quick=3000, factor=20, shards=8, rule="at least one default left out, and results other than zero")
def with_options(c):
    """Some arguments left out, while the others have any value: as when the documented default is written out."""
    make = lambda: catalogue.Call(c["name"], c["seed"] % 2**31)
    rs = np.random.RandomState(c["pick"] % 2**32)
    names = [a for a in make().args if a.default is not catalogue.NOTHING]
    names = [names[i] for i in rs.permutation(len(names))[: rs.randint(1, min(4, len(names)) + 1)]]
    want = outcome(make(), {a.name: a.default for a in names})
    got = outcome(make(), {a.name: catalogue.NOTHING for a in names})
    rest = {a.name: a.value for a in make().args if a.name not in [b.name for b in names]}
    tell = lambda: f"{c['name']} without { {a.name: a.default for a in names} } and with {rest}"
    if isinstance(got, str) or isinstance(want, str):
        need(isinstance(got, str) == isinstance(want, str) and got == want, lambda: f"{tell()}: {got!r}, with the documented values written out {want!r}"[:1500])
        return False
    got, want = [v for v in got if v.dtype.kind not in "OUS"], [v for v in want if v.dtype.kind not in "OUS"]
    need(same(got, want), lambda: f"{tell()}: {got!r}, with the documented values written out {want!r}"[:1500])
    return any(np.any(v) for v in want)
