"""C36: changing the unit of the data changes the result by the same unit and nothing else."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st
from modopt.base import np_adjust, transform
from modopt.base.observable import MetricObserver, SignalObject
from modopt.math import convolve as mconv
from modopt.math import matrix, metrics, stats
from modopt.opt import algorithms as al
from modopt.opt.algorithms.admm import ADMMcostObj
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, MatrixOperator, WaveletConvolve, WaveletTransform
from modopt.opt.proximity import ElasticNet, GroupLASSO, KSupportNorm, LinearCompositionProx, LowRankMatrix, OrderedWeightedL1Norm, Positivity, ProximityCombo, Ridge, SparseThreshold
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, wavelet

from harness.core import Prop
from harness.gen import expand, fixed, seeds
from harness.oracle import need

PROP = Prop(
    "C36",
    [
        "units are powers of two between 2^-150 and 2^150 (2^-30 and 2^30 for the k-support norm and the cost test), so that the scaling itself is exact; results are compared to 1e-7 of their size, since decompositions and transforms of other libraries need not scale exactly",
        "soft thresholding rounds to 15 decimals: an absolute error of 1e-15 per application is allowed where it is used, and amplified by the number of iterations in the solvers",
        "hard decisions (thresholds, ranks) are kept away from their boundaries by continuous random data",
        "the power method is run with tolerance 0 and the cost test away from costs below 1e-10: their documented tolerances are absolute",
    ],
)


class Case:
    """Random inputs whose dimension (the power of the unit they carry) is recorded."""

    def __init__(self, seed, u=1.0, big=False, cplx=False):
        self.rs, self.u, self.big, self.cplx = np.random.RandomState(seed % 2**32), u, big, cplx
        self.args = {}

    def n(self, lo, hi):
        return int(self.rs.randint(lo, hi + 1)) * (5 if self.big else 1)

    def pick(self, *options):
        return options[self.rs.randint(len(options))]

    def arr(self, *shape, deg=1, styles=("normal", "smooth", "nonneg"), cplx=None):
        cplx = self.cplx if cplx is None else cplx
        a = expand(self.rs.randint(2**31), shape, styles[self.rs.randint(len(styles))], complex if cplx else float)
        a = a * self.u**deg
        self.args[f"a{len(self.args)}"] = a
        return a

    def num(self, lo, hi, deg=1):
        return float(self.rs.uniform(lo, hi)) * self.u**deg


ITEMS = {}


def item(*degs, soft=0, cplx=False, rtol=1e-7):
    """degs: the dimension of each returned value; soft: how many soft thresholdings are involved."""
    def wrap(fn):
        ITEMS[fn.__name__] = (fn, degs, soft, cplx, rtol)
        return fn
    return wrap


# ------------------------------------------------------------------ signal and mathematics
@item(1, cplx=True)
def thresh_hard(c):
    return (noise.thresh(c.arr(c.n(1, 6), c.n(1, 6)), c.num(0.1, 2)),)


@item(1, soft=1, cplx=True)
def thresh_soft(c):
    return (noise.thresh(c.arr(c.n(1, 6), c.n(1, 6)), c.num(0.1, 2), "soft"),)


@item(1, 1)
def positive(c):
    x = c.arr(c.n(1, 20))
    return positivity.positive(x), positivity.positive(float(x[0]))


@item(0, -1, -0.5, -0.5)
def filters(c):
    x, y, s = c.arr(c.n(1, 8)), c.arr(c.n(1, 8)), c.num(0.5, 4)
    return sfilter.gaussian_filter(x, s, norm=False), sfilter.gaussian_filter(x, s), sfilter.mex_hat(x, s), sfilter.mex_hat_dir(float(y[0]), x, s)


@item(2, 2, cplx=True)
def convolutions(c):
    k, h, w = c.n(1, 3), c.n(3, 8), c.n(3, 8)
    x, f = c.arr(k, h, w), c.arr(k, 3, 3)
    m = "scipy" if c.cplx else c.pick("scipy", "astropy")
    return mconv.convolve_stack(x, f, method=m, rot_kernel=c.pick(True, False)), wavelet.filter_convolve_stack(x, f, method=m)


@item(1, 1, 0, cplx=True)
def decomposition(c):
    u, s, v = svd.calculate_svd(c.arr(c.n(2, 7), c.n(2, 7)))
    return s, (u * s) @ v, np.abs(u.conj().T @ u)


@item(1, cplx=True)
def svd_hard(c):
    x = c.arr(c.n(2, 7), c.n(2, 7), styles=("normal",))
    return (svd.svd_thresh(x, threshold=c.num(0.5, 4)),)


@item(1, soft=1, cplx=True)
def svd_soft(c):
    x = c.arr(c.n(2, 7), c.n(2, 7), styles=("normal",))
    return (svd.svd_thresh(x, threshold=c.num(0.5, 4), thresh_type="soft"),)


@item(1, 0)
def svd_ranks(c):
    s = int(c.rs.randint(2, 7))
    x = c.arr(s * s, c.n(2, 5), styles=("normal", "smooth"))
    return svd.svd_thresh(x, n_pc=c.pick(None, 1, 2, "all")), svd.find_n_pc(svd.calculate_svd(x)[0], factor=0.3)


@item(1, 0, cplx=True, rtol=1e-6)
def svd_fast(c):
    x = c.arr(c.n(2, 7), c.n(2, 7), styles=("normal",))
    return svd.svd_thresh_coef_fast(x, c.num(0.5, 4), n_vals=c.pick(None, -1, 1, 2))


@item(1)
def svd_coef(c):
    s = int(c.rs.randint(2, 6))
    return (svd.svd_thresh_coef(c.arr(s * s, c.n(2, 5), styles=("normal",)), lambda cube: 2.0 * cube, c.num(0.2, 2)),)


@item(1)
def gaussian_noise(c):
    return (noise.add_noise(c.arr(c.n(1, 6), c.n(1, 6)), sigma=c.num(0.5, 2), rng=int(c.rs.randint(9))),)


@item(1, 0, 0, 1, 1, 1, cplx=True)
def matrices(c):
    n = c.n(2, 5)
    m = np.eye(n)[::-1] * c.u * 3 + c.arr(n, n)
    e, o = matrix.gram_schmidt(m, "both")
    v = c.arr(n)
    return e, o, matrix.gram_schmidt(m), matrix.project(c.arr(n, deg=2), v), matrix.nuclear_norm(m), matrix.rotate(m, np.pi / 2)


@item(1, -1)
def power_method(c):
    n = c.n(2, 5)
    a = c.arr(n, n, styles=("normal",))
    a = a @ a.T / c.u
    p = matrix.PowerMethod(lambda x: a @ x, (n,), auto_run=False, rng=int(c.rs.randint(9)))
    p.get_spec_rad(tolerance=0.0, max_iter=int(c.rs.randint(1, 40)))
    return p.spec_rad, p.inv_spec_rad


@item(1, 1, 2, 0, 0, 0)
def statistics(c):
    k, n = c.n(1, 3), c.n(2, 6)
    a, b = c.arr(k, n, n, styles=("normal",)), c.arr(k, n, n, styles=("normal",))
    return stats.mad(a), stats.sigma_mad(a), stats.mse(a, b), stats.psnr(a[0], b[0]), stats.psnr(a[0], b[0], method="wiki", max_pix=c.num(3, 5)), stats.psnr_stack(a, b, method="starck")


@item(0, 0, 0, 0, 0, 0, 0, cplx=True)
def image_quality(c):
    n = c.n(7, 9)
    a, b = c.arr(n, n, styles=("normal",)), c.arr(n, n, styles=("normal",)) + c.arr(n, n, styles=("nonneg",))
    mask = (c.rs.random_sample((n, n)) < 0.8).astype(float) if c.pick(True, False) else None
    if mask is not None:
        mask[0, 0] = 1
    other = b / c.u  # the two images need not have the same unit
    return metrics.ssim(a, b, mask), metrics.ssim(a, other, mask), metrics.snr(a, b, mask), metrics.psnr(other, a, mask), metrics.mse(a, b, mask), metrics.nrmse(a, b, mask), metrics.nrmse(a, other, mask)


@item(1, 1, 1, 1, 1, 1, 1, 1)
def rearrangements(c):
    k, s = c.n(1, 3), c.n(1, 4)
    x = c.arr(k, s, s)
    m = transform.cube2map(x, (k, 1))
    return m, transform.map2cube(m, (k, 1)), transform.matrix2map(transform.cube2matrix(x), (k * s, s)), np_adjust.pad2d(x[0], (1, 2)), np_adjust.rotate_stack(x), transform.map2matrix(m, (k, 1)), np_adjust.fancy_transpose(x, c.pick(-2, -1, 1, 2)), np_adjust.ftr(np_adjust.ftl(x))


# ------------------------------------------------------------------------------ operators
@item(1, 1, 1, 1, cplx=True)
def linear_operators(c):
    n = c.n(2, 5)
    a = c.arr(n, n, deg=0)
    combo = LinearCombo([MatrixOperator(a), Identity()], weights=[0.25, 2.0])
    x = c.arr(n)
    f = c.arr(2, 3, 3, deg=0, cplx=False)
    img = c.arr(2, n + 3, n + 3)
    w = WaveletConvolve(f)
    y = combo.op(x)
    return np.concatenate(list(y)), combo.adj_op(y), w.op(img), w.adj_op(w.op(img))


@item(1, 1)
def wavelets(c):
    n = c.n(8, 20)
    w = WaveletTransform(c.pick("haar", "db2", "sym4", "bior2.2"), (n, n), level=1, mode=c.pick("symmetric", "periodization", "zero"))
    y = w.op(c.arr(n, n))
    return y, w.adj_op(y)


@item(1, 2, cplx=True)
def gradient(c):
    n, m = c.n(1, 5), c.n(1, 5)
    a = c.arr(m, n, deg=0)
    g = GradBasic(c.arr(m), lambda x: a @ x, lambda y: a.conj().T @ y, verbose=False)
    x = c.arr(n)
    g.get_grad(x)
    return g.grad, g.cost(x)


def prox_item(name, make, *degs, **kw):
    def run(c):
        p, x = make(c)
        f = c.pick(1.0, 0.5, 2.0)
        return p.op(x, extra_factor=f), p.cost(x)

    run.__name__ = "prox_" + name
    item(*degs, **kw)(run)


prox_item("sparse", lambda c: (SparseThreshold(Identity(), c.num(0.1, 2)), c.arr(c.n(1, 6), c.n(1, 6))), 1, 2, soft=1, cplx=True)
prox_item("sparse_hard", lambda c: (SparseThreshold(Identity(), c.num(0.1, 2), thresh_type="hard"), c.arr(c.n(1, 6), c.n(1, 6))), 1, 2, cplx=True)
prox_item("ridge", lambda c: (Ridge(Identity(), c.num(0.1, 2, deg=0)), c.arr(c.n(1, 20))), 1, 2, cplx=True)
prox_item("elastic", lambda c: (ElasticNet(Identity(), c.num(0.1, 2, deg=0), c.num(0.1, 2)), c.arr(c.n(1, 20))), 1, 2, soft=1, cplx=True)
prox_item("positivity", lambda c: (Positivity(), c.arr(c.n(1, 20))), 1, 0)
prox_item("group", lambda c: (GroupLASSO(np.abs(c.arr(c.n(1, 5)))), c.arr(c.n(1, 4), c.args["a0"].size)), 1, 2)
prox_item("owl", lambda c: (OrderedWeightedL1Norm(np.sort(np.abs(c.arr(c.n(2, 9))))[::-1].copy()), c.arr(c.args["a0"].size, styles=("normal",))), 1, 2)
prox_item("ksupport", lambda c: (KSupportNorm(c.num(0.1, 2, deg=0), int(c.rs.randint(1, 4))), c.arr(c.n(4, 8), styles=("normal",))), 1, 2, rtol=1e-5)
prox_item("low_rank", lambda c: (LowRankMatrix(c.num(0.5, 3), thresh_type=c.pick("soft", "hard"), initial_rank=c.pick(None, 1, 2)), c.arr(c.n(2, 4), 3, 3, styles=("normal",))), 1, 2, soft=1, cplx=True, rtol=1e-6)
prox_item("ngole", lambda c: (LowRankMatrix(c.num(0.2, 1), lowr_type="ngole", operator=lambda cube: 2.0 * cube), c.arr(c.n(2, 4), 4, 4, styles=("normal",))), 1, 2, soft=1)
prox_item("composed", lambda c: (LinearCompositionProx(MatrixOperator(np.linalg.qr(c.arr(4, 4, deg=0, styles=("normal",)))[0]), SparseThreshold(Identity(), c.num(0.1, 2))), c.arr(4, c.n(1, 5))), 1, 2, soft=4, cplx=True)


@item(1, 2, soft=1, cplx=True)
def prox_combo(c):
    p = ProximityCombo([SparseThreshold(Identity(), c.num(0.1, 2)), Ridge(Identity(), 0.3)])
    x = np.empty(2, dtype=object)
    x[0], x[1] = c.arr(c.n(1, 6)), c.arr(c.n(1, 6))
    return np.concatenate(list(p.op(x, extra_factor=0.5))), p.cost(x)


@item(1, 1)
def reweighting(c):
    n = c.n(1, 9)
    r = cwbReweight(np.abs(c.arr(n)) + c.u, thresh_factor=c.num(0.5, 2, deg=0))
    out = []
    for _ in range(3):
        r.reweight(c.arr(n))
        out.append(r.weights.copy())
    return tuple(out[-2:])


@item(0)
def cost_decisions(c):
    """The costs carry the unit; the moments at which they count as converged do not."""
    start, rate, floor = c.num(1, 9), float(c.rs.uniform(0.3, 0.99)), c.num(1, 3)
    seq = [start * rate**k + floor for k in range(60)]

    class Part:
        def cost(self, *a, **k):
            return seq.pop(0)

    obj = costObj([Part()], tolerance=c.pick(1e-4, 1e-2), test_range=c.pick(2, 4, 6), verbose=False)
    return (np.array([float(obj.get_cost(np.zeros(1))) for _ in range(60)]),)


@item(0, 1)
def metric_decisions(c):
    start, rate, floor = c.num(1, 9), float(c.rs.uniform(0.3, 0.99)), c.num(1, 3)
    obs = MetricObserver("m", lambda v: start * rate**v + floor, {"idx": "v"}, {}, early_stopping=True)
    flags = []
    for k in range(40):
        sig = SignalObject()
        sig.idx = k
        obs(sig)
        flags.append(float(obs.converge_flag))
    return np.array(flags), np.array(obs.retrieve_metrics()["values"])


# -------------------------------------------------------------------------------- solvers
def setting(c, cplx=None):
    n, m = c.n(1, 4), c.n(1, 4)
    a = c.arr(m, n, deg=0, styles=("normal",), cplx=cplx)
    b, x = c.arr(m, styles=("normal",), cplx=cplx), c.arr(n, styles=("normal",), cplx=cplx)
    lip = max(np.linalg.norm(a, 2) ** 2, 1e-3)
    g = GradBasic(b.copy(), lambda v: a @ v, lambda v: a.conj().T @ v, verbose=False)
    prox = c.pick(SparseThreshold(Identity(), c.num(0.01, 1)), Ridge(Identity(), 0.2), ElasticNet(Identity(), 0.1, c.num(0.01, 1)))
    return g, prox, x, 1.0 / lip, int(c.rs.randint(1, 30))


QUIET = {"cost": None, "auto_iterate": False, "progress": False}


@item(1, soft=200, cplx=True)
def forward_backward(c):
    g, p, x, step, n = setting(c)
    kw = c.pick({}, {"restart_strategy": "adaptive-ii", "xi_restart": 0.9}, {"restart_strategy": "greedy", "xi_restart": c.pick(0.9, 0.5), "min_beta": step * 0.3, "s_greedy": c.pick(1.1, 1.001, 1.5)}, {"a_cd": c.pick(3, 2.2, 20.0)}, {"lambda_update": None})
    s = al.ForwardBackward(x, g, p, beta_param=float(step) * (c.pick(0.9, 1.3, 1.9, 3.0) if "s_greedy" in kw else 0.9), **kw, **QUIET)
    s.iterate(max_iter=n)
    return (s.x_final,)


@item(1, soft=200, cplx=True)
def generalised(c):
    g, p, x, step, n = setting(c)
    s = al.GenForwardBackward(x, g, [p, Ridge(Identity(), 0.1)], gamma_param=float(step), **QUIET)
    s.iterate(max_iter=n)
    return (s.x_final,)


@item(1, soft=200, cplx=True)
def pogm(c):
    g, p, x, step, n = setting(c)
    s = al.POGM(x, x, x, x, g, p, beta_param=float(step) * 0.9, sigma_bar=c.pick(1.0, 0.5), **QUIET)
    s.iterate(max_iter=n)
    return (s.x_final,)


@item(1, 1, soft=200, cplx=True)
def condat(c):
    g, p, x, step, n = setting(c)
    dual = SparseThreshold(Identity(), c.num(0.05, 1))
    s = al.Condat(x, c.arr(x.size), g, p, dual, sigma=0.5, tau=float(1 / (1 / step + 0.5)), **QUIET)
    s.iterate(max_iter=n)
    return s.x_final, s.y_final


@item(1, soft=200)
def gradient_descent(c):
    g, p, x, step, n = setting(c, cplx=False)
    cls = c.pick(al.VanillaGenericGradOpt, al.MomentumGradOpt, al.SAGAOptGradOpt)
    kw = {"epoch_size": c.pick(1, 3), "epsilon": 1.0} if cls is al.SAGAOptGradOpt else {}
    s = cls(x, g, p, None, eta=float(step) * 0.1, progress=False, **kw)
    s.iterate(max_iter=n)
    return (s.x_final,)


@item(1, soft=200)
def adaptive_descent(c):
    g, p, x, _, n = setting(c, cplx=False)
    cls = c.pick(al.AdaGenericGradOpt, al.RMSpropGradOpt, al.ADAMGradOpt)
    kw = {"gamma": float(c.rs.uniform(0.1, 0.95))} if cls is not al.AdaGenericGradOpt else {}
    if cls is al.ADAMGradOpt:
        kw["beta"] = float(c.rs.uniform(0.1, 0.95))
    s = cls(x, g, Ridge(Identity(), 0.0), None, eta=c.num(0.05, 0.5), epsilon=c.num(1e-3, 1e-2), progress=False, **kw)
    s.iterate(max_iter=n)
    return (s.x_final,)


@item(1, 1)
def alternating(c):
    n = c.n(1, 4)
    a, b = c.arr(n, n, deg=0, styles=("normal",)), c.arr(n)
    u, v, mu = c.arr(n), c.arr(n), c.arr(n)
    one = Identity()
    cls = c.pick(al.ADMM, al.FastADMM)
    s = cls(u, v, mu, one, MatrixOperator(a * 0.3), b, (lambda init, obs: 0.5 * obs + 0.1 * init, lambda init, obs: -0.4 * obs), progress=False)
    s.iterate(max_iter=int(c.rs.randint(1, 30)))
    return s.u_final, s.v_final


@item(2, 0)
def alternating_costs(c):
    n = c.n(1, 4)
    a = MatrixOperator(c.arr(n, n, deg=0, styles=("normal",)))
    obj = ADMMcostObj((lambda u: 0.5 * np.sum(np.abs(u) ** 2), lambda v: np.sum(v**2)), a, Identity(), c.arr(n), c.num(0.1, 3, deg=0), tolerance=-1.0, verbose=False)
    flags = [float(bool(obj.get_cost(c.arr(n), c.arr(n)))) for _ in range(int(c.rs.randint(1, 9)))]
    return obj.cost, np.array(flags)


@item(1, 1, 1, soft=200)
def reweighted(c):
    """Condat with weights that follow the iterates."""
    g, p, x, step, n = setting(c, cplx=False)
    rw = cwbReweight(np.abs(c.arr(x.size)) + c.u, thresh_factor=c.num(0.5, 2, deg=0))
    s = al.Condat(x, c.arr(x.size), g, p, SparseThreshold(Identity(), rw.weights), sigma=0.5, tau=float(1 / (1 / step + 0.5)), reweight=rw, **QUIET)
    s.iterate(max_iter=min(n, 8), n_rewightings=c.pick(1, 2, 3))
    return s.x_final, s.y_final, rw.weights


@item(1, 2, 1, 0, soft=200, cplx=True, rtol=1e-6)
def observed(c):
    """Solvers with a cost and a metric: what these report carries the unit too."""
    g, p, x, step, n = setting(c)
    obj = costObj([g, p], tolerance=-1.0, cost_interval=c.pick(1, 2), verbose=False)
    met = {"size": {"metric": lambda v: float(np.linalg.norm(v)), "mapping": {"x_new": "v"}, "cst_kwargs": {}, "early_stopping": False}}
    kw = dict(cost=obj, metrics=met, metric_call_period=c.pick(1, 3), linear=Identity(), auto_iterate=False, progress=False)
    kind = c.pick("fb", "gfb", "pogm")
    if kind == "fb":
        s = al.ForwardBackward(x, g, p, beta_param=float(step) * 0.9, **kw)
    elif kind == "gfb":
        s = al.GenForwardBackward(x, g, [p, Ridge(Identity(), 0.1)], gamma_param=float(step), **kw)
    else:
        s = al.POGM(x, x, x, x, g, p, beta_param=float(step) * 0.9, **kw)
    s.iterate(max_iter=n + 1)
    return s.x_final, obj.cost, np.array(s.metrics["size"]["values"]), np.array(s.metrics["size"]["index"])


NAMES = sorted(ITEMS)


def run(name, seed, u, big, cplx):
    case = Case(seed, u, big, cplx)
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        out = ITEMS[name][0](case)
    return [np.asarray(o) for o in out], case


def check(c):
    fn, degs, soft, cplx_ok, rtol = ITEMS[c["name"]]
    k = max(-30, min(30, c["k"] // 2)) if c["name"] in ("cost_decisions", "prox_ksupport") else c["k"]
    u = 2.0 ** k
    cplx = cplx_ok and c["cplx"]
    base, case = run(c["name"], c["seed"], 1.0, c["big"], cplx)
    scaled, _ = run(c["name"], c["seed"], u, c["big"], cplx)
    need(len(base) == len(scaled) == len(degs), lambda: f"{c['name']}: {len(base)} results, {len(degs)} dimensions")
    for i, (b, s, d) in enumerate(zip(base, scaled, degs)):
        need(b.shape == s.shape, lambda: f"{c['name']}, result {i}: shape {s.shape} in another unit, {b.shape} before")
        fb, fs = np.isfinite(b), np.isfinite(s)
        need(np.array_equal(fb, fs), lambda: f"{c['name']}, result {i}: non-finite entries in one unit only\n {b}\n {s}")
        b, s = b[fb], s[fs] / u**d
        if b.size == 0:
            continue
        size = max(1e-300, float(np.max(np.abs(b))))
        err = float(np.max(np.abs(b - s)))
        slack = 3e-15 * soft * max(1.0, u**-d) if soft else 0.0
        need(err <= rtol * size + slack, lambda: f"{c['name']}, result {i}: with the data multiplied by 2^{k} the result, in the new unit, differs by {err:.3e} of {size:.3e}\n {b[:12]}\n {s[:12]}")
    return k != 0 and any(np.any(b) for b in base)


GROUPS = {
    "signal": ["thresh_hard", "thresh_soft", "positive", "filters", "convolutions", "decomposition", "svd_hard", "svd_soft", "svd_ranks", "svd_fast", "svd_coef", "gaussian_noise", "reweighting", "rearrangements"],
    "mathematics": ["matrices", "power_method", "statistics", "image_quality", "cost_decisions", "metric_decisions"],
    "operators": ["linear_operators", "wavelets", "gradient", "prox_combo", *[n for n in NAMES if n.startswith("prox_") and n != "prox_combo"]],
    "solvers": ["forward_backward", "generalised", "pogm", "condat", "gradient_descent", "adaptive_descent", "alternating", "alternating_costs", "reweighted", "observed"],
}
assert sorted(sum(GROUPS.values(), [])) == NAMES


def register(group, quick):
    strat = fixed(name=st.sampled_from(GROUPS[group]), seed=seeds, k=st.one_of(st.integers(-60, 60), st.sampled_from([-60, -40, -20, 20, 60]), st.integers(-150, 150)), big=st.integers(0, 5).map(lambda v: v == 0), cplx=st.booleans())

    def sub(c):
        return check(c)

    sub.__doc__ = f"Metamorphic: f(u * data) = u^d f(data) for {len(GROUPS[group])} functions ({group})."
    PROP.sub(group, strat, quick=quick, factor=20, rule="a unit other than 1 and a result that is not zero")(sub)


register("signal", 5000)
register("mathematics", 3000)
register("operators", 6000)
register("solvers", 3000)
