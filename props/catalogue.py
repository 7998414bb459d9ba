"""A wide catalogue of calls: public functions, operators and solvers with generated options."""
import contextlib
import io
import threading

import numpy as np
from modopt.base import np_adjust, transform, types
from modopt.base.observable import MetricObserver, Observable, SignalObject
from modopt.math import convolve as mconv
from modopt.math import matrix, metrics, stats
from modopt.opt import algorithms as al
from modopt.opt.algorithms.admm import ADMMcostObj
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic, GradParent
from modopt.opt.linear import Identity, LinearCombo, LinearParent, MatrixOperator, WaveletConvolve, WaveletTransform
from modopt.opt.linear.wavelet import CPUWaveletTransform
from modopt.opt.proximity import ElasticNet, GroupLASSO, IdentityProx, KSupportNorm, LinearCompositionProx, LowRankMatrix, OrderedWeightedL1Norm, Positivity, ProximityCombo, ProximityParent, Ridge, SparseThreshold
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, validation, wavelet

from props.c37 import Case

# name -> (words, build[, True for operators]); build gives, from a Case, the function and the values of its
# arguments. A word is "name:kind=default": the kind tells how else the value may be spelled ("arr" for arrays
# of any number type, "step" for numbers that must be floats); arguments after "*" go by name only.
ENTRIES = {}


def quiet():
    """Hides what is printed (not from several threads at once: sys.stdout is one for all)."""
    return contextlib.redirect_stdout(io.StringIO()) if threading.current_thread() is threading.main_thread() else contextlib.nullcontext()


def respell(c, v, kind):
    if v is None or callable(v):
        return v
    if kind in ("float", "step"):
        opts = [float(v), np.float64(v), np.asarray(v, float)[()]]
        if float(np.float32(v)) == v:
            opts.append(np.float32(v))
        if kind == "float" and float(v).is_integer():
            opts += [int(v), np.int64(v), np.int32(v)]
        return c.pick(*opts)
    if kind == "int":
        return c.pick(int(v), np.int64(v), np.int32(v), np.asarray(v)[()])
    if kind == "bool":
        return c.pick(bool(v), np.bool_(v))
    if kind == "str":
        return c.pick(str(v), np.str_(v))
    if kind == "ints":
        return c.pick(tuple, tuple, list)([c.pick(int, np.int64, np.int32)(i) for i in v])
    if kind == "shape":
        return tuple(c.pick(int, np.int64, np.int32)(i) for i in v)
    if kind == "seq":
        return c.pick(list, tuple)(v)
    return v


NOTHING = object()


class Arg:
    def __init__(self, word, value):
        word, _, default = word.partition("=")
        self.name, _, self.kind = word.partition(":")
        self.value, self.default = value, eval(default) if default else NOTHING


class Call:
    """One call: a function and its arguments, made from a seed."""

    def __init__(self, name, seed):
        words, build, *operator = ENTRIES[name]
        self.name = name
        self.fn, values = build(Case(seed, False, False))
        self.limit = words.index("*") if "*" in words else len(words)
        words = [w for w in words if w != "*"]
        assert len(words) == len(values), (name, words, len(values))
        self.args = [Arg(w, v) for w, v in zip(words, values)]
        self.extra = {"factor": Case(seed + 1, False, False).pick(1.0, 2.0, 0.5), "where": False} if operator else {}

    def values(self):
        return {a.name: a.value for a in self.args}

    def __call__(self, **changes):
        kw = self.values() | changes
        return self.fn(**{k: v for k, v in kw.items() if v is not NOTHING}, **self.extra)


def entry(*order):
    def wrap(fn):
        ENTRIES[fn.__name__] = (order, fn)
        return fn
    return wrap


def flat(out):
    if isinstance(out, (list, tuple)):
        return [v for o in out for v in flat(o)]
    if isinstance(out, np.ndarray) and out.dtype == object:
        return [v for o in out.ravel() for v in flat(o)]
    out = np.asarray(out)
    return [out.astype(float) if out.dtype.kind == "b" else out]


# A function returns what to call and the values of its arguments, in their documented order.
def simple(fn, order):
    """``order``: words ``name:kind``; the entry returns the values."""
    def wrap(build):
        ENTRIES[build.__name__] = (tuple(order.split()), lambda c: (fn, build(c)))
        return build
    return wrap


METHOD = lambda c: c.pick("scipy", "astropy")
KIND = lambda c: c.pick("hard", "soft")


# ---------------------------------------------------------------------------------- signal
@simple(noise.thresh, "input_data:arr threshold:float threshold_type:str='hard'")
def thresh(c):
    return c.gen(5), c.pick(1.0, 0.5, 2.0), KIND(c)


@simple(noise.add_noise, "input_data:arr sigma:float=1.0 noise_type:str='gauss' rng:int")
def add_noise(c):
    return np.abs(c.gen(6)) * 9, c.pick(1.0, 2.0, 0.5), c.pick("gauss", "poisson"), c.n(0, 1000)


@simple(sfilter.gaussian_filter, "data_point:arr sigma:float norm:bool=True")
def gaussian_filter(c):
    return c.gen(4), c.pick(1.0, 2.0, 0.7), c.flag()


@simple(sfilter.mex_hat, "data_point:arr sigma:float")
def mex_hat(c):
    return c.gen(4), c.pick(1.0, 2.0, 0.7)


@simple(sfilter.mex_hat_dir, "data_gauss:arr data_mex:arr sigma:float")
def mex_hat_dir(c):
    return c.gen(4), c.gen(4), c.pick(1.0, 2.0, 0.7)


@simple(positivity.positive, "input_data ragged:bool=False")
def positive(c):
    if c.flag():
        x = np.empty(2, dtype=object)
        x[0], x[1] = c.gen(2), c.gen(3)
        return x, True
    return c.gen(4), False


@simple(svd.find_n_pc, "u_vec factor:float=0.5")
def find_n_pc(c):
    return np.linalg.svd(np.cumsum(c.gen(9, 5), axis=0), full_matrices=False)[0] + c.num(0, 0.4), c.pick(0.5, 0.1, 1.0)


@simple(svd.svd_thresh, "input_data:arr threshold:float=None n_pc:int=None thresh_type:str='hard'")
def svd_thresh(c):
    return c.gen(6, 4), c.pick(2.0, 1.5, 4.0), None, KIND(c)


@simple(svd.svd_thresh, "input_data:arr threshold=None n_pc:int thresh_type:str='hard'")
def svd_thresh_components(c):
    return c.gen(6, 4), None, c.n(1, 4), KIND(c)


@simple(svd.svd_thresh, "input_data:arr threshold=None n_pc:str")
def svd_thresh_all(c):
    return c.gen(9, 4), None, "all"


@simple(svd.svd_thresh_coef_fast, "input_data:arr threshold:float n_vals:int=-1 extra_vals:int=5 thresh_type:str='hard'")
def svd_thresh_coef_fast(c):
    return c.gen(6, 9), c.pick(2.0, 1.5, 4.0), c.pick(-1, 1, 2, 3), c.n(1, 4), KIND(c)


@simple(svd.svd_thresh_coef, "input_data:arr operator threshold:float thresh_type:str='hard'")
def svd_thresh_coef(c):
    k = c.gen(4, 3, 3)
    return c.gen(9, 4), (lambda x: x * k), c.pick(1.0, 0.5), KIND(c)


@simple(wavelet.filter_convolve, "input_data:arr filters:arr filter_rot:bool=False method:str='scipy'")
def filter_convolve(c):
    return (c.gen(3, 5, 5), c.gen(3, 3, 3), True, METHOD(c)) if c.flag() else (c.gen(5, 5), c.gen(3, 3, 3), False, METHOD(c))


@simple(wavelet.filter_convolve_stack, "input_data:arr filters:arr filter_rot:bool=False method:str='scipy'")
def filter_convolve_stack(c):
    return (c.gen(2, 3, 5, 5), c.gen(3, 3, 3), True, METHOD(c)) if c.flag() else (c.gen(2, 5, 5), c.gen(3, 3, 3), False, METHOD(c))


def _transpose_test(*a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        validation.transpose_test(*a, **k)
    return [float(w) for w in buf.getvalue().replace("=", " ").split() if w[-1:].isdigit()]


@simple(_transpose_test, "operator operator_t x_shape:shape x_args y_shape:shape=None y_args=None rng:int")
def transpose_test(c):
    m, n = c.pick((2, 2), (3, 2))
    a, b = c.gen(m, n), c.gen(n, m)
    return (lambda x, s: a @ x * s), (lambda y, s: b @ y * s), (n,), 2.0, (m,) if m != n else c.pick(None, (2,)), c.pick(None, 3.0), c.n(0, 1000)


# ----------------------------------------------------------------------------- mathematics
@simple(mconv.convolve, "input_data:arr kernel:arr method:str='scipy'")
def convolve(c):
    return c.gen(4, 5), c.gen(3, 3), METHOD(c)


@simple(mconv.convolve_stack, "input_data:arr kernel:arr rot_kernel:bool=False method:str='scipy'")
def convolve_stack(c):
    return c.gen(2, 4, 5), c.gen(2, 3, 3), c.flag(), METHOD(c)


@simple(matrix.gram_schmidt, "matrix:arr return_opt:str='orthonormal'")
def gram_schmidt(c):
    return c.gen(3, 4), c.pick("orthonormal", "orthogonal", "both")


@simple(matrix.project, "u_vec:arr v_vec:arr")
def project(c):
    return c.gen(3), c.gen(3)


@simple(matrix.rot_matrix, "angle:float")
def rot_matrix(c):
    return (c.pick(1.0, 0.5, -2.0),)


@simple(matrix.rotate, "matrix:arr angle:float")
def rotate(c):
    return c.gen(5, 5), c.pick(np.pi / 2, 1.0, 0.0)


def _power(*a, **k):
    pm = matrix.PowerMethod(*a, **k)
    if not hasattr(pm, "spec_rad") or pm.spec_rad is None:
        pm.get_spec_rad()
    return [pm.spec_rad, pm.inv_spec_rad]


@simple(_power, "operator data_shape:shape data_type=float auto_run:bool=True compute_backend:str='numpy' verbose:bool=False rng:int")
def power_method(c):
    d = c.gen(2, 3)
    return (lambda x: d * x), (2, 3), c.pick(float, complex), c.flag(), "numpy", False, c.n(0, 1000)


def _power_run(*a, **k):
    d, n = np.array([1.0, 0.95, 0.3]), [0]

    def op(x):
        n[0] += 1
        return d * x

    pm = matrix.PowerMethod(op, (3,), auto_run=False, rng=5)
    pm.get_spec_rad(*a, **k)
    return [n[0], pm.spec_rad, pm.inv_spec_rad]


@simple(_power_run, "tolerance:float=1e-6 max_iter:int=20 extra_factor:float=1.0")
def power_method_run(c):
    return c.pick(1e-3, 1e-2, 0.0), c.n(1, 30), c.pick(1.0, 2.0, 1.5)


@simple(metrics.ssim, "test:arr ref:arr mask=None")
def ssim(c):
    return c.gen(8, 8), c.gen(8, 8), c.pick(None, (c.gen(8, 8) > -1).astype(float))


def masked(fn):
    def build(c):
        return c.gen(4, 4), c.gen(4, 4), c.pick(None, (c.gen(4, 4) > -1).astype(float))

    build.__name__ = "metrics_" + fn.__name__
    simple(fn, "test:arr ref:arr mask=None")(build)


for _f in (metrics.snr, metrics.psnr, metrics.mse, metrics.nrmse):
    masked(_f)


@simple(stats.gaussian_kernel, "data_shape:shape sigma:float norm:str='max'")
def gaussian_kernel(c):
    return (c.pick(3, 5), c.pick(5, 7)), c.pick(1.0, 2.0, 0.8), c.pick("max", "sum")


@simple(stats.mse, "data1:arr data2:arr")
def mse(c):
    return c.gen(4), c.gen(4)


@simple(stats.psnr, "data1:arr data2:arr method:str='starck' max_pix:int=255")
def psnr(c):
    return c.gen(4, 4), c.gen(4, 4), c.pick("starck", "wiki"), c.pick(255, 100)


@simple(stats.psnr_stack, "data1:arr data2:arr metric=np.mean method:str='starck'")
def psnr_stack(c):
    return c.gen(3, 4, 4), c.gen(3, 4, 4), c.pick(np.mean, np.median, np.max), c.pick("starck", "wiki")


# ------------------------------------------------------------------------------------ base
@simple(np_adjust.pad2d, "input_data:arr padding:ints")
def pad2d(c):
    return c.gen(3, 4), (c.n(0, 3), c.n(0, 3))


@simple(np_adjust.pad2d, "input_data:arr padding:int")
def pad2d_one(c):
    return c.gen(3, 4), c.n(0, 3)


@simple(np_adjust.fancy_transpose, "input_data:arr roll:int=1")
def fancy_transpose(c):
    return c.gen(2, 3, 4), c.n(-4, 4)


@simple(transform.cube2map, "data_cube:arr layout:shape")
def cube2map(c):
    return c.gen(6, 2, 4), (c.pick((2, 3), (1, 6), (6, 1), (3, 2)))


@simple(transform.map2cube, "data_map:arr layout:shape")
def map2cube(c):
    return c.gen(6, 12), (c.pick((2, 3), (1, 6), (6, 1), (3, 2)))


@simple(transform.map2matrix, "data_map:arr layout:shape")
def map2matrix(c):
    a, b = c.pick((2, 3), (1, 6), (3, 2))
    return c.gen(2 * a, 2 * b), (a, b)


@simple(transform.matrix2map, "data_matrix:arr map_shape:shape")
def matrix2map(c):
    a, b = c.pick((2, 3), (1, 6), (3, 2))
    return c.gen(4, a * b), (2 * a, 2 * b)


@simple(transform.matrix2cube, "data_matrix:arr im_shape:shape")
def matrix2cube(c):
    return c.gen(6, 4), (2, 3)


def _npnd(*a, **k):
    x = a[0] if a else k["input_obj"]
    x.flags.writeable = True
    types.check_npndarray(*a, **k)
    return [x.flags.writeable]


@simple(_npnd, "input_obj dtype=None writeable:bool=True verbose:bool")
def check_npndarray(c):
    return c.gen(3), np.floating, c.flag(), False


def _observer(*a, **k):
    m, out = MetricObserver(*a, **k), []
    for i in range(25):
        s = SignalObject()
        s.value, s.idx = 1 + 0.5**i, i
        m(s)
        out.append(bool(m.converge_flag))
    rec = m.retrieve_metrics()
    return [m.name == "name", out, rec["values"]]


@simple(_observer, "name metric mapping cst_kwargs early_stopping:bool=False wind:int=6 eps:float=1e-3")
def metric_observer(c):
    return "name", (lambda v, k: v * k), {"value": "v"}, {"k": 2.0}, c.flag(), c.n(2, 6), c.pick(1e-3, 1e-2, 1.0, 0.0)


def _observable(*a, **k):
    o, seen = Observable(*a, **k), []
    f, g = (lambda s: seen.append(("f", s.value))), (lambda s: seen.append(("g", s.value)))
    o.add_observer(*[("a", f), ("a", g)][0])
    o.add_observer(signal="a", observer=g)
    o.notify_observers("a", value=1.0)
    o.remove_observer(signal="a", observer=f)
    o.notify_observers(signal="a", value=2.0)
    return [n == "f" for n, _ in seen] + [v for _, v in seen]


@simple(_observable, "signals:seq")
def observable(c):
    return (["a", "b"],)


def one(name, fn, word, build):
    """A function of one array."""
    build.__name__ = name
    simple(fn, word)(build)


one("calculate_svd", lambda input_data: [np.abs(v) for v in svd.calculate_svd(input_data)], "input_data:arr", lambda c: (c.gen(5, 3),))
one("nuclear_norm", matrix.nuclear_norm, "input_data:arr", lambda c: (c.gen(4, 3),))
one("np_rotate", np_adjust.rotate, "input_data:arr", lambda c: (c.gen(4, 3),))
one("rotate_stack", np_adjust.rotate_stack, "input_data:arr", lambda c: (c.gen(2, 4, 3),))
one("ftr", np_adjust.ftr, "input_data:arr", lambda c: (c.gen(2, 4, 3),))
one("ftl", np_adjust.ftl, "input_data:arr", lambda c: (c.gen(2, 4, 3),))
one("mad", stats.mad, "input_data:arr", lambda c: (c.gen(7, 3),))
one("sigma_mad", stats.sigma_mad, "input_data:arr", lambda c: (c.gen(7, 3),))
one("cube2matrix", transform.cube2matrix, "data_cube:arr", lambda c: (c.gen(2, 4, 3),))
one("trim_filter", wavelet.trim_filter, "filter_array:arr", lambda c: (np.pad(1 + np.abs(c.gen(2, 3)), 2),))
one("check_float", types.check_float, "input_obj", lambda c: (c.pick(3, 2.5, np.int64(4), np.arange(3), [1, 2.5], (1, 2)),))
one("check_int", types.check_int, "input_obj", lambda c: (c.pick(3, 2.5, np.float64(4.2), np.arange(3.0), [1, 2.5], (1.5, 2)),))
one("normalised", metrics.min_max_normalize, "img:arr", lambda c: (c.gen(4, 3),))


# ------------------------------------------------------------------------------- operators
def call_both(obj, c_args, kw_first):
    """``op`` of a proximity operator, the extra factor by position or by name."""
    x, f = c_args
    return obj.op(x.copy(), f) if kw_first else obj.op(x.copy(), extra_factor=f)


def proximal(cls, order, data, **fixedkw):
    def wrap(build):
        def fn(*a, factor, where, **k):
            o, x = cls(*a, **k), data()
            out = [call_both(o, (x, factor), where)]
            with quiet():
                out.append(o.cost(x.copy()))
            return out

        ENTRIES[build.__name__] = (tuple(order.split()), lambda c: (fn, build(c)), True)
        return build
    return wrap


X = lambda *s: lambda: np.random.RandomState(3).standard_normal(s) * 2


@proximal(SparseThreshold, "linear weights:float thresh_type:str='soft'", X(5))
def sparse_threshold(c):
    return Identity(), c.pick(1.0, 0.5, 2.0), c.pick("hard", "soft")


@proximal(Ridge, "linear weights:float", X(5))
def ridge(c):
    return Identity(), c.pick(1.0, 0.5, 2.0)


@proximal(ElasticNet, "linear alpha:float beta:float", X(5))
def elastic_net(c):
    return Identity(), c.pick(1.0, 0.5, 2.0), c.pick(1.0, 0.3, 3.0)


@proximal(KSupportNorm, "beta:float k_value:int", X(6))
def k_support(c):
    return c.pick(1.0, 0.5, 2.0), c.n(1, 6)


@proximal(GroupLASSO, "weights:float", X(3, 4))
def group_lasso(c):
    return (c.pick(1.0, 0.5, 2.0),)


@proximal(OrderedWeightedL1Norm, "weights", X(5))
def owl(c):
    return (np.sort(np.abs(c.gen(5)))[::-1].copy(),)


@proximal(LinearCompositionProx, "linear_op prox_op", X(4))
def composition(c):
    return MatrixOperator(np.eye(4)[::-1].copy()), SparseThreshold(Identity(), c.pick(0.5, 1.0))


@proximal(ProximityCombo, "operators", X(2, 4))
def proximity_combo(c):
    return ([SparseThreshold(Identity(), c.pick(0.5, 1.0)), Ridge(Identity(), 0.7)],)


@proximal(ProximityParent, "op cost", X(4))
def proximity_parent(c):
    return (lambda x, extra_factor=1.0: 0.5 * x * extra_factor), (lambda x: np.sum(np.abs(x)))


def _positivity(factor, where):
    return [call_both(Positivity(), (X(4)(), factor), where), call_both(IdentityProx(), (X(4)(), factor), where)]


ENTRIES["positivity_op"] = ((), lambda c: (_positivity, ()), True)


def _low_rank(*a, rank, factor, how, **k):
    o, x = LowRankMatrix(*a, **k), X(4, 3, 3)()
    out = [o.op(x.copy(), factor, rank) if how else o.op(x.copy(), rank=rank, extra_factor=factor)]
    with quiet():
        return [*out, o.cost(x)]


def _low_rank_entry(c):
    rank = c.pick(None, 1, 2)
    return (lambda *a, factor, where, **k: _low_rank(*a, rank=respell(c, rank, "int"), factor=factor, how=where, **k)), (c.pick(1.0, 2.0, 0.5), c.pick("hard", "soft"), c.pick("standard", "ngole"), c.pick(None, 1, 3), lambda v: v)


ENTRIES["low_rank"] = (("threshold:float", "thresh_type:str='soft'", "lowr_type:str='standard'", "initial_rank:int=None", "operator"), _low_rank_entry, True)


def linear(cls, order, shape):
    def wrap(build):
        def fn(*a, **k):
            o = cls(*a, **k)
            y = o.op(X(*shape)())
            return [y, o.adj_op(y)]

        simple(fn, order)(build)
        return build
    return wrap


@linear(LinearCombo, "operators:seq weights=None", (3,))
def linear_combo(c):
    k = c.n(1, 3)
    return [MatrixOperator(c.gen(2, 3)) for _ in range(k)], c.pick(None, c.gen(k))


@linear(LinearCombo, "operators weights:seq", (3,))
def linear_combo_numbers(c):
    k = c.n(1, 3)
    return [MatrixOperator(c.gen(2, 3)) for _ in range(k)], [float(v) for v in c.gen(k)]


@linear(LinearParent, "op adj_op", (3,))
def linear_parent(c):
    a = c.gen(2, 3)
    return (lambda x: a @ x), (lambda y: 3 * a.T @ y)


@linear(MatrixOperator, "array:arr", (3,))
def matrix_operator(c):
    return (c.gen(2, 3),)


@linear(WaveletConvolve, "filters:arr method:str='scipy'", (2, 4, 5))
def wavelet_convolve(c):
    return c.gen(2, 3, 3), METHOD(c)


@linear(WaveletTransform, "wavelet_name:str shape:shape level:int mode:str", (8, 6))
def wavelet_transform(c):
    return c.pick("haar", "db2"), (8, 6), c.n(1, 2), c.pick("zero", "symmetric", "periodization")


@linear(CPUWaveletTransform, "wavelet_name:str shape:shape level:int n_batch:int n_jobs:int=1 decimated:bool=True backend:str='threading' mode:str verbose:int=0", (2, 8, 6))
def cpu_wavelet_transform(c):
    return c.pick("haar", "db2"), (8, 6), c.n(1, 2), 2, 1, True, "threading", c.pick("zero", "symmetric", "periodization"), 0


def _grad(*a, **k):
    kw = dict(zip(("input_data",), a)) | k
    g = GradBasic(*a, **k)
    g.get_grad(np.arange(3.0))
    return [g.grad, g.cost(np.arange(3.0)), g.trans_op_op(np.arange(3.0)), kw["input_data"].flags.writeable]


def _grad_parent(*a, **k):
    g = GradParent(*a, **k)
    return [g.get_grad(np.arange(3.0)), g.cost(np.arange(3.0)), g.obs_data]


@simple(_grad_parent, "input_data:arr op trans_op get_grad cost data_type=None input_data_writeable:bool=False verbose:bool")
def grad_parent(c):
    a = c.gen(2, 3)
    return c.gen(2), (lambda x: a @ x), (lambda y: a.T @ y), (lambda x: 3 * x), (lambda x: float(np.sum(x))), c.pick(None, np.floating), c.flag(), False


@simple(_grad, "input_data:arr op trans_op")
def grad_basic(c):
    a = c.gen(2, 3)
    return c.gen(2), (lambda x: a @ x), (lambda y: 2 * a.T @ y)


def _cwb(*a, **k):
    r = cwbReweight(*a, **k)
    for i in range(3):
        r.reweight(X(4)() + i)
    return r.weights


@simple(_cwb, "weights:arr thresh_factor:float=1.0 verbose:bool=False")
def reweighting(c):
    return np.abs(c.gen(4)) + 0.1, c.pick(1.0, 0.5, 3.0), False


class Script:
    def __init__(self, k):
        self.k = k

    def cost(self, x, **kw):
        return self.k * x


def _cost_obj(*a, **k):
    o, out = costObj(*a, **k), []
    with quiet():
        for i in range(25):
            out.append(bool(o.get_cost(1 + 0.6**i)))
            out.append(float(o.cost))
    return out


@simple(_cost_obj, "operators:seq")
def cost_obj(c):
    return ([Script(1.0), Script(2.5)],)


def _cost_kw(**k):
    return _cost_obj([Script(2.0)], **k)


def _cost_kw_entry(c):
    return _cost_kw, (c.pick(1e6, 3.0), c.pick(1e-4, 1e-2, 1.0), c.n(1, 3), c.n(1, 3) * 2, False)


ENTRIES["cost_options"] = (("*", "initial_cost:float=1e6", "tolerance:float=1e-4", "cost_interval:int=1", "test_range:int=4", "verbose:bool=True"), _cost_kw_entry)


def _admm_cost(*a, **k):
    return [ADMMcostObj(*a, **k)._calc_cost(np.array([1.0, -2.0]), np.array([0.3, 4.0]))]


@simple(_admm_cost, "cost_funcs:seq A B b tau:float")
def admm_cost(c):
    a, b = c.gen(2, 2), c.gen(2, 2)
    return [lambda u: float(np.sum(u**2)), lambda v: 3 * float(np.sum(np.abs(v)))], MatrixOperator(a), MatrixOperator(b), c.gen(2), c.pick(1.0, 2.0, 0.3)


# --------------------------------------------------------------------------------- solvers
COMMON = "metric_call_period:int metrics"


def solver(cls, order, names=""):
    """``order``: what may be given by position; ``names``: by name only."""
    words = (*order.split(), *(("*", *names.split()) if names else ()))

    def wrap(build):
        def fn(*a, iters, **k):
            with quiet():
                built = cls(*a, **k)
                if iters:
                    built.iterate(*iters["args"], **iters["kw"])
            out = [built.x_final]
            out += [v for k2, rec in sorted(built.metrics.items()) for v in (rec["values"], rec["index"])] if getattr(built, "metrics", None) else []
            for at in ("y_final",):
                if hasattr(built, at):
                    out.append(getattr(built, at))
            cost = getattr(built, "_cost_func", None)
            return [*out, built.idx, *([cost.cost] if cost else [])]

        def full(c):
            vals = build(c)
            n = c.n(1, 12)
            i = respell(c, n, "int")
            # a number of iterations, by position or by name; the reference uses a plain keyword
            vary = {"args": (i,), "kw": {}} if c.flag() else {"args": (), "kw": {"max_iter": i}}
            plain = {"args": (), "kw": {"max_iter": n}}
            return (lambda *a, spelled=False, **k: fn(*a, iters=vary if spelled else plain, **k)), vals

        ENTRIES[build.__name__] = (words, full)
        return build
    return wrap


def parts(c, n=2):
    a = c.gen(2, n) * 0.4
    b = c.gen(2)
    g = GradBasic(b, lambda v: a @ v, lambda v: a.T @ v, verbose=False)
    return c.gen(n), g, SparseThreshold(Identity(), c.num(0.01, 0.3)), Ridge(Identity(), c.num(0.1, 0.5))


def met(c):
    """No metrics, one that is written down, or one that may stop the solver early."""
    rec = {"m": {"metric": lambda v, k: float(np.sum(v) * k), "mapping": {"x_new": "v"}, "cst_kwargs": {"k": 2.0}, "early_stopping": False}}
    stop = {"s": {"metric": lambda v, i: 1.0 + 0.4**i, "mapping": {"x_new": "v", "idx": "i"}, "cst_kwargs": {}, "early_stopping": True, "wind": c.n(2, 4), "eps": c.pick(0.1, 0.01)}}
    return c.pick(None, rec, rec, stop, rec | stop)


def money(c, *ops):
    """No cost function, or one that may find the solver converged."""
    return c.pick(None, "auto", costObj(list(ops), verbose=False, tolerance=c.pick(1e-4, 0.05), cost_interval=c.n(1, 2), test_range=2))


def halving(v):
    return 0.5 * v + 0.1


SETUP = "verbose:bool=False progress:bool step_size=None compute_backend:str='numpy'"


def setup(c):
    return False, False, None, "numpy"


@solver(al.ForwardBackward, "x:arr grad prox cost='auto' beta_param:step=1.0 lambda_param:step=1.0 beta_update=None lambda_update='fista' auto_iterate:bool=True metric_call_period:int=5 metrics=None linear=None", "restart_strategy:str=None min_beta:float=None s_greedy:float=None xi_restart:float=None a_cd:float=None p_lazy:float=1 q_lazy:float=1 r_lazy:float=4 " + SETUP)
def forward_backward(c):
    x, g, p, _ = parts(c)
    upd = c.pick("fista", None, halving)
    plain = (None, None, None, None, None, 1.0, 1.0, 4.0)
    opts = c.pick(
        plain, (None, None, None, None, 3.0, 1.0, 1.0, 4.0), (None, None, None, None, None, 0.5, 0.25, 3.0),
        ("adaptive-i", None, None, 0.96, None, 1.0, 1.0, 4.0), ("adaptive-ii", None, None, 0.75, None, 1.0, 1.0, 4.0), (None, None, None, None, 2.5, 1.0, 1.0, 4.0), ("adaptive-1", None, None, 0.9, None, 1.0, 1.0, 4.0), ("adaptive-2", None, None, 0.9, None, 1.0, 1.0, 4.0), ("greedy", 1.0, 1.5, 0.5, None, 1.0, 1.0, 4.0),
    ) if upd == "fista" else plain
    return (x, g, p, money(c, g, p), c.pick(1.0, 0.5, 0.3), c.pick(1.0, 0.5), c.pick(None, halving) if opts[0] is None and upd != "fista" else None, upd, c.flag(), c.n(1, 6), met(c), Identity(), *opts, *setup(c))


@solver(al.GenForwardBackward, "x:arr grad prox_list:seq cost='auto' gamma_param:step=1.0 lambda_param:step=1.0 gamma_update=None lambda_update=None weights=None auto_iterate:bool=True metric_call_period:int=5 metrics=None linear=None", SETUP)
def gen_forward_backward(c):
    x, g, p, q = parts(c)
    return (x, g, [p, q], money(c, g, p, q), c.pick(1.0, 0.5, 0.3), c.pick(1.0, 0.5), c.pick(None, halving), c.pick(None, halving), c.pick(None, [0.3, 0.7], np.array([0.3, 0.7]), (0.3, 0.7)), c.flag(), c.n(1, 6), met(c), Identity(), *setup(c))


@solver(al.POGM, "u:arr x:arr y:arr z:arr grad prox cost='auto' linear=None beta_param:step=1.0 sigma_bar:step=1.0 auto_iterate:bool=True metric_call_period:int=5 metrics=None", "" + SETUP)
def pogm(c):
    x, g, p, _ = parts(c)
    return (c.gen(2), x, c.gen(2), c.gen(2), g, p, money(c, g, p), Identity(), c.pick(1.0, 0.5, 0.3), c.pick(1.0, 0.96, 0.5), c.flag(), c.n(1, 6), met(c), *setup(c))


class Rw:
    """Reweights by changing the threshold of an operator."""

    def __init__(self, prox):
        self.prox = prox

    def reweight(self, x):
        self.prox.weights = self.prox.weights / (1 + np.abs(np.sum(x)))


@solver(al.Condat, "x:arr y:arr grad prox prox_dual linear=None cost='auto' reweight=None rho:step=0.5 sigma:step=1.0 tau:step=1.0 rho_update=None sigma_update=None tau_update=None auto_iterate:bool=True max_iter:int=150 n_rewightings:int=1 metric_call_period:int=5 metrics=None", SETUP)
def condat(c):
    x, g, p, q = parts(c)
    return (x, c.gen(2), g, p, q, c.pick(None, MatrixOperator(c.gen(2, 2) * 0.5)), money(c, g, p), c.pick(None, Rw(p)), c.pick(1.0, 0.5, 0.8), c.pick(1.0, 0.5, 0.3), c.pick(1.0, 0.5, 0.3), c.pick(None, halving), c.pick(None, halving), c.pick(None, halving), False, 150, 1, c.n(1, 6), met(c), *setup(c))


def auto_condat(*a, **k):
    with quiet():
        s = al.Condat(*a, **k)
    return [s.x_final, s.y_final, s.idx]


@simple(auto_condat, "x y grad prox prox_dual linear=None cost='auto' reweight=None rho:step=0.5 sigma:step=1.0 tau:step=1.0 rho_update=None sigma_update=None tau_update=None auto_iterate:bool=True max_iter:int=150 n_rewightings:int=1 metric_call_period:int=5 metrics=None progress:bool")
def condat_at_once(c):
    x, g, p, q = parts(c)
    return (x, c.gen(2), g, p, q, None, None, Rw(p), c.pick(1.0, 0.5, 0.8), c.pick(1.0, 0.5, 0.3), c.pick(1.0, 0.5, 0.3), None, None, None, True, c.n(1, 9), c.n(1, 3), 2, None, False)


ENTRIES["condat_at_once"] = ((*ENTRIES["condat_at_once"][0][:-1], "*", "progress:bool"), ENTRIES["condat_at_once"][1])

GD = "x:arr grad prox cost eta:step=1.0 eta_update=None epsilon:float=1e-6 epoch_size:int=1 metric_call_period:int=5 metrics=None"
for _cls, _own in ((al.VanillaGenericGradOpt, ""), (al.AdaGenericGradOpt, ""), (al.RMSpropGradOpt, "gamma:float=0.5 "), (al.MomentumGradOpt, "beta:float=0.9 "), (al.ADAMGradOpt, "gamma:float=0.9 beta:float=0.9 ")):
    def _build(c, own=_own):
        x, g, p, _ = parts(c)
        vals = (x, g, p, c.pick(None, costObj([g, p], verbose=False, tolerance=0.01, test_range=2)), c.pick(1.0, 0.5, 0.1), c.pick(None, lambda v, idx: 0.9 * v), c.pick(1e-6, 1e-3), c.n(1, 5), c.n(1, 6), met(c))
        return (*vals, *[c.pick(0.5, 0.3, 0.9) for _ in own.split()], *setup(c))

    _build.__name__ = _cls.__name__
    solver(_cls, GD, _own + SETUP)(_build)


@solver(al.SAGAOptGradOpt, GD, SETUP)
def saga(c):
    a, b, p = c.gen(3, 2) * 0.4, c.gen(3), SparseThreshold(Identity(), c.num(0.01, 0.3))
    g = GradBasic(b, lambda v: a @ v, lambda v: a.T @ v, verbose=False)
    return (c.gen(2), g, p, c.pick(None, costObj([g, p], verbose=False, tolerance=0.01, test_range=2)), c.pick(1.0, 0.5, 0.1), c.pick(None, lambda v, idx: 0.9 * v), c.pick(1e-6, 1e-3), c.n(1, 5), c.n(1, 6), met(c), *setup(c))


def two_costs(c):
    return c.pick(None, [lambda u: float(np.sum(u**2)), lambda v: 3 * float(np.sum(np.abs(v)))])


@solver(al.ADMM, "u:arr v:arr mu:arr A B b:arr optimizers:seq tau:float=1 cost_funcs=None", "metric_call_period:int=5 metrics=None " + SETUP)
def admm(c):
    m, n, k = c.gen(2, 2), c.gen(2, 2), c.num(0.1, 0.5)
    return (c.gen(2), c.gen(2), c.gen(2), MatrixOperator(m), MatrixOperator(n), c.gen(2), [lambda init, obs: k * init + 0.2 * obs, lambda init, obs: 0.1 * init - k * obs], c.pick(1.0, 2.0, 0.5), two_costs(c), c.n(1, 6), met(c), *setup(c))


@solver(al.FastADMM, "u:arr v:arr mu:arr A B b:arr optimizers:seq cost_funcs=None alpha:float=1 eta:float=0.999 tau:float=1", "metric_call_period:int=5 metrics=None " + SETUP)
def fast_admm(c):
    m, n, k = c.gen(2, 2), c.gen(2, 2), c.num(0.1, 0.5)
    return (c.gen(2), c.gen(2), c.gen(2), MatrixOperator(m), MatrixOperator(n), c.gen(2), [lambda init, obs: k * init + 0.2 * obs, lambda init, obs: 0.1 * init - k * obs], two_costs(c), c.pick(1.0, 2.0), c.pick(0.999, 0.5), c.pick(1.0, 2.0, 0.5), c.n(1, 6), met(c), *setup(c))




SOLVERS = {"forward_backward", "gen_forward_backward", "pogm", "condat", "VanillaGenericGradOpt", "AdaGenericGradOpt", "RMSpropGradOpt", "MomentumGradOpt", "ADAMGradOpt", "admm", "fast_admm", "saga"}
