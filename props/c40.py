"""C40: invalid arguments are refused with the documented exception, valid ones up to the boundary are accepted."""
import contextlib
import io
import warnings

import numpy as np
import pywt
from hypothesis import strategies as st
from modopt.base import np_adjust, transform, types
from modopt.base.observable import MetricObserver, Observable
from modopt.math import convolve as mconv
from modopt.math import matrix, metrics, stats
from modopt.opt import algorithms as al
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic, GradParent
from modopt.opt.linear import Identity, LinearCombo, LinearParent, MatrixOperator, WaveletConvolve, WaveletTransform
from modopt.opt.proximity import IdentityProx, KSupportNorm, LowRankMatrix, OrderedWeightedL1Norm, Positivity, ProximityCombo, ProximityParent, SparseThreshold
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, validation

from harness.core import Prop
from harness.gen import fixed, seeds
from harness.oracle import need
from props.c29 import flat, glob, same

PROP = Prop("C40", ["only refusals named in a Raises section or an explicit check of the code are claimed; NaN parameters are not generated", "boundary values are accepted where the documented range includes them"])

A = np.array([[1.0, 0.3, 0.0], [0.2, 0.8, 0.1], [0.0, 0.4, 0.9]])


class NoOp:
    cost = staticmethod(lambda *a, **k: 0.0)
    adj_op = staticmethod(lambda v: v)


class NoCost:
    op = staticmethod(lambda v, *a, **k: v)
    adj_op = staticmethod(lambda v: v)


class NoAdj:
    op = staticmethod(lambda v, *a, **k: v)
    cost = staticmethod(lambda *a, **k: 0.0)


class BadOp(NoAdj):
    op = 3.0
    adj_op = staticmethod(lambda v: v)


class BadCost(NoCost):
    cost = "cost"


class BadAdj(NoAdj):
    adj_op = [1]


def pick(rs, *values):
    return values[rs.randint(len(values))]


def other_name(rs, *names):
    """A string close to a documented option which is not one."""
    n = names[rs.randint(len(names))]
    bad = pick(rs, n.upper(), n + " ", " " + n, n + "s", n[:-1], n[1:], "", n[::-1], n + n, "none")
    return bad if bad not in names else n + "?"


not_callable = lambda rs: pick(rs, 1, "op", 2.5, np.eye(2), [abs], {"op": abs}, (abs,), object())
not_float = lambda rs: pick(rs, 1, 0, -3, "1.0", [0.5], (0.5,), 1j, np.array([0.5]), np.int64(1), True)
not_array = lambda rs: pick(rs, [1.0, 2.0, 3.0], (1.0, 2.0, 3.0), 2.0, 3, "x", None, {"x": 1})
not_list = lambda rs: pick(rs, 0.5, "abc", {"a": 1}, 3, object(), {1.0, 2.0}, (v for v in [1.0]))
rnd = lambda rs, *s: rs.standard_normal(s)


def put(key, value):
    def go(rs, a):
        a[key] = value(rs, a)
    return go


def arg(key, value):
    return put(key, lambda rs, a: value(rs))


ENTRIES = {}


def entry(name, make, bad, good=None):
    """make(rs) -> (function, keyword arguments); bad: label -> (change of the arguments, exceptions)."""
    ENTRIES[name] = (make, bad, good or {})


T, V = TypeError, ValueError
# ------------------------------------------------------------------------------ functions
sides = lambda rs, n=2: tuple(rs.randint(1, 5, n))
entry("cube2map", lambda rs: (lambda s, l: (lambda data, layout: transform.cube2map(data, layout), {"data": rnd(rs, int(np.prod(l)), *s), "layout": l}))(sides(rs), sides(rs)), {
    "dimensions": (put("data", lambda rs, a: pick(rs, a["data"][0], a["data"][None], a["data"].ravel(), np.array(1.0), a["data"][..., None], np.stack([a["data"]] * 2, -1), a["data"][:, 0])), V),
    "layout": (put("layout", lambda rs, a: pick(rs, (a["layout"][0] + 1, a["layout"][1]), (a["layout"][0], a["layout"][1] + 2), (a["layout"][1] + 1, a["layout"][0] + 1))), V),
    "layers": (put("data", lambda rs, a: np.concatenate([a["data"]] * pick(rs, 2, 3)) if rs.rand() < 0.5 else np.concatenate([a["data"], a["data"][:1]])), V),
    "small layout": (put("layout", lambda rs, a: tuple(max(1, v - 1) for v in a["layout"]) if max(a["layout"]) > 1 else (1, 2)), V)},
    {"swapped layout": put("layout", lambda rs, a: a["layout"][::-1]), "list": put("layout", lambda rs, a: list(a["layout"])), "one row": put("layout", lambda rs, a: (1, len(a["data"])))})
def odd_layout(rs, a):
    s = a["data"].shape
    k = rs.randint(2)
    return tuple(s[i] + 1 + rs.randint(3) if i == k else a["layout"][i] for i in range(2)) if rs.rand() < 0.5 else tuple((s[i] - 1 if s[i] > 2 else s[i] + 1) if i == k else a["layout"][i] for i in range(2))


entry("map2cube", lambda rs: (lambda s, l: (lambda data, layout: transform.map2cube(data, layout), {"data": rnd(rs, s[0] * l[0], s[1] * l[1]), "layout": l}))(sides(rs), sides(rs)), {"layout": (put("layout", odd_layout), V)},
      {"whole": put("layout", lambda rs, a: (1, 1)), "pixels": put("layout", lambda rs, a: a["data"].shape)})
entry("pad2d", lambda rs: (np_adjust.pad2d, {"input_data": rnd(rs, *sides(rs)), "padding": int(rs.randint(4))}), {"padding": (arg("padding", lambda rs: pick(rs, "1", None, 1.5, {1, 2}, {"x": 1}, 2j)), V)},
      {"forms": arg("padding", lambda rs: pick(rs, 0, (1, 2), [0, 3], np.array([2, 1]), (2,), np.array([1])))})
for fn in ("check_float", "check_int"):
    entry(fn, lambda rs, fn=fn: (getattr(types, fn), {"input_obj": pick(rs, 1, 2.5, [1, 2], (1.0, 2.0), np.arange(3), True)}), {"type": (arg("input_obj", lambda rs: pick(rs, "1", None, {1}, {"a": 1}, 1j, b"1", range(3), object(), (v for v in [1]))), T)})
entry("check_callable", lambda rs: (types.check_callable, {"input_obj": pick(rs, abs, np.sum, lambda v: v, "".join, dict)}), {"type": (arg("input_obj", not_callable), T)})
entry("check_npndarray", lambda rs: (types.check_npndarray, {"input_obj": rnd(rs, 3), "dtype": pick(rs, None, np.floating, float), "verbose": False}), {
    "type": (arg("input_obj", not_array), T), "dtype": (put("input_obj", lambda rs, a: a.__setitem__("dtype", pick(rs, float, np.floating)) or pick(rs, np.arange(3), np.ones(3, bool), np.ones(3, complex), np.array(["a"]))), T)},
    {"int": put("input_obj", lambda rs, a: a.__setitem__("dtype", np.integer) or np.arange(3, dtype=pick(rs, "int8", "int64", "uint16"))), "single": put("input_obj", lambda rs, a: a.__setitem__("dtype", np.floating) or np.ones(2, "float32"))})
entry("convolve", lambda rs: (mconv.convolve, {"input_data": rnd(rs, 5, 6), "kernel": rnd(rs, 3, 3), "method": pick(rs, "scipy", "astropy")}), {
    "method": (arg("method", lambda rs: other_name(rs, "scipy", "astropy")), V), "dimensions": (arg("kernel", lambda rs: pick(rs, rnd(rs, 3), rnd(rs, 2, 3, 3), rnd(rs, 1, 3, 3))), V), "dimensions of the data": (arg("input_data", lambda rs: pick(rs, rnd(rs, 5), rnd(rs, 1, 5, 6))), V)})
entry("convolve_stack", lambda rs: (mconv.convolve_stack, {"input_data": rnd(rs, 2, 5, 6), "kernel": rnd(rs, 2, 3, 3), "method": pick(rs, "scipy", "astropy")}), {"method": (arg("method", lambda rs: other_name(rs, "scipy", "astropy")), V)})
entry("gram_schmidt", lambda rs: (matrix.gram_schmidt, {"matrix": rnd(rs, 3, 4), "return_opt": pick(rs, "orthonormal", "orthogonal", "both")}), {"option": (arg("return_opt", lambda rs: other_name(rs, "orthonormal", "orthogonal", "both")), V)})
entry("rotate", lambda rs: (matrix.rotate, {"matrix": (lambda n: rnd(rs, n, n))(rs.randint(1, 6)), "angle": float(pick(rs, 0.0, np.pi / 2, np.pi))}), {"shape": (arg("matrix", lambda rs: (lambda n: rnd(rs, n, n + pick(rs, 1, 2) * pick(rs, 1, -1) if n > 2 else n + 1))(rs.randint(1, 6))), V)})
entry("gaussian_kernel", lambda rs: (stats.gaussian_kernel, {"data_shape": (4, 5), "sigma": 1.5, "norm": pick(rs, "max", "sum")}), {"norm": (arg("norm", lambda rs: pick(rs, other_name(rs, "max", "sum"), "min", "l2", None, 1)), V)})
entry("psnr", lambda rs: (stats.psnr, {"data1": rnd(rs, 3, 4), "data2": rnd(rs, 3, 4), "method": pick(rs, "starck", "wiki")}), {"method": (arg("method", lambda rs: pick(rs, other_name(rs, "starck", "wiki"), None, 0)), V)})
entry("psnr_stack", lambda rs: (stats.psnr_stack, {"data1": rnd(rs, 2, 3, 4), "data2": rnd(rs, 2, 3, 4)}), {
    "first": (arg("data1", lambda rs: pick(rs, rnd(rs, 3, 4), rnd(rs, 2, 2, 3, 4), rnd(rs, 24))), V), "second": (arg("data2", lambda rs: pick(rs, rnd(rs, 3, 4), rnd(rs, 1, 2, 3, 4), rnd(rs, 24))), V),
    "both": (lambda rs, a: a.update(data1=rnd(rs, 3, 4), data2=rnd(rs, 3, 4)), V)})
for fn in ("snr", "psnr", "mse", "nrmse", "ssim"):
    entry(f"metrics.{fn}", lambda rs, fn=fn: (getattr(metrics, fn), {"test": rnd(rs, 8, 8), "ref": rnd(rs, 8, 8), "mask": pick(rs, None, (rs.rand(8, 8) > 0.3).astype(int))}), {"mask": (arg("mask", lambda rs: pick(rs, 1, "mask", [[1] * 8] * 8, True, (1, 0), 0.5, {})), V)})
entry("add_noise", lambda rs: (lambda n: (noise.add_noise, {"input_data": rnd(rs, n, 3), "sigma": pick(rs, 2.0, 1, [0.5] * n, tuple([0.5] * n), np.full(n, 0.5)), "noise_type": pick(rs, "gauss", "poisson"), "rng": 3}))(rs.randint(2, 6)), {
    "noise type": (arg("noise_type", lambda rs: pick(rs, other_name(rs, "gauss", "poisson"), None, 1)), V),
    "number of sigmas": (put("sigma", lambda rs, a: (lambda k: pick(rs, [0.5] * k, tuple([0.5] * k), np.full(k, 0.5)))(max(0, len(a["input_data"]) + pick(rs, -1, 1, 2, -2, 5)))), V)})
entry("thresh", lambda rs: (noise.thresh, {"input_data": rnd(rs, 3, 4), "threshold": 0.5, "threshold_type": pick(rs, "hard", "soft")}), {"type": (arg("threshold_type", lambda rs: pick(rs, other_name(rs, "hard", "soft"), None, 1)), V)})
entry("positive", lambda rs: (positivity.positive, {"input_data": pick(rs, 1, -2.5, [1, -2], (1.0, -1.0), rnd(rs, 3), True)}), {"type": (arg("input_data", lambda rs: pick(rs, "1", None, {1}, {"a": 1}, 1j, range(3), object())), T)})
entry("transpose_test", lambda rs: (validation.transpose_test, {"operator": lambda v, *a: A @ v, "operator_t": lambda v, *a: A.T @ v, "x_shape": (3,), "y_shape": (3,), "rng": 3}), {"operator": (arg("operator", not_callable), T), "operator_t": (arg("operator_t", not_callable), T)})
entry("find_n_pc", lambda rs: (svd.find_n_pc, {"u_vec": np.linalg.qr(rnd(rs, 9, 4))[0]}), {"size": (arg("u_vec", lambda rs: np.linalg.qr(rnd(rs, pick(rs, 8, 10, 5, 12, 15, 99, 101), 4))[0]), V)}, {"square": arg("u_vec", lambda rs: np.linalg.qr(rnd(rs, pick(rs, 4, 9, 16, 25, 100), 3))[0])})
entry("calculate_svd", lambda rs: (lambda input_data: svd.calculate_svd(input_data)[1], {"input_data": rnd(rs, *sides(rs))}), {"type": (arg("input_data", lambda rs: pick(rs, [[1.0, 2.0]], ((1.0,),), None, 1.0, "m")), T), "dimensions": (arg("input_data", lambda rs: pick(rs, rnd(rs, 3), rnd(rs, 1, 3, 3), rnd(rs, 2, 3, 4), np.array(1.0))), T)})
entry("svd_thresh", lambda rs: (svd.svd_thresh, {"input_data": rnd(rs, 9, 4), "n_pc": pick(rs, 1, 2, 3, "all", None)}), {"n_pc": (arg("n_pc", lambda rs: pick(rs, 0, -1, -7, other_name(rs, "all"), "ALL", "All", "al", 1.0, 2.5, [1], (2,), np.array([1]))), V)})
entry("svd_thresh_coef", lambda rs: (svd.svd_thresh_coef, {"input_data": rnd(rs, 9, 4), "operator": lambda v: v, "threshold": 0.3}), {"operator": (arg("operator", lambda rs: pick(rs, None, not_callable(rs))), T)})
for fn in ("gaussian_filter", "mex_hat"):
    entry(fn, lambda rs, fn=fn: (getattr(sfilter, fn), {"data_point": pick(rs, 1, 0.5, rnd(rs, 3)), "sigma": pick(rs, 1, 2.0)}), {"point": (arg("data_point", lambda rs: pick(rs, "1", None, {1.0}, {"a": 1})), T), "sigma": (arg("sigma", lambda rs: pick(rs, "1", None, {1.0})), T)})
entry("Observable", lambda rs: (lambda how, signal: (lambda o: {"add": lambda: o.add_observer(signal, abs), "remove": lambda: o.remove_observer(signal, abs)}[how]() or len(getattr(o, "_observers", {"a": ()})["a"]))(Observable(["a", "bb"])), {"how": pick(rs, "add", "remove"), "signal": pick(rs, "a", "bb")}), {"signal": (arg("signal", lambda rs: pick(rs, "b", "A", "", "aa", None, 0, "cv_metrics", "a ")), V)})

# ------------------------------------------------------------------------------ operators
entry("LinearParent", lambda rs: (LinearParent, {"op": abs, "adj_op": abs}), {"op": (arg("op", lambda rs: pick(rs, None, not_callable(rs))), T), "adj_op": (arg("adj_op", lambda rs: pick(rs, None, not_callable(rs))), T)})
entry("ProximityParent", lambda rs: (ProximityParent, {"op": abs, "cost": abs}), {"op": (arg("op", lambda rs: pick(rs, None, not_callable(rs))), T), "cost": (arg("cost", lambda rs: pick(rs, None, not_callable(rs))), T)})
entry("GradParent", lambda rs: (GradParent, {"input_data": rnd(rs, 3), "op": abs, "trans_op": abs, "get_grad": abs, "cost": abs, "data_type": pick(rs, None, float, np.floating), "verbose": False}), {
    "op": (arg("op", lambda rs: pick(rs, None, not_callable(rs))), T), "trans_op": (arg("trans_op", lambda rs: pick(rs, None, not_callable(rs))), T), "get_grad": (arg("get_grad", not_callable), T), "cost": (arg("cost", not_callable), T),
    "data": (lambda rs, a: a.update(data_type=None, input_data=not_array(rs)), T), "data that are not numbers": (lambda rs, a: a.update(data_type=float, input_data=pick(rs, "x", None, {"x": 1}, {1})), T),
    "type of the data": (lambda rs, a: a.update(data_type=pick(rs, np.integer, complex, np.complexfloating), input_data=rnd(rs, 3)), T)},
    {"integers as floats": lambda rs, a: a.update(data_type=pick(rs, float, np.floating), input_data=np.arange(3)), "list as floats": lambda rs, a: a.update(data_type=float, input_data=[1, 2]), "complex": lambda rs, a: a.update(data_type=np.complexfloating, input_data=rnd(rs, 3) + 0j)})
entry("GradBasic", lambda rs: (GradBasic, {"input_data": rnd(rs, 3), "op": abs, "trans_op": abs, "verbose": False}), {"op": (arg("op", not_callable), T), "trans_op": (arg("trans_op", not_callable), T), "data": (arg("input_data", not_array), T)})


def ops_list(rs, *bad):
    """A list of valid operators with one broken member at a random place."""
    ops = [MatrixOperator(A), LinearParent(abs, abs), Identity()][: rs.randint(1, 4)] * rs.randint(1, 3)
    for o in ops:
        o.cost = lambda *a, **k: 0
    ops.insert(rs.randint(len(ops) + 1), pick(rs, *bad)())
    return pick(rs, ops, tuple(ops))


entry("LinearCombo", lambda rs: (lambda k: (LinearCombo, {"operators": [MatrixOperator(A)] * k, "weights": pick(rs, None, [0.5] * k, tuple([0.5] * k), np.full(k, 2.0))}))(rs.randint(1, 5)), {
    "type": (arg("operators", not_list), T), "empty": (arg("operators", lambda rs: pick(rs, [], (), np.array([]))), V), "no op": (lambda rs, a: a.update(weights=None, operators=ops_list(rs, NoOp, object)), V), "no adj_op": (lambda rs, a: a.update(weights=None, operators=ops_list(rs, NoAdj)), V),
    "op that cannot be called": (lambda rs, a: a.update(weights=None, operators=ops_list(rs, BadOp, BadAdj)), T),
    "type of weights": (arg("weights", not_list), T), "empty weights": (arg("weights", lambda rs: pick(rs, [], (), np.array([]))), V), "number of weights": (put("weights", lambda rs, a: [0.5] * (len(a["operators"]) + pick(rs, 1, 2, 7))), V),
    "fewer weights": (lambda rs, a: a.update(operators=[MatrixOperator(A)] * (len(a["operators"]) + 1), weights=[0.5] * len(a["operators"])), V),
    "integer weights": (put("weights", lambda rs, a: pick(rs, [1] * len(a["operators"]), np.ones(len(a["operators"]), int), [True] * len(a["operators"]), ["a"] * len(a["operators"]))), T)})
entry("ProximityCombo", lambda rs: (ProximityCombo, {"operators": pick(rs, [Positivity()], (Positivity(), IdentityProx()), np.array([IdentityProx(), IdentityProx()]))}), {
    "type": (arg("operators", not_list), T), "empty": (arg("operators", lambda rs: pick(rs, [], (), np.array([]))), V), "no op": (arg("operators", lambda rs: ops_list(rs, NoOp, object)), V), "no cost": (arg("operators", lambda rs: ops_list(rs, NoCost)), V),
    "op or cost that cannot be called": (arg("operators", lambda rs: ops_list(rs, BadOp, BadCost)), T)})
entry("costObj", lambda rs: (costObj, {"operators": pick(rs, [Positivity()], (Positivity(), IdentityProx()), None, [], np.array([IdentityProx()]))}), {"type": (arg("operators", not_list), T), "no cost": (arg("operators", lambda rs: ops_list(rs, NoCost, object)), V), "cost that cannot be called": (arg("operators", lambda rs: ops_list(rs, BadCost)), T)})


def not_sorted(rs):
    w = np.sort(rs.uniform(0, 3, rs.randint(2, 9)))[::-1].copy()
    k = rs.randint(len(w) - 1)
    w[k + 1] = w[k] + pick(rs, 1e-9, 0.1, 5.0)
    return w


entry("OrderedWeightedL1Norm", lambda rs: (OrderedWeightedL1Norm, {"weights": np.sort(rs.uniform(0, 3, rs.randint(1, 9)))[::-1].copy()}), {"order": (arg("weights", not_sorted), V), "negative": (put("weights", lambda rs, a: np.append(a["weights"], -pick(rs, 1e-12, 0.5, 3.0))), V)},
      {"equal": arg("weights", lambda rs: np.full(rs.randint(1, 6), 0.7)), "zeros": put("weights", lambda rs, a: np.append(a["weights"], [0.0, 0.0]))})
entry("KSupportNorm", lambda rs: (KSupportNorm, {"beta": 0.5, "k_value": int(rs.randint(1, 9))}), {"k": (arg("k_value", lambda rs: pick(rs, 0, -1, -9, 0.5)), V)}, {"one": arg("k_value", lambda rs: 1)})
entry("LowRankMatrix", lambda rs: (lambda x, **k: LowRankMatrix(0.3, **k).op(x), {"x": rnd(rs, 3, 3, 3), "lowr_type": pick(rs, "standard", "ngole"), "thresh_type": pick(rs, "soft", "hard"), "operator": lambda v: v}), {"lowr_type": (arg("lowr_type", lambda rs: other_name(rs, "standard", "ngole")), V), "thresh_type": (arg("thresh_type", lambda rs: other_name(rs, "soft", "hard")), V)})
entry("SparseThreshold", lambda rs: (lambda x, thresh_type: SparseThreshold(Identity(), 0.3, thresh_type).op(x), {"x": rnd(rs, 3), "thresh_type": pick(rs, "soft", "hard")}), {"thresh_type": (arg("thresh_type", lambda rs: other_name(rs, "soft", "hard")), V)})
entry("WaveletTransform", lambda rs: (WaveletTransform, {"wavelet_name": pick(rs, "haar", "db2", "sym4"), "shape": pick(rs, (8, 8), (7, 6), (9,), 12), "level": 1}), {"name": (arg("wavelet_name", lambda rs: pick(rs, other_name(rs, *pywt.wavelist()), "daubechies", "db0")), V), "backend": (arg("compute_backend", lambda rs: pick(rs, other_name(rs, "numpy", "cupy"), "jax", None)), V), "undecimated": (arg("decimated", lambda rs: False), NotImplementedError)})
entry("WaveletConvolve", lambda rs: (lambda x, filters, method: WaveletConvolve(filters, method=method).op(x), {"x": rnd(rs, 2, 5, 5), "filters": rnd(rs, 2, 3, 3), "method": pick(rs, "scipy", "astropy")}), {"filters": (arg("filters", lambda rs: pick(rs, None, "db2", {"f": 1})), T), "method": (arg("method", lambda rs: other_name(rs, "scipy", "astropy")), V)})
entry("cwbReweight", lambda rs: (lambda weights, data, factor: (lambda r: (r.reweight(data), np.array(r.weights))[1])(cwbReweight(np.array(weights) if isinstance(weights, np.ndarray) else weights, factor)), {"weights": rs.uniform(0.1, 2, (2, 3)), "data": rnd(rs, 2, 3), "factor": pick(rs, 1, 0.5)}), {
    "shape": (arg("data", lambda rs: pick(rs, rnd(rs, 3, 2), rnd(rs, 3), rnd(rs, 1, 3), rnd(rs, 6), rnd(rs, 2, 1), rnd(rs, 1, 2, 3), rnd(rs, 2, 4), rnd(rs, 1))), V), "weights": (arg("weights", lambda rs: pick(rs, None, "w", {1.0})), T), "factor": (arg("factor", lambda rs: pick(rs, None, "1", {1.0})), T)},
    {"complex": lambda rs, a: a.update(data=a["data"] + 1j)})


# -------------------------------------------------------------------------------- solvers
def grad(rs):
    return GradBasic(rnd(rs, 3), lambda v: A @ v, lambda v: A.T @ v, verbose=False)


MET = lambda: {"m": {"metric": lambda test: float(np.sum(np.abs(test))), "mapping": {"x_new": "test"}, "cst_kwargs": {}, "early_stopping": False}}
bad_metrics = lambda rs: pick(rs, [MET()["m"]], "m", ("m",), 3, {"m"}, 0, [])


def solver(cls, *fixed_args, **extra):
    def make(rs):
        kw = {"x": rnd(rs, 3), "grad": grad(rs), "prox": SparseThreshold(Identity(), 0.2), "progress": False}
        kw.update({k: (v(rs) if callable(v) else v) for k, v in extra.items()})

        def fn(**a):
            s = cls(**a)
            if a.get("auto_iterate", True) is not True or not hasattr(s, "x_final"):
                s.iterate(max_iter=2)
            return np.array(s.x_final)

        return fn, kw
    return make


common = {"x": (arg("x", not_array), T), "metrics": (arg("metrics", bad_metrics), T)}
upd = lambda *names: {f"{n}": (arg(n, not_callable), T) for n in names}
flt = lambda *names: {f"{n}": (arg(n, not_float), T) for n in names}
fista_bad = {
    "a_cd": (arg("a_cd", lambda rs: pick(rs, 2, 2.0, 1.0, 0, -3.0, 1.999999)), V),
    "restart name": (arg("restart_strategy", lambda rs: other_name(rs, "adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy")), V),
    "restart with CD": (lambda rs, a: a.update(a_cd=3.0, xi_restart=0.9, min_beta=0.1, s_greedy=1.1, restart_strategy=pick(rs, "adaptive", "adaptive-i", "adaptive-ii", "greedy", "adaptive-1", "adaptive-2")), V),
    "no xi": (lambda rs, a: a.update(min_beta=0.1, s_greedy=1.1, xi_restart=pick(rs, None, 1, 1.0, 1.5, 1.0000001), restart_strategy=pick(rs, "adaptive", "adaptive-i", "adaptive-ii", "greedy", "adaptive-1", "adaptive-2")), V),
    "greedy parameters": (lambda rs, a: a.update(dict(xi_restart=0.9, restart_strategy="greedy", min_beta=0.1, s_greedy=1.1), **pick(rs, {"min_beta": None}, {"s_greedy": None}, {"s_greedy": 1}, {"s_greedy": 1.0}, {"s_greedy": 0.5}, {"min_beta": None, "s_greedy": None})), V),
}
fista_good = {
    "CD": lambda rs, a: a.update(a_cd=pick(rs, 2.0000001, 3, 10.0)),
    "restarts": lambda rs, a: a.update(xi_restart=pick(rs, 0.999999, 0.5, 0.0), restart_strategy=pick(rs, "adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2")),
    "greedy": lambda rs, a: a.update(xi_restart=0.9, min_beta=pick(rs, 0.1, 0.3), s_greedy=pick(rs, 1.0000001, 2), restart_strategy="greedy"),
    "numpy floats": lambda rs, a: a.update(beta_param=np.float64(0.3), lambda_param=np.float64(0.8)),
}
no_linear = {"metrics without a linear operator": (lambda rs, a: a.update(metrics=MET(), linear=None), V)}
with_linear = {"metrics with a linear operator": lambda rs, a: a.update(metrics=MET(), linear=Identity()), "empty metrics": lambda rs, a: a.update(metrics={}, linear=None)}
entry("ForwardBackward", solver(al.ForwardBackward, beta_param=0.4, auto_iterate=False, cost=None), {**common, **flt("beta_param", "lambda_param"), **upd("beta_update", "lambda_update"), **fista_bad, **no_linear}, {**fista_good, **with_linear})


def gfb_bad_sum(rs):
    w = rs.dirichlet([1.0, 1.0])
    w[rs.randint(2)] += pick(rs, 1e-3, -1e-3, 0.5, -1.0, 1.0)
    return pick(rs, w, list(w), tuple(w))


entry("GenForwardBackward", lambda rs: (lambda fn, kw: (fn, dict({k: v for k, v in kw.items() if k != "prox"}, prox_list=[Positivity(), SparseThreshold(Identity(), 0.1)])))(*solver(al.GenForwardBackward, gamma_param=0.4, auto_iterate=False, cost=None)(rs)), {
    **common, **flt("gamma_param", "lambda_param"), **upd("gamma_update", "lambda_update"), **no_linear,
    "type of weights": (arg("weights", lambda rs: pick(rs, 0.5, "halves", {0.5}, {"a": 0.5}, 1)), T), "integer weights": (arg("weights", lambda rs: pick(rs, [1, 0], (0, 1), np.array([1, 0]), [True, False], ["a", "b"])), V),
    "number of weights": (arg("weights", lambda rs: pick(rs, [1.0], [0.25] * 4, (0.5, 0.25, 0.25), np.full(5, 0.2))), V), "sum of weights": (arg("weights", gfb_bad_sum), V)},
    {**with_linear, "weights": arg("weights", lambda rs: pick(rs, [0.5, 0.5], (0.9, 0.1), np.array([0.3, 0.7]), [1 / 3, 2 / 3], None)), "numpy floats": lambda rs, a: a.update(gamma_param=np.float64(0.3))})
three = {n: (lambda rs: rnd(rs, 3)) for n in ("u", "y", "z")}
pogm_bad = {n: (arg(n, not_array), T) for n in ("x", "u", "y", "z")}
entry("POGM", solver(al.POGM, beta_param=0.4, auto_iterate=False, cost=None, **three), {**pogm_bad, "metrics": common["metrics"], **flt("beta_param"), "sigma": (arg("sigma_bar", lambda rs: pick(rs, -1e-9, 1.0000001, 2.0, -1.0, 1.5)), V), "type of sigma": (arg("sigma_bar", lambda rs: pick(rs, 0, 1, "1.0", [0.5])), T)},
      {"sigma": arg("sigma_bar", lambda rs: pick(rs, 0.0, 1.0, 0.5, 1e-9, np.float64(0.3)))})
entry("Condat", lambda rs: (lambda fn, kw: (fn, dict(kw, y=rnd(rs, 3), prox=Positivity(), prox_dual=SparseThreshold(Identity(), 0.2))))(*solver(al.Condat, sigma=0.3, tau=0.3, auto_iterate=False, cost=None)(rs)), {**common, "y": (arg("y", not_array), T), **flt("rho", "sigma", "tau"), **upd("rho_update", "sigma_update", "tau_update")},
      {"numpy floats": lambda rs, a: a.update(rho=np.float64(0.3), tau=np.float64(0.1))})
gd = dict(cost=None, eta=0.1)
gd_bad = {**common, **flt("eta", "epsilon"), **upd("eta_update")}
out_of = lambda top: (lambda rs: pick(rs, -1e-9, -0.5, 1.0000001, 1.5, 7.0, *([1.0] if top else [])))
for nm, cls in (("Vanilla", al.VanillaGenericGradOpt), ("Ada", al.AdaGenericGradOpt)):
    entry(nm, solver(cls, **gd), gd_bad, {"numpy floats": lambda rs, a: a.update(eta=np.float64(0.3))})
entry("RMSprop", solver(al.RMSpropGradOpt, **gd), {**gd_bad, "gamma": (arg("gamma", out_of(False)), V), "type of gamma": (arg("gamma", lambda rs: pick(rs, 0, 1)), T)}, {"gamma": arg("gamma", lambda rs: pick(rs, 0.0, 1.0, 0.5, np.float64(0.9)))})
entry("Momentum", solver(al.MomentumGradOpt, **gd), {**gd_bad, **flt("beta")}, {"beta": arg("beta", lambda rs: pick(rs, 0.0, 1.0, 0.5))})
entry("ADAM", solver(al.ADAMGradOpt, **gd), {**gd_bad, "gamma": (arg("gamma", out_of(True)), V), "beta": (arg("beta", out_of(True)), V), **{f"type of {k}": v for k, v in flt("gamma", "beta").items()}},
      {"values": lambda rs, a: a.update(gamma=pick(rs, 0.0, 0.999999, 0.5), beta=pick(rs, 0.0, 0.999999, 0.5))})
entry("SAGA", solver(al.SAGAOptGradOpt, epoch_size=2, **gd), gd_bad)
admm = lambda cls: (lambda rs: (lambda **a: (lambda s: (s.iterate(max_iter=2), np.array(s.x_final if hasattr(s, "x_final") else s.u_final))[1])(cls(**a)), {"u": rnd(rs, 3), "v": rnd(rs, 3), "mu": np.zeros(3), "A": Identity(), "B": Identity(), "b": np.zeros(3), "optimizers": (lambda init, obs: 0.5 * init + 0.1 * obs, lambda init, obs: 0.5 * init - 0.1 * obs), "progress": False}))
for nm, cls in (("ADMM", al.ADMM), ("FastADMM", al.FastADMM)):
    entry(nm, admm(cls), {"metrics": common["metrics"]}, {"metrics": lambda rs, a: a.update(metrics={"m": {"metric": lambda u: 0.0, "mapping": {"x_new": "u"}, "cst_kwargs": {}, "early_stopping": False}})})

PAIRS = sorted((n, lab, kind) for n, (_, bad, good) in ENTRIES.items() for kind, labs in (("bad", bad), ("good", good)) for lab in labs)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def twist(rs, v):
    """The same argument in another spelling."""
    if rs.rand() < 0.5:
        return v
    if type(v) is str:
        return np.str_(v)
    if type(v) is float:
        return np.float64(v)
    if type(v) in (tuple, list) and all(type(u) in (int, float) for u in v):
        return list(v) if type(v) is tuple else tuple(v)
    return v


def snapshot(args):
    return {k: (v.copy(), v.flags.writeable) for k, v in args.items() if isinstance(v, np.ndarray) and v.dtype != object}


def value_of(r):
    if r is None or isinstance(r, (int, float, complex, np.ndarray, np.generic, list, tuple)):
        return flat(r)
    return type(r)


@PROP.sub("arguments", fixed(which=st.sampled_from(PAIRS), seed=seeds, variant=seeds), quick=8000, factor=12, shards=8, rule="an invalid argument")
def arguments(c):
    """One argument of a valid call is replaced: refused with the documented exception, or accepted."""
    name, label, kind = c["which"]
    make, bad, good = ENTRIES[name]
    fresh = lambda: make(np.random.RandomState(c["seed"] % 2**31))
    with quiet():
        fn, args = fresh()
        np.random.seed(7)
        want = value_of(fn(**args))
        fn, args = fresh()
        vrs = np.random.RandomState(c["variant"] % 2**31)
        if kind == "good":
            good[label](vrs, args)
            args = {k: twist(vrs, v) for k, v in args.items()}
            shown = {k: v for k, v in args.items() if isinstance(v, (int, float, str, list, tuple, type(None)))}
            try:
                fn(**args)
            except Exception as e:  # noqa: BLE001
                need(False, f"{name}: valid arguments ({label}) {shown} refused: {e!r}")
            return False
        change, types_ = bad[label]
        change(vrs, args)
        args = {k: twist(vrs, v) for k, v in args.items()}
        shown = lambda: {k: v for k, v in args.items() if isinstance(v, (int, float, complex, str, list, tuple, type(None), np.ndarray))}
        keep, before = snapshot(args), glob()
        try:
            fn(**args)
        except Exception as e:  # noqa: BLE001
            need(isinstance(e, types_), lambda: f"{name}: invalid {label} {shown()} refused with {e!r}, documented {types_.__name__}")
            need(str(e) != "" and "BaseException" not in str(e), lambda: f"{name}: invalid {label} refused without a message")
        else:
            need(False, lambda: f"{name}: invalid {label} accepted: {shown()}")
        need(glob() == before, f"{name}: refusing changed global state")
        for k, (v, writeable) in keep.items():
            need(np.array_equal(args[k], v, equal_nan=v.dtype.kind in "fc") and (args[k].flags.writeable == writeable or k == "input_data"), f"{name}: the refused call changed its argument {k}")
        fn, args = fresh()
        np.random.seed(7)
        again = value_of(fn(**args))
        if isinstance(want, type):
            need(again is want, f"{name}: a valid call after the refused one returned {again}")
        else:
            same(again, want, f"{name}: a valid call after the refused one")
    return True
