"""C29: calls are repeatable, leave their arguments and global state alone, and instances are independent."""
import io
import os
import random
import sys
import threading

import numpy as np
from hypothesis import strategies as st
from modopt.base import np_adjust, transform
from modopt.math import convolve as mconv
from modopt.math import matrix, metrics, stats
from modopt.opt import algorithms as al
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, LinearParent, MatrixOperator, WaveletConvolve, WaveletTransform
from modopt.opt.proximity import (ElasticNet, GroupLASSO, IdentityProx, KSupportNorm, LinearCompositionProx, LowRankMatrix, OrderedWeightedL1Norm, Positivity, ProximityCombo, Ridge, SparseThreshold)
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, wavelet

from harness.core import Prop
from harness.gen import expand, fixed, seeds
from harness.oracle import Frozen, need
from props import catalogue

PROP = Prop("C29", ["results are compared to 1e-10 (the memory alignment of an array can change the rounding of a sum)", "functions that document a random generator are given a seed"])


def flat(r):
    """A result as a flat list of numbers, for comparison."""
    if r is None:
        return np.zeros(0)
    if isinstance(r, (tuple, list)) or (isinstance(r, np.ndarray) and r.dtype == object):
        parts = [flat(v) for v in r]
        return np.concatenate(parts) if parts else np.zeros(0)
    return np.asarray(r, dtype=complex).reshape(-1)


def same(a, b, what):
    fa, fb = flat(a), flat(b)
    need(fa.shape == fb.shape, lambda: f"{what}: {fa.shape} and {fb.shape}")
    ok = np.array_equal(np.isnan(fa), np.isnan(fb))
    top = float(np.nanmax(np.abs(fb), initial=0.0)) if fb.size else 0.0
    if ok and fa.size:
        d = np.abs(np.nan_to_num(fa) - np.nan_to_num(fb))
        ok = float(np.max(d)) <= 1e-10 * max(top, 1e-3)
    need(ok, lambda: f"{what}\n first {fa[:12]}\n then {fb[:12]}")


def im(seed, shape=(4, 4), style="normal"):
    return expand(seed, shape, style)


# name -> (function of the arguments, arguments from a seed)
CALLS = {
    "convolve": (lambda x, k: mconv.convolve(x, k), lambda s: (im(s, (6, 5)), im(s + 1, (3, 3)))),
    "convolve_astropy": (lambda x, k: mconv.convolve(x, k, method="astropy"), lambda s: (im(s, (6, 5)), im(s + 1, (3, 3)))),
    "convolve_stack": (lambda x, k: mconv.convolve_stack(x, k, rot_kernel=True), lambda s: (im(s, (2, 6, 5)), im(s + 1, (2, 3, 3)))),
    "gram_schmidt": (matrix.gram_schmidt, lambda s: (im(s, (3, 4)),)),
    "nuclear_norm": (matrix.nuclear_norm, lambda s: (im(s, (3, 4)),)),
    "project": (matrix.project, lambda s: (im(s, (4,)), im(s + 1, (4,)))),
    "rotate": (lambda m: matrix.rotate(m, np.pi / 2), lambda s: (im(s, (4, 4)),)),
    "mad": (stats.mad, lambda s: (im(s, (3, 4)),)),
    "sigma_mad": (stats.sigma_mad, lambda s: (im(s, (3, 4)),)),
    "mse": (stats.mse, lambda s: (im(s, (3, 4)), im(s + 1, (3, 4)))),
    "psnr": (lambda a, b: (stats.psnr(a, b), stats.psnr(a, b, method="wiki")), lambda s: (im(s, (3, 4)), im(s + 1, (3, 4)))),
    "psnr_stack": (stats.psnr_stack, lambda s: (im(s, (2, 3, 4)), im(s + 1, (2, 3, 4)))),
    "gaussian_kernel": (lambda s: stats.gaussian_kernel((4, 5), s, norm="sum"), lambda s: (1.0 + s % 7,)),
    "metrics": (lambda t, r, m: (metrics.snr(t, r, m), metrics.psnr(t, r, m), metrics.mse(t, r, m), metrics.nrmse(t, r, m)), lambda s: (im(s, (8, 8)), im(s + 1, (8, 8)), (im(s + 2, (8, 8)) > -3).astype(int))),
    "ssim": (metrics.ssim, lambda s: (im(s, (8, 8)), im(s + 1, (8, 8)))),
    "np_rotate": (lambda a, b: (np_adjust.rotate(a), np_adjust.rotate_stack(b), np_adjust.pad2d(a, (1, 2)), np_adjust.fancy_transpose(b), np_adjust.ftr(b), np_adjust.ftl(b)), lambda s: (im(s, (3, 4)), im(s + 1, (2, 3, 4)))),
    "transform": (lambda c: (transform.cube2map(c, (2, 2)), transform.cube2matrix(c), transform.map2cube(transform.cube2map(c, (2, 2)), (2, 2)), transform.map2matrix(transform.cube2map(c, (2, 2)), (2, 2)), transform.matrix2cube(transform.cube2matrix(c), (3, 3)), transform.matrix2map(transform.cube2matrix(c), (6, 6))), lambda s: (im(s, (4, 3, 3)),)),
    "thresh": (lambda x, t: (noise.thresh(x, t, "hard"), noise.thresh(x, t, "soft")), lambda s: (im(s, (3, 4)), np.abs(im(s + 1, (3, 4))))),
    "add_noise": (lambda x, g: (noise.add_noise(x, sigma=2.0, rng=int(g)), noise.add_noise(x, noise_type="poisson", rng=int(g))), lambda s: (im(s, (3, 4)), s % 1000)),
    "positive": (positivity.positive, lambda s: (im(s, (3, 4)),)),
    "filters": (lambda x: (sfilter.gaussian_filter(x, 1.5), sfilter.mex_hat(x, 1.5), sfilter.mex_hat_dir(x, x, 1.5)), lambda s: (im(s, (5,)),)),
    "svd": (lambda x: (np.abs(svd.calculate_svd(x)[1]), svd.svd_thresh(x, threshold=0.7), svd.svd_thresh(x, n_pc=2, thresh_type="soft"), svd.svd_thresh(x, n_pc="all")), lambda s: (im(s, (9, 4)),)),
    "svd_coef": (lambda x, t: svd.svd_thresh_coef(x, lambda m: m, t), lambda s: (im(s, (9, 4)), np.abs(im(s + 1, (4, 4))))),
    "svd_fast": (lambda x: svd.svd_thresh_coef_fast(x, 0.5, n_vals=-1)[0], lambda s: (im(s, (9, 4)),)),
    "filter_convolve": (lambda x, f, y: (wavelet.filter_convolve(x, f), wavelet.filter_convolve(y, f, filter_rot=True), wavelet.filter_convolve_stack(y, f)), lambda s: (im(s, (5, 5)), im(s + 1, (2, 3, 3)), im(s + 2, (2, 5, 5)))),
    "trim_filter": (wavelet.trim_filter, lambda s: (np.pad(im(s, (3, 3)), 1),)),
    "power_method_rng": (lambda m, s: matrix.PowerMethod(lambda v: m.T @ (m @ v), (4,), rng=int(s), verbose=False).spec_rad, lambda s: (im(s, (4, 4)), s % 3000)),
    "power_method": (lambda m: matrix.PowerMethod(lambda v: m.T @ (m @ v), (4,), rng=3, verbose=False).spec_rad, lambda s: (im(s, (4, 4)),)),
}


def glob():
    return np.random.get_state()[1].tobytes(), np.random.get_state()[2:], dict(np.geterr()), os.getcwd(), dict(os.environ), np.get_printoptions()["precision"]


@PROP.sub("functions", fixed(name=st.sampled_from(sorted(CALLS)), a=seeds, b=seeds), quick=2500, factor=20, shards=8, rule="two different sets of arguments")
def functions(c):
    fn, mk = CALLS[c["name"]]
    a, b = mk(c["a"] % 2**31), mk(c["b"] % 2**31)
    before = glob()
    with Frozen(c["name"], **{f"a{i}": v for i, v in enumerate(a)}, **{f"b{i}": v for i, v in enumerate(b)}):
        r1 = fn(*a)
        keep = flat(r1).copy()
        fn(*b)
        same(r1, keep, f"{c['name']}: an earlier result changed when the function was called again")
        r3 = fn(*a)
        same(r3, keep, f"{c['name']}: the same call gave another result")
    need(glob() == before, f"{c['name']} changed global state (random state, floating point errors, directory or environment)")
    return c["a"] != c["b"]


def arrays(v, found=None):
    """The arrays in the arguments of a call."""
    found = [] if found is None else found
    if isinstance(v, np.ndarray):
        found.append(v)
    if isinstance(v, (list, tuple)):
        for u in v:
            arrays(u, found)
    return found


EVERY = sorted(catalogue.ENTRIES)


def result(call):
    with np.errstate(all="ignore"):
        return [np.array(v) for v in catalogue.flat(call()) if v.dtype.kind not in "OUS"]


@PROP.sub("catalogue", fixed(name=st.sampled_from(EVERY), seed=seeds, others=st.lists(st.tuples(st.sampled_from(EVERY), seeds), max_size=4), again=st.booleans()), quick=4000, factor=20, shards=8, rule="there are results other than zero, and calls in between")
def every(c):
    """Any call with any options, repeated on fresh operators after other calls (also of the same function with other options)."""
    call, name = catalogue.Call(c["name"], c["seed"] % 2**31), c["name"]
    own = arrays(list(call.values().values()))
    was = [np.array(a, dtype=object, copy=True) if a.dtype == object else a.copy() for a in own]
    before = glob()
    with np.errstate(all="ignore"):
        raw = catalogue.flat(call())
    raw = [v for v in raw if v.dtype.kind not in "OUS"]
    keep = [np.array(v) for v in raw]
    # (a reweighting shares its weights with the operator that uses them)
    for a, b in zip(own, was) if name != "reweighting" else ():
        need(a.shape == b.shape and a.dtype == b.dtype and (a.dtype == object or np.array_equal(a, b, equal_nan=True)), lambda: f"{name} {call.values()} changed its arguments: {a} were {b}"[:1500])
    others = [(name, c["seed"] + 1), *c["others"]] if c["again"] else c["others"]
    for other, seed in others:
        result(catalogue.Call(other, seed % 2**31))
    need(len(raw) == len(keep), name)
    for a, b in zip(raw, keep):
        same(a, b, f"{name}: an earlier result changed after calls of {[o for o, _ in others]}")
    then = result(catalogue.Call(name, c["seed"] % 2**31))
    same(np.asarray(len(then)), np.asarray(len(keep)), f"{name}: number of results")
    for a, b in zip(then, keep):
        same(a, b, f"{name} {call.values()}: another result after calls of {[o for o, _ in others]}"[:1200])
    need(glob() == before, f"{name} or {[o for o, _ in others]} changed global state")
    return bool(others) and any(np.any(v) for v in keep)


def soft_op():
    return SparseThreshold(Identity(), 0.4)


# name -> (factory, method call, argument from a seed)
OPS = {
    "sparse": (soft_op, lambda o, x: (o.op(x), o.op(x, extra_factor=0.5), o.cost(x)), (3, 4)),
    "sparse_w": (lambda: SparseThreshold(Identity(), np.linspace(0, 1, 12).reshape(3, 4)), lambda o, x: (o.op(x), o.op(x, extra_factor=0.5), o.cost(x)), (3, 4)),
    "hard": (lambda: SparseThreshold(Identity(), 0.4, "hard"), lambda o, x: o.op(x, extra_factor=2.0), (3, 4)),
    "positivity": (Positivity, lambda o, x: (o.op(x), o.cost(x)), (3, 4)),
    "identity": (IdentityProx, lambda o, x: (np.array(o.op(x)), o.cost(x)), (3, 4)),
    "lowrank": (lambda: LowRankMatrix(0.4, thresh_type="soft"), lambda o, x: (o.op(x), o.op(x, extra_factor=0.5), o.cost(x)), (3, 4)),
    "lowrank_ngole": (lambda: LowRankMatrix(0.4, lowr_type="ngole", operator=lambda v: v), lambda o, x: (o.op(x), o.cost(x)), (2, 3, 3)),
    "ridge": (lambda: Ridge(Identity(), 0.3), lambda o, x: (o.op(x), o.op(x, extra_factor=0.5), o.cost(x)), (3, 4)),
    "enet": (lambda: ElasticNet(Identity(), 0.3, 0.2), lambda o, x: (o.op(x), o.op(x, extra_factor=0.5), o.cost(x)), (3, 4)),
    "owl": (lambda: OrderedWeightedL1Norm(np.array([3.0, 2.0, 2.0, 0.5])), lambda o, x: (o.op(x), o.op(x, extra_factor=0.5), o.cost(x)), (4,)),
    "ksupport": (lambda: KSupportNorm(0.5, 2), lambda o, x: (o.op(x), o.op(x, extra_factor=2.0), o.cost(x)), (6,)),
    "group": (lambda: GroupLASSO(0.4), lambda o, x: (o.op(x), o.op(x, extra_factor=0.5), o.cost(x)), (3, 4)),
    "composition": (lambda: LinearCompositionProx(MatrixOperator(np.eye(4)[::-1]), soft_op()), lambda o, x: (o.op(x), o.op(x, extra_factor=0.5), o.cost(x)), (4,)),
    "combo": (lambda: ProximityCombo([soft_op(), Positivity()]), lambda o, x: (o.op(np.array(list(x))), o.cost(x)), (2, 3)),
    "matrix": (lambda: MatrixOperator(np.arange(16.0).reshape(4, 4)), lambda o, x: (o.op(x), o.adj_op(x)), (4,)),
    "linear_combo": (lambda: LinearCombo([MatrixOperator(np.eye(4)), MatrixOperator(2 * np.eye(4))], [1.0, 0.5]), lambda o, x: (o.op(x), o.adj_op(np.array([x, x]))), (4,)),
    "wavelet_convolve": (lambda: WaveletConvolve(im(5, (2, 3, 3))), lambda o, x: (o.op(x), o.adj_op(o.op(x))), (2, 5, 5)),
    "wavelet": (lambda: WaveletTransform("db2", (8, 6), level=1, mode="zero"), lambda o, x: (o.op(x), o.adj_op(o.op(x))), (8, 6)),
    "power_method": (lambda: matrix.PowerMethod(lambda v: np.arange(16.0).reshape(4, 4) @ v, (4,), rng=2024, auto_run=False, verbose=False), lambda o, x: (o.get_spec_rad(max_iter=1 + int(abs(x[0]) * 3) % 4), o.spec_rad, o.inv_spec_rad), (4,)),
    "gradient": (lambda: GradBasic(im(9, (4,)), lambda v: 2 * v, lambda v: 3 * v, verbose=False), lambda o, x: (o.get_grad(x), np.array(o.grad), o.cost(x), o.trans_op_op(x)), (4,)),
}


@PROP.sub("changed_in_place", fixed(kind=st.sampled_from(["fn", "op"]), f=st.sampled_from(sorted(CALLS)), o=st.sampled_from(sorted(OPS)), a=seeds, b=seeds), quick=2000, factor=20, shards=8, rule="the new contents differ")
def changed_in_place(c):
    """An array whose contents were replaced between two calls is read again."""
    sa, sb = c["a"] % 2**31, c["b"] % 2**31
    if c["kind"] == "fn":
        fn, mk = CALLS[c["f"]]
        args, new, name = mk(sa), mk(sb), c["f"]
    else:
        make, call, shape = OPS[c["o"]]
        op, fresh = make(), make()
        fn, args, new, name = (lambda x: call(op, x)), (im(sa, shape),), (im(sb, shape),), c["o"]
    want = flat(CALLS[name][0](*new) if c["kind"] == "fn" else call(fresh, new[0])).copy()
    first = flat(fn(*args)).copy()
    same(fn(*args), first, f"{name}: the same call gave another result")
    args = [a if isinstance(a, np.ndarray) else b for a, b in zip(args, new)]
    for a, b in zip(args, new):
        if isinstance(a, np.ndarray):
            a[...] = b
    same(fn(*args), want, f"{name}: called again with new contents in the same array")
    return sa != sb


@PROP.sub("operators", fixed(name=st.sampled_from(sorted(OPS)), seq=st.lists(st.integers(0, 2), min_size=2, max_size=6), seed=seeds), quick=2500, factor=20, shards=8, rule="the operator is used on at least two different arrays")
def operators(c):
    make, call, shape = OPS[c["name"]]
    xs = [im((c["seed"] + k) % 2**32, shape) * (1 + k) for k in range(3)]
    fresh = [flat(call(make(), x)).copy() for x in xs]
    op, other = make(), make()
    before = glob()
    kept = []
    with Frozen(c["name"], x0=xs[0], x1=xs[1], x2=xs[2]):
        for k in c["seq"]:
            call(other, xs[(k + 1) % 3])
            r = call(op, xs[k])
            same(r, fresh[k], f"{c['name']}: the result depends on earlier calls {c['seq']}")
            kept.append((r, k))
        for r, k in kept:
            same(r, fresh[k], f"{c['name']}: an earlier result changed after later calls")
    need(glob() == before, f"{c['name']} changed global state")
    return len(set(c["seq"])) > 1


# calls which draw random numbers of their own (no generator given)
RANDOM = {
    "gauss": lambda x: noise.add_noise(x),
    "gauss_sigma": lambda x: noise.add_noise(x, sigma=2.5, noise_type="gauss"),
    "gauss_each": lambda x: noise.add_noise(x, sigma=list(1.0 + np.arange(len(x)))),
    "poisson": lambda x: noise.add_noise(100 * np.abs(x) + 5, noise_type="poisson"),
    "gauss_stream": lambda x: noise.add_noise(x, rng=np.random.default_rng(1)),
    "power": lambda x: matrix.PowerMethod(lambda v: np.arange(9.0).reshape(3, 3) @ v, (3,), verbose=False).spec_rad,
    "power_none": lambda x: matrix.PowerMethod(lambda v: np.arange(9.0).reshape(3, 3) @ v, (3,), rng=None, verbose=False).spec_rad,
}


@PROP.sub("own_randomness", fixed(name=st.sampled_from(sorted(RANDOM)), seed=seeds, n=st.integers(1, 3)), quick=200, factor=10, shards=1, rule="every case")
def own_randomness(c):
    """Without a generator the global random numbers of the program are left alone, whatever is drawn."""
    x = im(c["seed"] % 2**31, (9,))
    np.random.seed(c["seed"] % 2**31)
    random.seed(c["seed"])
    before = glob(), random.getstate()
    for _ in range(c["n"]):
        with Frozen(c["name"], x=x):
            RANDOM[c["name"]](x)
    need((glob(), random.getstate()) == before, f"{c['name']} drew from, or seeded, the global random generator")
    return True


A = np.array([[1.0, 0.3, 0.0], [0.2, 0.8, 0.1], [0.0, 0.4, 0.9]])


def parts(seed):
    b = im(seed + 1, (3,))
    g = GradBasic(b, lambda v: A @ v, lambda v: A.T @ v, verbose=False)
    return g, SparseThreshold(Identity(), 0.1 + (seed % 5) / 10)


def build(name, seed, shared=None):
    x = im(seed, (3,))
    g, pr = shared or parts(seed)
    met = {"m": {"metric": lambda test: float(np.sum(np.abs(test))), "mapping": {"x_new": "test"}, "cst_kwargs": {}, "early_stopping": False}}
    kw = dict(progress=False, metrics=met, metric_call_period=2)
    cost = lambda: costObj([g, pr], verbose=False)
    if name == "fb":
        return x, al.ForwardBackward(x, g, pr, cost=cost(), beta_param=0.4, auto_iterate=False, linear=Identity(), **kw)
    if name == "greedy":
        return x, al.ForwardBackward(x, g, pr, cost=cost(), beta_param=0.4, auto_iterate=False, linear=Identity(), restart_strategy="greedy", xi_restart=0.96, min_beta=0.1, s_greedy=1.1, **kw)
    if name == "gfb":
        return x, al.GenForwardBackward(x, g, [pr, Positivity()], cost=cost(), gamma_param=0.4, auto_iterate=False, linear=Identity(), **kw)
    if name == "pogm":
        return x, al.POGM(x, x, x, x, g, pr, cost=cost(), beta_param=0.4, auto_iterate=False, linear=Identity(), **kw)
    if name == "condat":
        w = np.full(3, 0.2)
        rw = cwbReweight(w) if seed % 2 else None
        return x, al.Condat(x, x, g, Positivity(), SparseThreshold(Identity(), w), cost=cost(), reweight=rw, sigma=0.3, tau=0.3, auto_iterate=False, **kw)
    if name in ("admm", "fastadmm"):
        cls = al.ADMM if name == "admm" else al.FastADMM
        return x, cls(x, x, np.zeros(3), Identity(), LinearParent(lambda v: -v, lambda v: -v), np.zeros(3), (lambda init, obs: 0.5 * (init + obs), lambda init, obs: pr.op(obs)), cost_funcs=(lambda u: float(np.sum(u**2)), lambda v: float(np.sum(np.abs(v)))), **kw)
    cls = {"vanilla": al.VanillaGenericGradOpt, "ada": al.AdaGenericGradOpt, "rmsprop": al.RMSpropGradOpt, "momentum": al.MomentumGradOpt, "adam": al.ADAMGradOpt, "saga": al.SAGAOptGradOpt}[name]
    return x, cls(x, g, pr, cost(), eta=0.1, epoch_size=2, **kw)


ALGS = ["fb", "greedy", "gfb", "pogm", "condat", "admm", "fastadmm", "vanilla", "ada", "rmsprop", "momentum", "adam", "saga"]


def state(alg):
    m = alg.metrics["m"]
    cost = getattr(alg, "_cost_func", None)
    return flat([alg.x_final, m["values"], m["index"], [] if cost is None else [cost.cost]])


@PROP.sub("instances", fixed(n1=st.sampled_from(ALGS), n2=st.sampled_from(ALGS), s1=seeds, s2=seeds, runs=st.lists(st.tuples(st.integers(0, 1), st.integers(1, 9)), min_size=2, max_size=5), same=st.booleans(), ops=st.booleans()), quick=2500, factor=20, shards=8, rule="both instances run")
def instances(c):
    """Two solvers run interleaved (also on the same operators) give exactly what each gives alone."""
    names = (c["n1"], c["n1"] if c["same"] else c["n2"])
    sd = (c["s1"] % 2**31, c["s2"] % 2**31)
    alone = []
    ops = (lambda: parts(sd[0])) if c["ops"] else (lambda: None)
    for k in range(2):
        _, alg = build(names[k], sd[k], ops())
        runs = [n for w, n in c["runs"] if w == k]
        for n in runs:
            alg.iterate(max_iter=n)
        alone.append(state(alg).copy() if runs else None)
    before = glob()
    common = ops()
    pair = [build(names[k], sd[k], common) for k in range(2)]
    with Frozen("iterate", x1=pair[0][0], x2=pair[1][0]):
        for w, n in c["runs"]:
            pair[w][1].iterate(max_iter=n)
    need(glob() == before, f"{names} changed global state")
    for k in range(2):
        if alone[k] is not None:
            same(state(pair[k][1]), alone[k], f"{names[k]} gives another result when {names[1 - k]} runs in between")
    return len({w for w, _ in c["runs"]}) == 2


# what prints can only be told apart in one thread
SILENT = [n for n in EVERY if n != "transpose_test"]


@PROP.sub("threads", fixed(jobs=st.lists(st.tuples(st.sampled_from(["fn", "op", "solver", "any", "any"]), st.integers(0, 100), seeds, st.integers(1, 6)), min_size=2, max_size=5), shared=st.booleans()), quick=700, factor=15, shards=8, rule="jobs of at least two kinds or on different data")
def threads(c):
    """Calls made at the same time from several threads give what they give one after the other."""
    def job(kind, k, seed, n, op=None):
        seed %= 2**31
        if kind == "fn":
            fn, mk = CALLS[sorted(CALLS)[k % len(CALLS)]]
            args = mk(seed)
            return lambda: [flat(fn(*args)).copy() for _ in range(n)]
        if kind == "any":
            calls = [catalogue.Call(SILENT[k % len(SILENT)], (seed + i) % 2**31) for i in range(n)]
            return lambda: [v for call in calls for v in result(call)]
        if kind == "op":
            make, call, shape = OPS[shared_op]
            o = op or make()
            xs = [im(seed + i, shape) for i in range(n)]
            return lambda: [flat(call(o, x)).copy() for x in xs]
        name = ALGS[k % len(ALGS)]
        _, alg = build(name, seed)
        return lambda: (alg.iterate(max_iter=n), [state(alg).copy()])[1]

    # one operator used by every thread (not the gradient, which holds its last value)
    shared_op = [o for o in sorted(OPS) if o != "gradient"][c["jobs"][0][1] % (len(OPS) - 1)]
    want = [job(*j)() for j in c["jobs"]]
    common = OPS[shared_op][0]() if c["shared"] else None
    todo, got = [job(*j, op=common) for j in c["jobs"]], [None] * len(c["jobs"])
    gate = threading.Barrier(len(todo))

    def worker(i):
        gate.wait()
        try:
            got[i] = todo[i]()
        except Exception as e:  # noqa: BLE001
            got[i] = e

    pool = [threading.Thread(target=worker, args=(i,)) for i in range(len(todo))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    finally:
        sys.stdout = out
        sys.setswitchinterval(old)
    for j, w, g in zip(c["jobs"], want, got):
        need(not isinstance(g, Exception), lambda: f"{j}: {g!r} when other calls are made at the same time")
        for a, b in zip(g, w):
            same(a, b, f"{j}: another result when {c['jobs']} run at the same time")
    return len(set(c["jobs"])) > 1
