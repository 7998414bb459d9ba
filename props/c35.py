"""C35: the element type, byte order and write flag of the data do not change the numbers."""
import warnings

import numpy as np
from hypothesis import strategies as st
from modopt.base import np_adjust, transform
from modopt.math import convolve as mconv
from modopt.math import matrix, metrics, stats
from modopt.opt import algorithms as al
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, MatrixOperator, WaveletConvolve, WaveletTransform
from modopt.opt.proximity import ElasticNet, GroupLASSO, IdentityProx, KSupportNorm, LinearCompositionProx, LowRankMatrix, OrderedWeightedL1Norm, Positivity, ProximityCombo, Ridge, SparseThreshold
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, wavelet

from harness.core import Prop
from harness.gen import fixed, lay, layouts, seeds
from harness.oracle import Frozen, need
from props import catalogue

PROP = Prop(
    "C35",
    [
        "the values are integers that every type of the case represents exactly; the result on a native float64 copy is the reference (its correctness is what the other properties check)",
        "float32 is compared to 1e-3 of the largest value, where a decision within that distance of its boundary is avoided by using continuous functions; every other type to 1e-9, except that scipy decomposes matrices of 16 bits or less in single precision",
        "costs of the proximity operators are given floating point or 64-bit data, and min_max_normalize no narrow signed type: NumPy wraps squares and differences of narrower integers there",
        "the most negative value of a signed type, whose absolute value it cannot represent, is not used",
        "solvers that refuse an integer start with a TypeError are given floating point starts only",
    ],
)

LIM = {"uint8": (0, 255), "int8": (-127, 127), "uint16": (0, 60000), "int16": (-30000, 30000), "int32": (-40000, 40000), "uint32": (0, 40000), "int64": (-40000, 40000), "float32": (-4000, 4000), ">f8": (-40000, 40000), ">i4": (-40000, 40000), ">i2": (-30000, 30000), "float64": (-40000, 40000), "bool": (0, 1)}
NARROW = {"uint8", "int8", "uint16", "int16", ">i2", "bool"}


def draw_ints(seed, shape, dt, mag):
    rs = np.random.RandomState(seed % 2**32)
    lo, hi = LIM[dt]
    lo, hi = max(lo, -mag), min(hi, mag)
    a = rs.randint(lo, hi + 1, shape)
    return a


def flat(r):
    if r is None:
        return np.zeros(0)
    if isinstance(r, (tuple, list)) or (isinstance(r, np.ndarray) and r.dtype == object):
        parts = [flat(v) for v in r]
        return np.concatenate(parts) if parts else np.zeros(0)
    return np.asarray(r).astype(complex).reshape(-1)


def rt(x, t="soft"):
    return svd.svd_thresh(x, threshold=25.25, thresh_type=t)


def reweighted(w, x):
    rw = cwbReweight(np.abs(w) + 1.0)
    rw.reweight(x)
    return rw.weights


GROUPS = {
    # name -> (function, shapes, dtypes that are left out)
    "convolve_scipy": (lambda x, k: mconv.convolve(x, k, method="scipy"), [(6, 5), (3, 3)], ()),
    "convolve_astropy": (lambda x, k: mconv.convolve(x, k, method="astropy"), [(6, 5), (3, 3)], ()),
    "convolve_stack": (lambda x, k: (mconv.convolve_stack(x, k, method="scipy"), mconv.convolve_stack(x, k, rot_kernel=True, method="scipy")), [(2, 6, 5), (2, 3, 3)], ()),
    "gram_schmidt": (lambda m: matrix.gram_schmidt(m + np.eye(3, 5, dtype=m.dtype), return_opt="both"), [(3, 5)], ("bool", "float32", "uint8", "int8", "uint16", "int16", ">i2")),
    "gram_schmidt_narrow": (lambda m: matrix.gram_schmidt(m, return_opt="orthonormal"), [(2, 9)], ("bool", "float32")),
    "nuclear_norm": (matrix.nuclear_norm, [(3, 4)], ("bool",)),
    "project": (matrix.project, [(6,), (6,)], ("bool",)),
    "rotate": (lambda m: (matrix.rotate(m, np.pi / 2), matrix.rotate(m, np.pi)), [(5, 5)], ()),
    "mad": (lambda x: (stats.mad(x), stats.sigma_mad(x)), [(3, 5)], ("bool",)),
    "mse": (stats.mse, [(4, 5), (4, 5)], ("bool",)),
    "psnr": (stats.psnr, [(4, 5), (4, 5)], ("bool",)),
    "psnr_tall": (stats.psnr, [(300, 2), (300, 2)], ("bool",)),
    "psnr_wiki": (lambda a, b: stats.psnr(a, b, method="wiki"), [(4, 5), (4, 5)], ("bool",)),
    "psnr_stack": (lambda a, b: (stats.psnr_stack(a, b), stats.psnr_stack(a, b, method="wiki")), [(2, 4, 5), (2, 4, 5)], ("bool",)),
    "image_metrics": (lambda t, r: (metrics.snr(t, r), metrics.psnr(t, r), metrics.mse(t, r), metrics.nrmse(t, r)), [(6, 6), (6, 6)], ("bool",)),
    "image_metrics_mask": (lambda t, r, m: (metrics.snr(t, r, np.abs(m) % 2), metrics.psnr(t, r, np.abs(m) % 2), metrics.mse(t, r, np.abs(m) % 2), metrics.nrmse(t, r, np.abs(m) % 2)), [(7, 7), (7, 7), (7, 7)], ("bool",)),
    "ssim": (lambda t, r: metrics.ssim(t, r), [(8, 8), (8, 8)], ("bool",)),
    "min_max": (metrics.min_max_normalize, [(5, 5)], ("bool", "int8", "int16", ">i2")),
    "np_rotate": (np_adjust.rotate, [(3, 4)], ()),
    "rotate_stack": (np_adjust.rotate_stack, [(2, 3, 4)], ()),
    "pad2d": (lambda x: (np_adjust.pad2d(x, (1, 2)), np_adjust.pad2d(x, 2)), [(3, 4)], ()),
    "transposes": (lambda x: (np_adjust.fancy_transpose(x), np_adjust.ftr(x), np_adjust.ftl(x)), [(2, 3, 4)], ()),
    "cube2map": (lambda c: (transform.cube2map(c, (2, 2)), transform.cube2matrix(c), transform.matrix2cube(transform.cube2matrix(c), (3, 3))), [(4, 3, 3)], ()),
    "map2cube": (lambda m: (transform.map2cube(m, (2, 2)), transform.map2matrix(m, (2, 2))), [(6, 6)], ()),
    "matrix2map": (lambda m: transform.matrix2map(m, (6, 6)), [(9, 4)], ()),
    "thresh_soft": (lambda x: (noise.thresh(x, 7.5, "soft"), noise.thresh(x, 20, "soft")), [(4, 5)], ("bool",)),
    "thresh_hard": (lambda x: (noise.thresh(x, 7.5, "hard"), noise.thresh(x, 20, "hard")), [(4, 5)], ("bool",)),
    "thresh_array": (lambda x, t: (noise.thresh(x, np.abs(t), "soft"), noise.thresh(x, np.abs(t), "hard")), [(4, 5), (4, 5)], ("bool",)),
    "add_noise": (lambda x: (noise.add_noise(x, sigma=2.0, rng=3), noise.add_noise(x, sigma=3, rng=3)), [(4, 5)], ("bool",)),
    "add_noise_list": (lambda x: noise.add_noise(x, sigma=np.array([1.0, 2.0]), rng=3), [(2, 4, 5)], ("bool",)),
    "poisson": (lambda x: noise.add_noise(np.abs(x), noise_type="poisson", rng=3), [(4, 5)], ("bool", "float32")),
    "positive": (positivity.positive, [(4, 5)], ("bool",)),
    "gaussian_filter": (lambda x: (sfilter.gaussian_filter(x, 20), sfilter.gaussian_filter(x, 20, norm=False)), [(9,)], ("bool",)),
    "mex_hat": (lambda x, y: (sfilter.mex_hat(x, 50), sfilter.mex_hat_dir(x, y, 50)), [(9,), (9,)], ("bool",)),
    "calculate_svd": (lambda x: (lambda u, s, v: (s, (u * s) @ v))(*svd.calculate_svd(x)), [(6, 4)], ("bool",)),
    "svd_thresh": (rt, [(6, 4)], ("bool",)),
    "svd_rank": (lambda x: svd.svd_thresh(x, n_pc=2, thresh_type="soft"), [(6, 4)], ("bool",)),
    "svd_coef": (lambda x: svd.svd_thresh_coef(x, lambda c: c, 13.25, thresh_type="soft"), [(9, 4)], ("bool",)),
    "svd_fast": (lambda x: svd.svd_thresh_coef_fast(x, 25.25, thresh_type="soft")[0], [(6, 4)], ("bool",)),
    "filter_convolve": (lambda x, f: wavelet.filter_convolve(x, f), [(5, 6), (2, 3, 3)], ()),
    "filter_convolve_rot": (lambda x, f: wavelet.filter_convolve(x, f, filter_rot=True), [(2, 5, 6), (2, 3, 3)], ()),
    "filter_convolve_stack": (lambda x, f: (wavelet.filter_convolve_stack(x, f), wavelet.filter_convolve_stack(x, f, method="astropy")), [(2, 5, 6), (2, 3, 3)], ()),
    "power_method": (lambda m: matrix.PowerMethod(lambda v: m.T.dot(m.dot(v)), (3,), rng=3, verbose=False).spec_rad, [(4, 3)], ("bool", "uint8", "int8", "uint16", "int16", ">i2", "float32")),
    # operators
    "prox_sparse": (lambda x: (SparseThreshold(Identity(), 7.5).op(x), SparseThreshold(Identity(), 7).op(x, extra_factor=2.0)), [(3, 4)], ("bool",)),
    "prox_sparse_hard": (lambda x: SparseThreshold(Identity(), 7.5, "hard").op(x), [(3, 4)], ("bool",)),
    "prox_sparse_weights": (lambda x, w: SparseThreshold(Identity(), np.abs(w)).op(x, extra_factor=0.5), [(3, 4), (3, 4)], ("bool",)),
    "prox_positivity": (lambda x: Positivity().op(x), [(3, 4)], ("bool",)),
    "prox_identity": (lambda x: np.array(IdentityProx().op(x)), [(3, 4)], ()),
    "prox_lowrank": (lambda x: LowRankMatrix(25.25, thresh_type="soft").op(x, extra_factor=0.5), [(2, 3, 4)], ("bool",)),
    "prox_lowrank_ngole": (lambda x: LowRankMatrix(13.25, thresh_type="soft", lowr_type="ngole", operator=lambda v: v).op(x), [(2, 3, 3)], ("bool",)),
    "prox_ridge": (lambda x: Ridge(Identity(), 3).op(x, extra_factor=0.5), [(3, 4)], ("bool",)),
    "prox_enet": (lambda x: ElasticNet(Identity(), 3, 7).op(x, extra_factor=0.5), [(3, 4)], ("bool",)),
    "prox_owl": (lambda x: OrderedWeightedL1Norm(np.array([9, 7, 7, 2])).op(x), [(4,)], ("bool",)),
    "prox_ksupport": (lambda x: KSupportNorm(2.0, 2).op(x, extra_factor=2.0), [(6,)], ("bool",)),
    "prox_group": (lambda x: GroupLASSO(25.25).op(x, extra_factor=0.5), [(3, 4)], ("bool",)),
    "prox_composition": (lambda x: LinearCompositionProx(MatrixOperator(np.eye(4)[::-1]), SparseThreshold(Identity(), 7.5)).op(x), [(4,)], ("bool",)),
    "prox_combo": (lambda x: tuple(np.array(v) for v in ProximityCombo([SparseThreshold(Identity(), 7.5), Positivity()]).op(x)), [(2, 3)], ("bool",)),
    "costs": (
        lambda x: tuple(p.cost(x) for p in (SparseThreshold(Identity(), 2.5), Ridge(Identity(), 3), ElasticNet(Identity(), 3, 7), GroupLASSO(2), LowRankMatrix(2.0, lowr_type="standard"))),
        [(2, 3, 4)], ("bool", "int32", ">i4", "uint32", *NARROW),
    ),
    "matrix_operator": (lambda m: (MatrixOperator(m).op(np.array([1.5, -2.0, 3.0])), MatrixOperator(m).adj_op(np.array([1.0, 2.0, -0.5, 4.0]))), [(4, 3)], ()),
    "matrix_operator_data": (lambda x: (MatrixOperator(np.linspace(-1, 1, 12).reshape(4, 3)).op(x)), [(3,)], ()),
    "linear_combo": (lambda x: tuple(np.array(v) for v in LinearCombo([MatrixOperator(np.eye(4)), MatrixOperator(2.5 * np.eye(4))], [1.0, 0.5]).op(x)), [(4,)], ()),
    "wavelet_convolve": (lambda f, x: (lambda w: (w.op(x), w.adj_op(np.stack([np.stack([x[0], 2.0 * x[0]])]))))(WaveletConvolve(f)), [(2, 3, 3), (1, 5, 6)], ("bool",)),
    "wavelet": (lambda x: WaveletTransform("db2", (8, 6), level=1, mode="symmetric").op(x), [(8, 6)], ("bool",)),
    "wavelet_adjoint": (lambda x: (lambda w: (w.op(np.zeros((8, 8))), w.adj_op(x))[1])(WaveletTransform("haar", (8, 8), level=1, mode="periodization")), [(64,)], ("bool",)),
    "reweight_data": (lambda x: reweighted(np.array([1.0, 2.0, 3.0, 4.0]), x), [(4,)], ("bool",)),
    "reweight_weights": (lambda w: reweighted(w, np.array([1.0, 2.0, -3.0, 4.0])), [(4,)], ("bool", "uint8", "int8", "int16", "uint16", ">i2")),
    "gradient_data": (lambda y: (lambda g: (g.get_grad(np.array([1.5, -2.0, 3.0, 1.0])), g.grad, g.cost(np.array([1.5, -2.0, 3.0, 1.0]))))(GradBasic(y, lambda v: 2.5 * v, lambda v: 2.5 * v, verbose=False)), [(4,)], ("bool",)),
    "gradient_point": (lambda x: (lambda g: (g.get_grad(x), g.grad, g.cost(x), g.trans_op_op(x)))(GradBasic(np.array([1.5, -2.0, 3.0, 1.0]), lambda v: 2.5 * v, lambda v: 2.5 * v, verbose=False)), [(4,)], ("bool",)),
}


@st.composite
def func_case(draw):
    name = draw(st.sampled_from(sorted(GROUPS)))
    dts = sorted(set(LIM) - set(GROUPS[name][2]))
    n = len(GROUPS[name][1])
    same = draw(st.booleans())
    first = draw(st.sampled_from(dts))
    return {
        "name": name, "dts": [first if same else draw(st.sampled_from(dts)) for _ in range(n)], "seeds": [draw(seeds) for _ in range(n)], "mag": draw(st.sampled_from([9, 100, 300, 5000, 50000])),
        "order": draw(layouts), "ro": draw(st.booleans()),
    }


FROZEN_OK = {"gradient_data"}  # documented to set the write flag of its data


def sensible(name, args):
    if any(np.ptp(a) == 0 for a in args):
        return False
    if name in ("mse", "psnr", "psnr_tall", "psnr_wiki", "image_metrics", "image_metrics_mask", "ssim"):
        if np.array_equal(args[0], args[1]):
            return False
        pre = [(np.abs(a) - np.abs(a).min()) / max(np.ptp(np.abs(a)), 1e-9) for a in args]
        if name.startswith("image") or name == "ssim":
            if any(np.ptp(np.abs(a)) == 0 for a in args[:2]) or np.max(np.abs(pre[0] - pre[1])) < 1e-6:
                return False
            if len(args) > 2:
                m = np.abs(args[2]) % 2
                return bool(np.any(m * pre[0])) and bool(np.any(m * np.abs(pre[0] - pre[1]) > 1e-6))
    if name == "psnr_stack":
        return all(np.ptp(a) > 0 and not np.array_equal(a, b) for a, b in zip(*args))
    if name.startswith("gram"):
        a = args[0] + (np.eye(3, 5) if name == "gram_schmidt" else 0)
        return np.linalg.cond(a) < 50
    if name == "project":
        return bool(np.any(args[0]))
    return True


@PROP.sub("functions", func_case(), quick=6000, factor=20, shards=8, rule="the data vary and at least one argument is not a native float64 array")
def functions(c):
    name = c["name"]
    fn, shapes, _ = GROUPS[name]
    # every value is representable in every type of the case
    ints = [draw_ints(s, sh, dt, c["mag"]) for s, sh, dt in zip(c["seeds"], shapes, c["dts"])]
    if not sensible(name, [i.astype(float) for i in ints]):
        return False
    args = []
    for i, dt in zip(ints, c["dts"]):
        a = lay(i.astype(dt), c["order"])
        if dt[0] == ">":
            b = np.empty_like(a, dtype=dt)
            b[...] = a
            a = b
        if c["ro"] and name not in FROZEN_OK:
            a.flags.writeable = False
        args.append(a)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = flat(fn(*[i.astype(float) for i in ints]))
        with Frozen(name, **{f"a{k}": a for k, a in enumerate(args)}):
            res = flat(fn(*args))
    need(res.shape == ref.shape, lambda: f"{name} on {c['dts']}: {res.shape} values, {ref.shape} on float64")
    tol = 1e-3 if "float32" in c["dts"] or (set(c["dts"]) & NARROW and ("svd" in name or "lowrank" in name)) else 1e-9
    if name in ("ssim",):
        tol = max(tol, 1e-7)
    top = max(float(np.max(np.abs(ref), initial=0.0)), float(max(np.max(np.abs(i)) for i in ints)) if tol == 1e-3 else 1e-300)
    if tol == 1e-3 and ("psnr" in name or "metrics" in name):
        top = max(top, 1.0)
    bad = ~(np.abs(res - ref) <= tol * top)
    need(not bad.any(), lambda: f"{name} on {c['dts']}{' (read-only)' if c['ro'] else ''}: {res[bad][:4]} where float64 gives {ref[bad][:4]}")
    return any(dt != "float64" for dt in c["dts"])


SOLVERS = ("fb", "gfb", "pogm", "condat", "admm", "vanilla", "ada", "rms", "momentum", "adam", "saga")
INT_OK = ("fb", "admm", "vanilla", "ada", "rms", "momentum", "adam", "saga")


def solve(name, x0, obs, mat, iters):
    trace = []
    op = MatrixOperator(mat)
    obs.flags.writeable = True
    g = GradBasic(obs, op.op, op.adj_op, input_data_writeable=True, verbose=False)
    spec = {"m": {"metric": lambda x: trace.append(np.array(x, copy=True)) or 0.0, "mapping": {"x_new": "x"}, "cst_kwargs": {}, "early_stopping": False}}
    ident, pr = Identity(), SparseThreshold(Identity(), 0.3)
    k = dict(cost=None, auto_iterate=False, metrics=spec, metric_call_period=1, progress=False, verbose=False)
    if name == "fb":
        a = al.ForwardBackward(x0, g, pr, linear=ident, beta_param=0.4, **k)
    elif name == "gfb":
        a = al.GenForwardBackward(x0, g, [pr, Positivity()], linear=ident, gamma_param=0.4, **k)
    elif name == "pogm":
        a = al.POGM(x0, x0, x0, x0, g, pr, linear=ident, beta_param=0.4, **k)
    elif name == "condat":
        a = al.Condat(x0, x0, g, Positivity(), pr, linear=ident, rho=0.6, sigma=0.3, tau=0.3, **k)
    elif name == "admm":
        f = lambda init, obs: 0.5 * obs + 0.1 * init  # noqa: E731
        k.pop("cost")
        a = al.ADMM(x0, x0, x0, ident, ident, obs[: x0.size], (f, f), cost_funcs=None, tau=0.7, **k)
    else:
        cls = {"vanilla": al.VanillaGenericGradOpt, "ada": al.AdaGenericGradOpt, "rms": al.RMSpropGradOpt, "momentum": al.MomentumGradOpt, "adam": al.ADAMGradOpt, "saga": al.SAGAOptGradOpt}[name]
        a = cls(x0, g, pr, eta=0.1, **k)
    a.iterate(max_iter=iters)
    return trace, np.asarray(a.x_final)


@PROP.sub(
    "solvers",
    fixed(name=st.sampled_from(SOLVERS), xt=st.sampled_from(["float32", ">f8", "int64", "int16", "int32", "uint8", "float64"]), yt=st.sampled_from(["float32", ">f8", "int64", "int16", "uint8", "float64"]), mt=st.sampled_from(["float64", "int64", "int8"]), seed=seeds, iters=st.integers(1, 8), order=layouts),
    quick=1500, factor=15, rule="a start, observation or matrix that is not native float64",
)
def solvers(c):
    rs = np.random.RandomState(c["seed"])
    xt = c["xt"] if c["name"] in INT_OK or c["xt"] in ("float32", ">f8") else "float64"
    yt = c["yt"]
    if c["name"] == "admm" and "uint8" in (xt, yt):  # NumPy's own differences of unsigned arrays
        xt, yt = "int64", "int64"
    mat = rs.randint(-1, 2, (4, 3))
    x = rs.randint(0 if xt[0] == "u" else -5, 6, 3)
    y = rs.randint(0 if yt[0] == "u" else -9, 10, 4)
    t0, f0 = solve(c["name"], x.astype(float), y.astype(float), mat.astype(float), c["iters"])
    if not np.all(np.isfinite(f0)) or np.max(np.abs(f0)) > 1e6:
        return False
    t1, f1 = solve(c["name"], lay(x.astype(xt), c["order"]), lay(y.astype(yt), c["order"]), lay(mat.astype(c["mt"]), c["order"]), c["iters"])
    f32 = "float32" in (xt, yt)
    need(len(t0) == len(t1), "number of iterations depends on the element type")
    top = max([1.0] + [float(np.max(np.abs(t))) for t in t0])
    if f32 and c["name"] in ("ada", "rms", "adam"):
        return False
    for k, (a, b) in enumerate(zip([*t0, f0], [*t1, f1])):
        need(a.shape == b.shape and np.max(np.abs(a - b)) <= (1e-3 if f32 else 1e-9) * top, lambda: f"{c['name']} from a start of type {xt} (data {yt}, matrix {c['mt']}): iterate {k + 1} {b}, with float64 {a}")  # noqa: B023
    return (xt, yt, c["mt"]) != ("float64",) * 3


# -------------------------------------------------------------------- with any options
# scipy decomposes narrow types in single precision; a reweighting changes its weights, a check of the array its flags
NOT_NARROW, OWN = {n for n in catalogue.ENTRIES if "svd" in n}, ("check_npndarray", "reweighting")
TYPED = sorted(n for n in catalogue.ENTRIES if any(w.endswith(":arr") for w in catalogue.ENTRIES[n][0]))


@PROP.sub("catalogue", fixed(name=st.sampled_from(TYPED), seed=seeds, how=seeds), quick=3000, factor=20, shards=8, rule="an array is not a native float64 one, and results are not zero")
def typed(c):
    """Any call of the catalogue with any options, on whole numbers held in different types of arrays."""
    rs = np.random.RandomState(c["how"] % 2**32)
    call, name = catalogue.Call(c["name"], c["seed"] % 2**31), c["name"]
    solver = name in catalogue.SOLVERS or "condat" in name
    plain, other, how = {}, {}, []
    for a in call.args:
        if a.kind == "arr" and isinstance(a.value, np.ndarray) and a.value.dtype == float:
            v = np.rint(a.value * 3)
            dt = ["float64", ">f8", "float64"][rs.randint(3)] if solver else ["int64", "int32", ">f8", "float64", ">i4", "int16"][rs.randint(6 if name not in NOT_NARROW else 5)]
            w = lay(v.astype(dt), LAYS[rs.randint(len(LAYS))])
            if rs.randint(2) and name not in OWN:
                w.flags.writeable = False
            plain[a.name], other[a.name] = v, w
            how.append((a.name, dt, w.flags.writeable, w.strides))
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        want = [v for v in catalogue.flat(call(**plain)) if v.dtype.kind not in "OUS"]
        got = [v for v in catalogue.flat(catalogue.Call(name, c["seed"] % 2**31)(**other)) if v.dtype.kind not in "OUS"]
    need(len(got) == len(want), lambda: f"{name} with {how}: {len(got)} results, {len(want)} on float64 data")
    for g, w in zip(got, want):
        need(g.shape == w.shape, lambda: f"{name} with {how}: shape {g.shape}, {w.shape} on float64 data")
        fin = np.isfinite(w)
        need(np.array_equal(fin, np.isfinite(g)) and (not np.any(fin) or np.max(np.abs(g[fin] - w[fin])) <= 1e-9 * max(1.0, np.max(np.abs(w[fin])))), lambda: f"{name} {call.values()} with {how}: {g!r}, on float64 data {w!r}"[:1500])
    return bool(how) and any(np.any(v) for v in want)


LAYS = ("C", "F", "strided", "neg", "T", "wide", "off")
