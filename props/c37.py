"""C37: symmetries of the data (relabelling, sign, phase, rotation, joining) are symmetries of the result."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st
from modopt.base import np_adjust
from modopt.math import convolve as mconv
from modopt.math import matrix, metrics, stats
from modopt.opt import algorithms as al
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, MatrixOperator, WaveletConvolve, WaveletTransform
from modopt.opt.proximity import ElasticNet, GroupLASSO, IdentityProx, KSupportNorm, LinearCompositionProx, LowRankMatrix, OrderedWeightedL1Norm, Positivity, ProximityCombo, Ridge, SparseThreshold
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, wavelet

from harness.core import Prop
from harness.gen import expand, fixed, seeds
from harness.oracle import need

PROP = Prop(
    "C37",
    [
        "results are compared to 1e-8 of their size (1e-6 after decompositions and solvers), as a relabelling changes the order of the additions",
        "hard decisions (ranks, hard thresholds, restarts) are made on continuous random data, away from their boundaries",
        "soft thresholding rounds to 15 decimals: phases are compared with an absolute slack of 1e-14 per application",
        "images are permuted pixel by pixel only for functions without a neighbourhood",
    ],
)


class Case:
    def __init__(self, seed, big, cplx):
        self.rs, self.big, self.cplx, self.pairs = np.random.RandomState(seed % 2**32), big, cplx, []

    def n(self, lo, hi):
        return int(self.rs.randint(lo, hi + 1)) * (5 if self.big else 1)

    def pick(self, *options):
        return options[self.rs.randint(len(options))]

    def flag(self):
        return bool(self.rs.randint(2))

    def arr(self, *shape, styles=("normal", "smooth", "nonneg", "ties", "sparse"), cplx=None):
        cplx = self.cplx if cplx is None else cplx
        return expand(self.rs.randint(2**31), shape, styles[self.rs.randint(len(styles))], complex if cplx else float)

    def gen(self, *shape, cplx=None):
        """Continuous random data: no ties, no exact boundaries."""
        return self.arr(*shape, styles=("normal",), cplx=cplx)

    def num(self, lo, hi):
        return float(self.rs.uniform(lo, hi))

    def perm(self, n):
        return self.rs.permutation(n)

    def orth(self, n, cplx=None):
        """A random orthogonal (unitary) matrix."""
        q, _ = np.linalg.qr(self.gen(n, n, cplx=cplx) + 0.0)
        return q

    def unit(self):
        """A sign, or a phase where the data are complex."""
        return complex(np.exp(2j * np.pi * self.rs.random_sample())) if self.cplx else self.pick(-1.0, 1.0)

    def same(self, what, got, want, rtol=1e-8, slack=1e-12):
        got, want = np.asarray(got), np.asarray(want)
        need(got.shape == want.shape, lambda: f"{what}: shape {got.shape}, expected {want.shape}")
        fin = np.isfinite(want)
        need(np.array_equal(fin, np.isfinite(got)), lambda: f"{what}: non-finite values differ\n {got}\n {want}")
        if np.any(fin):
            size = float(np.max(np.abs(want[fin])))
            err = float(np.max(np.abs(got[fin] - want[fin])))
            need(err <= rtol * size + slack, lambda: f"{what}: differs by {err:.3e} of {size:.3e}\n got {got.reshape(-1)[:12]}\n want {want.reshape(-1)[:12]}")
            self.pairs.append(size > 0)


ITEMS, GROUPS = {}, {"signal": [], "mathematics": [], "operators": [], "solvers": []}


def item(group, cplx=False):
    def wrap(fn):
        ITEMS[fn.__name__] = (fn, cplx)
        GROUPS[group].append(fn.__name__)
        return fn
    return wrap


# ---------------------------------------------------------------------------------- signal
@item("signal", cplx=True)
def thresholds(c):
    n, kind = c.n(1, 12), c.pick("hard", "soft")
    x, p = c.arr(n), c.perm(n)
    t = np.abs(c.gen(n, cplx=False)) if c.flag() else c.num(0.1, 3)
    tp = t[p] if np.ndim(t) else t
    out = noise.thresh(x.copy(), t, kind)
    c.same(f"{kind} thresholding of permuted data", noise.thresh(x[p], tp, kind), out[p])
    if kind == "soft":
        u = c.unit()
        c.same("soft thresholding of the data times a phase", noise.thresh(u * x, t, kind), u * out, slack=2e-14)
    else:
        c.same("hard thresholding of negated data", noise.thresh(-x, t, kind), -out)
    if not np.ndim(t):
        y = c.arr(c.n(1, 5))
        c.same(f"{kind} thresholding of two arrays joined", noise.thresh(np.concatenate([x, y]), t, kind), np.concatenate([out, noise.thresh(y, t, kind)]))


@item("signal")
def positives(c):
    n, m = c.n(1, 8), c.n(1, 8)
    x, p, q = c.arr(n, m), c.perm(n), c.perm(m)
    out = positivity.positive(x.copy())
    c.same("positive of permuted data", positivity.positive(x[p][:, q]), out[p][:, q])
    c.same("positive parts of x and -x", out - positivity.positive(-x), x)
    c.same("positive of a ragged pair", np.concatenate([np.asarray(v, dtype=float) for v in positivity.positive(ragged(x[0], x[0][:1]))]), np.concatenate([out[0], out[0][:1]]))


def ragged(*parts):
    out = np.empty(len(parts), dtype=object)
    for i, v in enumerate(parts):
        out[i] = v
    return out


@item("signal")
def filters(c):
    n = c.n(1, 9)
    x, y, s, p = c.arr(n), c.arr(n), c.num(0.3, 4), c.perm(n)
    for name, f in (("gaussian_filter", lambda v: sfilter.gaussian_filter(v, s)), ("unnormalised gaussian_filter", lambda v: sfilter.gaussian_filter(v, s, norm=False)), ("mex_hat", lambda v: sfilter.mex_hat(v, s))):
        c.same(f"{name} of permuted points", f(x[p]), f(x)[p])
        c.same(f"{name} of mirrored points", f(-x), f(x))
        c.same(f"{name} point by point", [f(float(v)) for v in x], f(x))
    c.same("mex_hat_dir of mirrored points", sfilter.mex_hat_dir(-x, -y, s), sfilter.mex_hat_dir(x, y, s))


@item("signal", cplx=True)
def convolutions(c):
    k, h, w, a, b = c.n(1, 4), c.n(5, 9), c.n(5, 9), 2 * c.rs.randint(0, 3) + 1, 2 * c.rs.randint(0, 3) + 1
    method = "scipy" if c.cplx else c.pick("scipy", "astropy")
    x, f, p, rot = c.gen(k, h, w), c.gen(k, a, b), c.perm(k), c.flag()
    go = lambda d, g: mconv.convolve_stack(d, g, rot_kernel=rot, method=method)
    out = go(x, f)
    c.same(f"convolve_stack ({method}) of permuted images", go(x[p], f[p]), out[p])
    c.same(f"convolve_stack ({method}) of mirrored images and kernels", go(x[:, ::-1].copy(), f[:, ::-1].copy()), out[:, ::-1])
    c.same(f"convolve_stack ({method}) of transposed images and kernels", go(x.swapaxes(1, 2).copy(), f.swapaxes(1, 2).copy()), out.swapaxes(1, 2))
    u = c.unit()
    c.same(f"convolve_stack ({method}) of images times a phase", go(u * x, f), u * out)
    one = wavelet.filter_convolve(x[0], f, method=method)
    c.same(f"filter_convolve ({method}) with permuted filters", wavelet.filter_convolve(x[0], f[p], method=method), one[p])
    c.same(f"filter_convolve ({method}), stack against single image", wavelet.filter_convolve_stack(x, f, method=method)[0], one)
    c.same(f"filter_convolve ({method}), recombination of permuted scales", wavelet.filter_convolve(one[p], f[p], filter_rot=True, method=method), wavelet.filter_convolve(one, f, filter_rot=True, method=method))


def svd_fns(c):
    t, kind = c.num(0.3, 4), c.pick("hard", "soft")
    n_vals = c.pick(-1, None, 2)
    return {
        f"svd_thresh ({kind})": lambda m: svd.svd_thresh(m, threshold=t, thresh_type=kind),
        "svd_thresh_coef_fast": lambda m: svd.svd_thresh_coef_fast(m, t, n_vals=n_vals)[0],
    }


@item("signal", cplx=True)
def matrix_thresholds(c):
    n, m = c.n(2, 7), c.n(2, 7)
    x, p, q = c.gen(n, m), c.perm(n), c.perm(m)
    o, u = c.orth(n), c.unit()
    for name, f in svd_fns(c).items():
        out = f(x)
        c.same(f"{name} of permuted rows and columns", f(x[p][:, q].copy()), out[p][:, q], rtol=1e-6)
        c.same(f"{name} of a rotated matrix", f(o @ x), o @ out, rtol=1e-6)
        c.same(f"{name} of the matrix times a phase", f(u * x), u * out, rtol=1e-6)
        c.same(f"{name} of the transposed matrix", f(x.T.copy()), out.T, rtol=1e-6)
        c.same(f"{name} with a row of zeros added", f(np.vstack([x, np.zeros((1, m), x.dtype)])), np.vstack([out, np.zeros((1, m), out.dtype)]), rtol=1e-6)
    uu, s, v = svd.calculate_svd(x)
    c.same("singular values of permuted rows", svd.calculate_svd(x[p])[1], s)


@item("signal")
def image_ranks(c):
    side, m = int(c.rs.randint(3, 7)), c.n(2, 5)
    cube = c.arr(m, side, side, styles=("normal", "smooth"))
    flat = lambda d: d.reshape(m, -1).T.copy()
    other = {"mirrored": cube[:, ::-1], "transposed": cube.swapaxes(1, 2), "turned": np.rot90(cube, axes=(1, 2)), "negated": -cube}
    u = svd.calculate_svd(flat(cube))[0]
    k = svd.find_n_pc(u, factor=0.31)
    back = {"mirrored": lambda d: d[:, ::-1], "transposed": lambda d: d.swapaxes(1, 2), "turned": lambda d: np.rot90(d, -1, axes=(1, 2)), "negated": lambda d: -d}
    t, f = c.num(0.2, 2), c.num(0.5, 2)
    coef = lambda d: svd.svd_thresh_coef(flat(d), lambda z: f * z, t).T.reshape(cube.shape)
    base = coef(cube)
    for name, d in other.items():
        if side % 2 or name == "negated":  # the window of an even autocorrelation is not centred
            c.same(f"find_n_pc of {name} images", float(svd.find_n_pc(svd.calculate_svd(flat(d))[0], factor=0.31)), float(k))
        c.same(f"svd_thresh_coef of {name} images", back[name](coef(d)), base, rtol=1e-6)
    p = c.perm(m)
    c.same("svd_thresh_coef of permuted images", coef(cube[p]), base[p], rtol=1e-6)


@item("signal")
def noises(c):
    n, s, seed, kind = c.n(1, 20), c.num(0.5, 3), int(c.rs.randint(1000)), c.pick("gauss", "gauss")
    x, y = c.arr(n), c.arr(n)
    go = lambda d: noise.add_noise(d, sigma=s, noise_type=kind, rng=seed)
    c.same("the noise added does not depend on the data", go(x) - x, go(y) - y, slack=1e-11)
    c.same("noise twice as strong", noise.add_noise(x, sigma=2 * s, rng=seed) - x, 2 * (go(x) - x), slack=1e-11)
    stack = c.arr(3, n)
    c.same("noise of a given strength per image", noise.add_noise(stack, sigma=[s, 2 * s, 0.0], rng=seed)[2], stack[2])


@item("signal", cplx=True)
def reweighting(c):
    n = c.n(1, 12)
    w, x, y, p = np.abs(c.arr(n, cplx=False)) + 0.1, c.arr(n), c.arr(n), c.perm(n)
    u = c.unit()
    f = c.num(0.5, 3)

    def go(w0, *xs):
        r = cwbReweight(w0.copy(), thresh_factor=f)
        for v in xs:
            r.reweight(v)
        return r.weights

    out = go(w, x, y)
    c.same("weights of permuted coefficients", go(w[p], x[p], y[p]), out[p])
    c.same("weights of coefficients times a phase", go(w, u * x, u * y), out)
    c.same("weights of two sets of coefficients joined", go(np.concatenate([w, w]), np.concatenate([x, y]), np.concatenate([y, x])), np.concatenate([out, go(w, y, x)]))


# ----------------------------------------------------------------------------- mathematics
@item("mathematics", cplx=True)
def orthogonalisation(c):
    n, m = c.n(2, 4), c.n(2, 4)
    n, m = min(n, m), max(n, m)
    a = c.gen(n, m)
    q, ph = c.orth(m), np.array([c.unit() for _ in range(n)])
    o, e = matrix.gram_schmidt(a, "both")
    c.same("gram_schmidt of rotated vectors (orthogonal)", matrix.gram_schmidt(a @ q, "orthogonal"), o @ q, rtol=1e-6)
    c.same("gram_schmidt of rotated vectors (orthonormal)", matrix.gram_schmidt(a @ q, "orthonormal"), e @ q, rtol=1e-6)
    c.same("gram_schmidt of vectors times phases", matrix.gram_schmidt(ph[:, None] * a), ph[:, None] * e, rtol=1e-6)
    c.same("gram_schmidt of fewer vectors", matrix.gram_schmidt(a[:-1]) if n > 2 else e[:-1], e[:-1])
    u, v = c.gen(m), c.gen(m)
    pr = matrix.project(u, v)
    c.same("project of rotated vectors", matrix.project(u @ q, v @ q), pr @ q, rtol=1e-6)
    c.same("project on a rescaled direction", matrix.project(3.5 * c.unit() * u, v), pr, rtol=1e-6)
    nn = matrix.nuclear_norm(a)
    c.same("nuclear norm of a rotated, permuted and transposed matrix", [matrix.nuclear_norm(a @ q), matrix.nuclear_norm(a[c.perm(n)]), matrix.nuclear_norm(a.T), matrix.nuclear_norm(np.vstack([a, 0 * a]))], [nn] * 4)


@item("mathematics")
def rotations(c):
    n = c.n(1, 9)
    x, y = c.arr(n, n), c.arr(n, n)
    r = lambda m, k=1: matrix.rotate(m, k * np.pi / 2)
    k, j = int(c.rs.randint(-3, 4)), int(c.rs.randint(-3, 4))
    c.same("rotations by quarter turns compose", r(r(x, k), j), r(x, k + j))
    c.same("four quarter turns", r(r(r(r(x)))), x)
    c.same("rotations are linear", r(2 * x + y, k), 2 * r(x, k) + r(y, k))
    c.same("pad2d of mirrored and transposed data", np_adjust.pad2d(x[::-1].T, (1, 2)), np_adjust.pad2d(x, (2, 1))[::-1].T)
    stack = c.arr(3, n, n)
    c.same("rotate_stack twice", np_adjust.rotate_stack(np_adjust.rotate_stack(stack)), stack)


@item("mathematics")
def power_method(c):
    n = c.n(2, 6)
    a = c.gen(n, n)
    a, o, p = a @ a.T, c.orth(n), c.perm(n)
    x0, it = c.gen(n), int(c.rs.randint(1, 30))

    def go(m, start):
        calls = []

        def op(v):
            # the first call is given the random start: the operator puts its own in its place
            calls.append(1)
            return m @ (v if len(calls) > 1 else start / np.linalg.norm(start))

        pm = matrix.PowerMethod(op, (n,), auto_run=False)
        pm.get_spec_rad(tolerance=0.0, max_iter=it)
        return [pm.spec_rad, pm.inv_spec_rad]

    out = go(a, x0)
    c.same("power method of a permuted operator", go(a[p][:, p], x0[p]), out)
    c.same("power method of a rotated operator", go(o @ a @ o.T, o @ x0), out, rtol=1e-6)


@item("mathematics")
def spreads(c):
    n = c.n(1, 30)
    x, b, p = c.arr(n), c.num(-5, 5), c.perm(n)
    mad = stats.mad(x)
    c.same("mad of permuted, negated, shifted and reshaped data", [stats.mad(x[p]), stats.mad(-x), stats.mad(x + b), stats.mad(x.reshape(1, n))], [mad] * 4)
    c.same("mad of repeated data", stats.mad(np.concatenate([x, x, x])), mad)
    c.same("sigma_mad of permuted and shifted data", [stats.sigma_mad(x[p] - b)], [stats.sigma_mad(x)])
    y = c.gen(n)
    c.same("mse: symmetric, permuted, shifted, repeated", [stats.mse(y, x), stats.mse(x[p], y[p]), stats.mse(x + b, y + b), stats.mse(np.tile(x, 3), np.tile(y, 3))], [stats.mse(x, y)] * 4)


@item("mathematics")
def snrs(c):
    k, h, w = c.n(1, 4), c.n(2, 5), c.n(2, 5)
    x, y = c.gen(k, h, w), c.gen(k, h, w)
    p, q, meth = c.perm(k), c.perm(h), c.pick("starck", "wiki")
    kw = {"method": meth} if meth == "starck" else {"method": meth, "max_pix": c.num(1, 300)}
    one = stats.psnr(x[0], y[0], **kw)
    c.same("stats.psnr of permuted and mirrored pixels", [stats.psnr(x[0][q], y[0][q], **kw), stats.psnr(x[0][:, ::-1], y[0][:, ::-1], **kw)], [one] * 2)
    if h == w or meth == "wiki":
        c.same("stats.psnr of transposed images", stats.psnr(x[0].T, y[0].T, **kw), one)
    if meth == "wiki":
        c.same("stats.psnr (wiki) is symmetric", stats.psnr(y[0], x[0], **kw), one)
    many = stats.psnr_stack(x, y, metric=np.mean, **{k: v for k, v in kw.items() if k != "max_pix"}) if meth == "starck" else one
    if meth == "starck":
        c.same("psnr_stack of permuted and of repeated images", [stats.psnr_stack(x[p], y[p], **kw), stats.psnr_stack(np.concatenate([x, x]), np.concatenate([y, y]), **kw)], [many] * 2)


@item("mathematics")
def image_quality(c):
    h, w = c.n(7, 10), c.n(7, 10)
    a, b = c.gen(h, w), c.gen(h, w)
    mask = None
    if c.flag():
        mask = (c.rs.random_sample((h, w)) < 0.7).astype(float)
        mask[h // 2, w // 2] = mask[0, 0] = 1
    m = lambda f: None if mask is None else f(mask)
    turns = {"mirrored": lambda d: d[::-1].copy(), "transposed": lambda d: d.T.copy(), "turned": lambda d: np.rot90(d).copy()}
    pix = c.perm(h * w)
    shuffle = lambda d: d.reshape(-1)[pix].reshape(h, w)
    fns = {"ssim": metrics.ssim, "snr": metrics.snr, "psnr": metrics.psnr, "mse": metrics.mse, "nrmse": metrics.nrmse}
    for name, f in fns.items():
        want = f(a, b, mask)
        for how, g in turns.items():
            c.same(f"{name} of {how} images", f(g(a), g(b), m(g)), want, rtol=1e-6)
        if name != "ssim":
            c.same(f"{name} of shuffled pixels", f(shuffle(a), shuffle(b), m(shuffle)), want)
    c.same("ssim and mse are symmetric", [metrics.ssim(b, a, mask), metrics.mse(b, a, mask)], [metrics.ssim(a, b, mask), metrics.mse(a, b, mask)], rtol=1e-6)
    if mask is None:
        one = np.ones((h, w))
        plain = [f for name, f in fns.items() if name != "ssim"]  # ssim leaves out the border only without a mask
        c.same("a mask of ones changes nothing", [f(a, b, one) for f in plain], [f(a, b) for f in plain], rtol=1e-6)


@item("mathematics")
def costs(c):
    vals = [c.num(1, 9) for _ in range(c.n(1, 4))]
    part = lambda v: type("Part", (), {"cost": lambda self, *a, **k: v * float(np.sum(np.abs(a[0])))})()
    x, p = c.gen(4), c.perm(len(vals))
    go = lambda vs: float((lambda o: (o.get_cost(x), o.cost)[1])(costObj([part(v) for v in vs], verbose=False, cost_interval=1)))
    c.same("costObj with its parts in another order", go([vals[i] for i in p]), go(vals))


# ------------------------------------------------------------------------------- operators
def scalar_prox(c, n):
    """Proximity operators acting entry by entry, with the cases of their symmetry."""
    t = c.num(0.1, 2)
    w = np.abs(c.gen(n, cplx=False))
    kinds = {
        "SparseThreshold": lambda w: SparseThreshold(Identity(), t * w),
        "SparseThreshold hard": lambda w: SparseThreshold(Identity(), t * w, thresh_type="hard"),
        "Ridge": lambda w: Ridge(Identity(), t * w),
        "ElasticNet": lambda w: ElasticNet(Identity(), t * w, 0.7 * t * w),
        "Identity": lambda w: IdentityProx(),
    }
    if not c.cplx:
        kinds["Positivity"] = lambda w: Positivity()
    return kinds, w


@item("operators", cplx=True)
def entrywise(c):
    n = c.n(1, 10)
    kinds, w = scalar_prox(c, n)
    name = c.pick(*sorted(kinds))
    make, x, p, u, f = kinds[name], c.gen(n), c.perm(n), c.unit(), c.pick(1.0, 0.5, 2.0)
    out, cost = make(w).op(x.copy(), extra_factor=f), make(w).cost(x.copy())
    c.same(f"{name} of permuted data", make(w[p]).op(x[p], extra_factor=f), out[p])
    c.same(f"{name} cost of permuted data", make(w[p]).cost(x[p]), cost)
    if name != "Positivity":
        c.same(f"{name} of data times a phase", make(w).op(u * x, extra_factor=f), u * out, slack=2e-14)
        c.same(f"{name} cost of data times a phase", make(w).cost(u * x), cost)
    x2, w2 = np.concatenate([x, x[:1]]), np.concatenate([w, w[:1]])
    c.same(f"{name} of data with an entry repeated", make(w2).op(x2, extra_factor=f), np.concatenate([out, out[:1]]))
    c.same(f"{name} of data as a matrix", make(w[:, None]).op(x[:, None], extra_factor=f)[:, 0], out)


@item("operators", cplx=True)
def groups(c):
    k, n = c.n(1, 5), c.n(1, 6)
    x, w, f = c.gen(k, n), np.abs(c.gen(n, cplx=False)), c.pick(1.0, 0.5, 2.0)
    p, q, o = c.perm(k), c.perm(n), c.orth(k)
    g = GroupLASSO(w)
    out, cost = g.op(x.copy(), extra_factor=f), g.cost(x)
    c.same("GroupLASSO of permuted members", g.op(x[p], extra_factor=f), out[p])
    c.same("GroupLASSO of permuted groups", GroupLASSO(w[q]).op(x[:, q], extra_factor=f), out[:, q])
    c.same("GroupLASSO of rotated members", g.op(o @ x, extra_factor=f), o @ out, rtol=1e-6)
    c.same("GroupLASSO with an empty member", g.op(np.vstack([x, 0 * x[:1]]), extra_factor=f), np.vstack([out, 0 * x[:1]]))
    c.same("GroupLASSO cost", [g.cost(x[p]), GroupLASSO(w[q]).cost(x[:, q]), g.cost(o @ x)], [cost] * 3)


@item("operators")
def sorted_norms(c):
    n = c.n(2, 10)
    x, p, f = c.arr(n, styles=("normal", "ties", "sparse")), c.perm(n), c.pick(1.0, 0.5, 2.0)
    sg = c.rs.choice([-1.0, 1.0], n)
    w = np.sort(np.abs(c.gen(n)))[::-1].copy()
    k, beta = int(c.rs.randint(1, n + 1)), c.num(0.1, 2)
    for name, op, tol in (("OWL", OrderedWeightedL1Norm(w), 1e-8), ("k-support", KSupportNorm(beta, k), 1e-5)):
        out, cost = op.op(x.copy(), extra_factor=f).reshape(-1), op.cost(x.copy())
        c.same(f"{name} of permuted data", op.op(x[p], extra_factor=f).reshape(-1), out[p], rtol=tol)
        c.same(f"{name} of data with other signs", op.op(sg * x, extra_factor=f).reshape(-1), sg * out, rtol=tol)
        c.same(f"{name} cost", [op.cost(x[p]), op.cost(sg * x)], [cost] * 2)
    c.same("OWL with equal weights is soft thresholding", OrderedWeightedL1Norm(np.full(n, beta)).op(x, extra_factor=f).reshape(-1), noise.thresh(x, beta * f, "soft"))


@item("operators", cplx=True)
def low_rank(c):
    k, h, w = c.n(2, 5), int(c.rs.randint(2, 5)), int(c.rs.randint(2, 5))
    x, t, kind, f = c.gen(k, h, w), c.num(0.3, 3), c.pick("soft", "hard"), c.pick(1.0, 0.5, 2.0)
    mk = lambda: LowRankMatrix(t, thresh_type=kind, initial_rank=c.init)
    c.init = c.pick(None, 1, 2)
    p, pix, u = c.perm(k), c.perm(h * w), c.unit()
    shuffle = lambda d: d.reshape(k, -1)[:, pix].reshape(k, h, w)
    out, cost = mk().op(x.copy(), extra_factor=f), mk().cost(x)
    c.same(f"LowRankMatrix ({kind}) of permuted images", mk().op(x[p], extra_factor=f), out[p], rtol=1e-6)
    c.same(f"LowRankMatrix ({kind}) of shuffled pixels", mk().op(shuffle(x), extra_factor=f), shuffle(out), rtol=1e-6)
    c.same(f"LowRankMatrix ({kind}) of images times a phase", mk().op(u * x, extra_factor=f), u * out, rtol=1e-6)
    c.same(f"LowRankMatrix ({kind}) with an empty image", mk().op(np.concatenate([x, 0 * x[:1]]), extra_factor=f), np.concatenate([out, 0 * x[:1]]), rtol=1e-6)
    c.same("LowRankMatrix cost", [mk().cost(x[p]), mk().cost(shuffle(x)), mk().cost(u * x)], [cost] * 3)


@item("operators", cplx=True)
def compositions(c):
    n, m = c.n(2, 5), c.n(1, 4)
    q, x, t = c.orth(n), c.gen(n, m), c.num(0.1, 2)
    inner = c.pick(SparseThreshold(Identity(), t), Ridge(Identity(), t), GroupLASSO(t))
    comp = LinearCompositionProx(MatrixOperator(q), inner)
    c.same("LinearCompositionProx of a rotation", comp.op(x.copy()), q.conj().T @ inner.op(q @ x), rtol=1e-7)
    c.same("LinearCompositionProx cost", comp.cost(x), inner.cost(q @ x))
    ops = [SparseThreshold(Identity(), t), Ridge(Identity(), 0.3), GroupLASSO(0.5 * t)]
    parts, p = [c.gen(2, c.n(1, 4)) for _ in ops], c.perm(len(ops))
    out, cost = ProximityCombo(ops).op(ragged(*parts)), ProximityCombo(ops).cost(ragged(*parts))
    again = ProximityCombo([ops[i] for i in p])
    for i, v in zip(p, again.op(ragged(*[parts[i] for i in p]))):
        c.same("ProximityCombo with its parts in another order", v, out[i])
    c.same("ProximityCombo cost", again.cost(ragged(*[parts[i] for i in p])), cost)


@item("operators", cplx=True)
def linear_operators(c):
    n, m, k = c.n(2, 5), c.n(1, 5), c.n(1, 4)
    a, x, p, q = c.gen(m, n), c.gen(n, k), c.perm(n), c.perm(m)
    op = MatrixOperator(a)
    c.same("MatrixOperator of relabelled variables", MatrixOperator(a[q][:, p]).op(x[p]), op.op(x)[q])
    c.same("MatrixOperator column by column", np.stack([op.op(x[:, i]) for i in range(k)], -1), op.op(x))
    ops = [MatrixOperator(c.gen(m, n)), MatrixOperator(a), MatrixOperator(c.gen(m + 1, n))]
    ws, r = [c.num(0.1, 2) for _ in ops], c.perm(3)
    ys = [c.gen(m), c.gen(m), c.gen(m + 1)]
    c.same("LinearCombo adjoint with its parts in another order", LinearCombo([ops[i] for i in r], [ws[i] for i in r]).adj_op(ragged(*[ys[i] for i in r])), LinearCombo(ops, ws).adj_op(ragged(*ys)))
    for i, v in zip(r, LinearCombo([ops[i] for i in r], [ws[i] for i in r]).op(x[:, 0])):
        c.same("LinearCombo with its parts in another order", v, LinearCombo(ops, ws).op(x[:, 0])[i])


@item("operators")
def wavelets(c):
    side = 8 * int(c.rs.randint(1, 4)) * (2 if c.big else 1)
    img = c.arr(side, side)
    w = WaveletTransform("haar", (side, side), level=c.pick(1, 2), mode="periodization")
    y = w.op(img)
    c.same("orthogonal wavelets keep the energy", np.sum(y**2), np.sum(img**2))
    shift = (4 * int(c.rs.randint(0, 4)), 4 * int(c.rs.randint(0, 4)))
    moved = w.op(np.roll(img, shift, (0, 1)))
    c.same("wavelet coefficients of a moved image", np.sort(moved), np.sort(y))
    c.same("wavelet coefficients of a transposed image", np.sort(np.abs(w.op(img.T.copy()))), np.sort(np.abs(y)))
    f, p = c.gen(3, 3, 3), c.perm(3)
    stack = c.gen(2, side, side)
    out = WaveletConvolve(f).op(stack)
    c.same("WaveletConvolve with permuted filters", WaveletConvolve(f[p]).op(stack), out[:, p])
    c.same("WaveletConvolve of permuted images", WaveletConvolve(f).op(stack[::-1].copy()), out[::-1])
    c.same("WaveletConvolve adjoint with permuted filters", WaveletConvolve(f[p]).adj_op(out[:, p].copy()), WaveletConvolve(f).adj_op(out))


@item("operators", cplx=True)
def gradients(c):
    n, m = c.n(1, 6), c.n(1, 6)
    a, b, x, q, p = c.gen(m, n), c.gen(m), c.gen(n), c.orth(n), c.perm(m)

    def go(a, b, x):
        g = GradBasic(b, lambda v: a @ v, lambda v: a.conj().T @ v, verbose=False)
        g.get_grad(x)
        return g.grad, g.cost(x)

    gr, cost = go(a, b, x)
    got = go(a @ q, b.copy(), q.conj().T @ x)
    c.same("gradient in rotated coordinates", got[0], q.conj().T @ gr, rtol=1e-7)
    c.same("data fidelity in rotated coordinates", got[1], cost, rtol=1e-7)
    got = go(a[p], b[p], x)
    c.same("gradient with the observations in another order", got[0], gr)
    got = go(a, b + a @ gr, x + gr)
    c.same("gradient of a moved problem", got[0], gr, rtol=1e-6)
    c.same("data fidelity of a moved problem", got[1], cost, rtol=1e-6)


# --------------------------------------------------------------------------------- solvers
QUIET = {"cost": None, "auto_iterate": False, "progress": False}
KINDS = ("fb", "fb-mod", "fb-lazy", "fb-cd", "fb-adapt", "fb-greedy", "fb-reset", "gfb", "pogm", "pogm-restart", "condat", "condat-id", "vanilla", "ada", "rms", "momentum", "adam", "saga")
SEPARABLE = {"fb", "fb-mod", "fb-lazy", "fb-cd", "gfb", "pogm", "condat", "condat-id", "vanilla", "ada", "rms", "momentum", "adam"}
ROTATABLE = {"fb", "fb-mod", "fb-lazy", "fb-cd", "fb-adapt", "fb-greedy", "fb-reset", "gfb", "pogm", "pogm-restart", "vanilla", "momentum"}


def knobs(c):
    """The parameters of a solver, the same for all the runs that are compared."""
    r = c.rs.uniform
    return {
        "fb": {}, "fb-mod": {"lambda_param": float(r(0.3, 1.2)), "lambda_update": None}, "fb-lazy": {"p_lazy": float(r(0.05, 1)), "q_lazy": float(r(0.05, 1)), "r_lazy": float(r(1, 4))}, "fb-cd": {"a_cd": float(r(2.1, 60))},
        "fb-adapt": {"restart_strategy": "adaptive-i", "xi_restart": float(r(0.3, 0.99))}, "fb-greedy": {"restart_strategy": "greedy", "xi_restart": float(r(0.5, 0.99)), "s_greedy": float(r(1.05, 3))}, "fb-reset": {"restart_strategy": c.pick("adaptive-1", "adaptive-ii", "adaptive-2"), "xi_restart": float(r(0.3, 0.99))},
        "min": float(r(0.1, 0.9)), "w": r(0.1, 1, 3), "lam": float(r(0.2, 1.5)), "bar": float(r(0, 0.95)), "sigma": float(r(0.1, 2)), "rho": float(r(0.2, 1.5)), "gamma": float(r(0.05, 0.95)), "beta": float(r(0.05, 0.95)), "epoch": int(c.rs.randint(1, 5)), "eta": float(r(0.01, 0.2)), "period": int(c.rs.randint(1, 6)),
    }


def solve(kind, a, b, x, prox, step, n, k):
    """The final iterate, and the sizes of the iterates a metric saw on the way."""
    g = GradBasic(b.copy(), lambda v: a @ v, lambda v: a.conj().T @ v, verbose=False)
    kw = dict(QUIET, linear=Identity(), metric_call_period=k["period"], metrics={"size": {"metric": lambda v: float(np.linalg.norm(v)), "mapping": {"x_new": "v"}, "cst_kwargs": {}, "early_stopping": False}})
    if kind.startswith("fb"):
        more = {"min_beta": k["min"] * step} if kind == "fb-greedy" else {}
        s = al.ForwardBackward(x.copy(), g, prox(), beta_param=step * (1.2 if kind == "fb-greedy" else 0.9), **k[kind], **more, **kw)
    elif kind == "gfb":
        s = al.GenForwardBackward(x.copy(), g, [prox(), Ridge(Identity(), 0.2), prox()], gamma_param=step, lambda_param=k["lam"], weights=list(k["w"] / k["w"].sum()), **kw)
    elif kind.startswith("pogm"):
        s = al.POGM(x.copy(), x.copy(), x.copy(), x.copy(), g, prox(), beta_param=0.9 * step, sigma_bar=k["bar"] if kind == "pogm-restart" else 1.0, **kw)
    elif kind.startswith("condat"):
        first = kind == "condat"
        s = al.Condat(x.copy(), 0.1 * x if first else 0 * x, g, prox() if first else IdentityProx(), Ridge(Identity(), 0.4) if first else prox(), sigma=k["sigma"], tau=1 / (1 / step + k["sigma"]), rho=min(k["rho"], 1.2), **kw)
    else:
        cls = {"vanilla": al.VanillaGenericGradOpt, "ada": al.AdaGenericGradOpt, "rms": al.RMSpropGradOpt, "momentum": al.MomentumGradOpt, "adam": al.ADAMGradOpt, "saga": al.SAGAOptGradOpt}[kind]
        more = {"ada": {}, "vanilla": {}, "rms": {"gamma": k["gamma"]}, "momentum": {"beta": k["beta"]}, "adam": {"gamma": k["gamma"], "beta": k["beta"]}, "saga": {}}[kind]
        kw.pop("auto_iterate"), kw.pop("cost"), kw.pop("linear")
        s = cls(x.copy(), g, prox(), None, eta=k["eta"] if kind in ("ada", "rms", "adam") else step * 0.1, epoch_size=k["epoch"], epsilon=1.0 if kind == "saga" else 1e-6, **more, **kw)
    s.iterate(max_iter=n)
    need(s.metrics["size"]["index"] == sorted({*range(0, n, k["period"]), n - 1}), lambda: f"{kind}: metrics at {s.metrics['size']['index']}, period {k['period']}, {n} iterations")
    return np.asarray(s.x_final), np.array(s.metrics["size"]["values"])


@item("solvers", cplx=True)
def relabelled(c):
    kind = c.pick(*KINDS)
    if c.cplx and kind in ("ada", "rms", "adam", "saga"):
        kind = "fb"
    n, m, it = c.n(1, 5), c.n(1, 5), int(c.rs.randint(1, 25))
    a, b, x, p, q = c.gen(m, n), c.gen(m), c.gen(n), c.perm(n), c.perm(m)
    step = float(1 / max(np.linalg.norm(a, 2) ** 2, 1e-3))
    t, w = c.num(0.01, 1), np.abs(c.gen(n, cplx=False))
    mk = {"sparse": lambda w: SparseThreshold(Identity(), t * w), "ridge": lambda w: Ridge(Identity(), t * w), "elastic": lambda w: ElasticNet(Identity(), 0.1, t * w)}[c.pick("sparse", "ridge", "elastic")]
    k = knobs(c)
    full = lambda *v: solve(kind, *v, step, it, k)
    run = lambda *v: full(*v)[0]
    out, sizes = full(a, b, x, lambda: mk(w))
    c.same(f"{kind}: variables relabelled", run(a[:, p], b, x[p], lambda: mk(w[p])), out[p], rtol=1e-6, slack=1e-9)
    c.same(f"{kind}: observations relabelled", run(a[q], b[q], x, lambda: mk(w)), out, rtol=1e-6, slack=1e-9)
    c.same(f"{kind}: sizes of the iterates, variables relabelled", full(a[:, p], b, x[p], lambda: mk(w[p]))[1], sizes, rtol=1e-6, slack=1e-9)
    u = c.unit()
    c.same(f"{kind}: sizes of the iterates, data times a phase", full(a, u * b, u * x, lambda: mk(w))[1], sizes, rtol=1e-6, slack=1e-9)
    c.same(f"{kind}: data times a phase", run(a, u * b, u * x, lambda: mk(w)), u * out, rtol=1e-6, slack=1e-9)
    c.same(f"{kind}: operator and start with opposite sign", run(-a, b, -x, lambda: mk(w)), -out, rtol=1e-6, slack=1e-9)
    if not c.cplx and kind not in ("ada", "rms", "adam", "saga"):
        c.same(f"{kind}: real data held in complex arrays", run(a.astype(complex), b.astype(complex), x.astype(complex), lambda: mk(w)), out, rtol=1e-6, slack=1e-9)


@item("solvers", cplx=True)
def joined(c):
    """Two problems side by side are solved as each of them alone."""
    kinds = sorted(SEPARABLE - ({"pogm"} | ({"ada", "rms", "adam"} if c.cplx else set())))
    kind = c.pick(*kinds)
    n1, n2, m1, m2, it = c.n(1, 4), c.n(1, 4), c.n(1, 4), c.n(1, 4), int(c.rs.randint(1, 25))
    a1, a2, b1, b2, x1, x2 = c.gen(m1, n1), c.gen(m2, n2), c.gen(m1), c.gen(m2), c.gen(n1), c.gen(n2)
    a = np.zeros((m1 + m2, n1 + n2), a1.dtype)
    a[:m1, :n1], a[m1:, n1:] = a1, a2
    step = float(1 / max(np.linalg.norm(a, 2) ** 2, 1e-3))
    t = c.num(0.01, 1)
    mk = c.pick(lambda: SparseThreshold(Identity(), t), lambda: Ridge(Identity(), t), lambda: ElasticNet(Identity(), 0.1, t))
    k = knobs(c)
    both = solve(kind, a, np.concatenate([b1, b2]), np.concatenate([x1, x2]), mk, step, it, k)[0]
    c.same(f"{kind}: first of two problems", both[:n1], solve(kind, a1, b1, x1, mk, step, it, k)[0], rtol=1e-6, slack=1e-9)
    c.same(f"{kind}: second of two problems", both[n1:], solve(kind, a2, b2, x2, mk, step, it, k)[0], rtol=1e-6, slack=1e-9)
    cols = c.gen(m1, 3)
    xs = c.gen(n1, 3)
    many = solve(kind, a1, cols, xs, mk, step, it, k)[0]
    c.same(f"{kind}: columns of observations solved together", many, np.stack([solve(kind, a1, cols[:, i], xs[:, i], mk, step, it, k)[0] for i in range(3)], -1), rtol=1e-6, slack=1e-9)


@item("solvers", cplx=True)
def rotated(c):
    """A change of orthonormal basis, for proximity operators that do not see the basis."""
    kind = c.pick(*sorted(ROTATABLE))
    n, m, it = c.n(1, 5), c.n(1, 5), int(c.rs.randint(1, 25))
    a, b, x, q = c.gen(m, n), c.gen(m), c.gen(n), c.orth(n)
    step = float(1 / max(np.linalg.norm(a, 2) ** 2, 1e-3))
    t = c.num(0.01, 1)
    mk = c.pick(lambda: Ridge(Identity(), t), lambda: GroupLASSO(t), lambda: IdentityProx())
    k = knobs(c)
    out = solve(kind, a, b, x, mk, step, it, k)[0]
    c.same(f"{kind}: another orthonormal basis", solve(kind, a @ q, b, q.conj().T @ x, mk, step, it, k)[0], q.conj().T @ out, rtol=1e-6, slack=1e-9)
    z = c.gen(n)
    if mk().__class__ is IdentityProx and kind not in ("gfb",):
        c.same(f"{kind}: the whole problem moved", solve(kind, a, b + a @ z, x + z, mk, step, it, k)[0], out + z, rtol=1e-6, slack=1e-8)


@item("solvers")
def alternating(c):
    n, it = c.n(1, 5), int(c.rs.randint(1, 25))
    cls = c.pick(al.ADMM, al.FastADMM)
    a, b, u, v, mu, p = 0.3 * c.gen(n, n), c.gen(n), c.gen(n), c.gen(n), c.gen(n), c.perm(n)

    def go(a, bb, b, u, v, mu):
        s = cls(u.copy(), v.copy(), mu.copy(), MatrixOperator(a), MatrixOperator(bb), b.copy(), (lambda init, obs: 0.5 * init + 0.1 * a.T @ obs, lambda init, obs: -0.4 * bb.T @ obs + 0.1 * init), progress=False)
        s.iterate(max_iter=it)
        return np.concatenate([s.u_final, s.v_final, s.mu_final if hasattr(s, "mu_final") else s.u_final])

    one = np.eye(n)
    out = go(a, one, b, u, v, mu)
    pick = lambda d: np.concatenate([part[p] for part in np.split(d, 3)])
    c.same(f"{cls.__name__}: variables relabelled", go(a[p][:, p], one, b[p], u[p], v[p], mu[p]), pick(out), rtol=1e-6, slack=1e-9)
    c.same(f"{cls.__name__}: opposite signs", go(a, one, -b, -u, -v, -mu), -out, rtol=1e-6, slack=1e-9)
    q = c.orth(n)
    turn = lambda d: np.concatenate([q.T @ part for part in np.split(d, 3)])
    c.same(f"{cls.__name__}: another orthonormal basis", go(q.T @ a @ q, one, q.T @ b, q.T @ u, q.T @ v, q.T @ mu), turn(out), rtol=1e-6, slack=1e-9)


def check(c):
    fn, cplx_ok = ITEMS[c["name"]]
    case = Case(c["seed"], c["big"], cplx_ok and c["cplx"])
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        fn(case)
    return len(case.pairs) > 1 and all(case.pairs[:1])


def register(group, quick):
    strat = fixed(name=st.sampled_from(GROUPS[group]), seed=seeds, big=st.integers(0, 5).map(lambda v: v == 0), cplx=st.booleans())

    def sub(c):
        return check(c)

    sub.__doc__ = f"Metamorphic: relabelled, rotated, joined or sign-changed data, {len(GROUPS[group])} families ({group})."
    PROP.sub(group, strat, quick=quick, factor=20, rule="at least two relations compared, the first on a result that is not zero")(sub)


register("signal", 4000)
register("mathematics", 4000)
register("operators", 7000)
register("solvers", 5000)
