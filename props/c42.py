"""C42: large data, many parts and long histories are treated like small ones."""
import contextlib
import io
import math
import warnings

import matplotlib.figure as mfig
import numpy as np
import pywt
from hypothesis import strategies as st
from modopt.base import np_adjust, transform
from modopt.base.observable import MetricObserver, Observable
from modopt.math import convolve as mconv
from modopt.math import matrix, metrics, stats
from modopt.opt import algorithms as al
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, MatrixOperator, WaveletConvolve, WaveletTransform
from modopt.opt.proximity import ElasticNet, GroupLASSO, IdentityProx, KSupportNorm, LinearCompositionProx, LowRankMatrix, OrderedWeightedL1Norm, Positivity, ProximityCombo, Ridge, SparseThreshold
from modopt.opt.reweight import cwbReweight
from modopt.signal import filter as sfilter
from modopt.signal import noise, positivity, svd, wavelet
from skimage.metrics import structural_similarity

from harness.core import Prop
from harness.gen import fixed, seeds
from harness.oracle import need
from props.c11 import pava_decreasing
from props.c16 import ref as conv_ref
from props.c37 import Case, ragged

PROP = Prop(
    "C42",
    [
        "sizes up to 20000 entries, 3000 iterations, 300 parts: what only happens beyond is not seen",
        "results are compared to 1e-9 of their size (1e-6 after decompositions and long runs)",
        "the small pieces are decided by C01 to C32; where a vectorised closed form exists it is used instead",
    ],
)
# blocks, caches and work arrays usually have such sizes
EDGES = [64, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 10001, 16384, 16385]


class Big(Case):
    def size(self, lo, hi):
        fit = [e for e in EDGES if lo <= e <= hi]
        if fit and self.flag():
            return fit[self.rs.randint(len(fit))]
        return int(math.exp(self.rs.uniform(math.log(lo), math.log(hi + 1))))

    def cuts(self, n, step=200):
        """Random pieces which cover 0..n."""
        at = [0]
        while at[-1] < n:
            at.append(min(n, at[-1] + self.rs.randint(1, step)))
        return list(zip(at[:-1], at[1:]))

    def pieces(self, n, fn, axis=0, step=200):
        return np.concatenate([np.asarray(fn(slice(a, b))) for a, b in self.cuts(n, step)], axis=axis)

    def val(self, *shape):
        return self.arr(*shape, styles=("normal", "smooth", "nonneg", "ties", "sparse", "wide"))


ITEMS, GROUPS = {}, {"signal": [], "mathematics": [], "operators": [], "histories": [], "solvers": []}


def item(group):
    def wrap(fn):
        ITEMS[fn.__name__] = fn
        GROUPS[group].append(fn.__name__)
        return fn
    return wrap


# ---------------------------------------------------------------------------------- signal
@item("signal")
def thresholds(c):
    n, kind = c.size(300, 20000), c.pick("hard", "soft")
    x = c.val(n)
    t = np.abs(c.gen(n, cplx=False)) if c.flag() else c.num(0.1, 3)
    part = lambda s: t[s] if np.ndim(t) else t
    out = noise.thresh(x, t, kind)
    c.same(f"{kind} thresholding of {n} values", out, c.pieces(n, lambda s: noise.thresh(x[s], part(s), kind)), rtol=1e-12)
    w = c.size(2, 100)
    m = n // w
    if not np.ndim(t) and m:
        c.same(f"{kind} thresholding of an array ({m}, {w})", noise.thresh(x[: m * w].reshape(m, w), t, kind).ravel(), out[: m * w], rtol=1e-12)
    if not c.cplx:
        c.same("positive", positivity.positive(x), c.pieces(n, lambda s: positivity.positive(x[s])), rtol=0, slack=0)


@item("signal")
def filters(c):
    n, s = c.size(300, 10000), c.num(0.3, 40)
    x, y = c.gen(n, cplx=False) * 30, c.gen(n, cplx=False) * 30
    norm = c.flag()
    c.same("gaussian_filter", sfilter.gaussian_filter(x, s, norm=norm), c.pieces(n, lambda k: sfilter.gaussian_filter(x[k], s, norm=norm)), slack=0)
    c.same("mex_hat", sfilter.mex_hat(x, s), c.pieces(n, lambda k: sfilter.mex_hat(x[k], s)), slack=0)
    c.same("mex_hat_dir", sfilter.mex_hat_dir(x, y, s), c.pieces(n, lambda k: sfilter.mex_hat_dir(x[k], y[k], s)), slack=0)


@item("signal")
def convolutions(c):
    method = "scipy" if c.cplx else c.pick("scipy", "astropy")
    h, w, a, b = c.size(30, 260), c.size(20, 130), 2 * c.rs.randint(0, 6) + 1, 2 * c.rs.randint(0, 6) + 1
    x, f = c.gen(h, w), c.gen(a, b)
    c.same(f"convolve ({method}) of a {h}x{w} image with a {a}x{b} kernel", mconv.convolve(x, f, method=method), conv_ref(x, f, method))


@item("signal")
def stacks(c):
    method = "scipy" if c.cplx else c.pick("scipy", "scipy", "astropy")
    k, nf, h, w = c.size(8, 150), c.size(2, 70), c.rs.randint(3, 7), c.rs.randint(3, 7)
    if method == "astropy":
        k, nf = min(k, 40), min(nf, 20)
    x, f, g, rot = c.gen(k, h, w), c.gen(k, 3, 3), c.gen(nf, 3, 3), c.flag()
    c.same(f"convolve_stack of {k} images", mconv.convolve_stack(x, f, rot_kernel=rot, method=method), [mconv.convolve(d, np.rot90(e, 2) if rot else e, method=method) for d, e in zip(x, f)])
    few = x[: max(1, min(k, 200 // nf))]
    out = wavelet.filter_convolve_stack(few, g, method=method)
    c.same(f"filter_convolve_stack with {nf} filters", out, [[mconv.convolve(d, e, method=method) for e in g] for d in few])
    c.same("its recombination", wavelet.filter_convolve_stack(out, g, filter_rot=True, method=method), [sum(mconv.convolve(d, np.rot90(e, 2), method=method) for d, e in zip(o, g)) for o in out])


@item("signal")
def singular_values(c):
    n, m, kind = c.size(20, 1100), c.size(10, 70), c.pick("hard", "soft")
    if c.flag():
        n, m = m, n
    r = min(n, m)
    u, v = np.linalg.qr(c.gen(n, r))[0], np.linalg.qr(c.gen(m, r))[0]
    s = np.sort(10.0 ** c.rs.uniform(-1, 2, r))[::-1]
    k = int(c.rs.randint(0, r + 1))
    t = float(math.sqrt(s[k - 1] * s[k])) if 0 < k < r else (2 * s[0] if k == 0 else 0.5 * s[-1])
    x = (u * s) @ v.conj().T
    keep = np.where(s >= t, s if kind == "hard" else s - t, 0)
    want = (u * keep) @ v.conj().T
    tag = f"of a {n}x{m} matrix, {k} values kept ({kind})"
    c.same(f"svd_thresh {tag}", svd.svd_thresh(x, threshold=t, thresh_type=kind), want, rtol=1e-8, slack=1e-9)
    if k:
        n_vals, extra = c.pick(-1, None, 1, r // 2), c.pick(1, 5, 20)
        got, rank = svd.svd_thresh_coef_fast(x, t, n_vals=n_vals, extra_vals=extra, thresh_type=kind)
        c.same(f"svd_thresh_coef_fast {tag}", got, want, rtol=1e-6, slack=1e-8)
        need(rank == k, lambda: f"svd_thresh_coef_fast {tag}: rank {rank}")
        c.same(f"svd_thresh with n_pc={k} {tag}", svd.svd_thresh(x, n_pc=k), (u * np.where(np.arange(r) < k, s, 0)) @ v.conj().T, rtol=1e-8, slack=1e-9)
    c.same("nuclear norm", matrix.nuclear_norm(x), np.sum(s))


@item("signal")
def reweighting(c):
    n, calls = c.size(200, 10000), c.pick(1, 3, 40)
    w = np.abs(c.gen(n, cplx=False)) + 0.1
    r = cwbReweight(w.copy(), thresh_factor=c.num(0.5, 2))
    want = w.copy()
    for _ in range(calls):
        x = c.val(n)
        r.reweight(x)
        want = want / (1 + np.abs(x) / (r.thresh_factor * w))
    c.same(f"{n} weights after {calls} reweightings", r.weights, want, slack=0)


@item("signal")
def noises(c):
    n, s = c.size(2000, 20000), c.num(0.5, 3)
    x = c.val(n)
    x = x.real
    d = noise.add_noise(x, sigma=s, rng=int(c.rs.randint(1000))) - x
    need(abs(np.mean(d)) < 7 * s / math.sqrt(n) and abs(np.std(d) / s - 1) < 7 / math.sqrt(2 * n), lambda: f"noise of {n} values: mean {np.mean(d)}, deviation {np.std(d)} of {s}")
    for a in range(0, n - 500, 500):  # every stretch has noise of its own
        z = d[a : a + 500]
        need(abs(np.std(z) / s - 1) < 8 / math.sqrt(1000), lambda: f"noise of values {a} to {a + 500}: deviation {np.std(z)} of {s}")  # noqa: B023
    lag = c.size(1, n // 2)
    corr = float(np.mean(d[lag:] * d[:-lag])) / s**2
    need(abs(corr) < 8 / math.sqrt(n - lag), lambda: f"noise of {n} values: correlation {corr} at distance {lag}")
    k = c.size(10, 400)
    sig = np.abs(c.gen(k, cplx=False)) + 0.5
    z = noise.add_noise(np.zeros((k, 200)), sigma=list(sig), rng=int(c.rs.randint(1000))) / sig[:, None]
    need(np.all(np.abs(np.std(z, axis=1) - 1) < 9 / math.sqrt(400)), lambda: f"noise of {k} images: deviations {np.std(z, axis=1)}")
    c.pairs += [True, True]


# ----------------------------------------------------------------------------- mathematics
@item("mathematics")
def spreads(c):
    n = c.size(300, 20000)
    x, y = c.val(n).real, c.val(n).real
    mad = np.median(np.abs(x - np.median(x)))
    c.same(f"mad of {n} values", [stats.mad(x), stats.sigma_mad(x)], [mad, 1.4826 * mad])
    mse = float(np.sum((x - y) ** 2)) / n
    c.same(f"mse of {n} values", stats.mse(x, y), mse)
    k, h, w = c.size(5, 120), c.size(3, 30), c.size(3, 30)
    a, b = c.gen(k, h, w, cplx=False), c.gen(k, h, w, cplx=False)
    one = [20 * np.log10(h * (p.max() - p.min()) / np.linalg.norm(p - q)) for p, q in zip(a, b)]
    c.same(f"psnr_stack of {k} images of {h}x{w}", stats.psnr_stack(a, b, metric=np.array), one)
    c.same("psnr, wiki", stats.psnr(x, y, method="wiki", max_pix=100), 20 * np.log10(100) - 10 * np.log10(mse))
    sh = (c.size(20, 300) // 2 * 2 + 1, c.size(20, 300) // 2 * 2 + 1)
    s = c.num(0.5, 60)
    g = stats.gaussian_kernel(sh, s, norm=c.pick("max", "sum"))
    yy, xx = np.mgrid[: sh[0], : sh[1]]
    ref = np.exp(-((yy - sh[0] // 2) ** 2 + (xx - sh[1] // 2) ** 2) / (2 * s**2))
    c.same(f"gaussian_kernel {sh}, up to its norm", g / g.max(), ref / ref.max(), rtol=1e-7)


@item("mathematics")
def qualities(c):
    h, w = c.size(40, 300), c.size(40, 300)
    a, b = c.gen(h, w, cplx=False), c.gen(h, w, cplx=False)
    b = a + c.num(0.1, 2) * b
    mask = (c.rs.random_sample((h, w)) < 0.6).astype(float) if c.flag() else None
    nrm = lambda d: (np.abs(d) - np.abs(d).min()) / np.ptp(np.abs(d))
    t, r = nrm(a), nrm(b)
    if mask is not None:
        # normalised images stay as they are when the mask shows a dark and the brightest pixel
        mask[t == 1] = mask[r == 1] = 1
        mask[t == 0] = mask[r == 0] = 1
    m = 1.0 if mask is None else mask
    mse = np.mean((m * t - m * r) ** 2)
    got = [metrics.mse(a, b, mask), metrics.nrmse(a, b, mask), metrics.snr(a, b, mask), metrics.psnr(a, b, mask)]
    c.same(f"metrics of {h}x{w} images", got, [mse, np.sqrt(mse / np.mean((m * t) ** 2)), 10 * np.log10(np.mean((m * t) ** 2) / mse), 10 * np.log10(np.max(m * t) / mse)])
    mean, full = structural_similarity(t, r, full=True, data_range=1.0)
    c.same(f"ssim of {h}x{w} images", metrics.ssim(a, b, mask), mean if mask is None else np.sum(full * mask) / np.sum(mask), rtol=1e-7)


@item("mathematics")
def rearrangements(c):
    k, l, h, w = c.size(1, 24), c.size(1, 24), c.size(1, 24), c.size(1, 24)
    cube = c.val(k * l, h, w)
    want = np.block([[cube[i * l + j] for j in range(l)] for i in range(k)])
    m = transform.cube2map(cube, (k, l))
    c.same(f"cube2map, {k}x{l} images of {h}x{w}", m, want, rtol=0, slack=0)
    c.same("map2cube", transform.map2cube(want, (k, l)), cube, rtol=0, slack=0)
    mat = cube.reshape(k * l, h * w).T
    c.same("cube2matrix", transform.cube2matrix(cube), mat, rtol=0, slack=0)
    c.same("matrix2cube", transform.matrix2cube(mat, (h, w)), cube, rtol=0, slack=0)
    sq = cube[:, : min(h, w), : min(h, w)]
    smap = np.block([[sq[i * l + j] for j in range(l)] for i in range(k)])
    c.same("map2matrix", transform.map2matrix(smap, (k, l)), sq.reshape(k * l, -1).T, rtol=0, slack=0)
    c.same("matrix2map", transform.matrix2map(sq.reshape(k * l, -1).T, smap.shape), smap, rtol=0, slack=0)
    p, q = c.size(1, 90), c.size(1, 90)
    c.same(f"pad2d by ({p}, {q})", np_adjust.pad2d(want, (p, q)), np.pad(want, ((p, p), (q, q))), rtol=0, slack=0)
    c.same("rotate_stack", np_adjust.rotate_stack(cube), cube[:, ::-1, ::-1], rtol=0, slack=0)
    big = cube.reshape(k, l, h, w)
    s = int(c.rs.randint(-5, 6))
    c.same("fancy_transpose", np_adjust.fancy_transpose(big, s), np.transpose(big, np.roll(np.arange(4), s)), rtol=0, slack=0)
    n = c.size(10, 120) // 2 * 2 + 1
    x, j = c.val(n, n), int(c.rs.randint(-4, 5))
    turned = matrix.rotate(x, j * np.pi / 2)
    c.same(f"rotate a {n}x{n} matrix by {j} quarter turns", turned, np.rot90(x, j), rtol=0, slack=0)


@item("mathematics")
def orthogonalisation(c):
    n = c.size(5, 60)
    m = n + c.size(1, 200)
    a = c.gen(n, m)
    q, r = np.linalg.qr(a.conj().T)
    q = q * (np.diag(r) / np.abs(np.diag(r)))
    c.same(f"gram_schmidt of {n} vectors", matrix.gram_schmidt(a), q.conj().T, rtol=1e-6)
    big = c.size(300, 10000)
    u, v = c.gen(big), c.gen(big)
    c.same(f"project, {big} entries", matrix.project(u, v), (np.vdot(u, v) / np.vdot(u, u)) * u, rtol=1e-9)


@item("mathematics")
def power_method(c):
    n, it = c.size(50, 5000), c.size(5, 600)
    d = c.gen(n)
    start = None
    seen = []
    pm = matrix.PowerMethod(lambda v: (seen.append(np.array(v)), d * v)[1], (n,), auto_run=False, data_type=complex if c.cplx else float, rng=int(c.rs.randint(1000)))
    pm.get_spec_rad(tolerance=0.0, max_iter=it)
    need(len(seen) == it or it > 60, lambda: f"{len(seen)} calls of the operator for {it} iterations")
    start, it = seen[0], len(seen)
    logs = np.log(np.abs(d)) * (it - 1)
    last = start * np.exp(logs - logs.max()) * np.exp(1j * np.angle(d) * (it - 1))
    c.same(f"spectral radius after {it} iterations on {n} entries", pm.spec_rad, np.linalg.norm(d * last) / np.linalg.norm(last), rtol=1e-8)


# ------------------------------------------------------------------------------- operators
@item("operators")
def entrywise(c):
    n, t, f = c.size(300, 10000), c.num(0.1, 2), c.pick(1.0, 0.5, 2.0)
    w, x = np.abs(c.gen(n, cplx=False)), c.val(n)
    kinds = {
        "SparseThreshold": lambda w: SparseThreshold(Identity(), t * w), "SparseThreshold hard": lambda w: SparseThreshold(Identity(), t * w, thresh_type="hard"), "Ridge": lambda w: Ridge(Identity(), t * w),
        "ElasticNet": lambda w: ElasticNet(Identity(), t * w, 0.7 * t * w), "Identity": lambda w: IdentityProx(), "Positivity": lambda w: Positivity(),
    }
    if c.cplx:
        del kinds["Positivity"]
    name = c.pick(*sorted(kinds))
    mk, cuts = kinds[name], c.cuts(n)
    parts = [(mk(w[a:b]), x[a:b]) for a, b in cuts]
    whole = mk(w)
    c.same(f"{name} of {n} entries", whole.op(x.copy(), extra_factor=f), np.concatenate([o.op(v.copy(), extra_factor=f) for o, v in parts]), rtol=1e-12)
    if name != "Positivity":
        c.same(f"{name} cost of {n} entries", whole.cost(x), sum(o.cost(v) for o, v in parts))
    k = c.size(3, 300)
    sub = x[: k * (n // k)].reshape(k, -1)
    ws = w[: sub.size].reshape(sub.shape)
    c.same(f"{name} of an array {sub.shape}", mk(ws).op(sub.copy(), extra_factor=f).ravel(), whole.op(x.copy(), extra_factor=f)[: sub.size], rtol=1e-12)


@item("operators")
def groups(c):
    k, n, f = c.size(1, 60), c.size(20, 400), c.pick(1.0, 0.5, 2.0)
    if c.flag():
        k, n = n, k
    x, w = c.gen(k, n), np.abs(c.gen(n, cplx=False)) * 3
    g = GroupLASSO(w)
    nr = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
    c.same(f"GroupLASSO, {n} groups of {k}", g.op(x.copy(), extra_factor=f), x * np.maximum(1 - w * f / nr, 0))
    c.same("GroupLASSO cost", g.cost(x), np.sum(w * nr))


@item("operators")
def sorted_norms(c):
    n, f = c.size(30, 4000), c.pick(1.0, 0.5, 2.0)
    x = c.arr(n, styles=("normal", "ties", "sparse", "wide"), cplx=False)
    w = np.sort(np.abs(c.gen(n, cplx=False)))[::-1].copy()
    order = np.argsort(-np.abs(x), kind="stable")
    mag = np.maximum(pava_decreasing(np.abs(x)[order] - f * w), 0)
    want = np.zeros(n)
    want[order] = mag
    c.same(f"OWL of {n} entries", OrderedWeightedL1Norm(w).op(x.copy(), extra_factor=f).reshape(-1), np.sign(x) * want, rtol=1e-9, slack=1e-11)
    c.same(f"OWL cost, {n} equal weights", OrderedWeightedL1Norm(np.full(n, w[0])).cost(x), w[0] * np.sum(np.abs(x)))
    k = min(n, c.size(1, n))
    n2 = min(n, 600)
    k = min(k, n2)
    x, beta = c.gen(n2, cplx=False), c.num(0.1, 2)
    op = KSupportNorm(beta, k)
    z = op.op(x.copy(), extra_factor=f).reshape(-1)
    # optimality: (x - z) / (beta f) is a subgradient of half the squared k-support norm at z
    g = (x - z) / (beta * f)
    top = np.sort(np.abs(g))[::-1][:k]
    need(abs(np.dot(g, z) - np.sum(top**2)) <= 1e-5 * (1 + np.sum(top**2)), lambda: f"k-support norm ({n2} entries, k = {k}): <g, z> = {np.dot(g, z)}, dual norm squared {np.sum(top**2)}")


@item("operators")
def low_rank(c):
    k, h, w = c.size(5, 40), c.size(4, 30), c.size(4, 30)
    n, r, f, t = h * w, min(h * w, k), c.pick(1.0, 0.5, 2.0), c.num(0.3, 3)
    u, v = np.linalg.qr(c.gen(n, r))[0], np.linalg.qr(c.gen(k, r))[0]
    s = np.sort(10.0 ** c.rs.uniform(-1, 2, r))[::-1]
    s[np.abs(s - t * f) < 1e-3 * t * f] *= 1.01
    x = ((u * s) @ v.conj().T).T.reshape(k, h, w)
    op = LowRankMatrix(t, thresh_type="soft", initial_rank=c.pick(None, 1, r))
    c.same(f"LowRankMatrix, {k} images of {h}x{w}", op.op(x.copy(), extra_factor=f), ((u * np.maximum(s - t * f, 0)) @ v.conj().T).T.reshape(k, h, w), rtol=1e-6, slack=1e-8)
    c.same("LowRankMatrix cost", op.cost(x), t * np.sum(s))
    side = c.size(4, 30)
    y = c.gen(k, side, side)
    u, sv, vh = np.linalg.svd(y.reshape(k, -1).T, full_matrices=False)
    rows = sv[:, None] * vh
    amp = c.num(0.5, 2)
    want = u @ (rows * np.maximum(1 - amp * t * f / np.maximum(np.abs(rows), 1e-300), 0))
    c.same(f"LowRankMatrix (ngole), {k} images of {side}x{side}", LowRankMatrix(t, lowr_type="ngole", operator=lambda cube: amp * cube).op(y.copy(), extra_factor=f), want.T.reshape(k, side, side), rtol=1e-6, slack=1e-8)
    q = np.linalg.qr(c.gen(side, side))[0]
    comp = LinearCompositionProx(MatrixOperator(q), SparseThreshold(Identity(), t))
    c.same("cost of a composition", comp.cost(y[0]), t * np.sum(np.abs(q @ y[0])))


@item("operators")
def many_parts(c):
    k, n = c.size(5, 300), c.rs.randint(1, 6)
    kinds = [c.pick("soft", "ridge", "positive", "identity") for _ in range(k)]
    ts = [c.num(0.1, 2) for _ in range(k)]
    mk = {"soft": lambda t: SparseThreshold(Identity(), t), "ridge": lambda t: Ridge(Identity(), t), "positive": lambda t: Positivity(), "identity": lambda t: IdentityProx()}
    ops = [mk["soft" if c.cplx and kd == "positive" else kd](t) for kd, t in zip(kinds, ts)]
    xs = [c.gen(n) for _ in range(k)]
    combo, f = ProximityCombo(ops), c.pick(1.0, 0.5, 2.0)
    c.same(f"ProximityCombo of {k} operators", np.array(list(combo.op(np.array(xs), extra_factor=f))), [o.op(v.copy(), extra_factor=f) for o, v in zip(ops, xs)])
    costs = [o.cost(v) for o, v in zip(ops, xs)]
    c.same(f"ProximityCombo cost of {k} operators", combo.cost(np.array(xs)), sum(costs))
    mats = [c.gen(3, n) for _ in range(k)]
    ws = [c.num(0.1, 2) for _ in range(k)]
    lin = LinearCombo([MatrixOperator(m) for m in mats], ws)
    c.same(f"LinearCombo of {k} operators", np.array(list(lin.op(xs[0]))), [m @ xs[0] for m in mats])
    ys = c.gen(k, 3)
    c.same(f"LinearCombo adjoint of {k} operators", lin.adj_op(ys), sum(w * m.conj().T @ y for w, m, y in zip(ws, mats, ys)))
    mean = LinearCombo([MatrixOperator(m) for m in mats])
    c.same("LinearCombo adjoint without weights", mean.adj_op(ys), sum(m.conj().T @ y for m, y in zip(mats, ys)) / k)
    cost = costObj(ops, verbose=False)
    cost.get_cost(xs[0])
    c.same(f"costObj of {k} operators", cost.cost, sum(o.cost(xs[0]) for o in ops))


@item("operators")
def linear_maps(c):
    n, m, k = c.size(50, 500), c.size(50, 500), c.size(1, 50)
    a, x, y = c.gen(m, n), c.gen(n, k), c.gen(m, k)
    op = MatrixOperator(a)
    c.same(f"MatrixOperator {m}x{n} on {k} columns", op.op(x), np.stack([a @ v for v in x.T], -1))
    c.same("its adjoint", op.adj_op(y), np.stack([a.conj().T @ v for v in y.T], -1))
    g = GradBasic(y, op.op, op.adj_op, verbose=False)
    g.get_grad(x)
    c.same("GradBasic", g.grad, a.conj().T @ (a @ x - y))
    c.same("GradBasic cost", g.cost(x), 0.5 * np.sum(np.abs(a @ x - y) ** 2))
    q = np.linalg.qr(c.gen(n, n))[0]
    p = SparseThreshold(Identity(), 0.4)
    c.same("LinearCompositionProx", LinearCompositionProx(MatrixOperator(q), p).op(x), q.conj().T @ p.op(q @ x))


@item("operators")
def wavelets(c):
    d = c.pick(1, 2, 2, 3)
    shape = tuple(c.size(*{1: (100, 5000), 2: (20, 200), 3: (10, 24)}[d]) for _ in range(d))
    name, mode, level = c.pick("haar", "db4", "sym4", "bior2.2"), c.pick("zero", "symmetric", "periodization", "periodic"), c.pick(1, 2, 3, 4)
    x = c.gen(*shape)
    w = WaveletTransform(name, shape, level=level, mode=mode)
    tag = f"{name}, {mode}, level {level}, {shape}"
    want = pywt.ravel_coeffs(pywt.wavedecn(x, name, mode=mode, level=level) if d > 1 else pywt.wavedec(x, name, mode=mode, level=level))[0]
    got = w.op(x)
    c.same(f"wavelet transform ({tag})", got, want)
    c.same(f"inverse wavelet transform ({tag})", w.adj_op(got), x, rtol=1e-8)
    batch, small = c.size(10, 200), (6, 5)
    xs = c.gen(batch, *small)
    one, many = WaveletTransform(name, small, level=1, mode=mode), WaveletTransform(name, small, level=1, mode=mode, n_batch=batch)
    cs = np.array([one.op(v) for v in xs])
    c.same(f"wavelet transform of {batch} images", many.op(xs), cs)
    c.same(f"inverse wavelet transform of {batch} images", many.adj_op(cs), xs, rtol=1e-8)
    f = c.gen(c.size(2, 40), 3, 3, cplx=False)
    st = c.gen(c.size(2, 20), 5, 4, cplx=False)
    wc = WaveletConvolve(f)
    y = wc.op(st)
    c.same("WaveletConvolve", y, [[mconv.convolve(v, e, method="scipy") for e in f] for v in st])


# ------------------------------------------------------------------------------- histories
@item("histories")
def cost_histories(c):
    n, rng = c.size(50, 2000), c.pick(2, 4, 7, 20)
    vals = np.cumsum(c.rs.standard_normal(n)) + 1000
    every = c.pick(1, 1, 3)
    o = costObj([type("P", (), {"cost": lambda self, v, **kw: v})()], tolerance=1e-15, test_range=2 * rng, cost_interval=every, verbose=False)
    kept = [v for i, v in enumerate(vals) if (i + 1) % every == 0]
    for i, v in enumerate(vals):
        need(not o.get_cost(float(v)), lambda: f"converged at evaluation {i}")  # noqa: B023
    c.same(f"last of {n} costs", o.cost, kept[-1])
    # afterwards the values stabilise: the first full test of equal costs says so
    due = len(kept) + (-len(kept)) % (2 * rng) + 2 * rng
    got = len(kept)
    for i in range(n, due * every + every):
        stop = o.get_cost(5.0)
        got += (i + 1) % every == 0
        if stop:
            break
    need(stop and got <= due, lambda: f"constant costs after {len(kept)} others, test range {2 * rng}: converged {stop} at cost {got}")
    seen, orig = [], mfig.Figure.savefig
    mfig.Figure.savefig = lambda self, *a, **k: seen.append([np.array(ln.get_ydata(), dtype=float) for ax in self.axes for ln in ax.get_lines()])
    try:
        o.plot_cost()
    finally:
        mfig.Figure.savefig = orig
    want = np.log10([*kept, *[5.0] * (got - len(kept))])
    need(len(seen) == 1 and len(seen[0]) == 1, lambda: f"{len(seen)} figures saved")
    c.same(f"plot of {got} costs", seen[0][0], want, rtol=1e-12)
    c.pairs.append(True)


@item("histories")
def records(c):
    n = c.size(50, 2000)
    vals = c.gen(n, cplx=False)
    ob = MetricObserver("m", lambda v: v, {"x_new": "v"}, {}, early_stopping=False)
    o = Observable(["cv_metrics"])
    o.add_observer("cv_metrics", ob)
    for i, v in enumerate(vals):
        o.notify_observers("cv_metrics", x_new=v, idx=i)
    out = ob.retrieve_metrics()
    c.same(f"{n} metric values", out["values"], vals, rtol=0, slack=0)
    need(list(out["index"]) == list(range(n)) and len(out["time"]) == n, lambda: f"indices {list(out['index'])[:5]}... of {n} records")
    k = c.size(20, 400)
    seen = []
    o2 = Observable(["s"])
    obs = [(lambda j: lambda *a, **kw: seen.append(j))(j) for j in range(k)]
    for f in obs:
        o2.add_observer("s", f)
    gone = sorted(c.rs.permutation(k)[: c.rs.randint(0, k)])
    for j in gone:
        o2.remove_observer("s", obs[j])
    o2.notify_observers("s")
    need(seen == [j for j in range(k) if j not in set(gone)], lambda: f"{k} observers of which {len(gone)} were removed: {len(seen)} notified")


# --------------------------------------------------------------------------------- solvers
QUIET = {"cost": None, "auto_iterate": False, "progress": False}
KINDS = ("fb", "fb-cd", "fb-none", "gfb", "pogm", "condat", "vanilla", "ada", "rms", "momentum", "adam", "admm", "fadmm")


def make(kind, a, b, x, prox, step, **kw):
    g = GradBasic(b.copy(), lambda v: a @ v, lambda v: a.conj().T @ v, verbose=False)
    rest = {**QUIET, **kw}
    if kind.startswith("fb"):
        o = {"fb": {}, "fb-adapt": {"restart_strategy": "adaptive-ii", "xi_restart": 0.97}, "fb-greedy": {"restart_strategy": "greedy", "xi_restart": 0.95, "min_beta": 0.4 * step, "s_greedy": 1.1}, "fb-cd": {"a_cd": 4.0}, "fb-none": {"lambda_update": None, "lambda_param": 0.8}}[kind]
        return al.ForwardBackward(x.copy(), g, prox(), beta_param=0.9 * step, **o, **rest)
    if kind == "gfb":
        return al.GenForwardBackward(x.copy(), g, [prox(), Ridge(Identity(), 0.2)], gamma_param=step, weights=[0.6, 0.4], **rest)
    if kind.startswith("pogm"):
        return al.POGM(x.copy(), x.copy(), x.copy(), x.copy(), g, prox(), beta_param=0.9 * step, sigma_bar=1.0 if kind == "pogm" else 0.8, **rest)
    if kind == "condat":
        return al.Condat(x.copy(), 0.1 * x, g, prox(), Ridge(Identity(), 0.4), sigma=0.5, tau=1 / (1 / step + 0.5), rho=0.9, **rest)
    rest.pop("auto_iterate")
    rest.pop("linear", None)
    if kind in ("admm", "fadmm"):
        rest.pop("cost")
        cls = al.ADMM if kind == "admm" else al.FastADMM
        return cls(x.copy(), 0.3 * x, 0.1 * x, Identity(), Identity(), 0.5 * x, (lambda init, obs: 0.3 * init + 0.2 * obs, lambda init, obs: 0.1 * init - 0.4 * obs), **rest)
    cls = {"vanilla": al.VanillaGenericGradOpt, "ada": al.AdaGenericGradOpt, "rms": al.RMSpropGradOpt, "momentum": al.MomentumGradOpt, "adam": al.ADAMGradOpt}[kind]
    rest.pop("cost")
    return cls(x.copy(), g, prox(), None, eta=0.05 if kind in ("ada", "rms", "adam") else 0.1 * step, **rest)


def saga(a, b, x, prox, step, it, epoch):
    """SAGA, iterated here."""
    mem, d = np.zeros((epoch, *x.shape), x.dtype), 0 * x
    for i in range(it):
        g = a.conj().T @ (a @ x - b)
        d, mem[i % epoch] = d - mem[i % epoch] + g, g
        x = x - step * d
        if i % epoch == 0:
            x = prox().op(x, extra_factor=step)
    return x


def final(s):
    return np.asarray(s.x_final if hasattr(s, "x_final") and s.x_final is not None else s.u_final)


def setting(c, kinds=KINDS):
    kind = c.pick(*kinds)
    n, m = int(c.rs.randint(1, 5)), int(c.rs.randint(1, 5))
    a = c.gen(m, n)
    step = float(1 / max(np.linalg.norm(a, 2) ** 2, 1e-3))
    t = c.num(0.01, 0.3)
    prox = c.pick(lambda: SparseThreshold(Identity(), t), lambda: Ridge(Identity(), t), lambda: ElasticNet(Identity(), 0.1, t))
    return kind, n, m, a, step, prox


@item("solvers")
def many_columns(c):
    """Many problems with one operator, solved together and one at a time."""
    kind, n, m, a, step, prox = setting(c, [k for k in KINDS if k != "fadmm" and (not c.cplx or k not in ("ada", "rms", "adam")) and k != "pogm"])
    k, it = c.size(20, 2000), int(c.rs.randint(1, 25))
    b, x = c.gen(m, k), c.gen(n, k)
    s = make(kind, a, b, x, prox, step)
    s.iterate(max_iter=it)
    out = final(s)
    for j in {0, k - 1, *c.rs.randint(0, k, 6)}:
        o = make(kind, a, b[:, j], x[:, j], prox, step)
        o.iterate(max_iter=it)
        c.same(f"{kind}: column {j} of {k}", out[:, j], final(o), rtol=1e-6, slack=1e-9)


@item("solvers")
def long_runs(c):
    """One long run, the same run in pieces, and the iterates that metrics saw."""
    kind, n, m, a, step, prox = setting(c, (*KINDS, "fb-adapt", "fb-greedy", "pogm-restart"))
    if c.cplx and kind in ("ada", "rms", "adam"):
        kind = "fb"
    it = c.size(150, 1100)
    b, x = c.gen(m), c.gen(n)
    seen = []
    met = {"m": {"metric": lambda v: (seen.append(np.array(v)), float(np.sum(np.abs(v))))[1], "mapping": {"x_new": "v"}, "cst_kwargs": {}, "early_stopping": False}}
    period = c.pick(1, 1, 7, 50)
    one, two = make(kind, a, b, x, prox, step, metrics=met, metric_call_period=period, linear=Identity()), make(kind, a, b, x, prox, step)
    one.iterate(max_iter=it)
    left = it
    while left:
        k = min(left, c.size(1, 300))
        two.iterate(max_iter=k)
        left -= k
    c.same(f"{kind}: {it} iterations, in one run and in pieces", final(two), final(one), rtol=1e-9)
    want = sum(1 for i in range(it) if i % period == 0 or i == it - 1)
    rec = one.metrics["m"]
    need(len(seen) == want == len(rec["values"]), lambda: f"{kind}: {len(seen)} metric calls, {len(rec['values'])} records, expected {want}")
    c.same(f"{kind}: metric values", rec["values"], [float(np.sum(np.abs(v))) for v in seen], rtol=1e-12)
    c.same(f"{kind}: last metric", seen[-1], final(one), rtol=1e-12)
    if kind == "fb-none" or kind == "vanilla":
        # a plain recursion, iterated here
        eta = 0.9 * step if kind == "fb-none" else 0.1 * step
        p, v, z = prox(), x.copy(), x.copy()
        for _ in range(it):
            new = p.op(z - eta * a.conj().T @ (a @ z - b), extra_factor=eta)
            z, v = (v + 0.8 * (new - v) if kind == "fb-none" else new), new
        c.same(f"{kind}: {it} iterations of the recursion", final(one), v, rtol=1e-6, slack=1e-9)


@item("solvers")
def long_epochs(c):
    _, n, m, a, step, prox = setting(c)
    a, b, x = a.real, c.gen(m, cplx=False), c.gen(n, cplx=False)
    epoch, it = c.size(5, 400), c.size(50, 900)
    eta = step / (4 * epoch)
    g = GradBasic(b.copy(), lambda v: a @ v, lambda v: a.T @ v, verbose=False)
    s = al.SAGAOptGradOpt(x.copy(), g, prox(), None, eta=eta, epsilon=1.0, epoch_size=epoch, progress=False)
    s.iterate(max_iter=it)
    c.same(f"SAGA, epochs of {epoch}, {it} iterations", s.x_final, saga(a, b, x, prox, eta, it, epoch), rtol=1e-6, slack=1e-9)


@item("solvers")
def many_metrics(c):
    """Dozens of metrics in one run, the last of which ends it."""
    kind, n, m, a, step, prox = setting(c, [k for k in KINDS if not c.cplx or k not in ("ada", "rms", "adam")])
    k, period = c.size(8, 120), c.pick(1, 2, 5)
    at = int(c.rs.randint(k))
    met = {f"m{i}": {"metric": (lambda j: lambda v, f: f * float(np.sum(np.abs(v))) + j)(i), "mapping": {"x_new": "v"}, "cst_kwargs": {"f": i % 7}, "early_stopping": False} for i in range(k)}
    met[f"m{at}"] = {"metric": lambda v: 3.0, "mapping": {"x_new": "v"}, "cst_kwargs": {}, "early_stopping": True}
    s = make(kind, a, c.gen(m), c.gen(n), prox, step, metrics=met, metric_call_period=period, linear=Identity(), **({} if kind in ("admm", "fadmm") else {"cost": costObj([Quiet()], tolerance=-1.0, verbose=False)}))
    s.iterate(max_iter=60)
    idx = s.metrics["m0"]["index"]
    need(sorted(s.metrics) == sorted(met), lambda: f"{kind}: {len(s.metrics)} of {k} metrics reported")
    # six equal values are needed; the flag is read in the next iteration
    stop = 5 * period + 1 if kind not in ("admm", "fadmm", "vanilla", "ada", "rms", "momentum", "adam") else None
    if stop is not None:
        need(idx[-1] == stop, lambda: f"{kind}: a metric constant from the start, called every {period} iterations, ended the run at {idx[-1]}, not {stop}")
    base = np.array(s.metrics[f"m{1 if at != 1 and k > 1 else 0}"]["values"])
    for i in range(k):
        v = s.metrics[f"m{i}"]
        need(v["index"] == idx and len(v["values"]) == len(idx) == len(v["time"]), lambda: f"{kind}: metric {i} of {k} has {len(v['values'])} values, the first {len(idx)}")  # noqa: B023
        if i != at and at != 1 and k > 1:
            c.same(f"{kind}: metric {i} of {k}", np.array(v["values"]), (base - 1) * (i % 7) + i, rtol=1e-9)
    c.pairs.append(True)


@item("solvers")
def many_reweightings(c):
    """A run with many reweightings, and the same steps one after another."""
    _, n, m, a, step, prox = setting(c)
    b, x, y, k, it = c.gen(m), c.gen(n), c.gen(n), c.size(3, 60), int(c.rs.randint(1, 12))
    w = 0.1 + np.abs(c.gen(n, cplx=False))

    def go(pieces):
        rw = cwbReweight(w.copy(), thresh_factor=2.0)
        g = GradBasic(b.copy(), lambda v: a @ v, lambda v: a.conj().T @ v, verbose=False)
        s = al.Condat(x.copy(), y.copy(), g, prox(), SparseThreshold(Identity(), rw.weights), sigma=0.5, tau=1 / (1 / step + 0.5), rho=0.9, reweight=None if pieces else rw, **QUIET)
        if not pieces:
            s.iterate(max_iter=it, n_rewightings=k)
        else:
            s.iterate(max_iter=it)
            for _ in range(k):
                rw.reweight(s.x_final)
                s.iterate(max_iter=it)
        return s.x_final, s.y_final, rw.weights

    for name, u, v in zip(("primal solution", "dual solution", "weights"), go(False), go(True)):
        c.same(f"{k} reweightings: {name}", u, v, rtol=1e-9, slack=0)


class Quiet:
    def cost(self, *a, **k):
        return 1.0


def check(c):
    case = Big(c["seed"], False, c["cplx"])
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        ITEMS[c["name"]](case)
    return any(case.pairs)


def register(group, quick, shards):
    def sub(c):
        return check(c)

    sub.__doc__ = f"Large data, many parts or long histories ({group}): {', '.join(GROUPS[group])}."
    PROP.sub(group, fixed(name=st.sampled_from(GROUPS[group]), seed=seeds, cplx=st.integers(0, 2).map(lambda v: v == 0)), quick=quick, factor=15, shards=shards, rule="some compared result is not zero")(sub)


register("signal", 1200, 8)
register("mathematics", 1200, 6)
register("operators", 1800, 8)
register("histories", 200, 2)
register("solvers", 600, 8)
