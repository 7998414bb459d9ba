"""C26: singular value thresholding acts on the singular values and on nothing else."""
import numpy as np
from hypothesis import strategies as st
from modopt.signal import svd as sv

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay, seeds
from harness.oracle import Frozen, close, equal, need, raises, soft
from props.c16 import same_conv

PROP = Prop(
    "C26",
    [
        "cases where a singular value lies within 1e-7 (relative) of the threshold, or where the requested rank splits tied singular values, are not decided",
        "n_pc=None: the matrix is real, the rows are square images and at least one component is significant (with none the code keeps everything, on which the documentation is silent)",
    ],
)


@st.composite
def matrix(draw, rows=None, lo=1, cplx=True):
    cplx = cplx and draw(st.integers(0, 3)) == 0
    m = rows or draw(st.integers(lo, 9))
    n = draw(st.integers(lo, 9))
    if draw(st.integers(0, 9)) == 0:
        m, n = (rows or m + draw(st.sampled_from([20, 20, 120]))), n + draw(st.sampled_from([12, 12, 60]))
    how = draw(st.sampled_from(["any", "spectrum", "spectrum", "lowrank"]))
    rs = np.random.RandomState(draw(seeds))
    r = min(m, n)
    unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-9, 1e-5, 1e5, 1e9]))
    if how == "any":
        return draw(array((m, n), dtype=complex if cplx else float))
    noise = (lambda *s: rs.standard_normal(s) + 1j * rs.standard_normal(s)) if cplx else (lambda *s: rs.standard_normal(s))
    if how == "lowrank":
        k = rs.randint(1, r + 1)
        return noise(m, k) @ noise(k, n) * unit
    u, _ = np.linalg.qr(noise(m, m))
    v, _ = np.linalg.qr(noise(n, n))
    s = np.sort(rs.uniform(0.2, 10, r))[::-1]
    if rs.randint(4) == 0:  # some of them nearly equal
        j = rs.randint(r)
        s[j : j + 4] = s[j] * (1 - 10.0 ** rs.uniform(-5, -2) * np.arange(s[j : j + 4].size))
        s = np.sort(s)[::-1]
    return (u[:, :r] * s) @ v[:r] * unit


def thr(s, t, kind):
    return np.where(s >= t, s, 0) if kind == "hard" else np.maximum(s - t, 0)


def ambiguous(s, t):
    s0 = max(s[0], 1e-12) if s.size else 1.0
    return bool(np.any(np.abs(s - t) <= 1e-7 * s0))


@st.composite
def thr_case(draw):
    x = draw(matrix())
    s = np.linalg.svd(x, compute_uv=False)
    kind = draw(st.sampled_from(["frac", "between", "zero", "huge", "array"]))
    if kind == "frac":
        t = float(s[0]) * draw(st.sampled_from([0.1, 0.3, 0.5, 0.9]))
    elif kind == "between" and s.size > 1:
        k = draw(st.integers(0, s.size - 2))
        t = float(0.5 * (s[k] + s[k + 1]))
        if draw(st.booleans()):  # close to one of them, on either side
            j = draw(st.integers(0, s.size - 1))
            t = float(s[j]) * (1 + draw(st.sampled_from([-1, -1, 1])) * 10.0 ** draw(st.floats(-5, -2)))
    elif kind == "huge":
        t = float(2 * s[0] + 1)
    elif kind == "array":
        t = np.array([draw(st.sampled_from([0.0, 0.2, 0.5, 2.0])) for _ in s]) * float(s[0])
    else:
        t = 0.0
    return dict(x=x, t=t, kind=draw(st.sampled_from(["hard", "soft", "default"])), order=draw(layouts), n_vals=draw(st.sampled_from([-1, None, 1, 2, 3, 5, 8, 50])), extra=draw(st.sampled_from([1, 2, 5])))


@PROP.sub("decompose", fixed(x=matrix(), order=layouts), quick=800, rule="rank at least two")
def decompose(c):
    x = lay(c["x"], c["order"])
    with Frozen("calculate_svd", x=x):
        u, s, v = sv.calculate_svd(x)
    r = min(x.shape)
    need(u.shape == (x.shape[0], r) and s.shape == (r,) and v.shape == (r, x.shape[1]), "calculate_svd shapes")
    close(s, np.linalg.svd(c["x"], compute_uv=False), "singular values", rtol=1e-9, atol=1e-20)
    close(u.conj().T @ u, np.eye(r), "left singular vectors are orthonormal", atol=1e-9)
    close(v @ v.conj().T, np.eye(r), "right singular vectors are orthonormal", atol=1e-9)
    close((u * s) @ v, c["x"], "product of the factors", rtol=1e-9, atol=1e-20)
    return np.sum(s > 1e-9 * max(s[0], 1e-9)) > 1


@PROP.sub("threshold", thr_case(), quick=4000, rule="threshold strictly between two singular values")
def threshold(c):
    x = lay(c["x"], c["order"])
    kind = "hard" if c["kind"] == "default" else c["kind"]
    u, s, v = np.linalg.svd(c["x"], full_matrices=False)
    t = c["t"]
    if ambiguous(s, t) and not (np.isscalar(t) and t == 0 and kind == "soft"):
        return False
    if isinstance(t, np.ndarray) and s.size > 1 and np.min(np.abs(np.diff(s))) < 1e-6 * s[0]:
        return False
    targ = t.copy() if isinstance(t, np.ndarray) else t
    with Frozen("svd_thresh", x=x, t=targ):
        res = sv.svd_thresh(x, targ) if c["kind"] == "default" else sv.svd_thresh(x, targ, thresh_type=kind)
        res2 = sv.svd_thresh(x, threshold=targ, n_pc=1, thresh_type=kind)
    exp = (u * thr(s, t, kind)) @ v
    close(res, exp, f"svd_thresh ({kind})", rtol=1e-8, atol=1e-14, scale=s[0])
    close(res2, exp, "svd_thresh with a threshold ignores n_pc", rtol=1e-8, atol=1e-14, scale=s[0])
    return bool(np.any(s > t)) and bool(np.any(s < t))


@PROP.sub("rank", fixed(x=matrix(), k=st.integers(1, 12), all=st.booleans(), kind=st.sampled_from(["hard", "soft", "default"]), order=layouts), quick=4000, rule="rank reduced to at least one and less than full")
def rank(c):
    x = lay(c["x"], c["order"])
    u, s, v = np.linalg.svd(c["x"], full_matrices=False)
    kind = "hard" if c["kind"] == "default" else c["kind"]
    n_pc = "all" if c["all"] else c["k"]
    k = s.size if c["all"] else min(c["k"], s.size)
    if s[k - 1] < 1e-7 * max(s[0], 1e-12) or (k < s.size and s[k - 1] - s[k] < 1e-6 * s[0]):
        return False
    kw = {} if c["kind"] == "default" else {"thresh_type": kind}
    with Frozen("svd_thresh", x=x):
        res = sv.svd_thresh(x, n_pc=n_pc, **kw)
    new = np.where(np.arange(s.size) < k, s, 0) if kind == "hard" else np.maximum(s - s[k - 1], 0)
    close(res, (u * new) @ v, f"svd_thresh n_pc={n_pc} ({kind})", rtol=1e-8, atol=1e-14, scale=s[0])
    if kind == "hard":
        err = np.linalg.norm(res - c["x"])
        best = np.sqrt(np.sum(s[k:] ** 2))
        close(err, best, "error of the rank-k approximation is the optimal one", rtol=1e-6, atol=1e-8 * s[0])
    return 1 <= k < s.size


@st.composite
def image_matrix(draw, cplx=False):
    side = draw(st.integers(2, 5))
    return dict(x=draw(matrix(rows=side * side, lo=2, cplx=cplx)), factor=draw(st.sampled_from([0.5, 0.1, 0.02, 0.9])))


def significant(u, factor):
    side = int(round(np.sqrt(u.shape[0])))
    count, amb = 0, False
    for col in u.T:
        img = col.reshape(side, side)
        auto = same_conv(img, img[::-1, ::-1])
        centre, tot = auto[side // 2, side // 2] ** 2, np.sum(auto**2)
        count += centre <= factor * tot
        amb |= abs(centre - factor * tot) < 1e-8 * tot
    return count, amb


@PROP.sub("significant", image_matrix(), quick=2500, rule="some but not all components are significant")
def find_pc(c):
    u, s, v = np.linalg.svd(c["x"], full_matrices=False)
    cnt, amb = significant(u, c["factor"])
    if amb:
        return False
    with Frozen("find_n_pc", u=u):
        got = sv.find_n_pc(u, factor=c["factor"])
        got_def = sv.find_n_pc(u)
    need(got == cnt, lambda: f"find_n_pc(factor={c['factor']}) = {got}, expected {cnt}")
    need(got_def == significant(u, 0.5)[0] or significant(u, 0.5)[1], "find_n_pc default factor")
    return 0 < got < u.shape[1]


@st.composite
def smooth_matrix(draw):
    """Columns in the span of smooth images (significant) and of noise (not significant)."""
    side = draw(st.integers(6, 10))
    good, bad = draw(st.integers(1, 4)), draw(st.integers(0, 4))
    rs = np.random.RandomState(draw(seeds))
    g = np.arange(side) - (side - 1) / 2
    cols = []
    for i in range(good):
        w, ph, ang = rs.uniform(0, 1.0), rs.uniform(0, 6), rs.uniform(0, np.pi)
        cols.append((1.2 + np.cos(w * (np.cos(ang) * g[:, None] + np.sin(ang) * g[None, :]) + ph) + i).ravel() if i else np.ones(side * side))
    cols += [rs.standard_normal(side * side) for _ in range(bad)]
    perm = rs.permutation(len(cols))
    u, _ = np.linalg.qr(np.array(cols).T[:, perm] if draw(st.booleans()) else np.array(cols).T)
    n = len(cols) + draw(st.integers(0, 3))
    v, _ = np.linalg.qr(rs.standard_normal((n, n)))
    s = np.cumsum(rs.uniform(0.5, 3, len(cols)))[::-1]
    return dict(x=(u * s) @ v[: len(cols)] if draw(st.booleans()) or n == len(cols) else ((u * s) @ v[: len(cols)])[:, : max(1, len(cols) - 1)], kind=draw(st.sampled_from(["hard", "soft", "default"])), order=draw(layouts))


@PROP.sub("auto_rank", smooth_matrix(), quick=1500, rule="between one and all but one components are significant")
def auto_rank(c):
    u, s, v = np.linalg.svd(c["x"], full_matrices=False)
    full = s > 1e-9 * s[0]
    gaps_ok = s.size < 2 or np.min(s[:-1] - s[1:]) > 1e-5 * s[0]
    if not gaps_ok or not full.all():
        return False
    k, amb = significant(u, 0.1)
    if amb or k < 1:
        return False
    kind = "hard" if c["kind"] == "default" else c["kind"]
    kw = {} if c["kind"] == "default" else {"thresh_type": kind}
    x = lay(c["x"], c["order"])
    with Frozen("svd_thresh", x=x):
        res = sv.svd_thresh(x, **kw)
    new = np.where(np.arange(s.size) < k, s, 0) if kind == "hard" else np.maximum(s - s[k - 1], 0)
    close(res, (u * new) @ v, f"svd_thresh with {k} significant components ({kind})", rtol=1e-7, atol=1e-14, scale=s[0])
    return 1 <= k < s.size


@PROP.sub("fast", thr_case(), quick=4000, rule="threshold strictly between two singular values and a partial decomposition requested")
def fast(c):
    t = c["t"]
    if isinstance(t, np.ndarray):
        t = float(np.mean(t))
    u, s, v = np.linalg.svd(c["x"], full_matrices=False)
    kind = "hard" if c["kind"] == "default" else c["kind"]
    if (0 < s[0] < 1e-9) or ambiguous(s, t):
        return False
    x = lay(c["x"], c["order"])
    kw = {} if c["kind"] == "default" else {"thresh_type": kind}
    if c["n_vals"] != -1:
        kw["n_vals"] = c["n_vals"]
    if c["extra"] != 5:
        kw["extra_vals"] = c["extra"]
    with Frozen("svd_thresh_coef_fast", x=x):
        res, rk = sv.svd_thresh_coef_fast(x, t, **kw)
    new = thr(s, t, kind)
    close(res, (u * new) @ v, f"svd_thresh_coef_fast ({kind}, n_vals={c['n_vals']})", rtol=1e-6, atol=1e-14, scale=s[0])
    need(rk == np.sum(s > t), lambda: f"estimated rank {rk}, singular values {s}, threshold {t}")
    return bool(np.any(s > t)) and bool(np.any(s < t)) and c["n_vals"] not in (None, 50)


OPS = {
    "id": (lambda cube: cube, lambda im: 1.0),
    "double": (lambda cube: 2.0 * cube, lambda im: 2.0),
    "lap": (
        lambda cube: np.array([4 * e - np.roll(e, 1, 0) - np.roll(e, -1, 0) - np.roll(e, 1, 1) - np.roll(e, -1, 1) for e in cube]),
        lambda im: np.linalg.norm(4 * im - np.roll(im, 1, 0) - np.roll(im, -1, 0) - np.roll(im, 1, 1) - np.roll(im, -1, 1)),
    ),
    "stack": (lambda cube: np.array([[e, 3 * e] for e in cube]), lambda im: np.sqrt(10.0)),
}


@PROP.sub(
    "coef",
    fixed(m=image_matrix(cplx=True), op=st.sampled_from(sorted(OPS)), t=st.sampled_from([0.0, 0.1, 0.5, 1.0, 5.0]), tarr=st.booleans(), kind=st.sampled_from(["hard", "soft", "default"])),
    quick=2000, rule="some coefficients are thresholded and some are kept",
)
def coef(c):
    x = c["m"]["x"]
    u, s, v = np.linalg.svd(x, full_matrices=False)
    kind = "hard" if c["kind"] == "default" else c["kind"]
    if s[-1] < 1e-6 * s[0] or (s.size > 1 and np.min(s[:-1] - s[1:]) < 1e-6 * s[0]):
        return False
    side = int(round(np.sqrt(x.shape[0])))
    fn, norm = OPS[c["op"]]
    ti = np.array([norm(col.reshape(side, side)) for col in u.T])
    a = s[:, None] * v
    base = c["t"]
    if c["tarr"]:
        base = np.abs(np.sin(1 + np.arange(a.size).reshape(a.shape))) * c["t"]
    t = base * ti[:, None]
    if np.any(np.abs(np.abs(a) - t) < 1e-8 * s[0]) and kind == "hard":
        return False
    arg = base.copy() if isinstance(base, np.ndarray) else base
    new = np.where(np.abs(a) >= t, a, 0) if kind == "hard" else soft(a, t)
    kw = {} if c["kind"] == "default" else {"thresh_type": kind}
    with Frozen("svd_thresh_coef", x=x, t=arg):
        res = sv.svd_thresh_coef(x, fn, arg, **kw)
    close(res, u @ new, f"svd_thresh_coef ({kind}, {c['op']})", rtol=1e-7, atol=1e-14, scale=s[0])
    return bool(np.any(np.abs(a) > t)) and bool(np.any(np.abs(a) < t))


BAD_PC = [0, -1, -7, "some", "ALL", "", 1.5, [2], (1,)]


@PROP.sub("reject", fixed(pc=st.sampled_from(BAD_PC), n=st.sampled_from([2, 3, 5, 6, 8, 10]), bad=st.sampled_from(["list", "1d", "3d"])), quick=100, shards=1, rule="every case has an invalid argument")
def reject(c):
    x = np.arange(12.0).reshape(4, 3)
    raises(ValueError, lambda: sv.svd_thresh(x, n_pc=c["pc"]), f"svd_thresh(n_pc={c['pc']!r})")
    raises(ValueError, lambda: sv.svd_thresh(x, threshold=1.0, n_pc=c["pc"]), f"svd_thresh(n_pc={c['pc']!r}) with a threshold")
    raises(ValueError, lambda: sv.find_n_pc(np.ones((c["n"], 2))), "find_n_pc of vectors that are not square images")
    bad = {"list": x.tolist(), "1d": x.ravel(), "3d": x[None]}[c["bad"]]
    raises(TypeError, lambda: sv.calculate_svd(bad), "calculate_svd of data that is not a matrix")
    raises(TypeError, lambda: sv.svd_thresh_coef(x, 3, 1.0), "svd_thresh_coef with an operator that is not callable")
    equal(x, np.arange(12.0).reshape(4, 3), "input after rejected calls")
    return True
