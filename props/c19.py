"""C19: basic statistics agree with their definitions."""
import math

import numpy as np
from hypothesis import strategies as st
from modopt.math import stats

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay, seeds, shapes
from harness.oracle import Frozen, close, need, raises

PROP = Prop("C19", ["finite real data", "psnr: the two images differ and data1 is not constant"])
DT = st.sampled_from(["float64", "float64", "int64", "float32"])


def median(vals):
    vals = sorted(vals)
    n = len(vals)
    return vals[n // 2] if n % 2 else 0.5 * (vals[n // 2 - 1] + vals[n // 2])


@PROP.sub(
    "mad",
    DT.flatmap(lambda d: fixed(a=array(shapes(1, 3, 1, 7, big=[(101,), (64, 3), (1009,), (3, 20, 31)]), dtype=d), order=layouts, shift=st.integers(-5, 5))),
    quick=1500, rule="at least three distinct values",
)
def mad(c):
    a = lay(c["a"], c["order"])
    vals = [float(v) for v in c["a"].ravel()]
    m = median(vals)
    exp = median([abs(v - m) for v in vals])
    s = max(abs(v) for v in vals)
    eps = 1e-5 if a.dtype == np.float32 else 1e-11
    with Frozen("mad", a=a):
        res = stats.mad(a)
        sig = stats.sigma_mad(a)
    close(res, exp, "mad", rtol=eps, atol=1e-12, scale=s)
    close(sig, 1.4826 * exp, "sigma_mad", rtol=eps, atol=1e-12, scale=s)
    close(stats.mad(a + c["shift"]), exp, "mad of shifted data", rtol=eps * 10, atol=1e-11, scale=s + 5)
    return len(set(vals)) > 2


@st.composite
def pair(draw, nd=(1, 3)):
    shape = draw(shapes(nd[0], nd[1], 1, 7, big=[(40, 9)[: nd[1]]] if nd[0] <= 2 <= nd[1] else None))
    return dict(
        a=draw(array(shape)), b=draw(array(shape)), order=draw(layouts),
        max_pix=draw(st.sampled_from([255, 255, 1, 1.0, 1023])), aint=draw(st.booleans()),
    )


def fmse(a, b):
    return math.fsum((float(x) - float(y)) ** 2 for x, y in zip(a.ravel(), b.ravel())) / a.size


@PROP.sub("mse", pair(), quick=1500, rule="images that differ")
def mse(c):
    if c["aint"]:
        c = dict(c, a=np.rint(c["a"]).astype(int), b=np.rint(c["b"]).astype(int))
    a, b = lay(c["a"], c["order"]), lay(c["b"], c["order"])
    with Frozen("mse", a=a, b=b):
        res = stats.mse(a, b)
    exp = fmse(c["a"], c["b"])
    close(res, exp, "mse", rtol=1e-10, atol=1e-14)
    close(stats.mse(b, a), exp, "mse symmetry", rtol=1e-10, atol=1e-14)
    need(stats.mse(a, a) == 0, "mse(x, x) != 0")
    return exp > 0


@PROP.sub("psnr", pair(nd=(1, 2)), quick=1500, rule="images that differ, first image not constant")
def psnr(c):
    a, b = lay(c["a"], c["order"]), lay(c["b"], c["order"])
    err = fmse(c["a"], c["b"])
    rng = float(np.max(c["a"])) - float(np.min(c["a"]))
    if err < 1e-12 or rng < 1e-9:
        return False
    starck = 20 * math.log10(a.shape[0] * rng / math.sqrt(err * a.size))
    wiki = 20 * math.log10(c["max_pix"]) - 10 * math.log10(err)
    with Frozen("psnr", a=a, b=b):
        close(stats.psnr(a, b), starck, "psnr (default)", rtol=1e-9, atol=1e-9)
        close(stats.psnr(a, b, method="starck"), starck, "psnr (starck)", rtol=1e-9, atol=1e-9)
        close(stats.psnr(a, b, method="wiki", max_pix=c["max_pix"]), wiki, "psnr (wiki)", rtol=1e-9, atol=1e-9)
        close(stats.psnr(a, b, method="wiki"), wiki + 20 * math.log10(255 / c["max_pix"]), "psnr (wiki, default max_pix)", rtol=1e-9, atol=1e-9)
    return True


METRICS = {"mean": np.mean, "median": np.median, "min": np.min, "list": list, "default": None}


@PROP.sub("psnr_stack", fixed(c=pair(nd=(3, 3)), metric=st.sampled_from(sorted(METRICS)), method=st.sampled_from(["starck", "wiki", "default"])), quick=1000, rule="at least two image pairs, all differing and not constant")
def psnr_stack(d):
    c = d["c"]
    a, b = lay(c["a"], c["order"]), lay(c["b"], c["order"])
    exp = []
    method = "starck" if d["method"] == "default" else d["method"]
    for x, y in zip(c["a"], c["b"]):
        err, rng = fmse(x, y), float(np.max(x)) - float(np.min(x))
        if err < 1e-12 or rng < 1e-9:
            return False
        exp.append(
            20 * math.log10(x.shape[0] * rng / math.sqrt(err * x.size)) if method == "starck"
            else 20 * math.log10(255) - 10 * math.log10(err)
        )
    kw = {} if d["method"] == "default" else {"method": method}
    met = METRICS[d["metric"]]
    if met is not None:
        kw["metric"] = met
    with Frozen("psnr_stack", a=a, b=b):
        res = stats.psnr_stack(a, b, **kw)
    close(np.array(res), (met or np.mean)(exp), "psnr_stack", rtol=1e-9, atol=1e-9)
    return len(a) > 1


@PROP.sub("large", fixed(n=st.integers(30, 600), h=st.integers(1, 3), w=st.integers(1, 3), seed=seeds, method=st.sampled_from(["starck", "wiki"]), metric=st.sampled_from(sorted(METRICS)), big=st.integers(2000, 60000)), quick=150, rule="every case")
def large(c):
    """Long stacks and large arrays."""
    rs = np.random.RandomState(c["seed"])
    a, b = rs.standard_normal((2, c["n"], c["h"] + 1, c["w"])) * 3
    met = METRICS[c["metric"]]
    kw = {} if met is None else {"metric": met}
    err, rng = np.mean((a - b) ** 2, axis=(1, 2)), a.max(axis=(1, 2)) - a.min(axis=(1, 2))
    exp = 20 * np.log10(a.shape[1] * rng / np.sqrt(err * a[0].size)) if c["method"] == "starck" else 20 * np.log10(255) - 10 * np.log10(err)
    close(np.array(stats.psnr_stack(a, b, method=c["method"], **kw)), (met or np.mean)(list(exp)), f"psnr_stack of {c['n']} images", rtol=1e-9, atol=1e-9)
    v = np.round(rs.standard_normal(c["big"]) * 50, rs.randint(-1, 5))
    srt = np.sort(np.abs(v - np.median(v)))
    exp = 0.5 * (srt[(v.size - 1) // 2] + srt[v.size // 2])
    close(stats.mad(v), exp, "mad of a large array", rtol=1e-12)
    close(stats.sigma_mad(v), 1.4826 * exp, "sigma_mad of a large array", rtol=1e-12)
    w = v + rs.standard_normal(v.size)
    close(stats.mse(v, w), np.sum((v - w) ** 2) / v.size, "mse of a large array", rtol=1e-10)
    # images that are nearly the same
    near = a[0] + rs.standard_normal(a[0].shape) * 10.0 ** rs.uniform(-9, 0)
    err = np.mean((a[0] - near) ** 2)
    close(stats.psnr(a[0], near, method="wiki"), 20 * np.log10(255) - 10 * np.log10(err), "psnr (wiki) of nearly equal images", rtol=1e-9)
    close(stats.psnr(a[0], near), 20 * np.log10(a.shape[1] * rng[0] / np.sqrt(err * near.size)), "psnr (starck) of nearly equal images", rtol=1e-9)
    close(stats.mse(a[0], near), err, "mse of nearly equal images", rtol=1e-10)
    return True


@PROP.sub("missing", fixed(a=array(shapes(2, 2, 2, 6)), bad=st.sampled_from(["nan", "inf", "-inf"]), at=st.integers(0, 35)), quick=150, shards=1, rule="every case")
def missing(c):
    """A missing value makes the statistic undefined: it is never silently left out."""
    a, b = np.array(c["a"]), np.array(c["a"]) + 1.0
    a.flat[c["at"] % a.size] = float(c["bad"])
    with np.errstate(all="ignore"):
        if c["bad"] == "nan":
            for name, v in (("mad", stats.mad(a)), ("sigma_mad", stats.sigma_mad(a)), ("psnr", stats.psnr(a, b)), ("mse", stats.mse(a, b)), ("psnr (wiki)", stats.psnr(a, b, method="wiki"))):
                need(np.isnan(v), lambda: f"{name} of data with a NaN is {v}")
        else:
            v = stats.mse(a, b)
            need(v == np.inf, lambda: f"mse of data with an infinite entry is {v}")
            if a.size > 4:
                vals = sorted(abs(x - median(list(a.ravel()))) for x in a.ravel())
                close(stats.sigma_mad(a), 1.4826 * median(vals), "sigma_mad of data with an infinite entry", rtol=1e-11)
    return True


@PROP.sub("kernel", fixed(h=st.integers(1, 12), w=st.integers(1, 12), sigma=st.one_of(st.sampled_from([1, 2, 0.5, 1.0]), st.integers(3, 60).map(lambda k: k / 10.0)), norm=st.sampled_from(["max", "sum", None])), quick=800, rule="more than one pixel in each direction")
def kernel(c):
    h, w, s = c["h"], c["w"], c["sigma"]
    k = stats.gaussian_kernel((h, w), s) if c["norm"] is None else stats.gaussian_kernel((h, w), s, norm=c["norm"])
    need(np.shape(k) == (h, w), lambda: f"gaussian_kernel shape {np.shape(k)}")
    y = np.arange(h)[:, None] - (h - 1) / 2
    x = np.arange(w)[None, :] - (w - 1) / 2
    g = np.exp(-(x**2 + y**2) / (2 * s**2))
    if c["norm"] == "sum":
        close(np.sum(k), 1.0, "sum of the kernel", rtol=1e-9)
        close(k, g / g.sum(), "gaussian_kernel (sum)", rtol=1e-8)
    else:
        need(np.max(k) == 1.0, "maximum of the kernel")
        close(k, g / g.max(), "gaussian_kernel (max)", rtol=1e-8)
    return h > 1 and w > 1


@PROP.sub("reject", fixed(m=st.sampled_from(["", "Starck", None, "psnr"]), n=st.sampled_from(["none", "mean", None]), nd=st.sampled_from([1, 2, 4])), quick=60, shards=1, rule="every case is an invalid call")
def reject(c):
    raises(ValueError, lambda: stats.psnr(np.ones((2, 2)), np.zeros((2, 2)), method=c["m"]), "psnr with an invalid method")
    raises(ValueError, lambda: stats.gaussian_kernel((3, 3), 1.0, norm=c["n"]), "gaussian_kernel with an invalid norm")
    a, b = np.ones((2,) * c["nd"]), np.ones((2, 2, 2))
    raises(ValueError, lambda: stats.psnr_stack(a, b), "psnr_stack of data1 that is not 3D")
    raises(ValueError, lambda: stats.psnr_stack(b, a), "psnr_stack of data2 that is not 3D")
    return True
