"""C20: image quality metrics agree with their formulas on normalised magnitudes."""
import math

import numpy as np
from hypothesis import strategies as st
from modopt.math import metrics as mt
from skimage.metrics import structural_similarity

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay
from harness.oracle import Frozen, close, need, raises

PROP = Prop(
    "C20",
    [
        "images are compared as magnitudes rescaled to [0, 1]; neither image is constant in magnitude",
        "a mask is a 0/1 array whose region contains the brightest pixel of both images (otherwise the two rescalings do not commute)",
    ],
)
DT = st.sampled_from(["float64", "float64", "complex128", "float32", "int64"])


@st.composite
def case(draw, lo=1, hi=8):
    nd = draw(st.sampled_from([1, 2, 2, 3])) if lo == 1 else 2
    if draw(st.integers(0, 11)) == 0:
        hi = 36 if nd < 3 else 12
    shape = tuple(draw(st.integers(lo, hi)) for _ in range(nd))
    if lo == 1 and draw(st.integers(0, 24)) == 0:
        shape = draw(st.sampled_from([(110, 95), (12000,), (3, 70, 60)]))
    return dict(
        test=draw(array(shape, dtype=draw(DT))), ref=draw(array(shape, dtype=draw(DT))), order=draw(layouts),
        mask=draw(st.one_of(st.none(), array(shape, dtype="int64", styles=("ints", "ties", "sparse")))),
        mtype=draw(st.sampled_from(["bool", "int64", "float64"])), a=draw(st.sampled_from([1.0, 2.0, 0.25, 7.5])) * draw(st.sampled_from([1.0, 1.0, 1e-12, 1e-5, 1e5, 1e12])), b=draw(st.sampled_from([0.0, 1.0, 3.0])),
    )


def norm(x):
    x = np.abs(x.astype(complex) if x.dtype.kind == "c" else x.astype(float))
    return (x - x.min()) / (x.max() - x.min())


def prepare(c):
    t, r = c["test"], c["ref"]
    for x in (t, r):
        m = np.abs(x).astype(float)
        if m.max() - m.min() < 1e-6 * max(m.max(), 1e-3):
            return None
    t, r = norm(t), norm(r)
    mask = None
    if c["mask"] is not None:
        mask = c["mask"] > 0
        mask |= (t == t.max()) | (r == r.max())
        mask = mask.astype(c["mtype"])
    return t, r, mask


def reference(name, t, r, mask):
    if mask is not None:
        t, r = t * mask, r * mask
    mse = float(np.mean((t - r) ** 2))
    if name == "mse":
        return mse
    if name == "nrmse":
        return math.sqrt(mse) / math.sqrt(float(np.mean(t**2)))
    if mse < 1e-12:
        return None
    if name == "snr":
        return 10 * math.log10(float(np.mean(t**2)) / mse)
    return 10 * math.log10(1.0 / mse)


@PROP.sub("formulas", case(), quick=2500, rule="both images non-constant and different; a quarter or more use a mask")
def formulas(c):
    p = prepare(c)
    if p is None:
        return False
    t, r, mask = p
    f32 = "float32" in (c["test"].dtype, c["ref"].dtype)
    tol = dict(rtol=2e-4, atol=2e-4) if f32 else dict(rtol=1e-8, atol=1e-8)
    test, ref = lay(c["test"], c["order"]), lay(c["ref"], c["order"])
    with Frozen("metric", test=test, ref=ref, mask=mask):
        for name in ("mse", "nrmse", "snr", "psnr"):
            exp = reference(name, t, r, mask)
            if exp is None:
                continue
            fn = getattr(mt, name)
            res = fn(test, ref) if mask is None else fn(test, ref, mask=mask)
            close(res, exp, f"{name} mask={mask is not None}", **tol)
            if mask is None:
                close(fn(test, ref, mask=np.ones(t.shape)), exp, f"{name} with a full mask", **tol)
                close(fn(test, ref, None), exp, f"{name} mask=None", **tol)
    return float(np.mean((t - r) ** 2)) > 1e-9


@PROP.sub("laws", case(), quick=1500, rule="both images non-constant and different")
def laws(c):
    p = prepare(dict(c, mask=None))
    if p is None or np.mean((p[0] - p[1]) ** 2) < 1e-9:
        return False
    test, ref = np.abs(c["test"]).astype(float), np.abs(c["ref"]).astype(float)
    for name in ("mse", "nrmse", "snr", "psnr"):
        fn = getattr(mt, name)
        base = fn(test, ref)
        close(fn(c["a"] * (test + c["b"]), ref), base, f"{name} is invariant to gain and offset of the test image", rtol=1e-6, atol=1e-6)
        close(fn(test, c["a"] * (ref + c["b"])), base, f"{name} is invariant to gain and offset of the reference", rtol=1e-6, atol=1e-6)
    close(mt.mse(ref, test), mt.mse(test, ref), "mse symmetry", rtol=1e-9)
    need(mt.mse(test, test) == 0 and mt.nrmse(test, test) == 0, "mse/nrmse of identical images is not zero")
    nm = mt.min_max_normalize(test)
    close(nm, norm(test), "min_max_normalize", rtol=1e-12)
    need(np.min(nm) == 0 and np.max(nm) == 1, "min_max_normalize range")
    return True


@PROP.sub("ssim", case(lo=7, hi=14), quick=500, rule="both images non-constant and different")
def ssim(c):
    p = prepare(c)
    if p is None:
        return False
    t, r, mask = p
    mean, full = structural_similarity(t, r, full=True, data_range=1.0)
    test, ref = lay(c["test"], c["order"]), lay(c["ref"], c["order"])
    tol = dict(rtol=2e-3, atol=2e-3) if "float32" in (c["test"].dtype, c["ref"].dtype) else dict(rtol=1e-7, atol=1e-7)
    with Frozen("ssim", test=test, ref=ref, mask=mask):
        if mask is None:
            close(mt.ssim(test, ref), mean, "ssim", **tol)
        else:
            close(mt.ssim(test, ref, mask=mask), float((full * mask).sum() / mask.sum()), "ssim with a mask", **tol)
            # the mask may weigh the pixels
            soft = mask * (0.25 + np.abs(np.sin(1.0 + np.arange(mask.size))).reshape(mask.shape))
            close(mt.ssim(test, ref, mask=soft), float((full * soft).sum() / soft.sum()), "ssim with a weighted mask", **tol)
            close(mt.ssim(test, ref, mask=soft / soft.sum() / 3), float((full * soft).sum() / soft.sum()), "ssim with weights of sum 1/3", **tol)
            close(mt.ssim(test, ref, mask=soft * 1e6), float((full * soft).sum() / soft.sum()), "ssim with large weights", **tol)
    close(mt.ssim(test, test), 1.0, "ssim(x, x)", rtol=1e-7)
    return not np.allclose(t, r)


@PROP.sub("reject", fixed(mask=st.sampled_from(["[[1, 0], [0, 1]]", "1", "'mask'", "(1, 2)"]), name=st.sampled_from(["mse", "nrmse", "snr", "psnr", "ssim"])), quick=60, shards=1, rule="every case is an invalid mask")
def reject(c):
    img = np.arange(81.0).reshape(9, 9)
    raises(ValueError, lambda: getattr(mt, c["name"])(img, img + np.eye(9), mask=eval(c["mask"])), f"{c['name']} with mask {c['mask']}")  # noqa: S307
    return True
