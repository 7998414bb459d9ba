"""C16: FFT convolutions agree with direct summation."""
import numpy as np
from hypothesis import strategies as st
from modopt.math.convolve import convolve, convolve_stack
from modopt.signal.wavelet import filter_convolve, filter_convolve_stack

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay, seeds
from harness.oracle import Frozen, close, need, raises

PROP = Prop(
    "C16",
    [
        "scipy method: linear convolution cropped to the centre of the data ",
        "astropy method: circular convolution on the data grid for odd-sized kernels not larger than the data",
    ],
)


def full_conv(data, ker):
    """Full linear convolution by direct summation over the kernel."""
    shape = tuple(d + k - 1 for d, k in zip(data.shape, ker.shape))
    out = np.zeros(shape, dtype=np.result_type(data.dtype, ker.dtype, float))
    for idx in np.ndindex(*ker.shape):
        sl = tuple(slice(i, i + d) for i, d in zip(idx, data.shape))
        out[sl] += ker[idx] * data
    return out


def same_conv(data, ker):
    full = full_conv(data, ker)
    start = [(f - d) // 2 for f, d in zip(full.shape, data.shape)]
    return full[tuple(slice(s, s + d) for s, d in zip(start, data.shape))]


def wrap_conv(data, ker):
    """Circular convolution with the kernel centred at (k - 1) / 2 (odd kernels)."""
    out = np.zeros(data.shape, dtype=np.result_type(data.dtype, ker.dtype, float))
    for idx in np.ndindex(*ker.shape):
        shift = tuple(i - (k - 1) // 2 for i, k in zip(idx, ker.shape))
        out += ker[idx] * np.roll(data, shift, axis=tuple(range(data.ndim)))
    return out


def ref(data, ker, method):
    return (same_conv if method == "scipy" else wrap_conv)(data, ker)


def tol(data, ker):
    return 1e-11 * (1e-3 + float(np.max(np.abs(data), initial=0)) * float(np.sum(np.abs(ker))))


def odd(draw, hi):
    v = draw(st.integers(1, hi))
    return v if v % 2 else max(1, v - 1)


DT = st.sampled_from(["float64", "float64", "float64", "int64"])


@st.composite
def case(draw, ndims=(1, 2, 2, 2, 3)):
    method = draw(st.sampled_from(["scipy", "scipy", "astropy", "default"]))
    nd = draw(st.sampled_from(ndims))
    big = draw(st.integers(0, 11)) == 0
    side = st.integers(9, 40 if nd < 3 else 12) if big else st.integers(1, 9 if nd < 3 else 6)
    shape = tuple(draw(side) for _ in range(nd))
    ks = tuple(odd(draw, s) if method == "astropy" else draw(st.integers(1, s + 3)) for s in shape)
    dt = draw(DT)
    if method != "astropy" and draw(st.integers(0, 5)) == 0:
        dt = "complex128"
    return dict(
        method=method, data=draw(array(shape, dtype=dt)), ker=draw(array(ks, dtype=dt)), order=draw(layouts)
    )


def call(f, *a, method, **k):
    return f(*a, **k) if method == "default" else f(*a, method=method, **k)


@PROP.sub("convolve", case(), quick=2500, rule="kernel with at least two taps, not symmetric under rotation, on non-constant data")
def conv(c):
    m = "scipy" if c["method"] == "default" else c["method"]
    data, ker = lay(c["data"], c["order"]), lay(c["ker"], c["order"])
    with Frozen("convolve", data=data, ker=ker):
        res = call(convolve, data, ker, method=c["method"])
    exp = ref(c["data"] * 1.0, c["ker"] * 1.0, m)
    close(res, exp, f"convolve ({m})", rtol=1e-9, atol=tol(data, ker))
    return ker.size > 1 and not np.array_equal(ker, ker[(slice(None, None, -1),) * ker.ndim]) and np.unique(data).size > 1


@st.composite
def even_case(draw):
    shape = tuple(draw(st.integers(2, 9)) for _ in range(2))
    ks = tuple(draw(st.integers(1, s)) for s in shape)
    return dict(data=draw(array(shape)), ker=draw(array(ks)))


@PROP.sub("astropy_circular", even_case(), quick=600, rule="a kernel side is even")
def circular(c):
    """Whatever the anchor of an even kernel, the result is one circular shift of the circular convolution."""
    data, ker = c["data"], c["ker"]
    res = convolve(data, ker, method="astropy")
    base = wrap_conv(data, ker)
    need(np.shape(res) == base.shape, f"shape {np.shape(res)}")
    t = tol(data, ker) + 1e-9 * np.max(np.abs(base))
    ok = any(
        np.max(np.abs(np.roll(base, (i, j), axis=(0, 1)) - res)) <= t for i in (0, -1, 1) for j in (0, -1, 1)
    )
    need(ok, lambda: f"convolve (astropy) is not a circular convolution: {res} vs {base}")
    return any(k % 2 == 0 for k in ker.shape)


@PROP.sub("astropy_nan", fixed(data=array((5, 6)), ker=array((3, 3)), bad=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 5)), min_size=1, max_size=4)), quick=200, rule="every case has missing pixels")
def nan_fill(c):
    data, zero = c["data"].copy(), c["data"].copy()
    for idx in c["bad"]:
        data[idx], zero[idx] = np.nan, 0.0
    with Frozen("convolve", data=data, ker=c["ker"]):
        res = convolve(data, c["ker"], method="astropy")
    close(res, wrap_conv(zero, c["ker"]), "astropy convolution with missing pixels (filled with zero)", rtol=1e-9, atol=tol(zero, c["ker"]))
    return True


@st.composite
def stack_case(draw):
    method = draw(st.sampled_from(["scipy", "astropy", "default"]))
    few = draw(st.sampled_from([4] * 7 + [12]))
    n, nf = draw(st.integers(1, few)), draw(st.integers(1, few))
    shape = tuple(draw(st.integers(1, 8)) for _ in range(2))
    ks = None
    if draw(st.integers(0, 11)) == 0:
        shape = tuple(s + 15 for s in shape)
        if draw(st.booleans()):  # a large kernel, square or not
            k = [2 * draw(st.integers(4, (s - 1) // 2)) + 1 for s in shape]
            ks = tuple(k) if draw(st.booleans()) else (min(k),) * 2
    ks = ks or tuple(odd(draw, s) if method == "astropy" else draw(st.integers(1, s)) for s in shape)
    dt = draw(DT)
    return dict(
        method=method, data=draw(array((n, *shape), dtype=dt)), ker=draw(array((n, *ks), dtype=dt)), filt=draw(array((nf, *ks), dtype=dt)),
        coef=draw(array((n, nf, *shape), dtype=dt)), rot=draw(st.booleans()), order=draw(layouts),
    )


@PROP.sub("convolve_stack", stack_case(), quick=1200, rule="more than one image with different kernels")
def stack(c):
    m = "scipy" if c["method"] == "default" else c["method"]
    data, ker = lay(c["data"], c["order"]), lay(c["ker"], c["order"])
    with Frozen("convolve_stack", data=data, ker=ker):
        res = call(convolve_stack, data, ker, method=c["method"], rot_kernel=c["rot"])
    exp = np.array([ref(d, k[::-1, ::-1] if c["rot"] else k, m) for d, k in zip(c["data"], c["ker"])])
    close(res, exp, f"convolve_stack rot={c['rot']} ({m})", rtol=1e-9, atol=tol(data, ker))
    if not c["rot"]:
        close(call(convolve_stack, data, ker, method=c["method"]), exp, "convolve_stack default rot", rtol=1e-9, atol=tol(data, ker))
    return len(data) > 1 and ker[0].size > 1


@PROP.sub("filter_convolve", stack_case(), quick=1200, rule="more than one filter with more than one tap")
def filt(c):
    m = "scipy" if c["method"] == "default" else c["method"]
    f = lay(c["filt"], c["order"])
    data, coef = lay(c["data"], c["order"]), lay(c["coef"], c["order"])
    t = tol(c["data"], c["filt"]), len(f) * tol(c["coef"], c["filt"])
    exp = np.array([[ref(d, k, m) for k in c["filt"]] for d in c["data"]])
    rexp = np.array([sum(ref(cf, k[::-1, ::-1], m) for cf, k in zip(co, c["filt"])) for co in c["coef"]])
    with Frozen("filter_convolve", f=f, data=data, coef=coef):
        close(call(filter_convolve, data[0], f, method=c["method"]), exp[0], "filter_convolve", rtol=1e-9, atol=t[0])
        close(call(filter_convolve, coef[0], f, method=c["method"], filter_rot=True), rexp[0], "filter_convolve filter_rot", rtol=1e-9, atol=t[1])
        close(call(filter_convolve_stack, data, f, method=c["method"]), exp, "filter_convolve_stack", rtol=1e-9, atol=t[0])
        close(call(filter_convolve_stack, coef, f, method=c["method"], filter_rot=True), rexp, "filter_convolve_stack filter_rot", rtol=1e-9, atol=t[1])
    return len(f) > 1 and f[0].size > 1


@PROP.sub("bank", fixed(n=st.integers(1, 3), nf=st.integers(1, 4), h=st.integers(1, 8), w=st.integers(1, 8), kh=st.integers(1, 11), kw=st.integers(1, 11), method=st.sampled_from(["scipy", "astropy"]), seed=seeds), quick=800, rule="more than one filter with more than one tap")
def bank(c):
    """Banks of filters of any size (also larger than the image, where conventions differ) against one convolution at a time."""
    rs, m = np.random.RandomState(c["seed"]), c["method"]
    data, f = rs.standard_normal((c["n"], c["h"], c["w"])), rs.standard_normal((c["nf"], c["kh"], c["kw"]))
    coef = rs.standard_normal((c["n"], c["nf"], c["h"], c["w"]))
    one = lambda a, k: np.asarray(convolve(a, k, method=m))
    t = 1e-11 * (1 + c["kh"] * c["kw"])
    fwd = np.array([[one(d, k) for k in f] for d in data])
    bwd = np.array([sum(one(a, k[::-1, ::-1]) for a, k in zip(co, f)) for co in coef])
    close(filter_convolve_stack(data, f, method=m), fwd, f"filter_convolve_stack ({m}) against single convolutions", rtol=1e-9, atol=t)
    close(filter_convolve_stack(coef, f, filter_rot=True, method=m), bwd, f"filter_convolve_stack rotated ({m}) against single convolutions", rtol=1e-9, atol=t)
    close(filter_convolve(data[0], f, method=m), fwd[0], f"filter_convolve ({m}) against single convolutions", rtol=1e-9, atol=t)
    close(filter_convolve(coef[0], f, filter_rot=True, method=m), bwd[0], f"filter_convolve rotated ({m}) against single convolutions", rtol=1e-9, atol=t)
    if c["n"] == c["nf"]:
        for rot in (False, True):
            exp = np.array([one(d, k[::-1, ::-1] if rot else k) for d, k in zip(data, f)])
            close(convolve_stack(data, f, rot_kernel=rot, method=m), exp, f"convolve_stack rot={rot} ({m}) against single convolutions", rtol=1e-9, atol=t)
    return c["nf"] > 1 and f[0].size > 1


@st.composite
def ragged_case(draw):
    method = draw(st.sampled_from(["scipy", "astropy", "default"]))
    n, nf = draw(st.integers(1, 3)), draw(st.integers(1, 5))
    shape = tuple(draw(st.integers(3, 8)) for _ in range(2))
    side = lambda s: odd(draw, s) if method == "astropy" else draw(st.integers(1, s))
    filt = [draw(array((side(shape[0]), side(shape[1])))) for _ in range(nf)]
    return dict(method=method, filt=filt, data=draw(array((n, *shape))), coef=draw(array((n, nf, *shape))), form=draw(st.sampled_from(["list", "object"])))


@PROP.sub("ragged_filters", ragged_case(), quick=400, rule="filters of at least two sizes")
def ragged(c):
    """Filters of different sizes (what trimming the filters of mr_transform gives)."""
    m = "scipy" if c["method"] == "default" else c["method"]
    f, data, coef = [np.array(k) for k in c["filt"]], c["data"], c["coef"]
    if c["form"] == "object":
        obj = np.empty(len(f), dtype=object)
        for i, k in enumerate(f):
            obj[i] = k
        f = obj
    t = max(tol(data, k) for k in c["filt"]), sum(tol(coef, k) for k in c["filt"])
    exp = np.array([[ref(d, k, m) for k in c["filt"]] for d in data])
    rexp = np.array([sum(ref(cf, k[::-1, ::-1], m) for cf, k in zip(co, c["filt"])) for co in coef])
    with Frozen("filter_convolve", data=data, coef=coef):
        close(call(filter_convolve_stack, data, f, method=c["method"]), exp, "filters of different sizes", rtol=1e-9, atol=t[0])
        close(call(filter_convolve_stack, coef, f, method=c["method"], filter_rot=True), rexp, "rotated filters of different sizes", rtol=1e-9, atol=t[1])
    for k, keep in zip(f, c["filt"]):
        need(np.array_equal(k, keep), "filter_convolve modified a filter")
    return len({k.shape for k in c["filt"]}) > 1


@PROP.sub("reject", fixed(d=st.integers(1, 3), k=st.integers(1, 3), method=st.sampled_from(["fft", "numpy", "", "Scipy", None])), quick=100, shards=1, rule="every case is an invalid call")
def reject(c):
    if c["d"] != c["k"]:
        raises(ValueError, lambda: convolve(np.ones((3,) * c["d"]), np.ones((3,) * c["k"])), "convolve of arrays with different ndim")
    raises(ValueError, lambda: convolve(np.ones((3,) * c["d"]), np.ones((3,) * c["d"]), method=c["method"]), "convolve with an invalid method")
    return True
