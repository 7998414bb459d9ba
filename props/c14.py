"""C14: the wavelet transform operator is linear, invertible and, where possible, unitary."""
import warnings

import numpy as np
import ptwt
import pywt
import torch
from hypothesis import strategies as st
from modopt.opt.linear import WaveletTransform
from modopt.opt.linear.wavelet import TorchWaveletTransform

from harness.core import Prop
from harness.gen import array, elem, fixed, lay, layouts
from harness.oracle import Frozen, close, equal, need, raises

PROP = Prop(
    "C14",
    [
        "discrete wavelets; the GPU transform itself needs cupy, which is not installed: its tensor part runs here on the CPU, its array part with a stand-in in C38",
        "PyWavelets is the oracle of the coefficients of a single image",
        "adjointness is asserted for orthogonal wavelets with periodization and sides divisible by 2^level",
    ],
)

ORTH = ["haar", "db1", "db2", "db3", "db4", "sym4", "sym5", "coif1"]
BIO = ["bior2.2", "bior1.3", "rbio2.2", "bior4.4"]
MODES = ["symmetric", "zero", "periodization", "periodic", "reflect", "constant", "smooth", "antisymmetric", "antireflect"]


@st.composite
def case(draw, batch=False):
    d = draw(st.sampled_from([1, 1, 2, 2, 3]))
    top = {1: 40, 2: 20, 3: 9}[d]
    shape = tuple(draw(st.lists(st.one_of(st.integers(2, top), st.integers(1, top)), min_size=d, max_size=d)))
    c = {
        "shape": shape, "wav": draw(st.sampled_from(ORTH + BIO)), "level": draw(st.sampled_from([None, 1, 1, 2, 3, 1, 2, 3, 5, 8])), "mode": draw(st.sampled_from([None] + MODES)),
        "int": draw(st.booleans()), "dt": draw(st.sampled_from(["float64", "float64", "float64", "complex128"])), "order": draw(layouts), "first": draw(st.sampled_from(["op", "adj"])), "s": draw(elem),
    }
    c["batch"] = draw(st.one_of(*[st.integers(2, 4)] * 5, *[st.integers(5, 20)] * 4, st.integers(21, 80))) if batch else 1
    if c["batch"] > 20:
        c["shape"] = shape = tuple(min(s, 4) for s in shape)
    full = (c["batch"], *shape) if batch else shape
    c["x"] = draw(array(full, dtype=c["dt"], scale=False))
    c["x2"] = draw(array(full, dtype=c["dt"], scale=False))
    c["jobs"] = draw(st.sampled_from([1, 1, 2, 3, -1, -2])) if batch else 1
    return c


def make(c):
    kw = {}
    if c["level"] is not None:
        kw["level"] = c["level"]
    if c["mode"] is not None:
        kw["mode"] = c["mode"]
    if c["batch"] > 1:
        kw.update(n_batch=c["batch"], n_jobs=c["jobs"])
    shape = c["shape"][0] if len(c["shape"]) == 1 and c["int"] else c["shape"]
    return WaveletTransform(c["wav"], shape, **kw), (c["level"] or 4), (c["mode"] or "symmetric")


def oracle(c, x, level, mode):
    if len(c["shape"]) > 1:
        co = pywt.wavedecn(x, c["wav"], mode=mode, level=level)
    else:
        co = pywt.wavedec(x, c["wav"], mode=mode, level=level)
    return pywt.ravel_coeffs(co)


def undefined(c):
    """PyWavelets itself defines no transform for this data (a side of 1 cannot be reflected)."""
    try:
        oracle(c, np.zeros(c["shape"]), c["level"] or 4, c["mode"] or "symmetric")
    except ValueError:
        return True
    return False


def body(c):
    if undefined(c):
        return False
    op, level, mode = make(c)
    x = lay(c["x"], c["order"])
    many = c["batch"] > 1
    imgs = list(c["x"]) if many else [c["x"]]
    refs = [oracle(c, i, level, mode)[0] for i in imgs]
    want = np.array(refs) if many else refs[0]
    tag = f"{c['wav']}, {mode}, level {level}, shape {c['shape']}, batch {c['batch']}"
    with Frozen("WaveletTransform", x=x):
        if c["first"] == "adj":
            back = op.adj_op(want)
            close(back, c["x"], f"adj_op of the coefficients, before any op ({tag})", rtol=1e-8, atol=1e-9)
        co = op.op(x)
        close(co, want, f"op ({tag})", rtol=1e-10, atol=1e-11)
        saved = np.array(co)
        back = op.adj_op(co)
        equal(co, saved, "coefficients given to adj_op")
        if c["dt"] == "float64" and (c["s"] > 0):
            whole = np.rint(8 * np.sin(1.0 + np.arange(saved.size))).reshape(saved.shape)
            close(op.adj_op(whole.astype(int)), np.asarray(op.adj_op(whole)), f"adj_op of integer coefficients ({tag})", rtol=1e-10, atol=1e-10)
    scale = float(np.max(np.abs(want))) if want.size else 1.0
    close(back, c["x"], f"adj_op(op(x)) ({tag})", rtol=1e-8, atol=1e-9, scale=max(scale, float(np.max(np.abs(c["x"])))))
    sizes = [int(np.prod(s)) for s in op.coeffs_shape]
    need(sum(sizes) == refs[0].size, lambda: f"coeffs_shape {op.coeffs_shape} holds {sum(sizes)} coefficients, op returns {refs[0].size} ({tag})")
    d = len(c["shape"])
    need(len(sizes) == 1 + level * (2**d - 1), lambda: f"{len(sizes)} sub-bands for level {level} in {d} dimensions")
    lin = op.op(c["s"] * c["x"] + c["x2"])
    close(lin, c["s"] * want + np.asarray(op.op(c["x2"])), f"linearity ({tag})", rtol=1e-9, atol=1e-9, scale=scale * (1 + abs(c["s"])) + 1)
    return bool(np.any(c["x"])) and float(np.ptp(c["x"].real)) > 0


@PROP.sub("single", case(), quick=2500, factor=25, shards=8, rule="non-constant data")
def single(c):
    return body(c)


@PROP.sub("batch", case(batch=True), quick=800, factor=25, shards=8, rule="non-constant data")
def batch(c):
    return body(c)


@st.composite
def orth_case(draw):
    d = draw(st.sampled_from([1, 2, 3]))
    level = draw(st.integers(1, 3 if d < 3 else 1))
    shape = tuple(draw(st.lists(st.integers(1, {1: 6, 2: 3, 3: 3}[d]), min_size=d, max_size=d)))
    shape = tuple(s * 2**level for s in shape)
    return {"wav": draw(st.sampled_from(ORTH)), "shape": shape, "level": level, "x": draw(array(shape, scale=False)), "y": draw(array((int(np.prod(shape)),), scale=False)), "int": False, "mode": "periodization", "batch": 1}


@PROP.sub("unitary", orth_case(), quick=1200, factor=25, shards=8, rule="non-constant data")
def unitary(c):
    op, _, _ = make(c)
    x, y = c["x"], c["y"]
    fx, ay = np.asarray(op.op(x)), np.asarray(op.adj_op(y))
    need(fx.shape == y.shape and ay.shape == x.shape, lambda: f"shapes {fx.shape}, {ay.shape}")
    sc = np.linalg.norm(x) * np.linalg.norm(y)
    need(abs(np.dot(fx, y) - np.sum(x * ay)) <= 1e-8 * sc + 1e-10, lambda: f"<op x, y> = {np.dot(fx, y)}, <x, adj_op y> = {np.sum(x * ay)} ({c['wav']}, {c['shape']})")
    need(abs(np.linalg.norm(fx) - np.linalg.norm(x)) <= 1e-8 * np.linalg.norm(x) + 1e-10, "the transform does not preserve the norm")
    close(op.op(ay), y, "op(adj_op(y))", rtol=1e-8, atol=1e-9)
    return float(np.ptp(x)) > 0


@PROP.sub("reuse", fixed(a=case(), n=st.integers(2, 4)), quick=300, factor=10, shards=4, rule="non-constant data")
def reuse(c):
    """One operator used repeatedly on different data gives the same answers as fresh ones."""
    a = c["a"]
    if undefined(a):
        return False
    op, level, mode = make(a)
    co = [np.array(op.op(k * a["x"] + a["x2"])) for k in range(c["n"])]
    for k in range(c["n"]):
        close(co[k], oracle(a, k * a["x"] + a["x2"], level, mode)[0], f"op, use {k}", rtol=1e-9, atol=1e-10)
    for k in reversed(range(c["n"])):
        close(op.adj_op(co[k]), k * a["x"] + a["x2"], f"adj_op, use {k}", rtol=1e-8, atol=1e-8)
    return bool(np.any(a["x"]))


@st.composite
def torch_case(draw):
    d = draw(st.sampled_from([2, 2, 3]))
    shape = tuple(draw(st.lists(st.integers(2, {2: 24, 3: 10}[d]), min_size=d, max_size=d)))
    b = draw(st.sampled_from([None, None, 1, 2, 3]))
    full = shape if b is None else (b, *shape)
    dt = draw(st.sampled_from(["float64", "complex128", "float32", "complex64"]))
    return {
        "shape": shape, "b": b, "wav": draw(st.sampled_from(ORTH + BIO)), "level": draw(st.sampled_from([1, 1, 2, 3])), "mode": draw(st.sampled_from(["zero", "symmetric", "periodic", "constant", "reflect"])),
        "x": draw(array(full, dtype=dt, scale=False)), "x2": draw(array(full, dtype=dt, scale=False)), "order": draw(st.sampled_from(["C", "F"])),
    }


@PROP.sub("torch", torch_case(), quick=1500, factor=20, shards=8, rule="non-constant data")
def torch_transform(c):
    """The tensor transform against PyWavelets, subband by subband, and its inverse."""
    shape, d = c["shape"], len(c["shape"])
    axes = tuple(range(-d, 0))
    keys = ("da", "ad", "dd") if d == 2 else TorchWaveletTransform.wavedec3_keys
    lone = c["b"] is None
    op = TorchWaveletTransform(shape, c["wav"], c["level"], c["mode"])
    tol = dict(rtol=1e-9, atol=1e-9) if c["x"].dtype in (np.float64, np.complex128) else dict(rtol=2e-4, atol=2e-4)
    last = None
    for x in (c["x"], c["x2"], c["x"]):
        xs = x[None] if lone else x
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                ref = pywt.wavedecn(xs, c["wav"], c["mode"], c["level"], axes=axes)
                ptwt.wavedec2(torch.as_tensor(xs.real.copy()), c["wav"], mode=c["mode"], level=c["level"], axes=(-2, -1)) if d == 2 else ptwt.wavedec3(torch.as_tensor(xs.real.copy()), c["wav"], mode=c["mode"], level=c["level"], axes=axes)
            except (RuntimeError, ValueError):
                return False  # the libraries define no such extension of so small an image
        bands = [ref[0]] + [lev[k] for lev in ref[1:] for k in keys]
        data = torch.as_tensor(np.array(x, order=c["order"]))
        keep = data.clone()
        got = op.op(data)
        need(torch.equal(keep, data), "TorchWaveletTransform.op changed its argument")
        need(isinstance(got, list) and len(got) == len(bands), lambda: f"TorchWaveletTransform.op: {len(got)} subbands, expected {len(bands)}")
        for i, (g, r) in enumerate(zip(got, bands)):
            need(tuple(g.shape) == r.shape, lambda: f"subband {i}: shape {tuple(g.shape)}, expected {r.shape}")
            need(g.dtype == data.dtype, lambda: f"subband {i}: type {g.dtype}, data {data.dtype}")
            close(g.numpy(), r, f"TorchWaveletTransform.op, subband {i}", scale=float(np.max(np.abs(xs))) * 4, **tol)
        parts = [g.clone() for g in got]
        back = op.adj_op(got)
        need(all(torch.equal(a, b) for a, b in zip(parts, got)) and len(got) == len(parts), "TorchWaveletTransform.adj_op changed its argument")
        need(tuple(back.shape)[-d:] == shape and back.numel() == xs.size, lambda: f"TorchWaveletTransform.adj_op: shape {tuple(back.shape)}, data {xs.shape}")
        close(back.numpy().reshape(xs.shape), xs, "TorchWaveletTransform.adj_op(op(x))", scale=float(np.max(np.abs(xs))) * 4, **tol)
        if last is not None:
            close(op.adj_op([a - 2 * b for a, b in zip(got, last[1])]).numpy().reshape(xs.shape), xs - 2 * last[0], "TorchWaveletTransform.adj_op of a combination", scale=float(np.max(np.abs(xs)) + np.max(np.abs(last[0]))) * 8, **tol)
        last = (xs, got)
    return bool(np.ptp(c["x"].real) > 0)


@PROP.sub("reject", fixed(name=st.sampled_from(["", "Haar2", "db99", "wavelet"]), be=st.sampled_from(["tensorflow", "gpu", "cupy"])), quick=40, shards=1, rule="every case is invalid")
def reject(c):
    raises(ValueError, lambda: WaveletTransform(c["name"], (8, 8)), f"wavelet {c['name']!r}")
    raises(NotImplementedError, lambda: WaveletTransform("haar", (8, 8), level=1, decimated=False), "undecimated transform")
    raises(ValueError, lambda: WaveletTransform("haar", (8, 8), level=1, compute_backend=c["be"]), f"backend {c['be']}")
    return True
