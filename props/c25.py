"""C25: elementwise signal functions (thresh, positive, filters) follow their formulas."""
import math

import numpy as np
from hypothesis import strategies as st
from modopt.signal import filter as flt
from modopt.signal.noise import thresh
from modopt.signal.positivity import positive

from harness.core import Prop
from harness.gen import array, elem, fixed, layouts, lay, nonneg_elem, pos_elem, shapes
from harness.oracle import Frozen, close, equal, need, raises, soft

PROP = Prop("C25", ["finite data and non-negative thresholds", "soft thresholding is exact to 1e-14 (the code rounds to 15 decimals)"])
DT = st.sampled_from(["float64", "float64", "float64", "complex128", "int64", "float32"])


@st.composite
def thr_case(draw):
    shape = draw(shapes(0, 3, 1, 6, big=[(80,), (20, 7), (1300,), (3, 20, 21)]))
    x = draw(array(shape, dtype=draw(DT)))
    kind = draw(st.sampled_from(["scalar", "array", "equal", "int", "bcast", "npscalar", "inf"]))
    if kind == "inf":
        t = draw(st.sampled_from([np.inf, 1e300]))
    elif kind == "scalar":
        t = draw(nonneg_elem)
    elif kind == "int":
        t = draw(st.integers(0, 4))
    elif kind == "npscalar":
        t = np.float64(draw(nonneg_elem))
    elif kind == "equal" and x.size:
        t = float(np.abs(np.ravel(x)[draw(st.integers(0, x.size - 1))]))
    elif kind == "bcast" and x.ndim > 1:
        t = np.abs(draw(array(x.shape[1:])))
    else:
        t = np.abs(draw(array(x.shape)))
    return dict(x=x, t=t, order=draw(layouts), aslist=draw(st.booleans()))


def eps_of(x):
    return 2e-6 if x.dtype == np.float32 else 1e-13


@PROP.sub("thresh", thr_case(), quick=4000, rule="some entries survive and some do not")
def thr(c):
    x = lay(c["x"], c["order"])
    t = lay(c["t"], c["order"]) if isinstance(c["t"], np.ndarray) else c["t"]
    arg = x.tolist() if c["aslist"] else x
    v = c["x"]
    mag = np.abs(v)
    with Frozen("thresh", x=x, t=t):
        h, h2, s = thresh(arg, t), thresh(arg, t, threshold_type="hard"), thresh(arg, t, threshold_type="soft")
        hp = thresh(arg, t, "hard")
    near = mag == c["t"]
    keep = mag >= c["t"]
    if v.dtype.kind == "c" or v.dtype == np.float32:
        amb = np.abs(mag - c["t"]) <= 1e-6 * (np.abs(c["t"]) + 1e-9)
    else:
        amb = np.zeros(v.shape, bool)
    exp = np.where(keep, v, 0)
    equal(np.where(amb, 0, h), np.where(amb, 0, exp), "hard threshold keeps exactly the entries with |x| >= t")
    equal(h2, h, "thresh(..., threshold_type='hard') is the default")
    equal(hp, h, "thresh(..., 'hard')")
    close(s, soft(v, c["t"]), "soft threshold", rtol=eps_of(v), atol=2e-14, scale=float(np.max(mag, initial=0)))
    sm = np.abs(s)
    need(np.all(sm <= mag * (1 + 1e-6) + 1e-14), "soft threshold increased a magnitude")
    need(np.all(sm[np.broadcast_to(mag <= c["t"], sm.shape)] <= 1e-6 * (1 + 0 * sm[np.broadcast_to(mag <= c["t"], sm.shape)])), "soft threshold did not annihilate an entry below the threshold")
    if not np.any(amb):
        equal(thresh(h, t, "hard"), h, "hard threshold is idempotent")
    del near
    return bool(np.any(keep & (mag > 0))) and bool(np.any(~keep))


@st.composite
def nonexp_case(draw):
    shape = draw(shapes(1, 2, 1, 8))
    return dict(x=draw(array(shape)), y=draw(array(shape)), t=draw(nonneg_elem))


@PROP.sub("soft_laws", nonexp_case(), quick=1500, rule="two different points")
def soft_laws(c):
    x, y, t = c["x"], c["y"], c["t"]
    sx, sy = thresh(x, t, "soft"), thresh(y, t, "soft")
    d, e = sx - sy, x - y
    s = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-9)
    need(np.sum(d * d) <= np.sum(d * e) + 1e-10 * s * s * x.size + 4e-15 * np.sum(np.abs(d) + np.abs(e)), "soft threshold is not firmly non-expansive")
    close(thresh(-x, t, "soft"), -sx, "soft threshold is odd", rtol=1e-12, atol=1e-14)
    close(thresh(thresh(x, t, "soft"), 0.7, "soft"), thresh(x, t + 0.7, "soft"), "soft thresholds add up", rtol=1e-10, atol=1e-13, scale=s)
    return not np.array_equal(x, y)


@PROP.sub("thresh_reject", fixed(k=st.sampled_from(["Hard", "none", "", None, "softt"])), quick=20, shards=1, rule="every case")
def thr_reject(c):
    raises(ValueError, lambda: thresh(np.ones(3), 1.0, threshold_type=c["k"]), "thresh with an invalid type")
    return True


ragged = st.recursive(
    st.lists(st.integers(-9000, 9000).map(lambda i: i / 1000.0), min_size=1, max_size=4),
    lambda inner: st.lists(inner, min_size=1, max_size=3), max_leaves=6,
)


@PROP.sub("positive", DT.filter(lambda d: d != "complex128").flatmap(lambda d: fixed(x=array(shapes(0, 3, 1, 6, big=[(1300,), (40, 7), (70,)]), dtype=d), order=layouts, form=st.sampled_from(["array", "list", "tuple"]), sc=elem, si=st.integers(-9, 9))), quick=2000, rule="entries of both signs")
def pos(c):
    x = lay(c["x"], c["order"])
    arg = {"array": lambda: x, "list": x.tolist, "tuple": lambda: tuple(x.tolist()) if x.ndim else x}[c["form"]]()
    with Frozen("positive", x=x):
        res = positive(arg)
    equal(res, np.where(c["x"] > 0, c["x"], 0), "positive")
    if isinstance(arg, np.ndarray):
        need(np.asarray(res).dtype == x.dtype, lambda: f"positive changed the dtype to {np.asarray(res).dtype}")
        need(not np.shares_memory(res, x), "positive returned a view of its input")
    equal(positive(np.asarray(res)), res, "positive is idempotent")
    if x.dtype.kind == "f":
        for k in (-1060, -100, 100) if x.dtype == np.float64 else (-100, 60):
            tiny = np.ldexp(c["x"], k).astype(x.dtype)
            equal(positive(tiny), np.where(tiny > 0, tiny, 0), "positive of tiny or huge values")
    need(positive(c["sc"]) == max(c["sc"], 0.0), lambda: f"positive({c['sc']}) = {positive(c['sc'])}")
    need(positive(c["si"]) == max(c["si"], 0), lambda: f"positive({c['si']}) = {positive(c['si'])}")
    return bool(np.any(c["x"] > 0) and np.any(c["x"] < 0))


def as_obj(parts):
    out = np.empty(len(parts), dtype=object)
    for i, p in enumerate(parts):
        out[i] = p
    return out


@PROP.sub(
    "positive_ragged",
    fixed(parts=st.lists(st.integers(1, 4).flatmap(lambda n: array((n,))), min_size=2, max_size=4), nest=st.booleans(), form=st.sampled_from(["object", "list"])),
    quick=800, rule="parts of different lengths",
)
def pos_ragged(c):
    parts = [np.array(p) for p in c["parts"]]
    if len({p.shape for p in parts}) < 2:
        parts.append(np.ones(9))
    if c["form"] == "object":
        arg = as_obj([as_obj([parts[0], parts[-1]]), *parts] if c["nest"] else parts)
        res = positive(arg)
        if c["nest"]:
            for r, p in zip(res[0], (parts[0], parts[-1])):
                equal(np.array(r, dtype=float), np.maximum(p, 0), "positive of a nested ragged array")
            res = res[1:]
    else:
        res = positive(parts, ragged=True)
    need(len(res) == len(parts), "positive changed the number of ragged parts")
    for r, p in zip(res, parts):
        equal(np.array(r, dtype=float), np.maximum(p, 0), "positive of a ragged array")
    for p, q in zip(parts, c["parts"]):
        equal(p, q, "positive modified its ragged input")
    # a part with values that are not finite, and an empty part: the other values follow the rule
    bad = [float("nan"), float("inf")]
    mixed = [np.array([v for j in range(len(p)) for v in ([bad[i % 2]] if j == len(p) // 2 else []) + [p[j]]]) for i, p in enumerate(parts)]
    mixed.insert(len(parts) // 2, np.zeros(0))
    with np.errstate(all="ignore"):
        res = positive(as_obj(mixed)) if c["form"] == "object" else positive(mixed, ragged=True)
    for r, p in zip(res, mixed):
        r, ok = np.array(r, dtype=float), np.isfinite(p)
        need(r.shape == p.shape, lambda: f"positive of a part of shape {p.shape} has shape {r.shape}")  # noqa: B023
        equal(r[ok], np.maximum(p[ok], 0), "positive of a ragged array with values that are not finite")
    return True


@PROP.sub("positive_reject", fixed(v=st.sampled_from(["'a'", "None", "{1: 2}", "{1}", "1j", "print"])), quick=20, shards=1, rule="every case")
def pos_reject(c):
    raises(TypeError, lambda: positive(eval(c["v"])), f"positive({c['v']})")  # noqa: S307
    return True


@PROP.sub("filters", fixed(x=st.one_of(elem, array(shapes(1, 2, 1, 8)), st.integers(-5, 5)), y=elem, sigma=st.one_of(pos_elem.filter(lambda s: s >= 0.1), st.integers(1, 5)), norm=st.sampled_from([True, False, None]), form=st.sampled_from(["same", "list"])), quick=2000, rule="a non-zero point")
def filters(c):
    s = c["sigma"]
    x = c["x"]
    arg = x.tolist() if isinstance(x, np.ndarray) and c["form"] == "list" else x
    xv = np.asarray(x, dtype=float)
    g = np.exp(-0.5 * (xv / s) ** 2)
    full = g / (math.sqrt(2 * math.pi) * s)
    with Frozen("filters", x=arg):
        res = flt.gaussian_filter(arg, s) if c["norm"] is None else flt.gaussian_filter(arg, s, norm=c["norm"])
        mh = flt.mex_hat(arg, s)
        md = flt.mex_hat_dir(c["y"], arg, s)
        if c["form"] == "list" and isinstance(arg, list):
            sl = (np.full(xv.shape, float(s)) * (1 + np.arange(xv.size).reshape(xv.shape))).tolist()
            sa = np.array(sl)
            gv = np.exp(-0.5 * (xv / sa) ** 2)
            ml = 2.0 / (np.sqrt(3 * sa) * math.pi**0.25) * (1 - (xv / sa) ** 2) * gv
            close(flt.gaussian_filter(arg, sl), gv / (math.sqrt(2 * math.pi) * sa), "gaussian_filter of lists", rtol=1e-11, atol=1e-300)
            close(flt.gaussian_filter(arg, sl, norm=False), gv, "gaussian_filter of lists, not normalised", rtol=1e-11, atol=1e-300)
            close(flt.mex_hat(arg, sl), ml, "mex_hat of lists", rtol=1e-11, atol=1e-300)
            close(flt.mex_hat_dir(arg, arg, sl), -0.5 * (xv / sa) ** 2 * ml, "mex_hat_dir of lists", rtol=1e-11, atol=1e-300)
    close(res, g if c["norm"] is False else full, f"gaussian_filter norm={c['norm']}", rtol=1e-11, atol=1e-300)
    u = (xv / s) ** 2
    mex = 2.0 / (math.sqrt(3 * s) * math.pi**0.25) * (1 - u) * np.exp(-0.5 * u)
    close(mh, mex, "mex_hat", rtol=1e-11, atol=1e-300)
    close(md, -0.5 * (c["y"] / s) ** 2 * mex, "mex_hat_dir", rtol=1e-11, atol=1e-300)
    return bool(np.any(xv != 0))


@PROP.sub("filter_laws", fixed(sigma=pos_elem.filter(lambda s: s >= 0.05)), quick=200, rule="every case")
def filter_laws(c):
    s = c["sigma"]
    x = np.linspace(-12 * s, 12 * s, 4001)
    dx = x[1] - x[0]
    close(np.sum(flt.gaussian_filter(x, s)) * dx, 1.0, "integral of the normalised Gaussian filter", rtol=1e-8)
    close(np.sum(flt.mex_hat(x, s)) * dx, 0.0, "integral of the Mexican hat", atol=1e-8 * max(1.0, math.sqrt(s)))
    close(np.sum(flt.mex_hat(x, s) ** 2) * dx, 1.0, "energy of the Mexican hat", rtol=1e-6)
    equal(flt.gaussian_filter(-x, s), flt.gaussian_filter(x, s), "gaussian_filter is even")
    return True
