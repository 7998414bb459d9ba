"""Generators shared by the property modules."""
import numpy as np
from hypothesis import strategies as st

_SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 10.0, 0.1, -0.1, 1e-3]

elem = st.one_of(
    st.sampled_from(_SPECIAL),
    st.integers(-4, 4).map(float),
    st.integers(-10000, 10000).map(lambda i: i / 1000.0),
)
pos_elem = st.one_of(
    st.sampled_from([1.0, 0.5, 2.0, 0.1, 3.0, 10.0, 0.25]),
    st.integers(1, 10000).map(lambda i: i / 1000.0),
)
nonneg_elem = st.one_of(st.just(0.0), pos_elem)
seeds = st.integers(0, 2**32 - 1)

STYLES = ("normal", "ints", "sparse", "ties", "const", "wide", "smooth", "nonneg", "tinyfrac")


def expand(seed, shape, style, dtype=float):
    """Deterministic expansion of a drawn seed into an array of a given flavour."""
    rs = np.random.RandomState(seed)
    shape = tuple(shape)
    if style == "normal":
        a = rs.standard_normal(shape) * 2
    elif style == "ints":
        a = rs.randint(-6, 7, shape).astype(float)
    elif style == "sparse":
        a = rs.standard_normal(shape) * 3 * (rs.random_sample(shape) < 0.3)
    elif style == "ties":
        a = rs.choice([-2.0, -1.0, 0.0, 1.0, 2.0, 0.5], size=shape)
    elif style == "const":
        a = np.full(shape, float(rs.choice([0.0, 1.0, -1.0, 2.5])))
    elif style == "wide":
        a = rs.standard_normal(shape) * 10.0 ** rs.randint(-3, 4, shape)
    elif style == "smooth":
        a = np.cumsum(rs.standard_normal(shape), axis=-1) if len(shape) else rs.standard_normal()
    elif style == "nonneg":
        a = rs.random_sample(shape) * 5
    elif style == "tinyfrac":
        a = rs.randint(-1000, 1001, shape) / 1000.0
    else:
        raise ValueError(style)
    a = np.asarray(a, dtype=float)
    dtype = np.dtype(dtype)
    if dtype.kind == "c":
        b = np.asarray(expand(seed ^ 0x5BD1E995, shape, style, float))
        return (a + 1j * b).astype(dtype)
    if dtype.kind == "u":
        return np.abs(np.rint(a)).astype(dtype)
    if dtype.kind == "i":
        return np.rint(a).astype(dtype)
    if dtype.kind == "b":
        return a > 0
    return a.astype(dtype)


@st.composite
def array(draw, shape, dtype=float, styles=STYLES, elements=elem, max_elem=20, scale=True):
    """An array of the given shape: element by element when small, else seeded."""
    if not isinstance(shape, tuple):
        shape = draw(shape)
    size = int(np.prod(shape)) if len(shape) else 1
    dt = np.dtype(dtype)
    if size <= max_elem and draw(st.booleans()):
        vals = draw(st.lists(elements, min_size=size, max_size=size))
        a = np.array(vals, dtype=float).reshape(shape)
        if dt.kind == "c":
            im = draw(st.lists(elements, min_size=size, max_size=size))
            a = (a + 1j * np.array(im, dtype=float).reshape(shape)).astype(dt)
        elif dt.kind in "iu":
            a = np.rint(np.abs(a) if dt.kind == "u" else a).astype(dt)
        else:
            a = a.astype(dt)
        return a
    style = draw(st.sampled_from(styles))
    a = expand(draw(seeds), shape, style, dt)
    if scale and dt.kind in "fc":
        a = (a * draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-2, 100.0, 1e-6, 1e6]))).astype(dt)
    return a


def shapes(min_dims=1, max_dims=3, min_side=1, max_side=8, big=None):
    base = st.integers(min_dims, max_dims).flatmap(
        lambda d: st.tuples(*[st.integers(min_side, max_side)] * d)
    )
    if big:
        return st.one_of(base, base, base, st.sampled_from(big))
    return base


LAYOUTS = ("C", "C", "F", "strided", "neg", "T", "ro", "wide", "off")
layouts = st.sampled_from(LAYOUTS)


def lay(a, kind):
    """The same values in another memory layout."""
    a = np.asarray(a)
    if kind == "C" or a.ndim == 0:
        return np.array(a, order="C", copy=True)
    if kind == "F":
        return np.array(a, order="F", copy=True)
    if kind == "strided":
        big = np.zeros((*a.shape[:-1], a.shape[-1] * 2), dtype=a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if kind == "neg":
        return np.array(a[..., ::-1], copy=True)[..., ::-1]
    if kind == "ro":
        out = np.array(a, order="C", copy=True)
        out.setflags(write=False)
        return out
    if kind == "wide":  # rows of a larger array: contiguous along the last axis only
        big = np.full((*a.shape[:-1], a.shape[-1] + 3), 1, dtype=a.dtype)
        big[..., 1:-2] = a
        return big[..., 1:-2]
    if kind == "off":  # every other slice along the first axis, backwards
        big = np.full((a.shape[0] * 2, *a.shape[1:]), 1, dtype=a.dtype)
        big[::-2] = a
        return big[::-2]
    if kind == "T":
        return np.array(a.T, order="C", copy=True).T
    raise ValueError(kind)


def fixed(**kw):
    """st.fixed_dictionaries shorthand."""
    return st.fixed_dictionaries(
        {k: (v if isinstance(v, st.SearchStrategy) else st.just(v)) for k, v in kw.items()}
    )
