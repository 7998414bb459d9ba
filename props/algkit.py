"""Shared pieces of the algorithm checks: problems, isolated operators, recorders."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.gradient import GradParent
from modopt.opt.linear import Identity
from modopt.opt.proximity import ProximityParent

from harness.gen import array, lay, layouts, pos_elem, seeds
from harness.oracle import Violation, need, soft
from props.c08 import CostModel

SHAPES = [(1,), (2,), (3,), (4,), (5,), (2, 2), (3, 2), (2, 1, 2), (1, 3)]
BIG_SHAPES = [(60,), (9, 8), (12, 5), (3, 4, 5), (5, 2, 3, 2), (1, 30), (33, 1), (16, 16), (1100,)]


@st.composite
def problem(draw, complex_ok=True, shapes=SHAPES):
    """A quadratic data term 1/2 |A x - b|^2 with its Lipschitz constant."""
    big = shapes is SHAPES and draw(st.integers(0, 9)) == 0
    shape = draw(st.sampled_from(BIG_SHAPES if big else shapes))
    n = int(np.prod(shape))
    m = draw(st.sampled_from([3, 20, 70])) if big else draw(st.integers(1, 6))
    dt = complex if complex_ok and draw(st.integers(0, 4)) == 0 else float
    a = draw(array((m, n), dtype=dt, styles=("normal", "ints", "tinyfrac", "sparse"), scale=False))
    b = draw(array((m,), dtype=dt, styles=("normal", "ints", "ties", "tinyfrac"), scale=False))
    x0 = draw(array(shape, dtype=dt, styles=("normal", "ints", "const", "sparse"), scale=False))
    unit = draw(st.one_of(st.just(1.0), st.just(1.0), st.just(1.0), st.floats(-9, 6).map(lambda e: 10.0**e)))
    b, x0 = b * unit, lay(x0 * unit, draw(layouts))
    lip = float(np.linalg.norm(a, 2) ** 2) if a.size else 0.0
    return {"shape": shape, "A": a, "b": b, "x0": x0, "lip": lip if lip > 1e-6 else 1.0, "dt": np.dtype(dt).name}


def grad_fn(p):
    a, b, shape = p["A"], p["b"], p["shape"]
    ah = a.conj().T

    def g(x):
        return (ah @ (a @ np.asarray(x).reshape(-1) - b)).reshape(shape)

    return g


def rounding(p, x):
    """A bound, with a wide margin, on the rounding error of one gradient evaluation at x."""
    a, x = np.abs(p["A"]), np.abs(np.asarray(x)).reshape(-1)
    return 1e-14 * (a.T @ (a @ x + np.abs(p["b"]))).reshape(p["shape"])


def shaky_grad_fn(p, seed=7):
    """The same gradient with errors of the size of its rounding error (to measure conditioning)."""
    g, rs = grad_fn(p), np.random.RandomState(seed)

    def shaky(x):
        return g(x) + rounding(p, x) * rs.choice([-1.0, 1.0], size=p["shape"])

    return shaky


def make_grad(p):
    """An isolated gradient operator (its own get_grad and cost)."""
    a, b, shape = p["A"].copy(), p["b"].copy(), p["shape"]
    ah = a.conj().T

    def get_grad(x):
        op.grad = (ah @ (a @ np.array(x).reshape(-1) - b)).reshape(shape)

    def cost(*args, **kwargs):
        return 0.5 * float(np.linalg.norm(a @ np.array(args[0]).reshape(-1) - b) ** 2)

    op = GradParent(
        b, lambda x: a @ np.array(x).reshape(-1), lambda y: (ah @ y).reshape(shape),
        get_grad=get_grad, cost=cost, verbose=False,
    )
    return op


# name -> (prox(x, w, f), cost(x, w)), all independent of modopt
PROX = {
    "none": (lambda x, w, f: np.array(x), lambda x, w: 0.0),
    "soft": (lambda x, w, f: soft(x, w * f), lambda x, w: w * float(np.sum(np.abs(x)))),
    "ridge": (lambda x, w, f: x / (1 + 2 * w * f), lambda x, w: w * float(np.sum(np.abs(x) ** 2))),
    "shift": (lambda x, w, f: x - w * f, lambda x, w: w * float(np.sum(np.real(x)))),
    "pos": (lambda x, w, f: np.maximum(x, 0.0), lambda x, w: 0.0),
    "box": (lambda x, w, f: np.clip(x, -w, w), lambda x, w: 0.0),
}
REAL_ONLY = ("pos", "box")


@st.composite
def prox_spec(draw, dt="float64", kinds=None):
    names = [k for k in (kinds or sorted(PROX)) if dt == "float64" or k not in REAL_ONLY]
    return {"kind": draw(st.sampled_from(names)), "w": draw(st.one_of(st.sampled_from([0.05, 0.3, 1.0, 2.0]), st.floats(-6, 1).map(lambda e: 10.0**e)))}


def prox_ref(spec):
    fn = PROX[spec["kind"]][0]
    return lambda x, f: fn(x, spec["w"], f)


def make_prox(spec):
    fn, cost = PROX[spec["kind"]]
    w = spec["w"]
    return ProximityParent(
        lambda x, extra_factor=1.0, *args, **kwargs: fn(np.array(x), w, extra_factor),
        lambda x, *args, **kwargs: cost(x, w),
    )


class Stopper:
    """When the automatic cost of a solver must stop it, from the recorded solutions."""

    def __init__(self, p, specs, on):
        self.p, self.specs, self.on = p, specs, on
        self.model = CostModel()

    def value(self, points):
        """points: the argument of the cost of the data term and of each operator."""
        pred = self.p["A"] @ np.asarray(points[0]).reshape(-1)
        terms = [0.5 * float(np.linalg.norm(pred - self.p["b"]) ** 2)] + [PROX[s["kind"]][1](x, s["w"]) for s, x in zip(self.specs, points[1:])]
        size = float(np.linalg.norm(pred) + np.linalg.norm(self.p["b"])) ** 2 + sum(abs(t) for t in terms)
        if abs(sum(terms)) < 1e-6 * size:  # a relative change of this cost is dominated by rounding
            self.model.ambiguous = True
        return sum(terms)

    def check(self, rows, n, what, points=None):
        """Exactly as many iterations as requested, unless the cost converges before."""
        if not self.on:
            need(len(rows) == n, lambda: f"{what}: {len(rows)} iterations reported for iterate({n})")
            return
        need(1 <= len(rows) <= n, lambda: f"{what}: {len(rows)} iterations reported for iterate({n})")
        expected = n
        for k, row in enumerate(rows):
            pts = points(row) if points else [row["x_new"]] * (1 + len(self.specs))
            if self.model.step(self.value(pts)):
                expected = k + 1
                break
        if self.model.ambiguous:
            return
        need(len(rows) == expected, lambda: f"{what}: {len(rows)} iterations for iterate({n}), but the cost converges at iteration {expected}")


class Recorder:
    """A metric that stores copies of the state variables it is called with."""

    def __init__(self, *keys):
        self.keys = keys
        self.rows = []

    def __call__(self, **kw):
        self.rows.append({k: np.array(v, copy=True) if np.ndim(v) else v for k, v in kw.items()})
        return float(len(self.rows))

    def spec(self, name="rec", early=False):
        mapping = {k: k for k in self.keys}
        return {name: {"metric": self, "mapping": mapping, "cst_kwargs": {}, "early_stopping": early}}


def schedule(name):
    """Deterministic parameter update functions."""
    return {
        None: None,
        "half": lambda v, *a: v * 0.5,
        "decay": lambda v, *a: v * 0.9 + 0.01,
        "const": lambda v, *a: v,
        "rise": lambda v, *a: v + 0.25 * (1.9 - v),
    }[name]


def hist_scale(*seqs):
    top = 1e-12
    for seq in seqs:
        for v in seq:
            if np.size(v):
                top = max(top, float(np.max(np.abs(v))))
    return top


def close_at(actual, expected, what, scale, rtol=1e-8, atol=1e-10):
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        raise Violation(f"{what}: shape {a.shape}, expected {e.shape}")
    if scale > 1e100:  # a diverging run: products of such values overflow
        return
    if not np.all(np.isfinite(a)):
        raise Violation(f"{what}: non-finite value {a!r}")
    err = float(np.max(np.abs(a - e))) if a.size else 0.0
    atol = atol * min(1.0, scale)
    need(err <= atol + rtol * scale, lambda: f"{what}: differs by {err:.3e} (scale {scale:.3g})\n got {a!r}\n expected {e!r}")
