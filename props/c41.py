"""C41: it does not matter how a supplied operator hands out its result (buffer, view, read-only, its argument)."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st
from modopt.math.matrix import PowerMethod
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import LinearCombo, LinearParent
from modopt.opt.proximity import LinearCompositionProx, LowRankMatrix, ProximityCombo, ProximityParent
from modopt.signal import svd

from harness.core import Prop
from harness.gen import expand, fixed, seeds
from harness.oracle import need
from props import c39
from props.c29 import flat, same

PROP = Prop(
    "C41",
    [
        "an operator which reuses one buffer never hands it out while computing from it",
        "metrics recorded by value; what an earlier x_final shows after a later run of an operator that reuses its buffer is not claimed",
    ],
)


class Handout:
    """Wraps functions so that each of them hands out its results in a given manner."""

    def __init__(self, modes, seed):
        self.modes, self.rs, self.seen = modes, np.random.RandomState(seed), []

    def part(self, name, fn):
        # parts that return numbers or schedules stay as they are
        if any(w in name for w in ("cost", "update", "metric", "reweight")):
            return fn
        mode = self.modes[self.rs.randint(len(self.modes))]
        store = {}

        def call(*a, **k):
            r = np.array(fn(*[np.array(v) if isinstance(v, np.ndarray) else v for v in a], **k))
            if mode == "buffer":
                buf = store.setdefault((r.shape, r.dtype), np.empty_like(r))
                buf[...] = r
                r = buf
            elif mode == "readonly":
                r.flags.writeable = False
            elif mode == "view":
                big = np.full(tuple(2 * s for s in r.shape), np.nan, dtype=r.dtype)
                big[tuple(slice(None, None, 2) for _ in r.shape)] = r
                r = big[tuple(slice(None, None, 2) for _ in r.shape)]
            elif mode == "reversed":
                r = np.ascontiguousarray(r[..., ::-1])[..., ::-1]
            elif mode == "kept":
                # the operator keeps what it handed out and expects it untouched
                self.seen.append((name, r, r.copy()))
            elif mode == "argument":
                # where the result equals an argument, the argument itself is handed out
                for v in (*a, *k.values()):
                    if isinstance(v, np.ndarray) and v.shape == r.shape and np.array_equal(v, r):
                        return v
            return r

        return call

    def check(self, what):
        for name, r, keep in self.seen:
            need(np.array_equal(r, keep), lambda: f"{what}: the array handed out by {name} was modified: {keep} became {r}")


MODES = ["plain", "buffer", "readonly", "view", "reversed", "kept", "argument"]
modes = st.one_of(st.sampled_from(MODES[1:]).map(lambda m: [m]), st.lists(st.sampled_from(MODES), min_size=1, max_size=4))


@contextlib.contextmanager
def hushed():
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


@PROP.sub("solvers", fixed(name=st.sampled_from(c39.ALGS), seed=seeds, runs=st.lists(st.integers(1, 12), min_size=1, max_size=3), modes=modes, cost=st.booleans(), mseed=st.integers(0, 1000)), quick=3000, shards=4, factor=15, rule="some part does not hand out fresh arrays")
def solvers(c):
    """Solvers whose operators reuse buffers, hand out views, read-only arrays or their arguments."""
    name, seed = c["name"], c["seed"] % 2**31
    with hushed():
        def go(f):
            _, alg = c39.build(name, seed, c39.ops_of(f, seed), False, c["cost"], False)
            out = []
            for n in c["runs"]:
                c39.run(alg, name, n)
                out.append(c39.state(alg).copy())
            return out

        want = go(Handout(["plain"], 0))
        f = Handout(c["modes"], c["mseed"])
        got = go(f)
        for i, (a, b) in enumerate(zip(got, want)):
            same(a, b, f"{name}, operators handing out {c['modes']}: run {i}")
        f.check(name)
    return c["modes"] != ["plain"]


def copied(parts):
    return np.array([np.array(v) for v in parts])


def objects(f):
    p = f.part
    A = c39.A
    lin = lambda n: LinearParent(p(f"{n} op", lambda v: A.T @ v), p(f"{n} adj", lambda v: A @ v))
    soft = lambda n: ProximityParent(p(n, lambda v, extra_factor=1.0: np.sign(v) * np.maximum(np.abs(v) - 0.2 * extra_factor, 0)), lambda v, *a, **k: float(np.sum(np.abs(v))))
    same_prox, same_lin = soft("one prox"), lin("one linear")
    grad = GradBasic(np.arange(3.0), p("op", lambda v: A @ v), p("trans_op", lambda v: A.T @ v), verbose=False)
    obj = lambda v: np.array([v, 2 * v, -v])
    return {
        "proximity_combo": (lambda q: lambda v: (copied(q.op(obj(v))), copied(q.op(obj(v), extra_factor=0.5)), q.cost(obj(v))))(ProximityCombo([soft("prox 1"), soft("prox 2"), soft("prox 3")])),
        "linear_combo": (lambda q: lambda v: (q.op(v), q.adj_op(obj(v))))(LinearCombo([lin("lin 1"), lin("lin 2"), lin("lin 3")], [1.0, 0.5, -2.0])),
        "linear_combo_mean": (lambda q: lambda v: (q.op(v), q.adj_op(obj(v))))(LinearCombo([lin("lin 1"), lin("lin 2"), lin("lin 3")])),
        "composition": (lambda q: lambda v: (np.array(q.op(v)), np.array(q.op(v, extra_factor=2.0)), q.cost(v)))(LinearCompositionProx(same_lin, same_prox)),
        "low_rank": (lambda q: lambda v: (q.op(np.array([np.outer(v, v), np.outer(v, v[::-1])])), q.cost(np.array([np.outer(v, v)] * 2))))(LowRankMatrix(0.3, lowr_type="ngole", operator=p("operator", lambda u: u))),
        "svd_coef": lambda v: svd.svd_thresh_coef(np.outer(np.tile(v, 3), v) + np.eye(9, 3), p("operator", lambda u: u), 0.1),
        "gradient": lambda v: (grad.get_grad(v), np.array(grad.grad), grad.cost(v), np.array(grad.trans_op_op(v))),
        "power_method": lambda v: PowerMethod(p("operator", lambda u: A.T @ (A @ u)), (3,), rng=3, verbose=False).spec_rad,
        "power_method_identity": lambda v: PowerMethod(p("operator", lambda u: u), (3,), rng=3, verbose=False).spec_rad,
    }


NAMES = sorted(objects(Handout(["plain"], 0)))


@PROP.sub("operators", fixed(name=st.sampled_from(NAMES), seed=seeds, modes=modes, mseed=st.integers(0, 1000), n=st.integers(1, 3)), quick=2500, shards=2, rule="some part does not hand out fresh arrays")
def operators(c):
    """Composite operators and functions on such parts."""
    name = c["name"]
    xs = [expand((c["seed"] + i) % 2**31, (3,), "normal") for i in range(c["n"])]
    with hushed():
        ref, f = objects(Handout(["plain"], 0))[name], Handout(c["modes"], c["mseed"])
        fn = objects(f)[name]
        for v in xs:
            keep = v.copy()
            same(flat(fn(v)), flat(ref(v)), f"{name}, parts handing out {c['modes']}")
            need(np.array_equal(v, keep), f"{name}: the argument changed")
        f.check(name)
    return c["modes"] != ["plain"]
