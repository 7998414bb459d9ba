"""C08: cost objects report the exact cost and stop exactly when the cost has stabilised."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.algorithms.admm import ADMMcostObj
from modopt.opt.cost import CostParent, costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, MatrixOperator
from modopt.opt.proximity import ElasticNet, GroupLASSO, Positivity, Ridge, SparseThreshold

from harness.core import Prop
from harness.gen import array, elem, fixed, pos_elem
from harness.oracle import Frozen, close, need, raises

PROP = Prop("C08", ["test_range >= 2; cases where the relative change is within 1e-9 of the tolerance are not decided"])


class CostModel:
    """Reference model of the convergence test."""

    def __init__(self, tol=1e-4, interval=1, rng=4, initial=1e6):
        self.tol, self.interval, self.rng, self.cost = tol, interval, rng, initial
        self.it, self.win, self.ambiguous = 1, [], False

    def due(self):
        return self.interval is not None and self.it % self.interval == 0

    def step(self, value):
        """value: the cost at this iteration (used only when due)."""
        res = False
        if self.due():
            self.cost = value
            self.win.append(value)
            if len(self.win) == self.rng:
                h = self.rng // 2
                with np.errstate(all="ignore"):
                    new, old = np.mean(self.win[h:]), np.mean(self.win[:h])
                if np.around(new, 16) == 0:
                    res = 0 <= self.tol
                    self.ambiguous |= bool(new != 0 and 4e-17 < abs(new) < 6e-17)
                else:
                    with np.errstate(all="ignore"):
                        change = abs(new - old) / abs(new)
                    res = bool(change <= self.tol)
                    self.ambiguous |= bool(abs(change - self.tol) < 1e-9 * (1 + self.tol) and (change != 0 or len(set(self.win)) > 1))
                self.win = []
        self.it += 1
        return res


odd = st.sampled_from([float("inf"), -float("inf"), float("nan")])
cost_seq = st.one_of(
    st.lists(st.one_of(elem, st.sampled_from([0.0, 0.0, 5.0, 5.0001, 5.00001])), min_size=1, max_size=40),
    st.tuples(st.lists(elem, max_size=6), odd, st.lists(st.one_of(elem, elem, elem, odd), max_size=4), st.sampled_from([5.0, 1.0, -2.0]), st.integers(4, 20)).map(lambda t: [*t[0], t[1], *t[2], *[t[3]] * t[4]]),
    st.tuples(st.sampled_from([10.0, 1.0, -3.0]), st.sampled_from([0.5, 0.9, 0.99, 0.999, 0.9999]), st.sampled_from([0.0, 1.0, -2.0]), st.integers(1, 60)).map(
        lambda t: [t[0] * t[1] ** k + t[2] for k in range(t[3])]),
)
PARAMS = fixed(
    tol=st.one_of(st.sampled_from([1e-4, 1e-2, 0.0, 0.1, 1.0, 1e-8]), st.floats(-12, 1).map(lambda e: 10.0**e)), interval=st.one_of(st.sampled_from([1, 1, 1, 2, 3, 7, None]), st.integers(1, 200)),
    rng=st.one_of(st.sampled_from([4, 4, 2, 3, 5, 6, 10]), st.integers(2, 60)), initial=st.one_of(st.sampled_from([1e6, 0.0, 3.0]), elem), defaults=st.booleans(), repeat=st.sampled_from([1, 1, 1, 4, 12]),
)


def kwargs_of(p):
    if p["defaults"]:
        return {}, CostModel()
    kw = {"tolerance": p["tol"], "cost_interval": p["interval"], "test_range": p["rng"], "initial_cost": p["initial"]}
    return kw, CostModel(p["tol"], p["interval"], p["rng"], p["initial"])


class Part:
    """An operator whose cost is scripted by the (public) argument it is evaluated at."""

    def __init__(self, scale):
        self.scale = scale
        self.seen = []

    def cost(self, *args, **kwargs):
        self.seen.append(args)
        return self.scale * args[0][0]


@PROP.sub("history", fixed(p=PARAMS, seq=cost_seq, parts=st.lists(st.sampled_from([1.0, 0.5, 2.0, 0.25]), min_size=1, max_size=3), sub=st.booleans(), verbose=st.booleans(), extra=st.booleans()),
          quick=4000, factor=30, shards=8, rule="the window fills at least once")
def history(c):
    kw, model = kwargs_of(c["p"])
    parts = [Part(s) for s in c["parts"]]
    total = sum(c["parts"])
    if c["sub"]:
        class Mine(CostParent):
            def _calc_cost(self, x, *args, **kwargs):
                return total * x[0]

        obj = Mine(verbose=c["verbose"], **kw)
    else:
        obj = costObj(parts, verbose=c["verbose"], **kw)
    flags, computed, record = 0, 0, []
    for k, v in enumerate(c["seq"] * c["p"]["repeat"]):
        x = np.array([v, 1.0])
        due = model.due()
        want = model.step(sum(s * v for s in c["parts"]) if not c["sub"] else total * v)
        before = [len(p.seen) for p in parts]
        with Frozen("get_cost", x=x):
            got = obj.get_cost(x, np.zeros(1)) if c["extra"] else obj.get_cost(x)
        if model.ambiguous:
            return False
        need(bool(got) == want, lambda: f"call {k + 1}: convergence {got!r}, expected {want} (costs {c['seq']}, {kw or 'default parameters'})")
        close(float(obj.cost), model.cost, f"cost after call {k + 1}", rtol=1e-12, atol=1e-12)
        if not c["sub"]:
            seen = [len(p.seen) - b for p, b in zip(parts, before)]
            need(all(s >= 1 for s in seen) if due else not any(seen), lambda: f"call {k + 1}: operators evaluated {seen} times, cost interval {kw.get('cost_interval', 1)}")
        flags += want
        computed += due
        if due:
            record.append(model.cost)
    # the list of costs, which the examples plot
    if isinstance(getattr(obj, "_cost_list", None), list):
        close(np.array([float(v) for v in obj._cost_list]), np.array(record), "recorded costs", rtol=1e-12, atol=1e-12)
    return computed >= model.rng


@st.composite
def real_case(draw):
    n, m = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {
        "A": draw(array((m, n), scale=False)), "b": draw(array((m,), scale=False)), "x": draw(array((n,), scale=False)), "w": draw(pos_elem),
        "L": draw(array((draw(st.integers(1, 4)), n), scale=False)), "alpha": draw(pos_elem), "beta": draw(pos_elem),
        "pick": draw(st.lists(st.sampled_from(["grad", "sparse", "pos", "ridge", "enet"]), min_size=1, max_size=6)), "seq": draw(st.sampled_from([list, tuple, np.array])).__name__,
    }


@PROP.sub("total", real_case(), quick=1500, factor=20, rule="at least two terms and a non-zero point")
def total(c):
    A, b, x, w, L = c["A"], c["b"], c["x"], c["w"], c["L"]
    lin = MatrixOperator(L)
    ops = {
        "grad": (lambda: GradBasic(b, lambda v: A @ v, lambda v: A.T @ v, verbose=False), 0.5 * np.sum((A @ x - b) ** 2)),
        "sparse": (lambda: SparseThreshold(lin, w), w * np.sum(np.abs(L @ x))),
        "pos": (lambda: Positivity(), 0.0),
        "ridge": (lambda: Ridge(lin, w), w * np.sum((L @ x) ** 2)),
        "enet": (lambda: ElasticNet(lin, c["alpha"], c["beta"]), c["alpha"] * np.sum((L @ x) ** 2) + c["beta"] * np.sum(np.abs(L @ x))),
    }
    mk = {"list": list, "tuple": tuple, "array": lambda s: np.array(s, dtype=object)}[c["seq"]]
    # an operator listed twice counts twice
    made = {k: ops[k][0]() for k in c["pick"]}
    obj = costObj(mk([made[k] for k in c["pick"]]), verbose=False)
    with Frozen("costObj", x=x, A=A, b=b, L=L):
        obj.get_cost(x)
    want = sum(ops[k][1] for k in c["pick"])
    close(float(obj.cost), want, f"total cost of {c['pick']}", rtol=1e-10, atol=1e-10)
    return len(c["pick"]) > 1 and bool(np.any(x))


@PROP.sub("admm_cost", fixed(A=array((3, 2), scale=False), B=array((3, 4), scale=False), b=array((3,), scale=False), u=array((2,), scale=False), v=array((4,), scale=False), tau=st.sampled_from([0.0, 1.0, 0.3, 5.0]), s=elem, t=elem),
          quick=800, factor=20, rule="non-zero residual and tau > 0")
def admm_cost(c):
    A, B, b, u, v = c["A"], c["B"], c["b"], c["u"], c["v"]
    obj = ADMMcostObj((lambda q: c["s"] * np.sum(q), lambda q: c["t"] * np.sum(q**2)), MatrixOperator(A), MatrixOperator(B), b, c["tau"], verbose=False)
    with Frozen("ADMMcostObj", A=A, B=B, b=b, u=u, v=v):
        obj.get_cost(u, v)
    r = A @ u + B @ v - b
    want = c["s"] * np.sum(u) + c["t"] * np.sum(v**2) + c["tau"] * np.sum(r**2)
    close(float(obj.cost), want, "ADMM cost", rtol=1e-9, atol=1e-9, scale=abs(want) + c["tau"] * np.sum(r**2) + 1)
    return bool(np.any(r)) and c["tau"] > 0


class NoCost:
    pass


class BadCost:
    cost = 3


BAD = [("TypeError", "Identity()"), ("TypeError", "5"), ("TypeError", "'ab'"), ("TypeError", "{1: 2}"), ("ValueError", "[NoCost()]"), ("ValueError", "[Identity(), NoCost()]"),
       ("TypeError", "[BadCost()]"), ("ValueError", "(3,)")]


@PROP.sub("reject", fixed(i=st.integers(0, len(BAD) - 1)), quick=40, shards=1, rule="every case is an invalid list of operators")
def reject(c):
    exc, txt = BAD[c["i"]]
    raises(eval(exc), lambda: costObj(eval(txt)), f"costObj({txt})")
    raises(TypeError, lambda: CostParent(), "CostParent() is abstract")
    return True
