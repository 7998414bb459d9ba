"""C39: an exception raised by a part supplied by the user reaches the caller and spoils nothing."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st
from modopt.base.observable import MetricObserver, Observable
from modopt.math.matrix import PowerMethod
from modopt.opt import algorithms as al
from modopt.opt.cost import costObj
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, LinearParent
from modopt.opt.proximity import ElasticNet, IdentityProx, LinearCompositionProx, LowRankMatrix, Positivity, ProximityCombo, ProximityParent, Ridge, SparseThreshold
from modopt.opt.reweight import cwbReweight
from modopt.signal import svd

from harness.core import Prop, Violation
from harness.gen import expand, fixed, seeds
from harness.oracle import Frozen, need
from props.c29 import flat, glob, same

PROP = Prop(
    "C39",
    [
        "the parts raise from their k-th call on purpose; a part which catches its own errors is out of reach",
        "what the failed solver holds between the failing step and its next run is not specified: it is only required to run again, with consistent records",
        "StopIteration and GeneratorExit are not raised: Python itself converts them inside generators",
    ],
)


class Odd(Exception):
    """An exception class modopt cannot know."""


class OddExit(BaseException):
    """Not an Exception: only a bare except would stop it."""


KINDS = [ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, NotImplementedError, ZeroDivisionError, FloatingPointError, ArithmeticError, MemoryError, AssertionError, ImportError, OSError, np.linalg.LinAlgError, UserWarning, KeyboardInterrupt, SystemExit, Odd, OddExit]
kinds = st.sampled_from(KINDS)


class Faults:
    """Counts the calls of named parts; one of them raises at a chosen call."""

    def __init__(self, name=None, at=0, exc=None):
        self.name, self.at, self.exc = name, at, exc
        self.count, self.log, self.raised = {}, [], 0

    def off(self):
        self.name = None

    def part(self, name, fn):
        def call(*a, **k):
            self.count[name] = self.count.get(name, 0) + 1
            self.log.append((name, flat([v for v in a if isinstance(v, (np.ndarray, float, int, complex, list, tuple))])))
            if name == self.name and self.count[name] == self.at:
                self.raised += 1
                raise self.exc
            return fn(*a, **k)

        return call


def attempt(fn, f, what, exc):
    """fn must raise the very exception of the fault."""
    try:
        fn()
    except BaseException as e:  # noqa: BLE001
        if f.raised == 0:
            raise
        need(e is exc, lambda: f"{what}: {exc!r} raised by the part became {e!r}")
        need(f.raised == 1, lambda: f"{what}: the failing part was called again after it raised")
        return
    if f.raised == 0:
        need(False, lambda: f"{what}: the run reached the failing call no more than {f.count} times")
    need(False, lambda: f"{what}: {exc!r} raised by {f.name} did not reach the caller")


def is_planted(e, exc):
    if isinstance(e, Violation):
        raise e
    need(e is exc, lambda: f"{exc!r} raised by the part became {e!r}")


@contextlib.contextmanager
def hushed():
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


A = np.array([[1.0, 0.3, 0.0], [0.2, 0.8, 0.1], [0.0, 0.4, 0.9]])


def ops_of(f, seed):
    """The operators of a problem, every call of which goes through the faults."""
    b = expand((seed + 1) % 2**31, (3,), "normal")
    t = 0.1 + (seed % 5) / 10
    p = f.part
    o = {}
    o["grad"] = GradBasic(b, p("gradient op", lambda v: A @ v), p("gradient trans_op", lambda v: A.T @ v), verbose=False)
    soft = lambda v, w: np.sign(v) * np.maximum(np.abs(v) - w, 0)
    o["prox"] = ProximityParent(p("prox", lambda v, extra_factor=1.0: soft(v, t * extra_factor)), p("prox cost", lambda v, *a, **k: float(t * np.sum(np.abs(v)))))
    o["prox2"] = ProximityParent(p("second prox", lambda v, extra_factor=1.0: np.maximum(v, 0)), p("second prox cost", lambda v, *a, **k: 0.0))
    w = np.full(3, 0.2)
    o["dual"] = SparseThreshold(Identity(), w)
    o["dualw"] = w
    inner = o["dual"].op
    o["dual"].op = p("dual prox", inner)
    o["linear"] = LinearParent(p("linear op", lambda v: A.T @ v), p("linear adj_op", lambda v: A @ v))
    o["admm"] = tuple(LinearParent(p(f"operator {n} op", lambda v, s=s: s * v), p(f"operator {n} adj_op", lambda v, s=s: s * v)) for n, s in (("A", 1.0), ("B", -1.0)))
    o["opt"] = (p("optimizer H", lambda init, obs: 0.5 * (init + obs)), p("optimizer G", lambda init, obs: soft(obs, t)))
    o["costs"] = (p("cost H", lambda u: float(np.sum(u**2))), p("cost G", lambda v: float(np.sum(np.abs(v)))))
    o["metric"] = p("metric", lambda test: float(np.sum(np.abs(test))))
    o["upd"] = {n: p(n, fn) for n, fn in (("beta_update", lambda v: 0.97 * v), ("lambda_update", lambda v: 0.9 + 0.1 * v), ("gamma_update", lambda v: 0.97 * v), ("sigma_update", lambda v: 0.99 * v), ("tau_update", lambda v: 0.99 * v), ("rho_update", lambda v: 0.5 * v + 0.5))}
    rw = cwbReweight(w)
    rw.reweight = p("reweight", rw.reweight)
    o["rw"] = rw
    return o


ALGS = ["fb", "fb-param", "greedy", "gfb", "pogm", "condat", "condat-rw", "admm", "fastadmm", "vanilla", "ada", "rmsprop", "momentum", "adam", "saga"]


def build(name, seed, o, progress, cost=True, early=False):
    x = expand(seed % 2**31, (3,), "normal")
    g, pr = o["grad"], o["prox"]
    kw = {"progress": progress, "metrics": {"m": {"metric": o["metric"], "mapping": {"x_new": "test"}, "cst_kwargs": {}, "early_stopping": early}}, "metric_call_period": 2}
    mk = (lambda *ops: costObj(list(ops), verbose=False, cost_interval=1 + seed % 2, tolerance=0.0)) if cost else (lambda *ops: None)
    u = o["upd"]
    if name == "fb":
        return x, al.ForwardBackward(x, g, pr, cost=mk(g, pr), beta_param=0.4, auto_iterate=False, linear=o["linear"], **kw)
    if name == "fb-param":
        return x, al.ForwardBackward(x, g, pr, cost=mk(g, pr), beta_param=0.4, lambda_param=0.8, lambda_update=u["lambda_update"], beta_update=u["beta_update"], auto_iterate=False, linear=o["linear"], **kw)
    if name == "greedy":
        return x, al.ForwardBackward(x, g, pr, cost=mk(g, pr), beta_param=0.4, auto_iterate=False, linear=o["linear"], restart_strategy="greedy", xi_restart=0.96, min_beta=0.1, s_greedy=1.1, **kw)
    if name == "gfb":
        return x, al.GenForwardBackward(x, g, [pr, o["prox2"]], cost=mk(g, pr, o["prox2"]), gamma_param=0.4, gamma_update=u["gamma_update"], lambda_param=0.9, lambda_update=u["lambda_update"], auto_iterate=False, linear=o["linear"], **kw)
    if name == "pogm":
        return x, al.POGM(x, x, x, x, g, pr, cost=mk(g, pr), beta_param=0.4, auto_iterate=False, linear=o["linear"], **kw)
    if name in ("condat", "condat-rw"):
        if name == "condat":
            return x, al.Condat(x, x, g, o["prox2"], o["dual"], linear=o["linear"], cost=mk(g, o["prox2"]), sigma=0.3, tau=0.3, rho=0.8, sigma_update=u["sigma_update"], tau_update=u["tau_update"], rho_update=u["rho_update"], auto_iterate=False, **kw)
        return x, al.Condat(x, x, g, o["prox2"], o["dual"], linear=o["linear"], cost=mk(g, o["prox2"]), reweight=o["rw"], sigma=0.3, tau=0.3, auto_iterate=False, **kw)
    if name in ("admm", "fastadmm"):
        cls = al.ADMM if name == "admm" else al.FastADMM
        return x, cls(x, x, np.zeros(3), *o["admm"], np.zeros(3), o["opt"], cost_funcs=o["costs"] if cost else None, **kw)
    cls = {"vanilla": al.VanillaGenericGradOpt, "ada": al.AdaGenericGradOpt, "rmsprop": al.RMSpropGradOpt, "momentum": al.MomentumGradOpt, "adam": al.ADAMGradOpt, "saga": al.SAGAOptGradOpt}[name]
    return x, cls(x, g, pr, mk(g, pr), eta=0.1, epoch_size=2, **kw)


def run(alg, name, n):
    if name == "condat-rw":
        alg.iterate(max_iter=n, n_rewightings=2)
    else:
        alg.iterate(max_iter=n)


def state(alg):
    cost = getattr(alg, "_cost_func", None)
    return flat([np.array(alg.x_final), alg.metrics["m"]["values"], alg.metrics["m"]["index"], [] if cost is None else [cost.cost]])


@PROP.sub("solvers", fixed(name=st.sampled_from(ALGS), seed=seeds, n=st.integers(1, 7), which=st.integers(0, 30), at=st.integers(0, 200), exc=kinds, progress=st.sampled_from([False, False, True]), cost=st.booleans(), early=st.booleans()), quick=3500, shards=6, factor=15, rule="the part fails after the first call")
def solvers(c):
    """One part of a solver fails at one of its calls."""
    name, seed, n = c["name"], c["seed"] % 2**31, c["n"]
    early = c["early"] and name not in ("admm", "fastadmm")
    with hushed():
        # the run without a fault
        ref = Faults()
        _, alg = build(name, seed, ops_of(ref, seed), False, c["cost"], early)
        before_run = len(ref.log)
        run(alg, name, n)
        want, log = state(alg), ref.log
        names = sorted({k for k, _ in log[before_run:]})
        slot = names[c["which"] % len(names)]
        first = sum(1 for k, _ in log[:before_run] if k == slot)
        at = first + 1 + c["at"] % (ref.count[slot] - first)
        # the run with one
        exc = c["exc"]("planted")
        f = Faults(slot, at, exc)
        o = ops_of(f, seed)
        x, alg = build(name, seed, o, c["progress"], c["cost"], early)
        x_keep, w_keep, what = x.copy(), o["dualw"].copy(), f"{name}, {slot} failing at call {at}"
        before = glob()
        with Frozen(what, x=x):
            attempt(lambda: run(alg, name, n), f, what, exc)
        need(glob() == before, f"{what}: global state changed")
        need(np.array_equal(x, x_keep), f"{what}: the start changed")
        need(name == "condat-rw" or np.array_equal(o["dualw"], w_keep), f"{what}: the weights changed")
        # up to the failing call everything was asked in the same order, on the same data
        need([k for k, _ in f.log] == [k for k, _ in log[: len(f.log)]], lambda: f"{what}: calls {[k for k, _ in f.log]}, without the fault {[k for k, _ in log]}")
        for (k, a), (_, b) in zip(f.log, log):
            same(a, b, f"{what}: argument of {k}")
        # the failed solver runs again, and its records belong together
        f.off()
        run(alg, name, n)
        for rec in alg.metrics.values():
            need(len(rec["time"]) == len(rec["index"]) == len(rec["values"]), lambda: f"{what}: records of unequal length after the failure, {len(rec['index'])} iterations, {len(rec['values'])} values")
        # a new solver on the same operators is not disturbed
        if name != "condat-rw":
            _, again = build(name, seed, o, False, c["cost"], early)
            run(again, name, n)
            same(state(again), want, f"{what}: a new solver on the same operators gives another result")
    return at > first + 1


# ----------------------------------------------------------------- operators made of other operators
def wave(v):
    return A @ v


def parts_ops(f):
    p = f.part
    lin = lambda n: LinearParent(p(f"{n} op", lambda v: A.T @ v), p(f"{n} adj_op", lambda v: A @ v))
    soft = lambda n: ProximityParent(p(n, lambda v, extra_factor=1.0: np.sign(v) * np.maximum(np.abs(v) - 0.2 * extra_factor, 0)), p(f"{n} cost", lambda v, *a, **k: float(np.sum(np.abs(v)))))
    combo = ProximityCombo([soft("prox 1"), soft("prox 2"), soft("prox 3")])
    lc = LinearCombo([lin("lin 1"), lin("lin 2"), lin("lin 3")], [1.0, 0.5, -2.0])
    grad = GradBasic(np.arange(3.0), p("op", wave), p("trans_op", lambda v: A.T @ v), verbose=False)
    obj = lambda v: np.array([v, 2 * v, -v])
    return {
        "proximity_combo": lambda v: (combo.op(obj(v)), combo.op(obj(v), extra_factor=0.5), combo.cost(obj(v))),
        "linear_combo": lambda v: (lc.op(v), lc.adj_op(obj(v))),
        "composition": (lambda q: lambda v: (q.op(v), q.op(v, extra_factor=2.0), q.cost(v)))(LinearCompositionProx(lin("lin"), soft("prox"))),
        "sparse": (lambda q: lambda v: (q.op(v), q.cost(v)))(SparseThreshold(lin("lin"), 0.3)),
        "ridge": (lambda q: lambda v: (q.op(v), q.cost(v)))(Ridge(lin("lin"), 0.3)),
        "elastic": (lambda q: lambda v: (q.op(v), q.cost(v)))(ElasticNet(lin("lin"), 0.3, 0.2)),
        "low_rank": (lambda q: lambda v: (q.op(np.array([np.outer(v, v), np.outer(v, v[::-1])])), q.cost(np.array([np.outer(v, v)] * 2))))(LowRankMatrix(0.3, lowr_type="ngole", operator=p("operator", lambda u: u))),
        "svd_coef": lambda v: svd.svd_thresh_coef(np.outer(np.tile(v, 3), v) + np.eye(9, 3), p("operator", lambda u: u), 0.1),
        "gradient": lambda v: (grad.get_grad(v), np.array(grad.grad), grad.cost(v), grad.trans_op_op(v)),
        "power_method": lambda v: PowerMethod(p("operator", lambda u: A.T @ (A @ u)), (3,), rng=3, verbose=False).spec_rad,
        "power_method_set": (lambda q: lambda v: (q.get_spec_rad(max_iter=6), q.spec_rad, q.inv_spec_rad))(PowerMethod(p("operator", lambda u: A.T @ (A @ u)), (3,), rng=3, verbose=False, auto_run=False)),
        "positivity_identity": (lambda q: lambda v: q.op(obj(v)))(ProximityCombo([Positivity(), IdentityProx(), soft("prox")])),
    }


NAMES = sorted(parts_ops(Faults()))


@PROP.sub("operators", fixed(name=st.sampled_from(NAMES), seed=seeds, which=st.integers(0, 20), at=st.integers(0, 60), exc=kinds, first=st.booleans()), quick=3000, shards=2, rule="every case")
def operators(c):
    """Operators, functions and combinations one part of which fails."""
    name, v = c["name"], expand(c["seed"] % 2**31, (3,), "normal")
    with hushed():
        ref = Faults()
        want = flat(parts_ops(ref)[name](v)).copy()
        names = sorted(ref.count)
        slot = names[c["which"] % len(names)]
        at = 1 + c["at"] % ref.count[slot]
        exc = c["exc"]("planted")
        f = Faults()
        call = parts_ops(f)[name]
        if c["first"] and name != "power_method_set":  # the operator has been used before
            same(call(2 * v + 1), parts_ops(Faults())[name](2 * v + 1), f"{name}: before the failure")
        f.count, f.name, f.at, f.exc = {}, slot, at, exc
        what = f"{name}, {slot} failing at call {at}"
        before = glob()
        with Frozen(what, v=v):
            attempt(lambda: call(v), f, what, exc)
            f.off()
            need(glob() == before, f"{what}: global state changed")
            if name != "power_method_set":
                same(call(v), want, f"{what}: the next call")
            else:
                call(v)
    return True


@PROP.sub("cost", fixed(seed=seeds, n=st.integers(1, 20), bad=st.sets(st.integers(1, 20), max_size=4), which=st.integers(0, 2), interval=st.integers(1, 3), exc=kinds, tol=st.sampled_from([0.0, 1e-4, 0.5, 10.0])), quick=1500, rule="a failure and a value after it")
def cost(c):
    """Cost evaluations that fail are not recorded, and the step is evaluated when it is asked again."""
    rs = np.random.RandomState(c["seed"] % 2**32)
    xs = rs.standard_normal((c["n"], 3))

    class Part:
        def __init__(self, k):
            self.k = k

        def cost(self, v, **kw):
            if arm["on"] and self.k == c["which"]:
                raise arm["exc"]
            return (self.k + 1) * float(np.sum(v**2))

    arm = {"on": False, "exc": None}
    make = lambda: costObj([Part(0), Part(1), Part(2)], tolerance=c["tol"], cost_interval=c["interval"], verbose=False)
    plain, obj = make(), make()
    want = [bool(plain.get_cost(v)) for v in xs]
    got, failures, after = [], 0, False
    for i, v in enumerate(xs, 1):
        if i in c["bad"] and i % c["interval"] == 0:
            arm.update(on=True, exc=c["exc"]("planted"))
            try:
                obj.get_cost(v)
                need(False, "the exception of a part did not reach the caller")
            except BaseException as e:  # noqa: BLE001
                is_planted(e, arm["exc"])
            arm["on"] = False
            failures += 1
        else:
            after |= failures > 0
        got.append(bool(obj.get_cost(v)))
    need(got == want, lambda: f"convergence decisions {got}, without failures {want}")
    if isinstance(getattr(obj, "_cost_list", None), list) and isinstance(getattr(plain, "_cost_list", None), list):
        same(obj._cost_list, plain._cost_list, "costs recorded after failures")
    return failures > 0 and after


@PROP.sub("observers", fixed(seed=seeds, n=st.integers(1, 4), steps=st.lists(st.tuples(st.integers(0, 3), st.booleans()), min_size=1, max_size=8), exc=kinds, early=st.booleans()), quick=1500, rule="a failure followed by a notification")
def observers(c):
    """A failing observer: the others keep their records and the next notification reaches everybody."""
    values = np.random.RandomState(c["seed"] % 2**32).uniform(1, 2, len(c["steps"]))
    arm = {}

    def metric(k):
        def m(x):
            if arm.get(k):
                raise arm[k]
            return (k + 1) * x
        return m

    src = Observable(["sig"])
    obs = [MetricObserver(f"m{k}", metric(k), {"x": "x"}, {}, early_stopping=c["early"], wind=4, eps=1e-2) for k in range(c["n"])]
    for o in obs:
        src.add_observer("sig", o)
    want = [[] for _ in obs]
    failed = nontrivial = False
    for i, ((k, bad), x) in enumerate(zip(c["steps"], values)):
        arm.clear()
        k %= c["n"]
        if bad:
            arm[k] = c["exc"]("planted")
            try:
                src.notify_observers("sig", x=x, idx=i)
                need(False, "the exception of an observer did not reach the caller")
            except BaseException as e:  # noqa: BLE001
                is_planted(e, arm[k])
            for j in range(k):
                want[j].append((i, (j + 1) * x))
            failed = True
        else:
            need(src.notify_observers("sig", x=x, idx=i) is True, "a notification after a failure was dropped")
            nontrivial |= failed
            for j in range(c["n"]):
                want[j].append((i, (j + 1) * x))
        for j, o in enumerate(obs):
            r = o.retrieve_metrics()
            need(len(r["time"]) == len(r["index"]) == len(r["values"]), lambda: f"records of unequal length after a failure: {len(r['time'])} dates, {len(r['index'])} iterations, {len(r['values'])} values")
            need(list(zip(r["index"], r["values"])) == want[j] or (bad and j > k), lambda: f"observer {j} of {c['n']} recorded {r['index']}, {r['values']}, expected {want[j]}")
            if bad and j > k:  # told or not about a notification that failed before it: both are fine
                want[j] = list(zip(r["index"], r["values"]))
    return nontrivial
