"""C09: every algorithm iterates, stops and measures its metrics as documented."""
import contextlib
import io

import numpy as np
import tqdm
from hypothesis import strategies as st
from modopt.opt import algorithms as al
from modopt.opt.cost import costObj
from modopt.opt.linear import Identity, LinearParent

from harness.core import Prop
from harness.gen import elem, fixed
from harness.oracle import Frozen, equal, need, raises
from props.algkit import make_grad, make_prox
from props.c08 import CostModel

PROP = Prop(
    "C09",
    [
        "costs and metric values are scripted; cases where a relative change is within 1e-9 of its tolerance are not decided",
        "early stopping is only asserted when a cost object is used (every algorithm tests the flags together with the cost)",
    ],
)

ALGS = ["fb", "gfb", "pogm", "condat", "vanilla", "ada", "rmsprop", "momentum", "adam", "saga", "admm", "fastadmm"]
GRADS = {
    "vanilla": al.VanillaGenericGradOpt, "ada": al.AdaGenericGradOpt, "rmsprop": al.RMSpropGradOpt,
    "momentum": al.MomentumGradOpt, "adam": al.ADAMGradOpt, "saga": al.SAGAOptGradOpt,
}
P = {"A": np.array([[1.0, 0.2], [0.1, 0.8]]), "b": np.array([1.0, -2.0]), "shape": (2,)}


class Scripted:
    """An operator whose cost follows a script (the last value repeats)."""

    def __init__(self, seq):
        self.seq, self.calls, self.args = seq, 0, []

    def cost(self, *args, **kwargs):
        self.args.append(np.array(args[0], copy=True))
        v = self.seq[min(self.calls, len(self.seq) - 1)]
        self.calls += 1
        return v


def build(name, cost_op, metrics, period, auto=None, tol=None, interval=1, rng=4, **kw):
    """cost_op: Scripted or None.  Returns the algorithm."""
    x = np.array([0.5, 1.5])
    pr = make_prox({"kind": "soft", "w": 0.1})
    g = make_grad(P)
    common = {"metrics": metrics, "progress": False, **kw}
    if period != "default":
        common["metric_call_period"] = period
    cost = None if cost_op is None else costObj([cost_op], tolerance=tol, cost_interval=interval, test_range=rng, verbose=False)
    if name == "fb":
        return al.ForwardBackward(x, g, pr, cost=cost, beta_param=0.4, auto_iterate=False, linear=Identity(), **common)
    if name == "gfb":
        return al.GenForwardBackward(x, g, [pr, make_prox({"kind": "pos", "w": 1.0})], cost=cost, gamma_param=0.4, auto_iterate=False, linear=Identity(), **common)
    if name == "pogm":
        return al.POGM(x, x, x, x, g, pr, cost=cost, beta_param=0.4, auto_iterate=False, linear=Identity(), **common)
    if name == "condat":
        return al.Condat(x, x, g, pr, make_prox({"kind": "soft", "w": 0.1}), cost=cost, sigma=0.3, tau=0.3, auto_iterate=False, **common)
    if name in GRADS:
        return GRADS[name](x, g, pr, cost, eta=0.1, **common)
    cls = al.ADMM if name == "admm" else al.FastADMM
    funcs = None if cost_op is None else (cost_op.cost, lambda v: 0.0)
    return cls(x, x, np.zeros(2), Identity(), Identity(), np.ones(2), (lambda init, obs: 0.5 * obs, lambda init, obs: 0.3 * obs), tau=0, cost_funcs=funcs, **common)


seq = st.one_of(
    st.lists(st.one_of(elem, st.sampled_from([5.0, 5.0, 5.0001])), min_size=1, max_size=30),
    st.tuples(st.sampled_from([10.0, 3.0]), st.sampled_from([0.5, 0.9, 0.99, 0.999]), st.sampled_from([0.0, 1.0])).map(lambda t: [t[0] * t[1] ** k + t[2] for k in range(60)]),
)
PERIODS = st.one_of(st.sampled_from([1, 2, 3, 5, 7, 100, None, "default"]), st.integers(1, 60))


metrics = st.lists(fixed(seq=seq, early=st.booleans()), min_size=0, max_size=3)


@st.composite
def case(draw):
    name = draw(st.sampled_from(ALGS))
    with_cost = draw(st.integers(0, 3)) > 0
    if name in ("admm", "fastadmm"):
        tol, interval, rng = 1e-4, 1, 4
    else:
        tol, interval, rng = draw(st.one_of(st.sampled_from([1e-4, 0.1, 1e-2, 0.0]), st.floats(1e-9, 0.5))), draw(st.one_of(st.sampled_from([1, 1, 2, 3]), st.integers(1, 15))), draw(st.one_of(st.sampled_from([4, 4, 2, 6]), st.integers(1, 8).map(lambda k: 2 * k)))
    return {
        "name": name, "cost": draw(seq) if with_cost else None, "tol": tol, "interval": interval, "rng": rng,
        "metrics": draw(metrics) * draw(st.sampled_from([1, 1, 1, 1, 1, 1, 10, 30])), "period": draw(PERIODS),
        "iters": draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 40), st.integers(1, 40), st.integers(1, 40), st.sampled_from([120, 400])), min_size=1, max_size=2)), "progress": draw(st.integers(0, 5)) == 0,
    }


class Metric:
    def __init__(self, seq):
        self.seq, self.calls, self.seen = seq, 0, []

    def __call__(self, x, k):
        self.seen.append((np.array(x, copy=True), k))
        v = self.seq[min(self.calls, len(self.seq) - 1)]
        self.calls += 1
        return v


class MetricModel:
    """Reference model of a metric observer with its early stopping rule."""

    def __init__(self, seq, early):
        self.seq, self.early = seq, early
        self.values, self.index, self.flag, self.ambiguous = [], [], False, False

    def observe(self, idx):
        self.values.append(self.seq[min(len(self.values), len(self.seq) - 1)])
        self.index.append(idx)
        if self.early and len(self.values) >= 6:
            old, new = np.mean(self.values[-6:-3]), np.mean(self.values[-3:])
            with np.errstate(all="ignore"):
                r = np.abs(old - new) / np.abs(old)
            self.flag = bool(r < 1e-3)
            self.ambiguous |= bool(abs(r - 1e-3) < 1e-9)


def simulate(c, cost, mets, max_iter, n_cost):
    """Returns (iterations done, converged, number of cost evaluations)."""
    period = 5 if c["period"] == "default" else c["period"]
    for idx in range(max_iter):
        conv = False
        if cost is not None:
            flags = any(m.flag for m in mets)
            due = cost.due()
            v = c["cost"][min(n_cost, len(c["cost"]) - 1)]
            conv = flags or cost.step(v)
            n_cost += due
        if mets and period is not None and (idx % period == 0 or idx == max_iter - 1 or conv):
            for m in mets:
                m.observe(idx)
        if conv:
            return idx + 1, True, n_cost
    return max_iter, False, n_cost


@PROP.sub("protocol", case(), quick=5000, factor=25, shards=8, rule="metrics measured and the run stopped by the cost or by a metric, or several runs")
def protocol(c):
    cost_op = None if c["cost"] is None else Scripted(c["cost"])
    ms = [Metric(m["seq"]) for m in c["metrics"]]
    spec = {f"m{i}": {"metric": m, "mapping": {"x_new": "x", "idx": "k"}, "cst_kwargs": {}, "early_stopping": c["metrics"][i]["early"]} for i, m in enumerate(ms)}
    keys = {k: dict(v) for k, v in spec.items()}
    alg = build(c["name"], cost_op, spec or None, c["period"], tol=c["tol"], interval=c["interval"], rng=c["rng"], **({"progress": True} if c["progress"] else {}))
    cost = None if c["cost"] is None else CostModel(c["tol"], c["interval"], c["rng"])
    mets = [MetricModel(m["seq"], m["early"]) for m in c["metrics"]]
    n_cost, stopped = 0, False
    for n in c["iters"]:
        alg.iterate(max_iter=n)
        done, conv, n_cost = simulate(c, cost, mets, n, n_cost)
        if (cost and cost.ambiguous) or any(m.ambiguous for m in mets):
            return False
        tag = f"{c['name']}, iterate({n}), period {c['period']}"
        need(alg.idx == done - 1, lambda: f"{tag}: last iteration index {alg.idx}, expected {done - 1}")
        need(bool(alg.converge) == conv, lambda: f"{tag}: reported as converged: {alg.converge}, stopped early: {conv}")
        for i, m in enumerate(mets):
            got = alg.metrics[f"m{i}"]
            need(list(got["index"]) == m.index, lambda: f"{tag}: metric measured at {list(got['index'])}, expected {m.index}")
            need(list(got["values"]) == m.values, lambda: f"{tag}: metric values {list(got['values'])}, expected {m.values}")
            t = np.asarray(got["time"])
            need(t.shape == (len(m.index),) and (t.size == 0 or (t[0] == 0 and np.all(np.diff(t) >= 0))), lambda: f"{tag}: metric times {t}")
            need([k for _, k in ms[i].seen] == m.index, "iteration index passed to the metric")
        need(set(alg.metrics) == set(spec), lambda: f"{tag}: metrics reported {sorted(alg.metrics)}")
        stopped |= conv
        if conv and any(m.early for m in mets):
            break
    if cost_op is not None:
        need(cost_op.calls == n_cost or any(m.early for m in mets), lambda: f"{tag}: cost evaluated {cost_op.calls} times, expected {n_cost}")
        x = np.asarray(alg.x_final)
        if cost_op.args and c["interval"] == 1 and not any(m.early for m in mets):
            equal(cost_op.args[-1], x, f"{tag}: point at which the last cost was computed and x_final")
    if ms and ms[0].seen:
        equal(ms[0].seen[-1][0], np.asarray(alg.x_final), f"{tag}: x_new of the last metric and x_final")
    need(set(spec) == set(keys) and all(spec[k] == keys[k] for k in keys), "the user's dictionary of metrics was modified")
    return bool(ms) and (stopped or len(c["iters"]) > 1)


class Bar:
    """A stand-in for a tqdm bar which records what is asked of it."""

    def __init__(self, kind):
        self.kind, self.n, self.log = kind, 0, []

    def update(self, k=1):
        self.n += k
        self.log.append(k)

    def reset(self, total=None):
        self.log.append(("reset", total))
        self.n = 0

    def __bool__(self):
        # like tqdm: a bar without a total has no truth value, a bar of total zero is false
        if self.kind == "untotalled":
            raise TypeError("bool() undefined when iterable == total == None")
        return self.kind != "empty"


BARS = {
    "model": lambda n, out: Bar("model"), "untotalled": lambda n, out: Bar("untotalled"), "empty": lambda n, out: Bar("empty"),
    "tqdm": lambda n, out: tqdm.tqdm(total=n, file=out, mininterval=0), "tqdm-none": lambda n, out: tqdm.tqdm(file=out, mininterval=0), "tqdm-zero": lambda n, out: tqdm.tqdm(total=0, file=out), "tqdm-outer": lambda n, out: tqdm.tqdm(total=10 * n, initial=0, file=out),
}


class Rew:
    """Reweighting which leaves the weights alone and records the bar at that time."""

    def __init__(self):
        self.bar, self.at = None, []

    def reweight(self, v):
        self.at.append(self.bar.n)


@PROP.sub("progress_bar", fixed(name=st.sampled_from(["fb", "gfb", "pogm", "condat", "condat-rew"]), n=st.lists(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 150)), min_size=1, max_size=3), cost=st.one_of(st.none(), seq), tol=st.sampled_from([1e-4, 0.1]), bar=st.sampled_from(sorted(BARS)), progress=st.booleans(), rew=st.integers(0, 3), met=st.booleans(), period=PERIODS),
          quick=600, factor=10, rule="a cost object is used, or more than one run on the same bar")
def progress_bar(c):
    """A bar handed to iterate is updated once per iteration, whatever its total, and no other bar appears."""
    rew = Rew() if c["name"] == "condat-rew" else None
    op = None if c["cost"] is None or rew else Scripted(c["cost"])
    kw = {"progress": c["progress"]}
    if rew:
        kw["reweight"] = rew
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
        spec = {"m": {"metric": Metric([1.0, 2.0]), "mapping": {"x_new": "x", "idx": "k"}, "cst_kwargs": {}, "early_stopping": False}} if c["met"] else None
        alg = build("condat" if rew else c["name"], op, spec, c["period"], tol=c["tol"], **kw)
        bar = BARS[c["bar"]](c["n"][0], out)
        model = None if op is None else CostModel(c["tol"], 1, 4)
        low = high = n_cost = 0
        for n in c["n"]:
            tag = f"{c['name']}, bar {c['bar']}, {n} iterations"
            if rew:
                rew.bar, rew.at = bar, []
                alg.iterate(max_iter=n, n_rewightings=c["rew"], progbar=bar)
                need(alg.idx == n - 1, lambda: f"{tag}: last index {alg.idx}")
                need(len(rew.at) == c["rew"], lambda: f"{tag}: {len(rew.at)} reweightings for {c['rew']}")
                low = high = n if c["rew"] else low + n
                need(rew.at == ([] if not c["rew"] else [rew.at[0]] + [n] * (c["rew"] - 1)), lambda: f"{tag}: the bar showed {rew.at} at the reweightings")
                if isinstance(bar, Bar) and c["rew"]:
                    need(bar.log[-n - 1 :] == [("reset", n)] + [1] * n, lambda: f"{tag}: asked of the bar {bar.log}")
                elif c["rew"]:
                    need(bar.total == n, lambda: f"{tag}: total of the bar {bar.total}")
            else:
                alg.iterate(max_iter=n, progbar=bar)
                done, conv, n_cost = simulate({**c, "period": 5}, model, [], n, n_cost)
                if model and model.ambiguous:
                    return False
                need(alg.idx == done - 1, lambda: f"{tag}: last index {alg.idx}, expected {done - 1}")
                low, high = low + done - conv, high + done
            need(low <= bar.n <= high, lambda: f"{tag}: the bar shows {bar.n} iterations of {high}")
        if not isinstance(bar, Bar):
            bar.close()
    need(not err.getvalue(), lambda: f"{c['name']}: output besides the bar that was handed in: {err.getvalue()!r}")
    return op is not None or len(c["n"]) > 1


@PROP.sub("resume", fixed(name=st.sampled_from([a for a in ALGS if a not in ("saga",)]), k=st.integers(1, 20), m=st.integers(1, 20)), quick=500, factor=10, rule="every case")
def resume(c):
    """iterate(k) then iterate(m) reaches the same point as iterate(k + m)."""
    one, two = build(c["name"], None, None, 5), build(c["name"], None, None, 5)
    one.iterate(max_iter=c["k"] + c["m"])
    two.iterate(max_iter=c["k"])
    mid = np.array(two.x_final)
    two.iterate(max_iter=c["m"])
    equal(two.x_final, one.x_final, f"{c['name']}: {c['k']} then {c['m']} iterations against {c['k'] + c['m']}")
    need(np.all(np.isfinite(mid)), "finite iterates")
    return True


@PROP.sub("auto", fixed(name=st.sampled_from(["fb", "gfb", "pogm", "condat"]), n=st.integers(1, 30), cost=st.one_of(st.none(), seq)), quick=300, factor=10, rule="a cost object is used")
def auto(c):
    """auto_iterate runs the default (or requested) number of iterations at construction."""
    op = None if c["cost"] is None else Scripted(c["cost"])
    cost = None if op is None else costObj([op], verbose=False)
    x, g, pr = np.array([0.5, 1.5]), make_grad(P), make_prox({"kind": "soft", "w": 0.1})
    kw = {"cost": cost, "progress": False}
    with Frozen("auto_iterate", x=x):
        if c["name"] == "fb":
            alg = al.ForwardBackward(x, g, pr, beta_param=0.4, **kw)
        elif c["name"] == "gfb":
            alg = al.GenForwardBackward(x, g, [pr], gamma_param=0.4, **kw)
        elif c["name"] == "pogm":
            alg = al.POGM(x, x, x, x, g, pr, beta_param=0.4, **kw)
        else:
            alg = al.Condat(x, x, g, pr, pr, sigma=0.3, tau=0.3, max_iter=c["n"], **kw)
    n = c["n"] if c["name"] == "condat" else 150
    model = None if op is None else CostModel()
    done, _, _ = simulate({**c, "period": 5}, model, [], n, 0)
    if model and model.ambiguous:
        return False
    need(alg.idx == done - 1, lambda: f"{c['name']}: stopped at index {alg.idx}, expected {done - 1}")
    need(np.shape(alg.x_final) == (2,), "x_final")
    return op is not None


@PROP.sub("metric_space", fixed(name=st.sampled_from(["fb", "gfb", "pogm"]), n=st.integers(1, 8), a=st.sampled_from([2.0, -1.0, 0.5])), quick=150, factor=5, shards=1, rule="every case")
def metric_space(c):
    """Metrics of the forward-backward family see the image domain: linear.adj_op of the iterate."""
    seen = []
    spec = {"m": {"metric": lambda im: seen.append(np.array(im)) or 0.0, "mapping": {"x_new": "im"}, "cst_kwargs": {}, "early_stopping": False}}
    x, g, pr = np.array([0.5, 1.5]), make_grad(P), make_prox({"kind": "soft", "w": 0.1})
    kw = {"cost": None, "progress": False, "auto_iterate": False, "metrics": spec, "metric_call_period": 1}
    lin = LinearParent(lambda v: v / c["a"], lambda v: c["a"] * v[::-1])
    if c["name"] == "fb":
        alg = al.ForwardBackward(x, g, pr, beta_param=0.4, linear=lin, **kw)
    elif c["name"] == "gfb":
        alg = al.GenForwardBackward(x, g, [pr], gamma_param=0.4, linear=lin, **kw)
    else:
        alg = al.POGM(x, x, x, x, g, pr, beta_param=0.4, linear=lin, **kw)
    for k in range(c["n"]):
        alg.iterate(max_iter=1)
        equal(seen[-1], c["a"] * np.asarray(alg.x_final)[::-1], f"{c['name']}: image given to the metric")
    need(len(seen) == c["n"], "number of metric calls")
    return True
