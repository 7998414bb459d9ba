"""C28: observers see every notification exactly once, in order, over any history."""
import numpy as np
from hypothesis import strategies as st
from modopt.base.observable import MetricObserver, Observable

from harness.core import Prop
from harness.gen import elem, fixed, seeds
from harness.oracle import close, equal, need, raises

PROP = Prop("C28", ["single thread; observers added or removed during a notification are only required not to disturb the other observers", "metric windows of at least two values; cases within 1e-9 of the tolerance are not decided"])

SIGNALS = ["a", "cv"]
N_OBS = 4
KINDS = ["plain", "plain", "plain", "raise", "reenter", "remove_self", "add_other"]
step = st.one_of(
    st.tuples(st.just("add"), st.sampled_from(SIGNALS), st.integers(0, N_OBS - 1)),
    st.tuples(st.just("add"), st.sampled_from(SIGNALS), st.integers(0, N_OBS - 1)),
    st.tuples(st.just("remove"), st.sampled_from(SIGNALS), st.integers(0, N_OBS - 1)),
    st.tuples(st.just("notify"), st.sampled_from(SIGNALS), st.dictionaries(st.sampled_from(["x", "idx", "name"]), elem, max_size=3)),
    st.tuples(st.just("bad"), st.sampled_from(["zz", "A", ""]), st.integers(0, 3)),
)


class Boom(Exception):
    pass


class Obs:
    def __init__(self, name, kind, host, log):
        self.name, self.kind, self.host, self.log = name, kind, host, log
        self.other = None

    def __call__(self, signal):
        kw = {k: v for k, v in vars(signal).items() if k not in ("object", "signal")}
        self.log.append((self.name, signal.signal, kw, signal.object is self.host))
        if self.kind == "raise":
            raise Boom(self.name)
        if self.kind == "reenter":
            got = self.host.notify_observers(signal.signal, x=-1.0)
            need(got is False, "a notification started while one is in progress was not refused")
        if self.kind == "remove_self":
            self.host.remove_observer(signal.signal, self)
        if self.kind == "add_other":
            self.host.add_observer(signal.signal, self.other)


@PROP.sub("history", fixed(kinds=st.lists(st.sampled_from(KINDS), min_size=N_OBS, max_size=N_OBS), steps=st.one_of(st.lists(step, min_size=1, max_size=8), st.lists(step, min_size=10, max_size=30)), gen=st.booleans()), quick=4000, factor=25, shards=8, rule="a notification reached at least two observers")
def history(c):
    host = Observable((s for s in SIGNALS) if c["gen"] else list(SIGNALS))
    log = []
    obs = [Obs(i, k, host, log) for i, k in enumerate(c["kinds"])]
    extra = Obs("extra", "plain", host, log)
    for o in obs:
        o.other = extra
    model = {s: [] for s in SIGNALS}
    many = False
    need(list(host.allowed_signals) == SIGNALS, lambda: f"allowed signals {host.allowed_signals}")
    for st_ in c["steps"]:
        if st_[0] == "add":
            host.add_observer(st_[1], obs[st_[2]])
            if obs[st_[2]] not in model[st_[1]]:
                model[st_[1]].append(obs[st_[2]])
        elif st_[0] == "remove":
            host.remove_observer(st_[1], obs[st_[2]])
            if obs[st_[2]] in model[st_[1]]:
                model[st_[1]].remove(obs[st_[2]])
        elif st_[0] == "bad":
            raises(ValueError, lambda: host.add_observer(st_[1], obs[0]), "add_observer for a signal that is not allowed")  # noqa: B023
            raises(ValueError, lambda: host.remove_observer(st_[1], obs[0]), "remove_observer for a signal that is not allowed")  # noqa: B023
            raises((KeyError, ValueError), lambda: host.notify_observers(st_[1]), "notification of a signal that is not allowed")  # noqa: B023
        else:
            sig, kw = st_[1], st_[2]
            del log[:]
            expected, boom = [], False
            present = list(model[sig])
            for o in present:
                expected.append((o.name, sig, dict(kw), True))
                if o.kind == "raise":
                    boom = True
                    break
                if o.kind == "remove_self":
                    model[sig].remove(o)
                if o.kind == "add_other" and extra not in model[sig]:
                    model[sig].append(extra)
            if boom:
                raises(Boom, lambda: host.notify_observers(sig, **kw), "an observer raised")  # noqa: B023
            else:
                got = host.notify_observers(sig, **kw)
                need(got is True, lambda: f"notify_observers returned {got!r} for a completed notification")  # noqa: B023
            seen = [e for e in log if e[0] != "extra" or extra in present]
            need(seen == expected, lambda: f"observers called: {seen}, expected {expected}")  # noqa: B023
            many |= len(expected) > 1
    return many


@PROP.sub("crowd", fixed(n=st.integers(10, 300), seed=seeds), quick=150, factor=10, shards=2, rule="every case")
def crowd(c):
    """Hundreds of observers: each is told once, in the order in which they were added."""
    rs = np.random.RandomState(c["seed"] % 2**32)
    host, log = Observable(SIGNALS), []
    obs = [Obs(i, "plain", host, log) for i in range(c["n"])]
    for o in obs:  # whatever they look like: attributes that metric observers have
        for name in ("early_stopping", "converge_flag"):
            if rs.randint(3) == 0:
                setattr(o, name, bool(rs.randint(2)))
        if rs.randint(3) == 0:
            o.priority = int(rs.randint(5))
    model = {s: [] for s in SIGNALS}
    told = {f"x{i}" if i else "x": float(i) for i in range(1 + c["n"] % 45)}
    for _ in range(3):
        for sig in SIGNALS:
            for i in rs.permutation(c["n"])[: rs.randint(0, c["n"] + 1)]:
                host.add_observer(sig, obs[i])
                if i not in model[sig]:
                    model[sig].append(i)
            for i in rs.permutation(c["n"])[: rs.randint(0, c["n"] // 3)]:
                host.remove_observer(sig, obs[i])
                if i in model[sig]:
                    model[sig].remove(i)
        for sig in SIGNALS:
            del log[:]
            need(host.notify_observers(sig, **told) is True, "notify_observers did not return True")
            need([e[0] for e in log] == model[sig], lambda: f"{sig}: {len(log)} observers called, {len(model[sig])} present")  # noqa: B023
            need(all(e[1:] == (sig, told, True) for e in log), "an observer was told something else")  # noqa: B023
    return True


class Sig:
    pass


@st.composite
def metric_case(draw):
    vals = draw(st.one_of(
        st.lists(st.one_of(elem, st.sampled_from([1.0, 1.0, 1.0005, 1.002])), min_size=1, max_size=25),
        st.tuples(st.sampled_from([1.0, -5.0, 100.0]), st.sampled_from([0.5, 0.9, 0.999, 1.0]), st.sampled_from([0.0, 2.0])).map(lambda t: [t[0] * t[1] ** k + t[2] for k in range(25)]),
    ))
    return {
        "vals": vals, "idx": draw(st.lists(st.integers(0, 50), min_size=len(vals), max_size=len(vals))), "early": draw(st.booleans()),
        "wind": draw(st.sampled_from([None, 2, 3, 4, 5, 6, 7, 10])), "eps": draw(st.sampled_from([None, 1e-3, 0.1, 1e-6, 0.5])),
        "map": draw(st.sampled_from(["one", "two", "none", "rename", "many"])), "cst": draw(st.booleans()),
    }


@PROP.sub("metric", metric_case(), quick=4000, factor=25, shards=8, rule="early stopping with a full window")
def metric(c):
    calls = []

    def fn(**kw):
        calls.append(kw)
        return c["vals"][len(calls) - 1]

    mapping = {"one": {"x_new": "test"}, "two": {"x_new": "test", "y_new": "ref"}, "many": {f"v{i}": f"a{(i * 7) % 31}" for i in range(31)}, "none": {"x_new": "test", "y_new": None, "absent": None}, "rename": {"y_new": "x_new", "x_new": "y_new"}}[c["map"]]
    cst = {"mask": 7, "test": "constant"} if c["cst"] else {}
    kw = {}
    if c["wind"] is not None:
        kw["wind"] = c["wind"]
    if c["eps"] is not None:
        kw["eps"] = c["eps"]
    keep_map, keep_cst = dict(mapping), dict(cst)
    m = MetricObserver("m", fn, mapping, cst, early_stopping=c["early"], **kw)
    wind, eps = c["wind"] or 6, 1e-3 if c["eps"] is None else c["eps"]
    empty = m.retrieve_metrics()
    need(len(empty["time"]) == 0 and list(empty["index"]) == [] and list(empty["values"]) == [], "metrics before the first call")
    full, flag = False, False
    for k, v in enumerate(c["vals"]):
        s = Sig()
        s.x_new, s.y_new, s.idx = ("x", k), ("y", k), c["idx"][k]
        for i in range(31):
            setattr(s, f"v{i}", (i, k))
        m(s)
        want = {kv: getattr(s, key) for key, kv in keep_map.items() if kv is not None}
        want.update(keep_cst)
        need(calls[-1] == want and len(calls) == k + 1, lambda: f"metric called with {calls[-1]}, expected {want}")  # noqa: B023
        hist = c["vals"][: k + 1]
        if c["early"] and len(hist) >= wind:
            half = wind // 2
            old, new = np.mean(hist[-wind:-half]), np.mean(hist[-half:])
            with np.errstate(all="ignore"):
                r = np.abs(old - new) / np.abs(old)
            if np.isfinite(r) and abs(r - eps) < 1e-9 or abs(old) < 1e-9:
                return False
            flag, full = bool(r < eps), True
        need(bool(m.converge_flag) == flag, lambda: f"convergence flag {m.converge_flag}, expected {flag} for {hist} (window {wind}, eps {eps})")  # noqa: B023
        out = m.retrieve_metrics()
        equal(np.array(out["values"]), hist, "recorded values")
        equal(np.array(out["index"]), c["idx"][: k + 1], "recorded iterations")
        t = np.asarray(out["time"])
        need(t.shape == (k + 1,) and t[0] == 0 and np.all(np.diff(t) >= 0), lambda: f"recorded times {t}")  # noqa: B023
    need(mapping == keep_map and cst == keep_cst, "mapping or constants were modified")
    return full


@PROP.sub("missing", fixed(key=st.sampled_from(["q", "z_new"])), quick=10, shards=1, rule="every case maps a variable that does not exist")
def missing(c):
    m = MetricObserver("m", lambda **kw: 1.0, {c["key"]: "x"}, {})
    s = Sig()
    s.idx, s.x_new = 0, 1
    raises(AttributeError, lambda: m(s), "mapping of a variable the algorithm does not provide")
    close(len(m.list_cv_values), 0, "values recorded by a failed call")
    return True
