"""C02: ForwardBackward / FISTA produce exactly the documented sequence of iterates."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.algorithms import FISTA, ForwardBackward
from modopt.opt.linear import Identity

from harness.core import Prop
from harness.gen import fixed
from harness.oracle import Frozen, need, raises
from props.algkit import (Recorder, Stopper, close_at, grad_fn, hist_scale, make_grad, make_prox, problem, prox_ref, prox_spec, rounding, schedule)

PROP = Prop(
    "C02",
    [
        "small quadratic data terms, exact proximity operators, at most 120 iterations (300 without restarts); comparison stops where a restart or safeguard decision is within rounding of its boundary",
        "a user-supplied beta_update is exercised with lambda_update other than 'fista' only",
    ],
)

RESTARTS = ["adaptive", "adaptive-i", "adaptive-1", "adaptive-ii", "adaptive-2", "greedy"]


@st.composite
def case(draw):
    mode = draw(st.sampled_from(["const", "callable", "fista", "lazy", "cd", "restart", "restart", "restart"]))
    p = draw(problem())
    frac = draw(st.one_of(st.sampled_from([0.1, 0.5, 0.9, 1.0]), st.floats(0.01, 1.0)))
    c = {
        "p": p, "prox": draw(prox_spec(p["dt"])), "mode": mode, "beta": float(frac / p["lip"]),
        "step": draw(st.sampled_from([None, None, 0.7])), "lam": draw(st.one_of(st.sampled_from([1.0, 1.0, 0.6, 1.3]), st.floats(0.05, 1.95))),
        "n": draw(st.lists(st.integers(1, 12), min_size=1, max_size=4)), "kw": {},
        "beta_update": None, "lambda_update": None, "cost": draw(st.sampled_from(["auto", "none"])),
    }
    if c["step"]:
        c["step"] = float(c["step"] / p["lip"])
    if mode in ("const", "callable"):
        c["beta_update"] = draw(st.sampled_from([None, "half", "decay", "const"]))
        if c["beta_update"] == "decay":
            c["beta_update"] = "half"
    if mode == "callable":
        c["lambda_update"] = draw(st.sampled_from(["half", "decay", "const", "rise"]))
    kw = c["kw"]
    if mode == "lazy" or (mode == "restart" and draw(st.booleans())):
        kw["p_lazy"] = draw(st.one_of(st.sampled_from([0.5, 1.0, 0.03, 1]), st.floats(0.01, 1)))
        kw["q_lazy"] = draw(st.one_of(st.sampled_from([0.5, 1.0, 1, 0.1]), st.floats(0.01, 1)))
        kw["r_lazy"] = draw(st.one_of(st.sampled_from([4, 4.0, 2.0]), st.floats(0.5, 4)))
    if mode == "cd":
        kw["a_cd"] = draw(st.one_of(st.sampled_from([2.5, 3, 5.0, 10, 50.0]), st.floats(2.001, 100)))
    if mode == "restart":
        kw["restart_strategy"] = draw(st.sampled_from(RESTARTS))
        kw["xi_restart"] = draw(st.one_of(st.sampled_from([0.96, 0.5, 0.9]), st.floats(0.05, 0.999)))
        if kw["restart_strategy"] == "greedy":
            kw["min_beta"] = float(draw(st.one_of(st.sampled_from([0.5, 0.99]), st.floats(0.1, 2.0))) / p["lip"])
            kw["s_greedy"] = draw(st.one_of(st.sampled_from([1.1, 2.0, 1.001]), st.floats(1.0001, 3)))
            c["beta"] = float(draw(st.one_of(st.sampled_from([1.0, 1.3, 1.9]), st.floats(0.3, 2.2))) / p["lip"])
            c["step"] = None
    return c


def reference(c):
    """Yield (x, z, decisive, events) for every iteration of the documented scheme."""
    g, prox, kw = grad_fn(c["p"]), prox_ref(c["prox"]), c["kw"]
    x_old = z_old = c["p"]["x0"]
    beta = c["step"] or c["beta"]
    lam = c["lam"]
    fista = c["mode"] not in ("const", "callable")
    pp, qq, rr = kw.get("p_lazy", 1), kw.get("q_lazy", 1), kw.get("r_lazy", 4)
    t_now, n, delta0, strat = 1.0, 0, None, kw.get("restart_strategy")
    bu, lu = schedule(c["beta_update"]), schedule(c["lambda_update"])
    while True:
        x = prox(z_old - beta * g(z_old), beta)
        z = x_old + lam * (x - x_old)
        clear, safe, event = True, False, None
        if strat:
            d1, d2 = z_old - x, x - x_old
            crit = float(np.vdot(d1, d2).real)
            err = np.linalg.norm(1e-13 * (np.abs(x) + np.abs(x_old) + np.abs(z_old)) + beta * rounding(c["p"], z_old)) * 10
            clear = abs(crit) > 1e-7 * (np.linalg.norm(d1) * np.linalg.norm(d2)) + err * (np.linalg.norm(d1) + np.linalg.norm(d2) + err)
            if crit >= 0:
                z, event = x, "restart"
                if strat.startswith("adaptive"):
                    rr = rr * kw["xi_restart"]
                if strat in ("adaptive-ii", "adaptive-2"):
                    t_now = 1
            if strat == "greedy":
                delta = np.linalg.norm(x - x_old)
                if delta0 is None:
                    delta0 = kw["s_greedy"] * delta
                else:
                    safe = delta >= delta0
                    clear = clear and abs(delta - delta0) > 1e-7 * delta0 + err
                    event = "safeguard" if safe else event
        yield x, z, clear, event
        x_old, z_old = x, z
        if fista:
            if safe:
                beta = max(beta * kw["xi_restart"], kw["min_beta"])
            if strat == "greedy":
                lam = 2
            else:
                t_prev = t_now
                if c["mode"] == "cd":
                    t_now = (n + kw["a_cd"] - 1) / kw["a_cd"]
                    n += 1
                else:
                    t_now = (pp + np.sqrt(rr * t_prev**2 + qq)) * 0.5
                lam = 1 + (t_prev - 1) / t_now
        else:
            beta = bu(beta) if bu else beta
            lam = lu(lam) if lu else lam


def build(c, rec, **over):
    kw = dict(c["kw"])
    if c["mode"] in ("const", "callable"):
        kw["lambda_update"] = schedule(c["lambda_update"])
        kw["beta_update"] = schedule(c["beta_update"])
    if c["step"]:
        kw["step_size"] = c["step"]
    if c["cost"] == "none":
        kw["cost"] = None
    kw.update(over)
    return ForwardBackward(
        c["p"]["x0"], make_grad(c["p"]), make_prox(c["prox"]), beta_param=c["beta"], lambda_param=c["lam"],
        auto_iterate=False, metric_call_period=1, metrics=rec.spec(), linear=Identity(), progress=False, verbose=False, **kw,
    )


def run_and_compare(c):
    rec = Recorder("x_new", "z_new", "idx")
    with Frozen("ForwardBackward", x0=c["p"]["x0"]):
        alg = build(c, rec)
        pos, refs, it = 0, [], reference(c)
        stop = Stopper(c["p"], [c["prox"]], c["cost"] == "auto")
        ok = True
        for n in c["n"]:
            alg.iterate(max_iter=n)
            rows = rec.rows[pos:]
            done = len(rows)
            stop.check(rows, n, "ForwardBackward")
            need([r["idx"] for r in rows] == list(range(done)), lambda: f"iteration indices {[r['idx'] for r in rows]}")
            pos += done
            refs += [next(it) for _ in range(done)]
            events = set()
            scale = hist_scale([r[0] for r in refs], [r[1] for r in refs])
            for k, (row, ref) in enumerate(zip(rec.rows, refs)):
                x, z, clear, event = ref
                events.add(event)
                tag = f"ForwardBackward ({c['mode']}, {c['kw']}) iteration {k}"
                close_at(row["x_new"], x, tag + ": x", scale)
                if not clear:
                    ok = False
                    break
                close_at(row["z_new"], z, tag + ": z", scale)
            if not ok:
                break
            close_at(alg.x_final, refs[-1][0], "x_final (the last proximal iterate)", scale)
    return pos > 2 and scale > 1e-3, events


@PROP.sub("iterates", case(), quick=3500, factor=30, shards=8, rule="more than two iterations with non-negligible iterates")
def iterates(c):
    return run_and_compare(c)[0]


@PROP.sub("restarts", case().filter(lambda c: c["mode"] == "restart").flatmap(lambda c: st.sampled_from([24, 24, 60, 120]).map(lambda n: {**c, "n": [n]})), quick=2500, factor=25, shards=8,
          rule="a restart or a safeguard step happened")
def restarts(c):
    _, events = run_and_compare({**c, "cost": "none"})
    return bool(events - {None})


@PROP.sub("long", case().filter(lambda c: c["mode"] in ("const", "fista", "lazy", "cd")).flatmap(lambda c: st.integers(40, 300).map(lambda n: {**c, "n": [n], "cost": "none", "beta_update": None})),
          quick=300, factor=20, shards=4, rule="iterates not negligible after tens of iterations")
def long(c):
    return run_and_compare(c)[0]


@PROP.sub(
    "t_sequence",
    fixed(kw=st.one_of(
        fixed(), fixed(a_cd=st.one_of(st.sampled_from([2.01, 3, 7.5, 20]), st.floats(2.001, 100))),
        fixed(p_lazy=st.sampled_from([0.01, 0.5, 1, 1.0]), q_lazy=st.sampled_from([0.01, 0.5, 1]), r_lazy=st.sampled_from([1.0, 2, 4]))),
        n=st.one_of(st.integers(1, 20), st.integers(20, 500), st.integers(500, 4000)), lam=st.sampled_from([1.0, 0.3])),
    quick=400, shards=1, rule="at least three terms",
)
def t_sequence(c):
    kw, lam = dict(c["kw"]), c["lam"]
    f = FISTA(**kw)
    t, m = 1.0, 0
    for k in range(c["n"]):
        lam = f.update_lambda(lam)
        prev = t
        if "a_cd" in kw:
            t = (m + kw["a_cd"] - 1) / kw["a_cd"]
            m += 1
        else:
            t = 0.5 * (kw.get("p_lazy", 1) + np.sqrt(kw.get("r_lazy", 4) * t * t + kw.get("q_lazy", 1)))
        want = 1 + (prev - 1) / t
        need(abs(lam - want) <= 1e-10 * (1 + abs(want)), lambda: f"FISTA({kw}) relaxation parameter {k}: {lam}, expected {want}")
        need(f.is_restart(np.ones(2), np.zeros(2), np.ones(2)) is False or not f.is_restart(np.ones(2), np.zeros(2), np.ones(2)), "restart without a strategy")
        need(f.update_beta(0.25) == 0.25, "update_beta changed the step without a safeguard")
    return c["n"] > 2


BAD_FISTA = [
    {"a_cd": 2}, {"a_cd": 1.5}, {"a_cd": 0}, {"a_cd": -3},
    {"restart_strategy": "foo"}, {"restart_strategy": "Adaptive"}, {"restart_strategy": "adaptive-3", "xi_restart": 0.5},
    {"restart_strategy": "adaptive"}, {"restart_strategy": "adaptive", "xi_restart": 1.0}, {"restart_strategy": "adaptive-i", "xi_restart": 1.5},
    {"restart_strategy": "greedy", "xi_restart": 0.5}, {"restart_strategy": "greedy", "xi_restart": 0.5, "min_beta": 1.0},
    {"restart_strategy": "greedy", "xi_restart": 0.5, "s_greedy": 1.1}, {"restart_strategy": "greedy", "xi_restart": 0.5, "min_beta": 1.0, "s_greedy": 1.0},
    {"restart_strategy": "greedy", "xi_restart": 0.5, "min_beta": 1.0, "s_greedy": 0.5}, {"restart_strategy": "greedy", "min_beta": 1.0, "s_greedy": 1.1},
    {"restart_strategy": "adaptive", "a_cd": 3, "xi_restart": 0.5},
]
BAD_TYPE = [
    {"beta_param": 1}, {"beta_param": "1.0"}, {"lambda_param": 1}, {"lambda_param": None}, {"beta_param": [1.0]},
    {"beta_update": 1, "lambda_update": None}, {"lambda_update": 1.0}, {"lambda_update": "FISTA"}, {"metrics": [1]},
]


@PROP.sub("reject", fixed(i=st.integers(0, len(BAD_FISTA) - 1), j=st.integers(0, len(BAD_TYPE) - 1), x=st.sampled_from(["[1.0]", "1.0", "None", "(1.0,)"])), quick=200, shards=1, rule="every case is an invalid configuration")
def reject(c):
    bad = dict(BAD_FISTA[c["i"]])
    raises(ValueError, lambda: FISTA(**bad), f"FISTA({bad})")
    p = {"A": np.eye(2), "b": np.ones(2), "shape": (2,)}
    g, pr = make_grad(p), make_prox({"kind": "soft", "w": 1.0})
    kw = {"auto_iterate": False, "progress": False}
    raises(ValueError, lambda: ForwardBackward(np.ones(2), g, pr, **kw, **bad), f"ForwardBackward({bad})")
    typ = dict(BAD_TYPE[c["j"]])
    raises(TypeError, lambda: ForwardBackward(np.ones(2), g, pr, **kw, **typ), f"ForwardBackward({typ})")
    raises(TypeError, lambda: ForwardBackward(eval(c["x"]), g, pr, **kw), f"ForwardBackward(x={c['x']})")
    raises(ValueError, lambda: ForwardBackward(np.ones(2), g, pr, metrics=Recorder("x_new").spec(), **kw), "metrics without a linear operator")
    return True
