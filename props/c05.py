"""C05: Condat produces the documented primal-dual sequence, with and without reweighting."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.algorithms import Condat
from modopt.opt.cost import costObj
from modopt.opt.linear import LinearParent
from modopt.opt.proximity import ProximityParent

from harness.core import Prop
from harness.gen import array, fixed
from harness.oracle import Frozen, need, raises, soft
from props.algkit import (Recorder, Stopper, close_at, grad_fn, hist_scale, make_grad, make_prox, problem, prox_ref, prox_spec, schedule)

PROP = Prop("C05", ["small quadratic data terms, linear operator given as a matrix or absent, exact proximity operators"])


@st.composite
def case(draw, lo=1, hi=10):
    p = draw(problem())
    n = int(np.prod(p["shape"]))
    dt = complex if p["dt"].startswith("c") else float
    lin = draw(st.integers(0, 3))
    if lin:
        q = draw(st.sampled_from([1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 40]))
        L = draw(array((q, n), dtype=dt, styles=("normal", "ints", "sparse"), scale=False))
        y0 = draw(array((q,), dtype=dt, styles=("normal", "const", "ints"), scale=False))
        L = L * draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 0.05, 100.0]))
        nl = max(float(np.linalg.norm(L, 2)), 1e-6)
    else:
        L, nl = None, 1.0
        y0 = draw(array(p["shape"], dtype=dt, styles=("normal", "const", "ints"), scale=False))
    sigma = float(draw(st.sampled_from([0.5, 1.0, 0.1])) * p["lip"] / nl**2)
    rew = draw(st.sampled_from([None, None, 0, 1, 2, 3, 9]))
    return {
        "p": p, "L": L, "y0": y0, "rho": draw(st.one_of(st.sampled_from([0.5, 1.0, 0.8, 0.3]), st.floats(0.05, 1.999))), "sigma": sigma,
        "tau": float(draw(st.sampled_from([0.3, 0.9])) / (p["lip"] / 2 + sigma * nl**2)),
        "step": draw(st.sampled_from([False, False, True])),
        "prox": draw(prox_spec(p["dt"])), "dual": draw(prox_spec(p["dt"])) if rew is None else {"kind": "soft", "w": draw(st.sampled_from([0.3, 1.0]))},
        "ru": draw(st.sampled_from([None, None, None, "half", "decay", "rise"])), "su": draw(st.sampled_from([None, None, "half", "decay"])),
        "tu": draw(st.sampled_from([None, None, "half"])), "n": draw(st.lists(st.integers(lo, hi), min_size=1, max_size=4)),
        "stops": draw(st.one_of(st.just([]), st.lists(st.integers(0, 60), max_size=8, unique=True))) if rew is not None else [],
        "rew": rew, "cost": draw(st.sampled_from(["auto", "none"])), "auto": draw(st.booleans()),
    }


class Reweight:
    """Reweighting object sharing its weights with the dual proximity operator."""

    def __init__(self, w0, shape):
        self.weights = np.full(shape, w0)
        self.calls = 0

    def reweight(self, data):
        self.calls += 1
        self.weights *= 1.0 / (1.0 + np.abs(np.array(data)))


class LooseCost(costObj):
    """A cost object announcing convergence at chosen evaluations."""

    def __init__(self, at):
        super().__init__(None, verbose=False)
        self.at, self.n = set(at), 0

    def get_cost(self, *args, **kwargs):
        self.n += 1
        return self.n - 1 in self.at


def stages(n, n_rw, at, done):
    """How many iterations each stage takes when the cost converges at the evaluations ``at``."""
    out = []
    for _ in range(1 + n_rw):
        k = next((i + 1 for i in range(n) if done + i in at), n)
        out.append(k)
        done += k
    return out


def reference(c):
    p = c["p"]
    g, pr, du = grad_fn(p), prox_ref(c["prox"]), prox_ref(c["dual"])
    L, shape = c["L"], p["shape"]
    op = (lambda v: L @ v.reshape(-1)) if L is not None else (lambda v: v)
    adj = (lambda v: (L.conj().T @ v).reshape(shape)) if L is not None else (lambda v: v)
    x, y, w = p["x0"], c["y0"], np.full(c["y0"].shape, c["dual"]["w"])
    rho, sig, tau = c["rho"], c["sigma"], c["tau"]
    ru, su, tu = schedule(c["ru"]), schedule(c["su"]), schedule(c["tu"])
    while True:
        xp = pr(x - tau * g(x) - tau * adj(y), tau)
        yt = y + sig * op(2 * xp - x)
        d = soft(yt / sig, w / sig) if c["rew"] is not None else du(yt / sig, 1 / sig)
        yp = yt - sig * d
        x, y = rho * xp + (1 - rho) * x, rho * yp + (1 - rho) * y
        act = yield x, y
        rho, sig, tau = (ru(rho) if ru else rho), (su(sig) if su else sig), (tu(tau) if tu else tau)
        if act == "reweight":
            w = w / (1.0 + np.abs(op(x)))


def compare(c):
    p, L, shape = c["p"], c["L"], c["p"]["shape"]
    rec = Recorder("x_new", "y_new", "idx")
    kw = {}
    if L is not None:
        kw["linear"] = LinearParent(lambda v: L @ np.array(v).reshape(-1), lambda v: (L.conj().T @ np.array(v)).reshape(shape))
    if c["rew"] is not None:
        rw = Reweight(c["dual"]["w"], c["y0"].shape)
        dual = ProximityParent(lambda v, extra_factor=1.0: soft(v, rw.weights * extra_factor), lambda v, *a, **k: 0.0)
        kw["reweight"] = rw
    else:
        dual = make_prox(c["dual"])
    if c["step"]:
        kw["step_size"] = c["tau"]
    if c["rew"] is not None:
        kw["cost"] = LooseCost(c["stops"]) if c["stops"] else None
    elif c["cost"] == "none":
        kw["cost"] = None
    n_rw = c["rew"] if c["rew"] is not None else 1
    auto = c["auto"]
    if auto:
        kw.update(max_iter=c["n"][0], n_rewightings=n_rw)
    with Frozen("Condat", x0=p["x0"], y0=c["y0"]):
        alg = Condat(
            p["x0"], c["y0"], make_grad(p), make_prox(c["prox"]), dual, rho=c["rho"], sigma=c["sigma"], tau=0.123 if c["step"] else c["tau"],
            rho_update=schedule(c["ru"]), sigma_update=schedule(c["su"]), tau_update=schedule(c["tu"]), auto_iterate=auto,
            metric_call_period=1, metrics=rec.spec(), progress=False, **kw,
        )
        it, refs, pos, first = reference(c), [], 0, True
        stop = Stopper(p, [c["prox"], c["dual"]], "cost" not in kw)
        for n in c["n"]:
            if not (auto and first):
                alg.iterate(max_iter=n, n_rewightings=n_rw)
            rows = rec.rows[pos:]
            pos += len(rows)
            if c["rew"] is None:
                stop.check(rows, n, "Condat", lambda row: (row["x_new"], row["x_new"], row["x_new"]))
                marks = set()
                need([r["idx"] for r in rows] == list(range(len(rows))), "iteration indices")
            else:
                runs = stages(n, n_rw, set(c["stops"]), pos - len(rows))
                need([r["idx"] for r in rows] == [i for k in runs for i in range(k)], lambda: f"iteration indices of {n} iterations with {n_rw} reweightings, converging at {c['stops']}: {[r['idx'] for r in rows]}")
                marks = {int(v) - 1 for v in np.cumsum(runs)[:-1]}
            act = None
            for k in range(len(rows)):
                refs.append(next(it) if first else it.send(act))
                first = False
                act = "reweight" if k in marks else None
            scale = hist_scale([r[0] for r in refs], [r[1] for r in refs])
            for k, (row, ref) in enumerate(zip(rec.rows, refs)):
                tag = f"Condat iteration {k} (reweightings {c['rew']})"
                close_at(row["x_new"], ref[0], tag + ": x", scale)
                close_at(row["y_new"], ref[1], tag + ": y", scale)
            close_at(alg.x_final, refs[-1][0], "x_final", scale)
            close_at(alg.y_final, refs[-1][1], "y_final", scale)
    return pos > 2 and scale > 1e-3


@PROP.sub("iterates", case(), quick=4000, factor=30, shards=8, rule="more than two iterations with non-negligible iterates")
def iterates(c):
    return compare(c)


@PROP.sub("long", case(lo=40, hi=200), quick=200, factor=20, shards=4, rule="more than two iterations with non-negligible iterates")
def long(c):
    return compare({**c, "cost": "none", "n": c["n"][:1], "tu": None, "su": None})


BAD = [{"rho": 1}, {"sigma": 1}, {"tau": "1.0"}, {"rho_update": 1}, {"sigma_update": 0.5}, {"tau_update": "f"}, {"x": [1.0, 1.0]}, {"y": 1.0}, {"metrics": 3}]


@PROP.sub("reject", fixed(i=st.integers(0, len(BAD) - 1)), quick=60, shards=1, rule="every case is an invalid configuration")
def reject(c):
    kw = {"x": np.ones(2), "y": np.ones(2), **BAD[c["i"]]}
    p = {"A": np.eye(2), "b": np.ones(2), "shape": (2,)}
    pr = make_prox({"kind": "soft", "w": 1.0})
    raises(TypeError, lambda: Condat(grad=make_grad(p), prox=pr, prox_dual=pr, auto_iterate=False, progress=False, **kw), f"Condat({BAD[c['i']]})")
    return True
