"""C04: POGM produces the documented proximal optimised gradient sequence."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.algorithms import POGM
from modopt.opt.linear import Identity

from harness.core import Prop
from harness.gen import array, fixed
from harness.oracle import Frozen, need, raises
from props.algkit import (Recorder, Stopper, close_at, grad_fn, hist_scale, make_grad, make_prox, problem, prox_ref, prox_spec, rounding)

PROP = Prop("C04", ["small quadratic data terms, exact proximity operators; comparison stops where a restart or sigma decision is within rounding of its boundary"])


@st.composite
def case(draw, lo=1, hi=12):
    p = draw(problem())
    shp = p["shape"]
    distinct = draw(st.booleans())
    start = {k: (draw(array(shp, dtype=p["dt"], styles=("normal", "ints", "const"), scale=False)) if distinct else p["x0"]) for k in "uyz"}
    return {
        "p": p, "start": start, "prox": draw(prox_spec(p["dt"])), "beta": float(draw(st.one_of(st.sampled_from([0.1, 0.5, 0.9, 1.0]), st.floats(0.02, 1.0))) / p["lip"]),
        "step": draw(st.sampled_from([None, None, float(0.7 / p["lip"])])), "sigma_bar": draw(st.one_of(st.sampled_from([0.0, 0.5, 0.96, 1.0]), st.floats(0.0, 1.0))),
        "n": draw(st.lists(st.integers(lo, hi), min_size=1, max_size=4)), "cost": draw(st.sampled_from(["auto", "none"])),
    }


def reference(c):
    g, prox = grad_fn(c["p"]), prox_ref(c["prox"])
    x, u, y, z = c["p"]["x0"], c["start"]["u"], c["start"]["y"], c["start"]["z"]
    beta = c["step"] or c["beta"]
    xi = sigma = t = 1.0
    g_old = g(x)
    while True:
        gr = g(x)
        un = x - beta * gr
        tn = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
        r1, r2 = (t - 1) / tn, sigma * t / tn
        zn = un + r1 * (un - u) + r2 * (un - x) + r1 * beta / xi * (z - x)
        xin = beta * (1 + r1 + r2)
        xn = prox(zn, xin)
        gn = gr - (xn - zn) / xin
        yn = x - beta * gn
        c1 = float(np.vdot(-gn, yn - y).real)
        c2 = float(np.vdot(gn, g_old).real)
        n1 = np.linalg.norm(gn) * np.linalg.norm(yn - y)
        n2 = np.linalg.norm(gn) * np.linalg.norm(g_old)
        ex = 10 * np.linalg.norm(1e-13 * (np.abs(x) + np.abs(xn) + np.abs(zn)) + beta * rounding(c["p"], x))
        eg = 10 * (np.linalg.norm(rounding(c["p"], x)) + ex / beta)
        clear, event = abs(c1) > 1e-7 * n1 + eg * np.linalg.norm(yn - y) + ex * (np.linalg.norm(gn) + eg), None
        if c1 < 0:
            tn, sigma, event = 1, 1, "restart"
        else:
            clear = clear and abs(c2) > 1e-7 * n2 + eg * (np.linalg.norm(gn) + np.linalg.norm(g_old) + eg)
            if c2 < 0:
                sigma, event = sigma * c["sigma_bar"], "sigma"
        yield {"u_new": un, "x_new": xn, "y_new": yn, "z_new": zn, "xi": xin, "sigma": sigma, "t": tn}, clear, event
        x, u, y, z, xi, t, g_old = xn, un, yn, zn, xin, tn, gn


def compare(c):
    keys = ("u_new", "x_new", "y_new", "z_new", "xi", "sigma", "t")
    rec = Recorder(*keys, "idx")
    kw = {"step_size": c["step"]} if c["step"] else {}
    if c["cost"] == "none":
        kw["cost"] = None
    s = c["start"]
    with Frozen("POGM", x0=c["p"]["x0"], **s):
        alg = POGM(
            s["u"], c["p"]["x0"], s["y"], s["z"], make_grad(c["p"]), make_prox(c["prox"]), beta_param=c["beta"], sigma_bar=c["sigma_bar"],
            auto_iterate=False, metric_call_period=1, metrics=rec.spec(), linear=Identity(), progress=False, **kw,
        )
        it, refs, pos, ok, events = reference(c), [], 0, True, set()
        stop = Stopper(c["p"], [c["prox"]], c["cost"] == "auto")
        for n in c["n"]:
            alg.iterate(max_iter=n)
            rows = rec.rows[pos:]
            done = len(rows)
            stop.check(rows, n, "POGM")
            need([r["idx"] for r in rows] == list(range(done)), "iteration indices")
            pos += done
            refs += [next(it) for _ in range(done)]
            scale = hist_scale(*[[r[0][k] for r in refs] for k in ("u_new", "x_new", "z_new", "y_new")])
            for k, (row, (ref, clear, event)) in enumerate(zip(rec.rows, refs)):
                events.add(event)
                for key in keys:
                    if not clear and key in ("sigma", "t"):
                        continue
                    sc = scale if key.endswith("_new") else max(1.0, abs(ref[key]))
                    close_at(row[key], ref[key], f"POGM iteration {k}: {key}", sc)
                if not clear:
                    ok = False
                    break
            if not ok:
                break
            close_at(alg.x_final, refs[-1][0]["x_new"], "x_final", scale)
    return pos > 2 and scale > 1e-3, events


@PROP.sub("iterates", case(), quick=3000, factor=30, shards=8, rule="more than two iterations with non-negligible iterates")
def iterates(c):
    return compare(c)[0]


@PROP.sub("restarts", case(lo=12, hi=60), quick=1500, factor=25, shards=8, rule="a restart or a sigma decrease happened")
def restarts(c):
    return bool(compare({**c, "cost": "none"})[1] - {None})


class ConstGrad:
    """The gradient of <c, x>: it hands out the same array at every call."""

    def __init__(self, c):
        self.c = c

    def get_grad(self, x):
        self.grad = self.c

    def cost(self, x, *a, **k):
        return float(np.vdot(self.c, x))


@PROP.sub("borrowed_gradient", fixed(c=array((3,)), x=array((3,)), n=st.integers(1, 6)), quick=200, shards=1, rule="non-zero gradient")
def borrowed_gradient(c):
    g, x = c["c"], c["x"]
    with Frozen("POGM", gradient=g, x=x):
        POGM(x, x, x, x, ConstGrad(g), make_prox({"kind": "soft", "w": 0.3}), cost=None, auto_iterate=False, progress=False).iterate(c["n"])
    return bool(np.any(g))


BAD = [
    ("ValueError", {"sigma_bar": -0.1}), ("ValueError", {"sigma_bar": 1.1}), ("TypeError", {"sigma_bar": 1}), ("TypeError", {"beta_param": 1}),
    ("TypeError", {"u": [1.0]}), ("TypeError", {"x": 1.0}), ("TypeError", {"y": None}), ("TypeError", {"z": "z"}), ("TypeError", {"metrics": 3}),
]


@PROP.sub("reject", fixed(i=st.integers(0, len(BAD) - 1)), quick=60, shards=1, rule="every case is an invalid configuration")
def reject(c):
    exc, bad = BAD[c["i"]]
    kw = {"u": np.ones(2), "x": np.ones(2), "y": np.ones(2), "z": np.ones(2), **bad}
    p = {"A": np.eye(2), "b": np.ones(2), "shape": (2,)}
    raises(eval(exc), lambda: POGM(grad=make_grad(p), prox=make_prox({"kind": "soft", "w": 1.0}), auto_iterate=False, progress=False, **kw), f"POGM({bad})")
    return True
