"""C03: GenForwardBackward produces the documented generalised forward-backward sequence."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.algorithms import GenForwardBackward
from modopt.opt.linear import Identity

from harness.core import Prop
from harness.gen import fixed
from harness.oracle import Frozen, equal, need, raises
from props.algkit import (Recorder, Stopper, close_at, grad_fn, hist_scale, make_grad, make_prox, problem, prox_ref, prox_spec, schedule)

PROP = Prop("C03", ["small quadratic data terms, one to seven exact proximity operators, at most 24 iterations (300 in the long histories)"])


@st.composite
def case(draw, lo=1, hi=12):
    p = draw(problem())
    k = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 7]))
    raw = draw(st.lists(st.integers(1, 9), min_size=k, max_size=k))
    wkind = draw(st.sampled_from(["none", "list", "tuple", "array"]))
    w = [r / sum(raw) for r in raw]
    return {
        "p": p, "prox": draw(st.lists(prox_spec(p["dt"]), min_size=k, max_size=k)), "w": w, "wkind": wkind,
        "gamma": float(draw(st.sampled_from([0.1, 0.5, 1.0, 1.5])) / p["lip"]),
        "step": draw(st.sampled_from([None, None, float(0.7 / p["lip"])])),
        "lam": draw(st.one_of(st.sampled_from([1.0, 1.0, 0.6, 0.9]), st.floats(0.05, 1.95))), "n": draw(st.lists(st.integers(lo, hi), min_size=1, max_size=4)),
        "gu": draw(st.sampled_from([None, None, "half", "const"])), "lu": draw(st.sampled_from([None, None, "half", "decay", "rise"])),
        "cost": draw(st.sampled_from(["auto", "none"])), "seq": draw(st.sampled_from(["list", "tuple"])),
    }


def weights_of(c):
    k = len(c["prox"])
    return [1.0 / k] * k if c["wkind"] == "none" else c["w"]


def reference(c):
    g, pr, w = grad_fn(c["p"]), [prox_ref(s) for s in c["prox"]], weights_of(c)
    x = c["p"]["x0"]
    z = [x for _ in pr]
    gam, lam = c["step"] or c["gamma"], c["lam"]
    gu, lu = schedule(c["gu"]), schedule(c["lu"])
    while True:
        gr = g(x)
        z = [zi + lam * (f(2 * x - zi - gam * gr, gam / wi) - x) for zi, f, wi in zip(z, pr, w)]
        x = sum(wi * zi for wi, zi in zip(w, z))
        yield x, np.array(z)
        gam = gu(gam) if gu else gam
        lam = lu(lam) if lu else lam


def compare(c):
    rec = Recorder("x_new", "z_new", "idx")
    w = {"none": None, "list": list(c["w"]), "tuple": tuple(c["w"]), "array": np.array(c["w"])}[c["wkind"]]
    kw = {"step_size": c["step"]} if c["step"] else {}
    if c["cost"] == "none":
        kw["cost"] = None
    ops = [make_prox(s) for s in c["prox"]]
    arg = ops if c["seq"] == "list" else tuple(ops)
    with Frozen("GenForwardBackward", x0=c["p"]["x0"], w=w):
        alg = GenForwardBackward(
            c["p"]["x0"], make_grad(c["p"]), arg, gamma_param=c["gamma"], lambda_param=c["lam"],
            gamma_update=schedule(c["gu"]), lambda_update=schedule(c["lu"]), weights=w, auto_iterate=False,
            metric_call_period=1, metrics=rec.spec(), linear=Identity(), progress=False, **kw,
        )
        it, refs, pos = reference(c), [], 0
        stop = Stopper(c["p"], c["prox"], c["cost"] == "auto")
        for n in c["n"]:
            alg.iterate(max_iter=n)
            rows = rec.rows[pos:]
            done = len(rows)
            stop.check(rows, n, "GenForwardBackward")
            need([r["idx"] for r in rows] == list(range(done)), "iteration indices")
            pos += done
            refs += [next(it) for _ in range(done)]
            scale = hist_scale([r[0] for r in refs], [r[1] for r in refs])
            for k, (row, ref) in enumerate(zip(rec.rows, refs)):
                tag = f"GenForwardBackward ({len(ops)} operators, weights {c['wkind']}) iteration {k}"
                close_at(row["z_new"], ref[1], tag + ": z", scale)
                close_at(row["x_new"], ref[0], tag + ": x", scale)
            close_at(alg.x_final, refs[-1][0], "x_final", scale)
        need(len(ops) == len(c["prox"]), "the list of operators was modified")
    return pos > 2 and len(ops) > 1 and scale > 1e-3


@PROP.sub("iterates", case(), quick=3000, factor=30, shards=8, rule="at least two operators, more than two iterations, non-negligible iterates")
def iterates(c):
    return compare(c)


@PROP.sub("long", case(lo=40, hi=300), quick=200, factor=20, shards=4, rule="at least two operators, non-negligible iterates")
def long(c):
    return compare({**c, "cost": "none", "n": c["n"][:1], "gu": None, "lu": None})


BAD = [
    ("ValueError", {"weights": [0.5, 0.6]}), ("ValueError", {"weights": [0.5, 0.25]}), ("ValueError", {"weights": [1.0]}),
    ("ValueError", {"weights": [0.5, 0.25, 0.25]}), ("ValueError", {"weights": [1, 0]}), ("TypeError", {"weights": 0.5}),
    ("TypeError", {"weights": "0.5"}), ("TypeError", {"weights": {0.5}}), ("TypeError", {"gamma_param": 1}), ("TypeError", {"lambda_param": "a"}),
    ("TypeError", {"gamma_update": 1}), ("TypeError", {"lambda_update": 1.0}), ("TypeError", {"x": [1.0, 2.0]}), ("ValueError", {"weights": np.array([0.9, 0.2])}),
    ("ValueError", {"metrics": True}),
]


@PROP.sub("reject", fixed(i=st.integers(0, len(BAD) - 1), w=st.floats(0.05, 0.95), off=st.one_of(st.floats(1e-3, 10.0), st.floats(-0.9, -1e-3), st.sampled_from([1e-3, -1e-3, 5e-3]))), quick=200, shards=1, rule="every case is an invalid configuration")
def reject(c):
    exc, bad = BAD[c["i"]]
    bad = dict(bad)
    x = bad.pop("x", np.ones(2))
    if bad.get("metrics"):
        bad["metrics"] = Recorder("x_new").spec()
    p = {"A": np.eye(2), "b": np.ones(2), "shape": (2,)}
    ops = [make_prox({"kind": "soft", "w": 1.0}), make_prox({"kind": "pos", "w": 1.0})]
    raises(eval(exc), lambda: GenForwardBackward(x, make_grad(p), ops, auto_iterate=False, progress=False, **bad), f"GenForwardBackward({bad})")
    # weights that sum to one are accepted, and any other sum is not
    w = [c["w"], 1.0 - c["w"]]
    GenForwardBackward(np.ones(2), make_grad(p), ops, weights=w, auto_iterate=False, progress=False)
    off = [w[0] + c["off"] * 0.7, w[1] + c["off"] * 0.3]
    raises(ValueError, lambda: GenForwardBackward(np.ones(2), make_grad(p), ops, weights=off, auto_iterate=False, progress=False), f"GenForwardBackward(weights={off})")
    return True
