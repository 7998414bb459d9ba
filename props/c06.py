"""C06: the gradient descent family follows its documented update rules."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt import algorithms as al

from harness.core import Prop
from harness.gen import array, fixed
from harness.oracle import Frozen, need, raises
from props.algkit import (Recorder, Stopper, close_at, grad_fn, hist_scale, make_grad, make_prox, problem, prox_ref, prox_spec, shaky_grad_fn)

PROP = Prop(
    "C06",
    ["small quadratic data terms and exact proximity operators", "the step is eta / (sqrt(speed) + epsilon), as coded (the class documentation writes sqrt(speed + epsilon))",
     "ADAM and SAGA as documented in their classes: ADAM feeds the corrected averages back, SAGA descends along the sum of the latest gradient of every slot of the epoch"],
)

NAMES = {
    "vanilla": al.VanillaGenericGradOpt, "ada": al.AdaGenericGradOpt, "rmsprop": al.RMSpropGradOpt,
    "momentum": al.MomentumGradOpt, "adam": al.ADAMGradOpt, "saga": al.SAGAOptGradOpt,
}
ETA_UPDATE = {None: None, "half": lambda e, i: e * 0.5, "idx": lambda e, i: e / (1.0 + i), "mix": lambda e, i: 0.5 * e + 0.01 * (i % 3)}


@st.composite
def case(draw, lo=1, hi=12):
    name = draw(st.sampled_from(sorted(NAMES)))
    p = draw(problem())
    kw = {}
    if name == "rmsprop" and draw(st.booleans()):
        kw["gamma"] = draw(st.sampled_from([0.0, 0.1, 0.9, 1.0, 0.5]))
    if name == "momentum" and draw(st.booleans()):
        kw["beta"] = draw(st.sampled_from([0.0, 0.5, 0.8]))
    if name == "adam" and draw(st.booleans()):
        kw["gamma"] = draw(st.sampled_from([0.0, 0.3, 0.999, 0.5]))
        kw["beta"] = draw(st.sampled_from([0.0, 0.3, 0.8, 0.5]))
    return {
        "name": name, "p": p, "prox": draw(prox_spec(p["dt"], kinds=["none", "soft", "ridge", "shift", "pos"])), "kw": kw,
        "eta": float(draw(st.sampled_from([0.05, 0.3, 0.9])) * (1 / p["lip"] if name in ("vanilla", "momentum", "saga") else 1.0)),
        "eps": draw(st.sampled_from([None, 1e-6, 1e-2, 0.5])), "epoch": draw(st.sampled_from([None, 1, 2, 3, 5, 100])),
        "eu": draw(st.sampled_from([None, None, "half", "idx", "mix"])), "n": draw(st.lists(st.integers(lo, hi), min_size=1, max_size=4)),
        "cost": draw(st.sampled_from(["auto", "none"])),
    }


def reference(c, rows_of, gradient=grad_fn):
    """Reference iterates; rows_of lists the lengths of the successive iterate calls."""
    g, prox, name, kw = gradient(c["p"]), prox_ref(c["prox"]), c["name"], c["kw"]
    x = c["p"]["x0"]
    eta, epoch = c["eta"], c["epoch"] or 1
    eps = 1e-6 if c["eps"] is None else c["eps"]
    d = np.zeros_like(x)
    s = np.zeros(x.shape)
    bp = gp = 1.0
    mem = {}
    out = []
    for n in rows_of:
        for idx in range(n):
            gr = g(x)
            if name in ("vanilla", "ada", "rmsprop"):
                d = gr
            elif name == "momentum":
                d = kw.get("beta", 0.9) * d + gr
            elif name == "adam":
                b = kw.get("beta", 0.9)
                bp *= b
                d = (b * d + (1 - b) * gr) / (1 - bp)
            elif name == "saga":
                slot = idx % epoch
                mem[slot] = gr
                d = sum(mem.values())
            a2 = np.abs(gr) ** 2
            if name == "ada":
                s = s + a2
            elif name == "rmsprop":
                gm = kw.get("gamma", 0.5)
                s = gm * s + (1 - gm) * a2
            elif name == "adam":
                gm = kw.get("gamma", 0.9)
                gp *= gm
                s = (gm * s + (1 - gm) * a2) / (1 - gp)
            if name in ("vanilla", "momentum"):
                step, speed = eta, 1.0
            else:
                step, speed = eta / (np.sqrt(s) + eps), s
            x = x - step * d
            if idx % epoch == 0:
                if name == "momentum":
                    d = np.zeros_like(x)
                x = prox(x, step)
            eta = ETA_UPDATE[c["eu"]](eta, idx) if c["eu"] else eta
            out.append({"x_new": x, "dir_grad": d, "speed_grad": speed})
    return out


def compare(c):
    if c["name"] == "saga":
        c = {**c, "eps": c["eps"] or 0.5}  # the speed of SAGA is zero: the step is eta / epsilon
    rec = Recorder("x_new", "dir_grad", "speed_grad", "idx")
    kw = dict(c["kw"])
    if c["eps"] is not None:
        kw["epsilon"] = c["eps"]
    if c["epoch"] is not None:
        kw["epoch_size"] = c["epoch"]
    if c["eu"]:
        kw["eta_update"] = ETA_UPDATE[c["eu"]]
    with Frozen("gradient descent", x0=c["p"]["x0"]):
        alg = NAMES[c["name"]](
            c["p"]["x0"], make_grad(c["p"]), make_prox(c["prox"]), None if c["cost"] == "none" else "auto",
            eta=c["eta"], metric_call_period=1, metrics=rec.spec(), progress=False, **kw,
        )
        pos, lens = 0, []
        stop = Stopper(c["p"], [c["prox"]], c["cost"] == "auto")
        for n in c["n"]:
            alg.iterate(max_iter=n)
            rows = rec.rows[pos:]
            stop.check(rows, n, c["name"])
            need([r["idx"] for r in rows] == list(range(len(rows))), "iteration indices")
            pos += len(rows)
            lens.append(len(rows))
            refs = reference(c, lens)
            scale = hist_scale([r["x_new"] for r in refs])
            if not np.isfinite(scale) or scale > 1e8:
                return False
            shaky = reference(c, lens, shaky_grad_fn)
            for k, (row, ref, alt) in enumerate(zip(rec.rows, refs, shaky)):
                tag = f"{c['name']} iteration {k} (epoch size {c['epoch']}, {c['kw']})"
                sd = hist_scale([r["dir_grad"] for r in refs[: k + 1]]) + scale * c["p"]["lip"]
                ss = hist_scale([r["speed_grad"] for r in refs[: k + 1]]) + scale**2 * c["p"]["lip"]
                for key, sc in (("dir_grad", sd), ("speed_grad", ss), ("x_new", scale)):
                    sens = float(np.max(np.abs(ref[key] - alt[key])))
                    if not sens <= 1e-6 * sc:  # the sequence itself amplifies rounding errors
                        return False
                    close_at(np.broadcast_to(row[key], c["p"]["shape"]), np.broadcast_to(ref[key], c["p"]["shape"]), f"{tag}: {key}", sc + 1e9 * sens, rtol=1e-8)
            close_at(alg.x_final, refs[-1]["x_new"], "x_final", scale, rtol=1e-6)
    return pos > 2 and scale > 1e-3


# hard to condition: x can depend on g / |g| (ADAM, ADA and RMSprop normalise the gradient)
def usable(c):
    refs = reference(c if c["name"] != "saga" else {**c, "eps": c["eps"] or 0.5}, c["n"])
    if c["name"] in ("ada", "rmsprop", "adam") and (c["eps"] or 1e-6) < 1e-3:
        for r in refs:
            s = np.broadcast_to(r["speed_grad"], c["p"]["shape"])
            if not np.all(np.isfinite(s)) or np.any((s < 1e-12) & (s > 0)):
                return False
    return all(np.all(np.isfinite(r["x_new"])) for r in refs)


@PROP.sub("iterates", case(), quick=5000, factor=30, shards=8, rule="more than two iterations, well-conditioned normalisation, non-negligible iterates")
def iterates(c):
    if not usable(c):
        return False
    return compare(c)


@PROP.sub("long", case(lo=30, hi=150), quick=400, factor=20, shards=4, rule="more than two iterations, well-conditioned normalisation")
def long(c):
    c = {**c, "cost": "none", "n": c["n"][:1], "eps": 0.5, "p": {**c["p"]}}
    if not usable(c):
        return False
    return compare(c)


BAD = [
    ("vanilla", "TypeError", {"eta": 1}), ("ada", "TypeError", {"epsilon": 1}), ("vanilla", "TypeError", {"eta_update": 1}), ("vanilla", "TypeError", {"x": [1.0]}),
    ("rmsprop", "ValueError", {"gamma": -0.1}), ("rmsprop", "ValueError", {"gamma": 1.1}), ("rmsprop", "TypeError", {"gamma": 1}), ("momentum", "TypeError", {"beta": 1}),
    ("adam", "ValueError", {"gamma": 1.0}), ("adam", "ValueError", {"gamma": -0.5}), ("adam", "ValueError", {"beta": 1.0}), ("adam", "ValueError", {"beta": -0.5}),
    ("adam", "TypeError", {"beta": 0}), ("adam", "TypeError", {"gamma": 0}), ("saga", "TypeError", {"metrics": [1]}), ("momentum", "TypeError", {"x": None}),
]


@PROP.sub("reject", fixed(i=st.integers(0, len(BAD) - 1)), quick=60, shards=1, rule="every case is an invalid configuration")
def reject(c):
    name, exc, bad = BAD[c["i"]]
    bad = dict(bad)
    x = bad.pop("x") if "x" in bad else np.ones(2)
    p = {"A": np.eye(2), "b": np.ones(2), "shape": (2,)}
    raises(eval(exc), lambda: NAMES[name](x, make_grad(p), make_prox({"kind": "soft", "w": 1.0}), None, **bad), f"{name}({bad})")
    return True
