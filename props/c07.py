"""C07: ADMM and FastADMM alternate their two optimisers as documented."""
import re
from contextlib import redirect_stdout
from io import StringIO

import numpy as np
from hypothesis import strategies as st
from modopt.opt.algorithms import ADMM, FastADMM
from modopt.opt.linear import Identity, LinearParent, MatrixOperator

from harness.core import Prop, Violation
from harness.gen import array, expand, lay, layouts, seeds
from harness.oracle import Frozen, need
from props.algkit import Recorder, close_at, hist_scale
from props.c08 import CostModel

PROP = Prop(
    "C07",
    [
        "optimisers are affine maps of (init, obs); the first variable and the constraint vector have the same size (the code adds them)",
        "known finding: the observation handed to the optimisers is built from the previous u instead of the multiplier; both that observation and the one of the reference algorithm are accepted, everything else must follow the reference",
        "comparison stops where the restart test of FastADMM is within rounding of its boundary",
    ],
)


@st.composite
def case(draw, lo=1, hi=15):
    side = st.sampled_from([1, 2, 3, 4, 2, 3, 4, 5, 24, 60])
    n, p = draw(side), draw(side)
    ident = draw(st.integers(0, 3)) == 0
    if ident:
        p = n
    sty = ("normal", "ints", "const", "tinyfrac")
    small = draw(st.sampled_from([0.1, 0.3, 0.6]))
    dt = draw(st.sampled_from([float, float, float, complex]))
    unit = draw(st.one_of(st.just(1.0), st.just(1.0), st.floats(-9, 6).map(lambda e: 10.0**e)))

    def vec(k):
        return lay(unit * draw(array((k,), dtype=dt, styles=sty, scale=False)), draw(layouts))

    return {
        "unit": draw(st.sampled_from([1.0, unit, unit])), "fast": draw(st.booleans()), "ident": ident, "n": n, "p": p, "seed": draw(seeds), "gain": small,
        "u": vec(n), "v": vec(p),
        "mu": vec(n), "b": vec(n),
        "tau": draw(st.one_of(st.sampled_from([1, 0.5, 2.0, 10.0]), st.floats(0.001, 0.2), st.floats(0.2, 30))), "alpha": draw(st.one_of(st.sampled_from([1, 1.0, 2.0]), st.floats(1, 6))), "eta": draw(st.one_of(st.sampled_from([0.999, 0.5, 0.9, None]), st.floats(0.05, 0.999))),
        "iters": draw(st.lists(st.integers(lo, hi), min_size=1, max_size=3)), "cost": draw(st.sampled_from([False, False, True])), "dt": np.dtype(dt).name,
        "cf": draw(st.sampled_from([0.0, 1.0, 10.0])), "cg": draw(st.sampled_from([0.0, 1.0, 3.0])),
    }


def maps(c):
    n, p, gain = c["n"], c["p"], c["gain"]

    def unit(seed, shape):
        m = expand(seed, shape, "normal", c["dt"])
        return m / max(1e-9, np.linalg.norm(m, 2))

    s = c["seed"] % (2**31)
    A = np.eye(n) if c["ident"] else unit(s, (n, n))
    B = np.eye(n) if c["ident"] else unit(s + 1, (n, p))
    return {
        "A": A, "B": B, "Hi": gain * unit(s + 2, (n, n)), "Ho": gain * unit(s + 3, (n, n)), "Gi": gain * unit(s + 4, (p, p)),
        "Go": gain * unit(s + 5, (p, n)), "Hk": c["unit"] * expand(s + 6, (n,), "normal", c["dt"]), "Gk": c["unit"] * expand(s + 7, (p,), "normal", c["dt"]),
    }


def reference(c, m, variant):
    A, B, b, tau = m["A"], m["B"], c["b"], c["tau"]
    eta = 0.999 if c["eta"] is None else c["eta"]
    u = c["u"]
    v = vh = c["v"]
    mu = muh = c["mu"]
    alpha, cold = c["alpha"], np.inf
    H = lambda i, o: m["Hi"] @ i + m["Ho"] @ o + m["Hk"]
    G = lambda i, o: m["Gi"] @ i + m["Go"] @ o + m["Gk"]
    size = sum(float(np.linalg.norm(q)) for q in (u, v, mu, b, m["Hk"], m["Gk"]))
    while True:
        oh = B @ vh + u - b if variant == "coded" else b - B @ vh - muh
        un = H(u, oh)
        og = A @ un + u - b if variant == "coded" else b - A @ un - muh
        vn = G(vh, og)
        mun = muh + A @ un + B @ vn - b
        clear, event = True, None
        calls = [("H", u, oh), ("G", vh, og)]
        if c["fast"]:
            cn = np.linalg.norm(mun - muh) + tau * np.linalg.norm(B @ (vn - vh))
            if np.isfinite(cold):
                clear = abs(cn - eta * cold) > 1e-7 * (eta * cold) + 1e-12 * (1 + tau) * size
            if cn < eta * cold:
                an = (1 + np.sqrt(1 + 4 * alpha**2)) / 2
                be = (alpha - 1) / an
                vh, muh = vn + be * (vn - v), mun + be * (mun - mu)
                alpha = an
                event = "accelerate"
            else:
                vh, muh, cn, alpha, event = v, mu, cold / eta, 1, "restart"
            cold = cn
        else:
            vh, muh = vn, mun
        u, v, mu = un, vn, mun
        yield calls, u, v, clear, event


def check(c, rec, calls, alg, lens, variant):
    m = maps(c)
    it = reference(c, m, variant)
    refs = [next(it) for _ in range(sum(lens))]
    scale = hist_scale([c["u"], c["v"], c["b"]], [r[1] for r in refs], [r[2] for r in refs], [r[0][0][2] for r in refs], [r[0][1][2] for r in refs])
    need(len(calls) == 2 * len(refs), lambda: f"{len(calls)} optimiser calls in {len(refs)} iterations")
    events = set()
    who = "FastADMM" if c["fast"] else "ADMM"
    for k, (rc, u, v, clear, event) in enumerate(refs):
        events.add(event)
        for (name, init, obs), (gname, ginit, gobs) in zip(rc, calls[2 * k: 2 * k + 2]):
            need(name == gname, lambda: f"{who} iteration {k}: optimiser {gname} called where {name} was due")
            close_at(ginit, init, f"{who} iteration {k}: starting point of optimiser {name}", scale)
            close_at(gobs, obs, f"{who} iteration {k}: observation of optimiser {name}", scale)
        row = rec.rows[k]
        close_at(row["x_new"], u, f"{who} iteration {k}: u", scale)
        close_at(row["v_new"], v, f"{who} iteration {k}: v", scale)
        if not clear:
            return events, len(refs)
    close_at(alg.u_final, refs[-1][1], "u_final", scale)
    close_at(alg.x_final, refs[-1][1], "x_final", scale)
    close_at(alg.v_final, refs[-1][2], "v_final", scale)
    return events, len(refs)


def run(c):
    m = maps(c)
    calls = []

    def H(init, obs):
        calls.append(("H", np.array(init), np.array(obs)))
        return m["Hi"] @ init + m["Ho"] @ obs + m["Hk"]

    def G(init, obs):
        calls.append(("G", np.array(init), np.array(obs)))
        return m["Gi"] @ init + m["Go"] @ obs + m["Gk"]

    rec = Recorder("x_new", "v_new", "idx")
    A, B = (Identity(), Identity()) if c["ident"] else (MatrixOperator(m["A"]), LinearParent(lambda x: m["B"] @ x, lambda x: m["B"].T @ x))
    costs, points = (lambda u: c["cf"] * float(np.sum(np.abs(u))), lambda v: c["cg"] * float(np.sum(np.abs(v) ** 2))), ([], [])

    def keeping(i):
        return lambda q: points[i].append(np.array(q)) or costs[i](q)

    kw = {"cost_funcs": (keeping(0), keeping(1))} if c["cost"] else {}
    model, sure = CostModel(), True
    if c["fast"]:
        kw["alpha"] = c["alpha"]
        if c["eta"] is not None:
            kw["eta"] = c["eta"]
    printed = StringIO()
    with redirect_stdout(printed), Frozen("ADMM", u=c["u"], v=c["v"], mu=c["mu"], b=c["b"]):
        alg = (FastADMM if c["fast"] else ADMM)(
            c["u"], c["v"], c["mu"], A, B, c["b"], (H, G), tau=c["tau"], progress=False, metrics=rec.spec(), metric_call_period=1, **kw
        )
        lens, pos = [], 0
        for n in c["iters"]:
            alg.iterate(max_iter=n)
            rows = rec.rows[pos:]
            pos += len(rows)
            need([r["idx"] for r in rows] == list(range(len(rows))), "iteration indices")
            if not c["cost"]:
                need(len(rows) == n, lambda: f"{len(rows)} iterations for iterate({n})")
            elif sure:
                expected = n
                for k, row in enumerate(rows):
                    r = m["A"] @ row["x_new"] + m["B"] @ row["v_new"] - c["b"]
                    stop = model.step(costs[0](row["x_new"]) + costs[1](row["v_new"]) + c["tau"] * float(np.sum(np.abs(r) ** 2)))
                    if stop:
                        expected = k + 1
                        break
                sure = not model.ambiguous
                need(not sure or len(rows) == expected, lambda: f"{len(rows)} iterations for iterate({n}), the cost converges after {expected}")
            lens.append(len(rows))
    for pts, key in zip(points, ("x_new", "v_new")):
        need(not c["cost"] or len(pts) == len(rec.rows), lambda: f"{len(pts)} cost evaluations in {len(rec.rows)} iterations")
        for k, (pt, row) in enumerate(zip(pts, rec.rows)):
            need(np.array_equal(pt, row[key]), lambda: f"iteration {k}: cost evaluated at {pt}, the current solution is {row[key]}")
    told = [float(v) for v in re.findall(r"COST: *([-+.\deE]+)$", printed.getvalue(), re.M)]
    if c["cost"] and len(told) == len(rec.rows):
        for k, (val, row) in enumerate(zip(told, rec.rows)):
            r = m["A"] @ row["x_new"] + m["B"] @ row["v_new"] - c["b"]
            parts = [costs[0](row["x_new"]), costs[1](row["v_new"]), c["tau"] * float(np.sum(np.abs(r) ** 2))]
            need(abs(val - sum(parts)) <= 1e-9 * sum(parts) + 1e-20, lambda: f"iteration {k}: cost {val} reported, f(u) = {parts[0]}, g(v) = {parts[1]}, tau * residual^2 = {parts[2]}")  # noqa: B023
    try:
        events, total = check(c, rec, calls, alg, lens, "coded")
    except Violation as first:
        try:
            events, total = check(c, rec, calls, alg, lens, "reference")
        except Violation:
            raise first from None
    return total >= 3 and (not c["fast"] or bool(events - {None}))


@PROP.sub("iterates", case(), quick=4000, factor=30, shards=8, rule="at least three iterations; FastADMM cases accelerate or restart")
def iterates(c):
    return run(c)


@PROP.sub("long", case(lo=30, hi=150), quick=250, factor=20, shards=4, rule="at least three iterations; FastADMM cases accelerate or restart")
def long(c):
    return run(c)


@PROP.probe("admm-multiplier")
def admm_multiplier():
    """min 1/2 |u - (1, 2)|^2 + |v|_1 subject to u - v = 0: the solution is u = v = (0, 1)."""
    target = np.array([1.0, 2.0])
    A, B = Identity(), LinearParent(lambda x: -x, lambda x: -x)

    def H(init, obs):
        return (target + obs) / 2.0

    def G(init, obs):
        y = -obs
        return np.sign(y) * np.maximum(np.abs(y) - 1.0, 0.0)

    sol = np.array([0.0, 1.0])
    res = {}
    for cls in (ADMM, FastADMM):
        alg = cls(np.zeros(2), np.zeros(2), np.zeros(2), A, B, np.zeros(2), (H, G), progress=False)
        alg.iterate(max_iter=300)
        res[cls.__name__] = float(np.max(np.abs(alg.u_final - sol)) + np.max(np.abs(alg.v_final - sol)))
    if all(v < 1e-3 for v in res.values()):
        return "absent"
    return "present"
