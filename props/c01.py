"""C01: the solvers minimise the objective they are given, at the rate theory promises.

Every problem is built backwards from its solution: a point x* and subgradients of the
regularisers at x* are produced by independent proximal maps, and the data are chosen so
that the optimality condition holds at x*.  No reference solver is needed.
"""
import numpy as np
import pywt
from hypothesis import strategies as st
from modopt.opt.algorithms import POGM, Condat, ForwardBackward, GenForwardBackward, VanillaGenericGradOpt
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, LinearParent, MatrixOperator, WaveletTransform
from modopt.opt.proximity import (ElasticNet, GroupLASSO, IdentityProx, LinearCompositionProx, LowRankMatrix, OrderedWeightedL1Norm, Positivity, ProximityCombo, Ridge, SparseThreshold)

from harness.core import Prop
from harness.gen import expand, seeds
from harness.oracle import Frozen, need, soft
from props.algkit import Recorder
from props.c11 import pava_decreasing

PROP = Prop(
    "C01",
    [
        "least-squares data terms with a full-column-rank matrix (condition number at most 20), up to 12 unknowns, steps inside the range for which convergence is proved",
        "rates asserted: contraction and 1/k bound (proximal gradient), 2/k^2 bound (FISTA), Fejer monotonicity and vanishing steps (generalised forward-backward, primal-dual); final accuracy for POGM and the restarted or lazy FISTA variants",
    ],
)

KINDS = ["none", "l1", "l1w", "pos", "ridge", "enet", "group", "nuclear", "owl", "wave"]
CPLX = ["none", "l1", "l1w", "ridge", "group"]
SHAPE = {"group": [(2, 3), (3, 2), (2, 2, 2)], "nuclear": [(2, 3), (3, 3), (4, 2)], "wave": [(4,), (8,), (4, 2)], "owl": [(3,), (5,), (8,)]}


def build_reg(kind, w, shape, seed):
    """(modopt operator, reference prox(v, f), reference cost)."""
    if kind == "none":
        return IdentityProx(), lambda v, f: v, lambda v: 0.0
    if kind == "l1":
        return SparseThreshold(Identity(), w), lambda v, f: soft(v, w * f), lambda v: w * float(np.sum(np.abs(v)))
    if kind == "l1w":
        ww = w * (0.2 + expand(seed, shape, "nonneg"))
        return SparseThreshold(Identity(), ww), lambda v, f: soft(v, ww * f), lambda v: float(np.sum(ww * np.abs(v)))
    if kind == "pos":
        return Positivity(), lambda v, f: np.maximum(v, 0), lambda v: 0.0
    if kind == "ridge":
        return Ridge(Identity(), w), lambda v, f: v / (1 + 2 * w * f), lambda v: w * float(np.sum(np.abs(v) ** 2))
    if kind == "enet":
        return (ElasticNet(Identity(), 0.5 * w, w), lambda v, f: soft(v, w * f) / (1 + w * f),
                lambda v: w * float(np.sum(np.abs(v))) + 0.5 * w * float(np.sum(np.abs(v) ** 2)))
    if kind == "group":
        def pr(v, f):
            n = np.sqrt(np.sum(np.abs(v) ** 2, axis=0))
            return v * np.where(n > w * f, 1 - w * f / np.where(n == 0, 1, n), 0)
        return GroupLASSO(w), pr, lambda v: w * float(np.sum(np.sqrt(np.sum(np.abs(v) ** 2, axis=0))))
    if kind == "nuclear":
        # modopt flattens every entry of the first axis into a column
        def sv(v, f):
            u, s, vt = np.linalg.svd(v, full_matrices=False)
            return (u * np.maximum(s - w * f, 0)) @ vt
        return LowRankMatrix(w, thresh_type="soft"), sv, lambda v: w * float(np.sum(np.linalg.svd(v, compute_uv=False)))
    if kind == "owl":
        ww = w * np.sort(expand(seed, shape, "nonneg"))[::-1] + 1e-3

        def ow(v, f):
            a = np.abs(v)
            o = np.argsort(-a, kind="stable")
            out = np.empty_like(a)
            out[o] = np.maximum(pava_decreasing(a[o] - f * ww), 0)
            return np.sign(v) * out
        return OrderedWeightedL1Norm(ww), ow, lambda v: float(np.sum(ww * np.sort(np.abs(v))[::-1]))
    if kind == "wave":
        fwd, bwd = haar(shape)
        op = WaveletTransform("haar", shape, level=1, mode="periodization")
        prox = LinearCompositionProx(op, SparseThreshold(Identity(), w))
        return prox, lambda v, f: bwd(soft(fwd(v), w * f)), lambda v: w * float(np.sum(np.abs(fwd(v))))
    raise ValueError(kind)


def haar(shape):
    axes = tuple(range(len(shape)))

    def fwd(v):
        co = pywt.wavedecn(v, "haar", mode="periodization", level=1, axes=axes)
        return pywt.ravel_coeffs(co)[0]

    probe = pywt.wavedecn(np.zeros(shape), "haar", mode="periodization", level=1, axes=axes)
    _, sl, sh = pywt.ravel_coeffs(probe)

    def bwd(c):
        co = pywt.unravel_coeffs(c, sl, sh, output_format="wavedecn")
        return pywt.waverecn(co, "haar", mode="periodization", axes=axes)

    return fwd, bwd


@st.composite
def base(draw, kinds=KINDS, cplx=True):
    kind = draw(st.sampled_from(kinds))
    shape = draw(st.sampled_from(SHAPE.get(kind, [(1,), (2,), (4,), (8,), (2, 3), (12,)])))
    return {
        "kind": kind, "shape": shape, "w": draw(st.sampled_from([0.05, 0.3, 1.0, 3.0])), "seed": draw(seeds), "extra": draw(st.integers(0, 4)),
        "cond": draw(st.sampled_from([1.0, 1.5, 3.0, 8.0, 20.0])), "amp": draw(st.sampled_from([1.0, 0.3, 4.0])),
        "cplx": cplx and kind in CPLX and draw(st.integers(0, 4)) == 0, "start": draw(st.sampled_from(["zero", "random", "solution", "near"])),
        "op": draw(st.sampled_from(["matrix", "lambda"])),
    }


def rand(seed, shape, cplx):
    return expand(seed, shape, "normal", complex if cplx else float)


def matrix(c, salt=0):
    n = int(np.prod(c["shape"]))
    m = n + c["extra"]
    s = c["seed"] ^ (0x9E3779B9 + salt)
    u, _ = np.linalg.qr(rand(s % 2**32, (m, n), c["cplx"]))
    v, _ = np.linalg.qr(rand((s * 7 + 1) % 2**32, (n, n), c["cplx"]))
    sv = c["amp"] * np.linspace(1.0, 1.0 / c["cond"], n)
    return (u * sv) @ v.conj().T, float(sv[0] ** 2), float(sv[-1] ** 2)


def start(c, xs):
    if c["start"] == "zero":
        return np.zeros_like(xs)
    if c["start"] == "solution":
        return xs.copy()
    d = 3 * rand((c["seed"] + 17) % 2**32, c["shape"], c["cplx"])
    return xs + 0.01 * d if c["start"] == "near" else d


def data_for(A, xs, s):
    """b such that A^H (A xs - b) = -s."""
    x, v = xs.reshape(-1), s.reshape(-1)
    return A @ x + A @ np.linalg.solve(A.conj().T @ A, v)


def gradient(c, A, b):
    shape = c["shape"]
    if c["op"] == "matrix" and len(shape) == 1:
        m = MatrixOperator(A)
        return GradBasic(b, m.op, m.adj_op if not c["cplx"] else (lambda y: A.conj().T @ y), verbose=False)
    return GradBasic(b, lambda x: A @ np.reshape(x, -1), lambda y: np.reshape(A.conj().T @ y, shape), verbose=False)


def single(c):
    """Operator, objective, matrix constants, data and solution of a one-regulariser problem."""
    op, prox, cost = build_reg(c["kind"], c["w"], c["shape"], c["seed"])
    A, lip, mu = matrix(c)
    v = 2 * rand((c["seed"] + 5) % 2**32, c["shape"], c["cplx"])
    xs = prox(v, 1.0)
    b = data_for(A, xs, v - xs)
    obj = lambda x: 0.5 * float(np.linalg.norm(A @ x.reshape(-1) - b) ** 2) + cost(x)
    return op, obj, A, b, lip, mu, xs


def nrm(v):
    return float(np.linalg.norm(np.reshape(v, -1)))


@st.composite
def fb_case(draw):
    c = draw(base())
    c.update(beta=draw(st.sampled_from([0.2, 0.7, 1.0, 1.4, 1.9])), n=draw(st.integers(2, 60)), alg=draw(st.sampled_from(["fb", "fb", "vanilla"])), step=draw(st.booleans()))
    return c


@PROP.sub("proximal_gradient", fb_case(), quick=1500, factor=25, shards=8, rule="regularised problem, not started at its solution")
def proximal_gradient(c):
    op, obj, A, b, lip, mu, xs = single(c)
    beta = c["beta"] / lip
    x0 = start(c, xs)
    rec = Recorder("x_new")
    with Frozen("proximal gradient", x0=x0, b=b):
        if c["alg"] == "fb":
            kw = {"step_size": beta} if c["step"] else {"beta_param": beta}
            alg = ForwardBackward(x0, gradient(c, A, b), op, cost=None, lambda_update=None, auto_iterate=False, metrics=rec.spec(), metric_call_period=1, linear=Identity(), progress=False, **kw)
        else:
            alg = VanillaGenericGradOpt(x0, gradient(c, A, b), op, None, eta=beta, metrics=rec.spec(), metric_call_period=1, progress=False)
        alg.iterate(max_iter=c["n"])
    xk = [x0] + [r["x_new"] for r in rec.rows]
    need(len(xk) == c["n"] + 1, "number of iterations")
    q = max(abs(1 - beta * mu), abs(1 - beta * lip))
    big = max(nrm(x0 - xs), nrm(xs), 1.0)
    best = obj(xs)
    tag = f"{c['alg']} on {c['kind']} {c['shape']}, beta = {c['beta']}/L"
    for k in range(c["n"]):
        d0, d1 = nrm(xk[k] - xs), nrm(xk[k + 1] - xs)
        need(d1 <= q * d0 + 1e-9 * big, lambda: f"{tag}: distance to the solution {d0} -> {d1}, contraction factor {q}")  # noqa: B023
        if c["beta"] <= 1.0 and c["kind"] != "pos":
            bound = nrm(x0 - xs) ** 2 / (2 * beta * (k + 1))
            need(obj(xk[k + 1]) - best <= bound + 1e-9 * (1 + abs(best)) * big, lambda: f"{tag}: objective gap {obj(xk[k + 1]) - best} after {k + 1} iterations, bound {bound}")  # noqa: B023
            need(obj(xk[k + 1]) <= obj(xk[k]) + 1e-9 * (1 + abs(obj(xk[k]))) or k == 0, lambda: f"{tag}: objective increased at iteration {k}")  # noqa: B023
    need(nrm(alg.x_final - xk[-1]) == 0, "x_final is not the last iterate")
    return c["kind"] != "none" and c["start"] != "solution"


@st.composite
def fista_case(draw):
    c = draw(base())
    c.update(beta=draw(st.sampled_from([0.2, 0.7, 1.0])), n=draw(st.integers(3, 80)), auto=draw(st.booleans()))
    return c


@PROP.sub("fista", fista_case(), quick=1200, factor=25, shards=8, rule="regularised problem, not started at its solution")
def fista(c):
    op, obj, A, b, lip, mu, xs = single(c)
    beta = c["beta"] / lip
    x0 = start(c, xs)
    rec = Recorder("x_new")
    kw = {} if c["auto"] else {"cost": None, "auto_iterate": False}
    alg = ForwardBackward(x0, gradient(c, A, b), op, beta_param=beta, metrics=rec.spec(), metric_call_period=1, linear=Identity(), progress=False, **kw)
    if not c["auto"]:
        alg.iterate(max_iter=c["n"])
    best, d2 = obj(xs), nrm(x0 - xs) ** 2
    tag = f"FISTA on {c['kind']} {c['shape']}, beta = {c['beta']}/L"
    for k, row in enumerate(rec.rows, 1):
        gap = obj(row["x_new"]) - best
        bound = min(2 * d2 / (beta * k * k), d2 / (2 * beta) if k == 1 else np.inf)
        need(gap <= bound + 1e-8 * (1 + abs(best) + d2), lambda: f"{tag}: objective gap {gap} after {k} iterations, bound {bound}")  # noqa: B023
        if c["kind"] == "pos":
            need(np.all(row["x_new"] >= 0), "infeasible iterate")
    return c["kind"] != "none" and c["start"] != "solution" and len(rec.rows) > 2


@st.composite
def long_case(draw):
    return {
        "alg": draw(st.sampled_from(["fb", "fista", "cd", "pogm"])), "n": draw(st.sampled_from([500, 1500, 3000, 5000])), "where": draw(st.lists(st.floats(0.02, 4), min_size=1, max_size=6)),
        "lip": draw(st.floats(-3, 3)), "seed": draw(seeds), "reg": draw(st.sampled_from(["none", "l1", "pos"])), "beta": draw(st.floats(0.1, 1.0)), "a_cd": draw(st.floats(2.5, 30)),
    }


@PROP.sub("long", long_case(), quick=160, factor=12, shards=8, rule="an accelerated method")
def long(c):
    """The rate over thousands of iterations, on the problems that attain it.

    With curvatures around where^2 / n^2 the objective at iteration n is a fixed fraction of the bound,
    so an acceleration that stops growing anywhere before n shows.
    """
    lip, n = 10.0 ** c["lip"], c["n"]
    q = 16 if c["alg"] != "fb" else 4 * n
    lam = lip * np.minimum(1.0, np.append([q * w**2 / n**2 for w in c["where"]], 1.0))
    xs = expand(c["seed"], lam.shape, "normal")
    x0 = xs + expand(c["seed"] ^ 77, lam.shape, "normal")
    w = lam * 0.3
    if c["reg"] == "pos":
        xs = np.abs(xs)
    s = {"none": 0 * xs, "l1": w * np.sign(xs), "pos": 0 * xs}[c["reg"]]
    centre = xs + s / lam
    reg = {"none": IdentityProx(), "l1": SparseThreshold(Identity(), w), "pos": Positivity()}[c["reg"]]
    root = np.sqrt(lam)
    grad = GradBasic(root * centre, lambda v: root * v, lambda v: root * v, verbose=False)
    beta = c["beta"] / lip
    rec = Recorder("x_new")
    common = dict(cost=None, auto_iterate=False, metrics=rec.spec(), metric_call_period=1, linear=Identity(), progress=False, beta_param=beta)
    if c["alg"] == "pogm":
        alg = POGM(x0, x0, x0, x0, grad, reg, **common)
    else:
        kw = {"fb": dict(lambda_update=None), "cd": dict(a_cd=c["a_cd"])}.get(c["alg"], {})
        alg = ForwardBackward(x0, grad, reg, **kw, **common)
    alg.iterate(max_iter=n)
    need(len(rec.rows) == n, "number of iterations")
    obj = lambda x: 0.5 * np.sum(lam * (x - centre) ** 2, axis=-1) + (np.sum(w * np.abs(x), axis=-1) if c["reg"] == "l1" else 0)
    gap = obj(np.array([r["x_new"] for r in rec.rows])) - obj(xs)
    k = np.arange(1, n + 1)
    d2 = float(np.sum((x0 - xs) ** 2))
    a = c["a_cd"]
    bound = d2 / beta * {"fb": 0.5 / k, "fista": 2 / (k + 1) ** 2, "pogm": 2 / (k + 1) ** 2, "cd": a**2 / (2 * (k + a - 1) ** 2)}[c["alg"]]
    if c["reg"] == "pos":
        gap[0] = 0  # the starting point may be infeasible
    over = gap > bound * (1 + 1e-6) + 1e-12 * lip * (1 + d2)
    need(not over.any(), lambda: f"{c['alg']} ({c['reg']}): objective gap {gap[over.argmax()]} after {over.argmax() + 1} iterations, bound {bound[over.argmax()]}")
    return c["alg"] != "fb"


VARIANTS = {
    "adaptive": dict(restart_strategy="adaptive", xi_restart=0.96), "adaptive-i": dict(restart_strategy="adaptive-i", xi_restart=0.96),
    "adaptive-1": dict(restart_strategy="adaptive-1", xi_restart=0.9), "adaptive-ii": dict(restart_strategy="adaptive-ii", xi_restart=0.96),
    "adaptive-2": dict(restart_strategy="adaptive-2", xi_restart=0.99), "greedy": dict(restart_strategy="greedy", xi_restart=0.96, s_greedy=1.1),
    "lazy": dict(p_lazy=1.0 / 30, q_lazy=1.0 / 10), "cd": dict(a_cd=20), "cd3": dict(a_cd=3), "pogm": {}, "pogm-sigma": {}, "gfb": {}, "condat": {},
}


@st.composite
def final_case(draw):
    c = draw(base())
    c.update(variant=draw(st.sampled_from(sorted(VARIANTS))), beta=draw(st.sampled_from([0.5, 1.0])), cond=draw(st.sampled_from([1.0, 1.5, 3.0])))
    return c


@PROP.sub("accuracy", final_case(), quick=800, factor=25, shards=8, rule="regularised problem, not started at its solution")
def accuracy(c):
    """Every variant ends close to the unique minimiser of a well conditioned problem."""
    op, obj, A, b, lip, mu, xs = single(c)
    beta = c["beta"] / lip
    x0 = start(c, xs)
    g, kw = gradient(c, A, b), VARIANTS[c["variant"]]
    common = dict(cost=None, auto_iterate=False, progress=False)
    if c["variant"].startswith("pogm"):
        if c["cplx"]:
            return False
        alg = POGM(x0, x0, x0, x0, g, op, beta_param=beta, sigma_bar=0.96 if "sigma" in c["variant"] else 1.0, **common)
    elif c["variant"] == "gfb":
        alg = GenForwardBackward(x0, g, [op, IdentityProx()], gamma_param=beta, weights=[0.6, 0.4], **common)
    elif c["variant"] == "condat":
        alg = Condat(x0, np.zeros_like(x0), g, op, IdentityProx(), tau=1.0 / (lip / 2 + lip), sigma=0.9 * lip, rho=1.0, **common)
    else:
        if c["variant"] == "greedy":
            kw = {**kw, "min_beta": beta}
        alg = ForwardBackward(x0, g, op, beta_param=beta, **kw, **common)
    alg.iterate(max_iter=300)
    err = nrm(alg.x_final - xs)
    big = max(nrm(x0 - xs), nrm(xs), 1.0)
    need(err <= 2e-3 * big, lambda: f"{c['variant']} on {c['kind']} {c['shape']}: distance to the minimiser {err} after 300 iterations (start {nrm(x0 - xs)})")
    if c["kind"] == "pos" and c["variant"] not in ("gfb", "condat"):
        need(np.all(alg.x_final >= 0), "infeasible solution")
    return c["kind"] != "none" and c["start"] != "solution"


@st.composite
def gfb_case(draw):
    c = draw(base(kinds=["l1", "l1w", "pos", "ridge", "enet", "group", "nuclear"]))
    shape_ok = {2: ["l1", "l1w", "ridge", "group", "nuclear", "pos", "enet"]}.get(len(c["shape"]), ["l1", "l1w", "ridge", "pos", "enet"])
    if c["cplx"]:
        shape_ok = [k for k in shape_ok if k in CPLX]
    c["others"] = draw(st.lists(st.tuples(st.sampled_from(shape_ok), st.sampled_from([0.1, 0.5, 2.0])), min_size=1, max_size=3))
    c["wts"] = draw(st.one_of(st.none(), st.lists(st.integers(1, 9), min_size=len(c["others"]) + 1, max_size=len(c["others"]) + 1)))
    c.update(gamma=draw(st.sampled_from([0.2, 1.0, 1.5, 1.9])), lam=draw(st.sampled_from([0.5, 0.9, 1.0])), n=draw(st.integers(2, 40)))
    return c


def common_point(c, regs):
    """A point and one subgradient per regulariser at that point (Dykstra-free construction)."""
    # positivity first: choose x* feasible, then move along each prox's own preimages
    v = 2 * rand((c["seed"] + 5) % 2**32, c["shape"], c["cplx"])
    xs = v
    for _, prox, _ in regs:
        xs = prox(xs, 1.0)
    return xs


def subgradient(kind, w, xs, c):
    """A subgradient at xs, from the analytic description of the subdifferential."""
    s = c["seed"] ^ 0x51ED270B
    u = np.clip(rand(s % 2**32, xs.shape, False) / 2, -0.9, 0.9)
    mag = np.abs(xs)
    sign = np.where(mag > 0, xs / np.where(mag == 0, 1, mag), 0)
    if kind == "l1":
        return w * np.where(mag > 0, sign, u)
    if kind == "l1w":
        ww = w * (0.2 + expand(c["seed"], xs.shape, "nonneg"))
        return ww * np.where(mag > 0, sign, u)
    if kind == "pos":
        return np.where(xs > 0, 0, -np.abs(u))
    if kind == "ridge":
        return 2 * w * xs
    if kind == "enet":
        return w * np.where(mag > 0, sign, u) + w * xs
    if kind == "group":
        n = np.sqrt(np.sum(mag**2, axis=0))
        z = u / np.sqrt(xs.shape[0])
        return w * np.where(n > 0, xs / np.where(n == 0, 1, n), z)
    if kind == "nuclear":
        a, sv, bt = np.linalg.svd(xs, full_matrices=False)
        r = int(np.sum(sv > 1e-10 * max(sv[0], 1e-300)))
        return w * a[:, :r] @ bt[:r]
    raise ValueError(kind)


@PROP.sub("generalised", gfb_case(), quick=1500, factor=25, shards=8, rule="at least two regularisers, not started at the solution")
def generalised(c):
    specs = [(c["kind"], c["w"]), *c["others"]]
    specs = [s for s in specs if not (len(c["shape"]) == 3 and s[0] == "nuclear")]
    regs = [build_reg(k, w, c["shape"], c["seed"]) for k, w in specs]
    A, lip, mu = matrix(c)
    xs = common_point(c, regs)
    if any(k == "pos" for k, _ in specs):
        xs = np.maximum(xs, 0)
    sub = [subgradient(k, w, xs, c) for k, w in specs]
    b = data_for(A, xs, sum(sub))
    gam, lam = c["gamma"] / lip, c["lam"]
    wts = [1 / len(regs)] * len(regs) if c["wts"] is None else [v / sum(c["wts"][: len(regs)]) for v in c["wts"][: len(regs)]]
    gx = (A.conj().T @ (A @ xs.reshape(-1) - b)).reshape(xs.shape)
    zs = [xs - gam * gx - gam / w * s for w, s in zip(wts, sub)]
    x0 = start(c, xs)
    rec = Recorder("x_new", "z_new")
    ops = [r[0] for r in regs]
    alg = GenForwardBackward(
        x0, gradient(c, A, b), ops, cost=None, gamma_param=gam, lambda_param=lam, weights=None if c["wts"] is None else wts,
        auto_iterate=False, metrics=rec.spec(), metric_call_period=1, linear=Identity(), progress=False,
    )
    alg.iterate(max_iter=c["n"])
    dist = lambda z: np.sqrt(sum(w * nrm(zi - si) ** 2 for w, zi, si in zip(wts, z, zs)))
    hist = [[x0] * len(regs)] + [list(r["z_new"]) for r in rec.rows]
    ds = [dist(z) for z in hist]
    big = max(ds[0], nrm(xs), 1.0)
    tag = f"GenForwardBackward {[k for k, _ in specs]} {c['shape']}, gamma = {c['gamma']}/L, lambda = {lam}"
    for k in range(1, len(ds)):
        need(ds[k] <= ds[k - 1] + 1e-9 * big, lambda: f"{tag}: distance to the fixed point {ds[k - 1]} -> {ds[k]} at iteration {k}")  # noqa: B023
    # the fixed point operator is averaged: steps are summable in square and decrease
    steps = [np.sqrt(sum(w * nrm(a - d) ** 2 for w, a, d in zip(wts, hist[k], hist[k - 1]))) for k in range(1, len(hist))]
    alpha = max(2 / 3, 2 / (1 + 2 / c["gamma"])) * lam
    bound = np.sqrt(alpha / (1 - alpha)) * ds[0] if alpha < 1 else None
    for k in range(1, len(steps)):
        need(steps[k] <= steps[k - 1] + 1e-9 * big, lambda: f"{tag}: step length {steps[k - 1]} -> {steps[k]} at iteration {k}")  # noqa: B023
        if bound is not None:
            need(steps[k] <= bound / np.sqrt(k + 1) + 1e-9 * big, lambda: f"{tag}: step length {steps[k]} after {k + 1} iterations, bound {bound / np.sqrt(k + 1)}")  # noqa: B023
    return len(regs) > 1 and ds[0] > 1e-6


@st.composite
def condat_case(draw):
    c = draw(base(kinds=["none", "l1", "l1w", "pos", "ridge", "enet", "group", "nuclear"]))
    c["dual"] = (draw(st.sampled_from(["l1", "pos", "ridge", "none"])), draw(st.sampled_from([0.1, 0.7, 2.0])))
    if c["cplx"]:
        c["dual"] = ("l1", c["dual"][1])
    c.update(
        lin=draw(st.sampled_from(["none", "matrix", "diff", "wave", "combo"])), p=draw(st.integers(1, 6)), rho=draw(st.sampled_from([0.5, 0.8, 1.0])),
        sig=draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])), slack=draw(st.sampled_from([1.0, 0.8, 0.3])), n=draw(st.integers(2, 40)), y0=draw(st.sampled_from(["zero", "random"])),
    )
    return c


@PROP.sub("primal_dual", condat_case(), quick=1500, factor=25, shards=8, rule="linear operator in the dual term and not started at the solution")
def primal_dual(c):
    shape, n = c["shape"], int(np.prod(c["shape"]))
    lin = c["lin"]
    if c["cplx"] and lin == "combo":
        lin = "matrix"
    if lin == "wave" and not all(s % 2 == 0 for s in shape):
        lin = "diff"
    if lin == "diff" and n == 1:
        lin = "none"
    if lin == "wave":
        op_l = WaveletTransform("haar", shape, level=1, mode="periodization")
        fwd, bwd = haar(shape)
        K = np.array([fwd(e.reshape(shape)) for e in np.eye(n)]).T
    elif lin == "none":
        op_l, K = None, np.eye(n)
    else:
        K = np.diff(np.eye(n), axis=0) if lin == "diff" else expand((c["seed"] + 31) % 2**32, (c["p"], n), "normal")
        mk = lambda M: LinearParent(lambda v: M @ np.reshape(v, -1), lambda v: np.reshape(M.T @ v, shape))
        op_l = mk(K)
        if lin == "combo":
            # two operators side by side; with unit weights the adjoint is the sum of the adjoints
            op_l = LinearCombo([mk(K), mk(0.5 * K)], [1.0, 1.0])
            K = np.concatenate([K, 0.5 * K])
    stacked = lin == "combo"
    dshape = shape if lin == "none" else (K.shape[0],)
    reg, prox, _ = build_reg(c["kind"], c["w"], shape, c["seed"])
    dkind, dw = c["dual"]
    if dkind == "pos" and c["kind"] == "pos":
        dkind = "l1"
    dreg, _, _ = build_reg(dkind, dw, dshape, c["seed"])
    A, lip, mu = matrix(c)
    xs = prox(2 * rand((c["seed"] + 5) % 2**32, shape, c["cplx"]), 1.0)
    kx = (K @ xs.reshape(-1)).reshape(dshape)
    if dkind == "pos" and np.any(kx < 0):
        dkind = "l1"
        dreg, _, _ = build_reg("l1", dw, dshape, c["seed"])
    kx = np.where(np.abs(kx) < 1e-12, 0, kx)
    ys = np.zeros(dshape) if dkind == "none" else subgradient(dkind, dw, kx, c)
    sg = np.zeros(shape) if c["kind"] == "none" else subgradient(c["kind"], c["w"], xs, c)
    b = data_for(A, xs, sg + (K.T @ ys.reshape(-1)).reshape(shape))
    nk2 = float(np.linalg.norm(K, 2) ** 2)
    sigma = c["sig"] * lip / max(nk2, 1e-9)
    tau = c["slack"] / (lip / 2 + sigma * nk2)
    x0 = start(c, xs)
    y0 = np.zeros(dshape, dtype=x0.dtype) if c["y0"] == "zero" else rand((c["seed"] + 41) % 2**32, dshape, c["cplx"])
    rec = Recorder("x_new", "y_new")
    y_flat = y0
    if stacked:
        dreg = ProximityCombo([build_reg(dkind, dw, (c["p"],), c["seed"])[0] for _ in range(2)])
        y0 = np.empty(2, dtype=object)
        y0[0], y0[1] = y_flat[: c["p"]].copy(), y_flat[c["p"] :].copy()
    with Frozen("Condat", x0=x0, y0=y0, b=b):
        alg = Condat(x0, y0, gradient(c, A, b), reg, dreg, linear=op_l, cost=None, rho=c["rho"], sigma=sigma, tau=tau, auto_iterate=False, metrics=rec.spec(), metric_call_period=1, progress=False)
        alg.iterate(max_iter=c["n"])

    def metric(dx, dy):
        dx, dy = dx.reshape(-1), dy.reshape(-1)
        return float(np.sqrt(max(nrm(dx) ** 2 / tau + nrm(dy) ** 2 / sigma - 2 * np.real(np.vdot(K @ dx, dy)), 0)))

    flat = lambda y: np.concatenate([np.asarray(v) for v in y]) if stacked else y
    pts = [(x0, y_flat)] + [(r["x_new"], flat(r["y_new"])) for r in rec.rows]
    ds = [metric(x - xs, y - ys) for x, y in pts]
    big = max(ds[0], nrm(xs) / np.sqrt(tau), nrm(ys) / np.sqrt(sigma), 1.0)
    tag = f"Condat {c['kind']} + {dkind} o {lin} {shape}, rho {c['rho']}, sigma {sigma}, tau {tau}"
    steps = [metric(pts[k][0] - pts[k - 1][0], pts[k][1] - pts[k - 1][1]) for k in range(1, len(pts))]
    for k in range(1, len(ds)):
        need(ds[k] <= ds[k - 1] + 1e-7 * big, lambda: f"{tag}: distance to the saddle point {ds[k - 1]} -> {ds[k]} at iteration {k}")  # noqa: B023
        if k > 1:
            need(steps[k - 1] <= steps[k - 2] + 1e-7 * big, lambda: f"{tag}: step length {steps[k - 2]} -> {steps[k - 1]} at iteration {k}")  # noqa: B023
    need(nrm(alg.x_final - pts[-1][0]) == 0 and nrm(flat(alg.y_final) - pts[-1][1]) == 0, "x_final, y_final are not the last iterates")
    return lin != "none" and dkind != "none" and ds[0] > 1e-6
