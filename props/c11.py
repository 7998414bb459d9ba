"""C11: structured proximity operators (group, ordered weights, k-support, low rank)."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.proximity import GroupLASSO, KSupportNorm, LowRankMatrix, OrderedWeightedL1Norm

from harness.core import Prop, Violation
from harness.gen import array, elem, fixed, lay, layouts, nonneg_elem, pos_elem, seeds, shapes
from harness.oracle import Frozen, close, equal, need, raises

PROP = Prop(
    "C11",
    [
        "known findings: the reported cost of the ordered weighted norm pairs its weights in reverse order, and the k-support cost misplaces its factor 1/2; those costs are compared with the formula as coded",
        "low-rank cases where a singular value lies within 1e-7 (relative) of the threshold are not decided for hard thresholding",
        "k-support data: entries zero or between 1e-3 and 1e4 in magnitude",
    ],
)
FAC = st.sampled_from([None, None, 1.0, 0.5, 2.0, 0.25])


def call(op, x, f):
    return op.op(x) if f is None else op.op(x, extra_factor=f)


# ------------------------------------------------------------------------------- groups
@st.composite
def group_case(draw):
    shape = draw(shapes(1, 4, 1, 5, big=[(3, 20), (2, 7, 6), (30, 4), (2, 600), (4, 13, 11), (2, 3, 5, 9), (300,), (65, 2), (2, 2600), (3, 50, 40)]))
    dt = draw(st.sampled_from(["float64", "float64", "complex128"]))
    x = draw(array(shape, dtype=dt, styles=("normal", "ints", "sparse", "ties", "const")))
    kind = draw(st.sampled_from(["scalar", "int", "array"]))
    w = draw(array(shape[1:], elements=nonneg_elem, styles=("nonneg",), scale=False)) if kind == "array" else (draw(st.integers(0, 3)) if kind == "int" else draw(pos_elem))
    # the operator is positively homogeneous: scale the data and the weights together
    sc = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-4, 1e4, 1e-8, 1e-12]))
    return {"x": x * sc, "w": w * sc, "f": draw(FAC), "order": draw(layouts), "q": draw(array(shape, dtype=dt)) * sc, "sc": sc}


@PROP.sub("group_lasso", group_case(), quick=3000, factor=25, shards=8, rule="at least two groups, one shrunk and not zeroed")
def group_lasso(c):
    x, w = c["x"].copy(), c["w"]
    nrm = np.sqrt(np.sum(np.abs(x) ** 2, axis=0))
    f = 1.0 if c["f"] is None else c["f"]
    xl = lay(x, c["order"])
    op = GroupLASSO(w)
    with Frozen("GroupLASSO", x=xl, w=w):
        p = np.asarray(call(op, xl, c["f"]))
        cost = op.cost(xl)
    t = np.broadcast_to(w * f, nrm.shape)
    fac = np.where(nrm > t, 1 - t / np.where(nrm == 0, 1, nrm), 0)
    close(p, x * fac, "GroupLASSO.op", rtol=1e-10, atol=1e-12 * c["sc"])
    close(float(cost), np.sum(w * nrm), "GroupLASSO.cost", rtol=1e-10, atol=1e-12 * c["sc"] ** 2)
    val = lambda q: 0.5 * float(np.sum(np.abs(q - x) ** 2)) + f * float(op.cost(q))
    for q in (x, 0 * x, c["q"], p + 1e-3 * c["q"], 0.9 * p, 1.1 * p):
        need(val(p) <= val(q) + 1e-9 * (c["sc"] ** 2 + abs(val(p))), "GroupLASSO.op does not minimise its proximal objective")
    return nrm.size > 1 and bool(np.any((fac > 0) & (fac < 1)))


# ------------------------------------------------------------------------------- OWL
def owl_norm(w, x):
    return float(np.sum(np.sort(w)[::-1] * np.sort(np.abs(x).reshape(-1))[::-1]))


def pava_decreasing(y):
    """Least squares non-increasing fit by pooling adjacent violators."""
    blocks = []
    for v in y:
        blocks.append([v, 1])
        while len(blocks) > 1 and blocks[-2][0] <= blocks[-1][0]:
            v2, n2 = blocks.pop()
            v1, n1 = blocks.pop()
            blocks.append([(v1 * n1 + v2 * n2) / (n1 + n2), n1 + n2])
    return np.concatenate([np.full(n, v) for v, n in blocks])


@st.composite
def owl_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(2, 8), st.integers(2, 40), st.sampled_from([65, 120, 300])))
    dt = draw(st.sampled_from(["float64", "float64", "complex128"]))
    sc = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-4, 1e4, 1e-14, 1e14]))
    return {
        "grid": draw(st.integers(0, 4)) == 0, "x": lay(draw(array((n,), dtype=dt, scale=False)) * sc, draw(layouts)), "w": sc * np.sort(draw(array((n,), elements=nonneg_elem, styles=("nonneg", "const", "ints"), scale=False)))[::-1].clip(0),
        "f": draw(FAC), "col": draw(st.booleans()), "q": draw(array((n,), dtype=dt, scale=False)) * sc, "sc": sc, "wcol": draw(st.integers(0, 4)) == 0,
    }


@PROP.sub("owl", owl_case(), quick=3000, factor=25, shards=8, rule="decreasing weights pool at least two entries")
def owl(c):
    w, x = c["w"], c["x"]
    f = 1.0 if c["f"] is None else c["f"]
    if np.any(np.diff(w) > 0):
        return False
    xs = x.reshape(2, -1) if c["grid"] and x.size % 2 == 0 else x[:, None] if c["col"] else x
    with Frozen("OrderedWeightedL1Norm", x=xs, w=w):
        op = OrderedWeightedL1Norm(w)
        p = np.asarray(call(op, xs, c["f"]))
        cost = float(op.cost(xs))
    need(p.shape == xs.shape, lambda: f"shape {p.shape} for {xs.shape}")
    p = p.reshape(-1)
    a = np.abs(x)
    order = np.argsort(-a, kind="stable")
    fit = np.maximum(pava_decreasing(a[order] - f * w), 0)
    mag = np.empty_like(fit)
    mag[order] = fit
    sgn = np.where(a > 0, x / np.where(a == 0, 1, a), 0)
    want = sgn * mag
    scale = float(np.max(a)) + f * float(np.max(w))
    val = lambda q: 0.5 * float(np.sum(np.abs(q - x) ** 2)) + f * owl_norm(w, q)
    best = val(p)
    # entries with tied magnitudes are interchangeable: compare values and the objective
    close(np.sort(np.abs(p)), np.sort(mag), "OrderedWeightedL1Norm.op magnitudes", rtol=1e-9, atol=1e-11 * c["sc"], scale=scale)
    u2 = c["sc"] ** 2
    need(abs(best - val(want)) <= 1e-9 * (u2 + abs(best)), lambda: f"OWL proximal objective {best}, optimum {val(want)}")
    if np.unique(a).size == a.size:
        close(p, want, "OrderedWeightedL1Norm.op", rtol=1e-9, atol=1e-11 * c["sc"], scale=scale)
    for q in (x, 0 * x, c["q"], p + 1e-3 * c["q"], 0.9 * p, 1.1 * p):
        need(best <= val(q) + 1e-9 * (u2 + abs(best)), "OrderedWeightedL1Norm.op does not minimise its proximal objective")
    coded = float(np.sum(w * np.sort(a)))
    true = owl_norm(w, x)
    need(min(abs(cost - coded), abs(cost - true)) <= 1e-9 * (u2 + abs(true)), lambda: f"OWL cost {cost}; as coded {coded}, norm {true}")
    raw = a[order] - f * w
    return bool(np.any(np.diff(raw) > 1e-9 * c["sc"])) and bool(np.any(fit > 0))


# ------------------------------------------------------------------------------- k-support
def ksup_theta(a, beta, k):
    """theta_i = clip(alpha a_i - beta, 0, 1) with sum k (alpha by bisection)."""
    nz = a > 0
    if nz.sum() <= k:
        return np.where(nz, 1.0, 0.0), np.inf
    lo, hi = 0.0, (beta + 1) / a[nz].min() * 2
    for _ in range(300):
        mid = 0.5 * (lo + hi)
        if np.sum(np.clip(mid * a - beta, 0, 1)) < k:
            lo = mid
        else:
            hi = mid
    return np.clip(hi * a - beta, 0, 1), hi


def ksup_half_sq(x, k):
    """1/2 of the squared k-support norm (exact, by scanning every q)."""
    s = np.sort(np.abs(x).reshape(-1))[::-1]
    k = min(k, s.size)
    best, arg = None, None
    for q in range(k):
        tail = s[q:].sum() / (k - q)
        left = np.inf if q == 0 else s[q - 1]
        if left > tail - 1e-12 * (1 + s[0]) and tail >= s[q] - 1e-12 * (1 + s[0]):
            return 0.5 * (np.sum(s[:q] ** 2) + s[q:].sum() ** 2 / (k - q)), q
    return best, arg


@st.composite
def ksup_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(2, 30), st.sampled_from([60, 150])))
    x = draw(array((n,), styles=("normal", "ints", "ties", "sparse", "tinyfrac", "const", "smooth", "nonneg"), scale=False)) * draw(st.sampled_from([1.0, 1.0, 1.0, 100.0]))
    x = np.where((np.abs(x) > 0) & (np.abs(x) < 1e-3), 1e-3, x)
    beta = draw(st.one_of(st.sampled_from([0.1, 0.5, 1.0, 2.0, 0.37]), st.floats(0.05, 3.0), seeds.map(lambda s: float(np.random.RandomState(s % 2**32).uniform(0.05, 3.0)))))
    return {"x": lay(x, draw(layouts)), "k": draw(st.integers(1, n + 2)), "beta": beta, "f": draw(FAC), "q": draw(array((n,), scale=False)), "two": draw(st.booleans()), "three": draw(st.booleans())}


@PROP.sub("ksupport", ksup_case(), quick=4000, factor=25, shards=8, rule="more non-zero entries than k, and a partially shrunk entry")
def ksupport(c):
    x, k, beta = c["x"], c["k"], c["beta"]
    f = 1.0 if c["f"] is None else c["f"]
    xs = x.reshape(2, -1) if c["two"] and x.size % 2 == 0 else x
    if c["two"] and c["three"] and x.size % 4 == 0:
        xs = x.reshape(2, 2, -1)
    op = KSupportNorm(beta, k)
    with Frozen("KSupportNorm", x=xs):
        p = np.asarray(call(op, xs, c["f"]))
    need(p.shape == xs.shape, "shape")
    p = p.reshape(-1)
    kk = min(k, x.size)
    a = np.abs(x)
    theta, _ = ksup_theta(a, beta * f, kk)
    want = x * theta / (theta + beta * f)
    close(p, want, f"KSupportNorm.op (k={k}, beta={beta}, factor={f})", rtol=1e-6, atol=1e-9)
    val = lambda q: 0.5 * float(np.sum((q - x) ** 2)) + f * beta * ksup_half_sq(q, kk)[0]
    best = val(p)
    for q in (x, 0 * x, c["q"], p + 1e-3 * c["q"], 0.9 * p, 1.1 * p):
        need(best <= val(q) + 1e-6 * (1 + abs(best)), lambda: f"KSupportNorm.op objective {best}, {val(q)} at another point")
    return int(np.sum(a > 0)) > kk and bool(np.any((theta > 1e-6) & (theta < 1 - 1e-6)))


@PROP.sub("ksupport_cost", ksup_case(), quick=3000, factor=25, shards=4, rule="more entries than k and k > 1")
def ksupport_cost(c):
    x, beta = c["x"], c["beta"]
    k = min(c["k"], x.size)
    with Frozen("KSupportNorm.cost", x=x):
        cost = float(KSupportNorm(beta, k).cost(x))
    half, q = ksup_half_sq(x, k)
    if half is None:
        return False
    true = beta * half
    s = np.sort(np.abs(x))[::-1]
    coded = [beta * (0.5 * np.sum(s[:j] ** 2) + np.sum(s[j:]) ** 2 / (k - j)) for j in ksup_qs(s, k)]
    need(min([abs(cost - true)] + [abs(cost - v) for v in coded]) <= 1e-8 * (1 + abs(true)), lambda: f"k-support cost {cost} (k={k}, beta={beta}, x={x}); as coded {coded}, norm {true}")
    return x.size > k > 1


def ksup_qs(s, k):
    """Every q satisfying the defining inequalities (several under ties)."""
    out = []
    for q in range(k):
        tail = s[q:].sum() / (k - q)
        left = np.inf if q == 0 else s[q - 1]
        tol = 1e-9 * (1 + s[0])
        if left >= tail - tol and tail >= s[q] - tol:
            out.append(q)
    return out


# ------------------------------------------------------------------------------- low rank
@st.composite
def cube_case(draw):
    big = draw(st.integers(0, 7)) == 0
    k = draw(st.sampled_from([9, 17, 30])) if big else draw(st.integers(1, 6))
    h, w = (draw(st.sampled_from([3, 5, 12])), draw(st.sampled_from([4, 9]))) if big else (draw(st.integers(1, 4)), draw(st.integers(1, 4)))
    dt = draw(st.sampled_from(["float64", "float64", "complex128"]))
    how = draw(st.sampled_from(["any", "lowrank", "lowrank"]))
    if how == "any":
        x = draw(array((k, h, w), dtype=dt, styles=("normal", "ints", "const", "smooth")))
    else:
        rs = np.random.RandomState(draw(seeds))
        r = rs.randint(1, min(k, h * w) + 1)
        x = (rs.standard_normal((k, r)) @ (rs.standard_normal((r, h * w)) * rs.uniform(0.2, 3, (r, 1)))).reshape(k, h, w)
        if dt == "complex128":
            x = x * np.exp(1j * rs.uniform(0, 6, (k, 1, 1)))
    return {
        "x": x, "t": draw(st.sampled_from([0.0, 0.1, 0.5, 1.0, 2.0, 10.0])), "rel": draw(st.booleans()), "kind": draw(st.sampled_from(["soft", "hard", "default"])),
        "f": draw(FAC), "rank": draw(st.sampled_from([None, None, 1, 2, 3, 10])), "call_rank": draw(st.sampled_from([None, None, None, 1, 2])), "order": draw(layouts), "repeat": draw(st.integers(1, 3)),
    }


@PROP.sub("low_rank", cube_case(), quick=4000, factor=25, shards=8, rule="threshold strictly between two singular values")
def low_rank(c):
    x = lay(c["x"], c["order"])
    m = c["x"].reshape(c["x"].shape[0], -1).T
    u, s, v = np.linalg.svd(m, full_matrices=False)
    t0 = c["t"] * (s[0] / 2 if c["rel"] else 1.0)
    f = 1.0 if c["f"] is None else c["f"]
    t = t0 * f
    kind = "soft" if c["kind"] == "default" else c["kind"]
    near = bool(np.any(np.abs(s - t) <= 1e-7 * max(s[0], 1e-9)))
    if near and (kind == "hard" or c["rank"] or c["call_rank"]):
        return False
    new = np.where(s >= t, s, 0) if kind == "hard" else np.maximum(s - t, 0)
    want = ((u * new) @ v).T.reshape(c["x"].shape)
    kw = {} if c["kind"] == "default" else {"thresh_type": kind}
    op = LowRankMatrix(t0, initial_rank=c["rank"], **kw)
    call_kw = {} if c["f"] is None else {"extra_factor": c["f"]}
    if c["call_rank"]:
        call_kw["rank"] = c["call_rank"]
    with Frozen("LowRankMatrix", x=x):
        for k in range(c["repeat"]):
            p = op.op(x, **call_kw)
            close(p, want, f"LowRankMatrix.op ({kind}, initial rank {c['rank']}, rank {c['call_rank']}, call {k})", rtol=1e-6, atol=1e-9, scale=s[0])
            if c["rank"] or c["call_rank"]:
                need(op.rank == int(np.sum(s > t)), lambda: f"estimated rank {op.rank}, singular values {s}, threshold {t}")
        cost = op.cost(x)
    close(float(cost), t0 * np.sum(s), "LowRankMatrix.cost", rtol=1e-9, atol=1e-10)
    return bool(np.any(s > t)) and bool(np.any(s < t - 1e-9 * s[0]))


@PROP.sub("low_rank_history", fixed(seeds=st.lists(seeds, min_size=2, max_size=6), rank=st.sampled_from([None, 1, 2, 10]), kind=st.sampled_from(["soft", "hard"]), t=st.sampled_from([0.5, 1.0, 4.0]), cplx=st.booleans()), quick=800, factor=20, shards=4, rule="the estimated rank changes between the calls")
def low_rank_history(c):
    """One operator, with its internal rank estimate, used on different cubes in turn."""
    op, ranks = LowRankMatrix(c["t"], thresh_type=c["kind"], initial_rank=c["rank"]), set()
    for k, sd in enumerate(c["seeds"]):
        rs = np.random.RandomState(sd)
        n, h, w = rs.randint(1, 12), rs.randint(1, 5), rs.randint(1, 5)
        r = rs.randint(0, min(n, h * w) + 1)
        fac = rs.standard_normal((n, r)) + (1j * rs.standard_normal((n, r)) if c["cplx"] else 0)
        x = ((fac * rs.uniform(0.1, 3, r)) @ rs.standard_normal((r, h * w))).reshape(n, h, w)
        f = rs.choice([1.0, 0.5, 2.0])
        u, s, v = np.linalg.svd(x.reshape(n, -1).T, full_matrices=False)
        t = c["t"] * f
        if np.any(np.abs(s - t) <= 1e-6 * max(s[0], 1e-9)):
            continue
        new = np.where(s >= t, s, 0) if c["kind"] == "hard" else np.maximum(s - t, 0)
        with Frozen("LowRankMatrix", x=x):
            p = op.op(x, extra_factor=f)
        close(p, ((u * new) @ v).T.reshape(x.shape), f"LowRankMatrix.op ({c['kind']}, initial rank {c['rank']}), call {k}", rtol=1e-6, atol=1e-9, scale=s[0])
        ranks.add(int(np.sum(s > t)))
    return len(ranks) > 1


@PROP.sub("low_rank_zero", fixed(shape=st.tuples(st.integers(1, 5), st.integers(1, 4), st.integers(1, 4)), rank=st.sampled_from([None, 1, 2]), t=st.sampled_from([0.0, 1.0])), quick=100, shards=1, rule="every case")
def low_rank_zero(c):
    x = np.zeros(c["shape"])
    p = LowRankMatrix(c["t"], initial_rank=c["rank"]).op(x)
    equal(p, x, "LowRankMatrix.op of zeros")
    return True


@PROP.sub("ngole", fixed(seed=seeds, k=st.integers(2, 6), side=st.integers(2, 3), t=st.sampled_from([0.05, 0.3, 1.0]), f=FAC, kind=st.sampled_from(["soft", "hard"]), g=st.sampled_from([1.0, 2.0])), quick=600, factor=15, rule="some coefficients are thresholded and some are kept")
def ngole(c):
    x = np.random.RandomState(c["seed"]).standard_normal((c["k"], c["side"], c["side"]))
    m = x.reshape(c["k"], -1).T
    u, s, v = np.linalg.svd(m, full_matrices=False)
    if s[-1] < 1e-6 or (s.size > 1 and np.min(-np.diff(s)) < 1e-6):
        return False
    f = 1.0 if c["f"] is None else c["f"]
    a = s[:, None] * v
    t = c["t"] * f * c["g"]
    if np.any(np.abs(np.abs(a) - t) < 1e-9):
        return False
    new = np.where(np.abs(a) >= t, a, 0) if c["kind"] == "hard" else np.sign(a) * np.maximum(np.abs(a) - t, 0)
    op = LowRankMatrix(c["t"], thresh_type=c["kind"], lowr_type="ngole", operator=lambda cube: c["g"] * cube)
    with Frozen("LowRankMatrix ngole", x=x):
        p = call(op, x, c["f"])
    close(p, (u @ new).T.reshape(x.shape), "LowRankMatrix.op (ngole)", rtol=1e-7, atol=1e-10)
    return bool(np.any(new)) and bool(np.any(new == 0))


BAD_W = [np.array([1.0, 2.0]), np.array([3.0, 1.0, 2.0]), np.array([1.0, -1.0]), np.array([-1.0, -2.0])]


@PROP.sub("reject", fixed(i=st.integers(0, len(BAD_W) - 1), k=st.sampled_from([0, -1, 0.5, -10]), lt=st.sampled_from(["", "Standard", None, "fast"])), quick=60, shards=1, rule="every case is invalid")
def reject(c):
    raises(ValueError, lambda: OrderedWeightedL1Norm(BAD_W[c["i"]]), f"weights {BAD_W[c['i']]}")
    raises(ValueError, lambda: KSupportNorm(1.0, c["k"]), f"k = {c['k']}")
    raises(ValueError, lambda: LowRankMatrix(1.0, lowr_type=c["lt"]).op(np.ones((2, 2, 2))), f"lowr_type {c['lt']!r}")
    return True


@PROP.sub("owl_weights", fixed(seed=seeds, n=st.integers(1, 40), ties=st.booleans(), at=st.integers(0, 39), by=st.floats(-7, 1).map(lambda e: 10.0**e), how=st.sampled_from(["rise", "negative", "valid", "valid"]), unit=st.floats(-3, 3).map(lambda e: 10.0**e)),
          quick=400, factor=10, rule="every case")
def owl_weights(c):
    """Non-increasing non-negative weights are accepted; any rise or negative weight is refused."""
    rs = np.random.RandomState(c["seed"] % 2**32)
    w = np.sort(rs.randint(0, 4, c["n"]) / 2.0 if c["ties"] else rs.rand(c["n"]))[::-1] * c["unit"]
    k = c["at"] % c["n"]
    if c["how"] == "valid":
        x = rs.randn(c["n"])
        need(np.all(np.isfinite(OrderedWeightedL1Norm(w.copy()).op(x))), "valid weights")
        return True
    if c["how"] == "negative":
        w[k:] = -c["by"]
    elif c["n"] > 1:
        k = max(k, 1)
        w[k:] = np.minimum(w[k:], w[k - 1])
        w[k] = w[k - 1] * (1 + c["by"]) + 1e-6 * c["by"]
    else:
        return False
    raises(ValueError, lambda: OrderedWeightedL1Norm(w), f"weights {w}")
    return True


@PROP.probe("owl-cost-order")
def owl_cost_order():
    cost = float(OrderedWeightedL1Norm(np.arange(5, 0, -1.0)).cost(np.arange(1.0, 6.0)))
    if abs(cost - 55.0) < 1e-9:
        return "absent"
    if abs(cost - 35.0) < 1e-9:
        return "present"
    raise Violation(f"OWL cost of (1..5) with weights (5..1): {cost}, norm 55, as coded 35")


@PROP.probe("ksupport-cost-half")
def ksupport_cost_half():
    cost = float(KSupportNorm(beta=2.0, k_value=1).cost(np.array([3.0, 4.0])))
    if abs(cost - 49.0) < 1e-9:
        return "absent"
    if abs(cost - 98.0) < 1e-9:
        return "present"
    raise Violation(f"k-support cost {cost}, expected 49 (norm) or 98 (as coded)")
