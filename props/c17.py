"""C17: matrix utilities satisfy the linear algebra that defines them."""
import math

import numpy as np
from hypothesis import strategies as st
from modopt.math import matrix as mx

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay, seeds
from harness.oracle import Frozen, close, equal, need, raises

PROP = Prop("C17", ["gram_schmidt: linearly independent real or complex rows with condition number below 1e3", "project: non-zero direction"])


@st.composite
def basis(draw):
    m = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(1, 7), st.sampled_from([12, 30])))
    n = m + draw(st.sampled_from([0, 1, 2, 3, 4, 40]))
    kind = draw(st.integers(0, 3))
    if kind == 1 and m < 8:
        rs = np.random.RandomState(draw(seeds))
        q, _ = np.linalg.qr(rs.standard_normal((n, n)) + 1j * rs.standard_normal((n, n)))
        low = np.tril(rs.standard_normal((m, m)) + 1j * rs.standard_normal((m, m)), -1) + np.diag(rs.uniform(0.5, 2, m) * np.exp(1j * rs.uniform(0, 6, m)))
        rows = low @ q[:m]
    elif kind == 0 and m < 8:
        rows = np.array(
            draw(st.lists(st.lists(st.integers(-3, 3), min_size=n, max_size=n), min_size=m, max_size=m))
        )
        rows = rows + 8 * np.eye(m, n, dtype=int)[draw(st.permutations(list(range(m))))]
        if draw(st.booleans()):
            rows = rows.astype(float)
    else:
        rs = np.random.RandomState(draw(seeds))
        q, _ = np.linalg.qr(rs.standard_normal((n, n)))
        low = np.tril(rs.standard_normal((m, m)), -1) + np.diag(rs.uniform(0.5, 2, m) * rs.choice([-1, 1], m))
        rows = low @ q[:m] * draw(st.one_of(st.just(1.0), st.floats(-18, 18).map(lambda e: 10.0**e)))
    return dict(rows=rows, order=draw(layouts))


@PROP.sub("gram_schmidt", basis(), quick=1500, rule="at least two rows that are not already orthogonal, condition number < 1e3")
def gram_schmidt(c):
    rows = lay(c["rows"], c["order"])
    wide = np.result_type(rows.dtype, float)
    cond = np.linalg.cond(rows.astype(wide))
    if cond > 1e3:
        return False
    q, r = np.linalg.qr(c["rows"].astype(wide).T)
    d = np.diag(r)
    e_ref = (q * (d / np.abs(d))).T
    u_ref = e_ref * np.abs(d)[:, None]
    with Frozen("gram_schmidt", rows=rows):
        e = mx.gram_schmidt(rows)
        e2 = mx.gram_schmidt(rows, return_opt="orthonormal")
        u = mx.gram_schmidt(rows, return_opt="orthogonal")
        both = mx.gram_schmidt(rows, return_opt="both")
    need(isinstance(both, tuple) and len(both) == 2, "gram_schmidt(both) must return a pair")
    s = np.max(np.abs(u_ref))
    close(e, e_ref, "gram_schmidt orthonormal", rtol=0, atol=1e-7)
    close(e2, e_ref, "gram_schmidt return_opt=orthonormal", rtol=0, atol=1e-7)
    close(u, u_ref, "gram_schmidt orthogonal", rtol=1e-7, atol=0, scale=s)
    close(both[0], u_ref, "gram_schmidt both[0]", rtol=1e-7, atol=0, scale=s)
    close(both[1], e_ref, "gram_schmidt both[1]", rtol=0, atol=1e-7)
    gram = np.abs(c["rows"].astype(wide) @ c["rows"].conj().T)
    return len(rows) > 1 and np.max(np.abs(gram - np.diag(np.diag(gram)))) > 1e-9 * np.max(gram)


@PROP.sub(
    "project",
    st.tuples(st.one_of(st.integers(1, 12), st.sampled_from([60, 300, 1500])), st.sampled_from([float, float, complex])).flatmap(lambda t: fixed(u=array((t[0],), dtype=t[1]), v=array((t[0],), dtype=t[1]), order=layouts)),
    quick=1500, rule="non-zero direction, vector not parallel to it",
)
def project(c):
    u, v = lay(c["u"], c["order"]), lay(c["v"], c["order"])
    nu = math.fsum(abs(x) ** 2 for x in c["u"])
    if nu == 0:
        return False
    prods = [np.conj(a) * b for a, b in zip(c["u"], c["v"])]
    coef = (math.fsum(x.real for x in prods) + (1j * math.fsum(x.imag for x in prods) if np.iscomplexobj(u) else 0.0)) / nu
    s = np.linalg.norm(c["v"])
    with Frozen("project", u=u, v=v):
        p = mx.project(u, v)
    close(p, coef * c["u"], "project", rtol=1e-10, atol=1e-13, scale=s)
    close(mx.project(u, p), p, "project twice", rtol=1e-10, atol=1e-13, scale=s)
    close(mx.project(-3.0 * u, v), p, "project onto a rescaled direction", rtol=1e-10, atol=1e-13, scale=s)
    need(abs(np.vdot(u, v - p)) <= 1e-10 * (1e-6 + s * math.sqrt(nu)), "residual of project is not orthogonal to the direction")
    return s > 0 and np.linalg.norm(v - p) > 1e-9 * s


@PROP.sub(
    "nuclear_norm",
    st.tuples(st.one_of(st.integers(1, 9), st.integers(1, 9), st.just(40)), st.one_of(st.integers(1, 9), st.integers(1, 9), st.just(30)), st.sampled_from(["float64", "float64", "complex128", "int64"])).flatmap(
        lambda t: fixed(a=array(t[:2], dtype=t[2]), b=array((t[1], t[0])), order=layouts)
    ),
    quick=1200, rule="rank at least two",
)
def nuclear(c):
    a = lay(c["a"], c["order"])
    g = c["a"].astype(complex)
    ev = np.linalg.eigvalsh(g @ g.conj().T if g.shape[0] <= g.shape[1] else g.conj().T @ g)
    approx = np.sum(np.sqrt(np.maximum(ev, 0)))
    sv = np.linalg.svd(g, compute_uv=False)
    with Frozen("nuclear_norm", a=a):
        nn = mx.nuclear_norm(a)
    s = max(approx, 1e-12)
    close(nn, np.sum(sv), "nuclear_norm", rtol=1e-9, atol=1e-12)
    close(nn, approx, "nuclear_norm (eigenvalues)", rtol=1e-5, atol=1e-9)
    close(mx.nuclear_norm(a.T), nn, "nuclear_norm of the transpose", rtol=1e-9, atol=1e-12)
    close(mx.nuclear_norm(-2 * a), 2 * nn, "nuclear_norm homogeneity", rtol=1e-9, atol=1e-12)
    return np.sum(sv > 1e-9 * s) > 1


ANG = st.one_of(
    st.integers(-16, 16).map(lambda k: k * math.pi / 4),
    st.integers(-24, 24).map(lambda k: k * math.pi / 12),
    st.integers(-7000, 7000).map(lambda k: k / 1000.0),
    st.integers(-3000000, 3000000).map(lambda k: k / 1000.0),
)


@PROP.sub("rot_matrix", fixed(a=ANG, b=ANG, x=array((2,))), quick=1500, rule="angle not a multiple of pi")
def rot_matrix(c):
    a, b = c["a"], c["b"]
    r = mx.rot_matrix(a)
    close(r, [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]], "rot_matrix", rtol=0, atol=2e-10)
    close(r @ r.T, np.eye(2), "rot_matrix orthogonality", rtol=0, atol=1e-9)
    close(mx.rot_matrix(b) @ r, mx.rot_matrix(a + b), "rot_matrix composition", rtol=0, atol=1e-9)
    z = complex(*c["x"]) * complex(math.cos(a), math.sin(a))
    close(r @ c["x"], [z.real, z.imag], "rot_matrix rotates counter-clockwise", rtol=1e-9, atol=1e-9)
    k = round(a / (math.pi / 2))
    if abs(a - k * math.pi / 2) < 1e-12:
        equal(r, [[[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]]][k % 4], "rot_matrix of a quarter turn is exact")
    return abs(math.sin(a)) > 1e-9


@PROP.sub(
    "rotate",
    st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(1, 9), st.integers(10, 22)).flatmap(
        lambda n: fixed(m=array((n, n), dtype="int64").map(lambda m: m + 13 * np.arange(m.size).reshape(m.shape)), a=ANG, order=layouts, real=st.booleans())
    ),
    quick=1500, rule="at least 3x3 and an angle that moves a pixel",
)
def rotate(c):
    m = lay(c["m"].astype(float) if c["real"] else c["m"], c["order"])
    n, a = m.shape[0], c["a"]
    with Frozen("rotate", m=m):
        res = mx.rotate(m, a)
    need(np.shape(res) == m.shape, lambda: f"rotate changed the shape to {np.shape(res)}")
    need(np.isin(np.asarray(res), m).all(), "rotate invented a pixel value")
    k = round(a / (math.pi / 2))
    quarter = abs(a - k * math.pi / 2) < 1e-9
    if quarter and n % 2:
        equal(res, np.rot90(c["m"], k), "rotate of an odd-sized matrix by quarter turns")
    cs, sn = round(math.cos(a), 10), round(math.sin(a), 10)
    sh = (n - 1) // 2
    for i in range(n):
        for j in range(n):
            y, x = i - sh, j - sh
            yy, xx = y * cs + x * sn, -y * sn + x * cs
            if not quarter and min(abs(yy - round(yy)), abs(xx - round(xx))) < 1e-6:
                continue
            if quarter:
                yy, xx = round(yy), round(xx)
            src = m[(int(yy) + sh) % n, (int(xx) + sh) % n]
            need(res[i, j] == src, lambda: f"rotate({a}): pixel {(i, j)} is {res[i, j]}, expected {src}")
    return n > 2 and abs(math.cos(a) - 1) > 1e-6


@PROP.sub("rotate_large", fixed(n=st.one_of(st.integers(23, 140), st.integers(120, 300), st.integers(257, 300)), a=ANG, seed=seeds), quick=60, shards=2, rule="at least 30x30 and an angle that moves a pixel")
def rotate_large(c):
    """The rule of `rotate` on matrices far beyond the size of a patch."""
    n, a = c["n"], c["a"]
    m = np.random.RandomState(c["seed"]).permutation(n * n).reshape(n, n) * 1.0
    with Frozen("rotate", m=m):
        res = mx.rotate(m, a)
    need(np.shape(res) == m.shape, lambda: f"rotate changed the shape to {np.shape(res)}")
    k = round(a / (math.pi / 2))
    quarter = abs(a - k * math.pi / 2) < 1e-9
    cs, sn = round(math.cos(a), 10), round(math.sin(a), 10)
    sh = (n - 1) // 2
    y, x = np.mgrid[:n, :n] - sh
    yy, xx = y * cs + x * sn, -y * sn + x * cs
    sure = np.ones((n, n), bool) if quarter else np.minimum(np.abs(yy - np.rint(yy)), np.abs(xx - np.rint(xx))) >= 1e-6
    if quarter:
        yy, xx = np.rint(yy), np.rint(xx)
    exp = m[(np.trunc(yy).astype(int) + sh) % n, (np.trunc(xx).astype(int) + sh) % n]
    equal(res[sure], exp[sure], f"rotate({a}) of a {n}x{n} matrix")
    return n >= 30 and abs(math.cos(a) - 1) > 1e-6


@PROP.sub("reject", fixed(a=st.integers(1, 5), b=st.integers(1, 5), opt=st.sampled_from(["ortho", "", None, "Both"])), quick=60, shards=1, rule="every case is an invalid call")
def reject(c):
    if c["a"] != c["b"]:
        raises(ValueError, lambda: mx.rotate(np.ones((c["a"], c["b"])), 0.3), "rotate of a non-square matrix")
    raises(ValueError, lambda: mx.gram_schmidt(np.eye(3), return_opt=c["opt"]), "gram_schmidt with an invalid return_opt")
    return True
