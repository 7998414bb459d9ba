"""C18: PowerMethod performs the power iteration and bounds the spectral radius from below."""
import numpy as np
from hypothesis import strategies as st
from modopt.math.matrix import PowerMethod

from harness.core import Prop
from harness.gen import fixed, seeds
from harness.oracle import close, need

PROP = Prop("C18", ["the operator is linear and maps the data shape to itself; float or complex data"])


@st.composite
def case(draw, gap=None):
    shape = draw(st.one_of(
        st.tuples(st.integers(2, 8)), st.tuples(st.integers(1, 4), st.integers(2, 4)), st.tuples(st.integers(2, 8)), st.tuples(st.integers(1, 4), st.integers(2, 4)),
        st.tuples(st.integers(1, 3), st.integers(2, 3), st.integers(1, 4)), st.sampled_from([(60,), (9, 7), (3, 4, 5), (1, 2, 1, 3)]),
    ))
    return dict(
        shape=shape, aslist=draw(st.booleans()), seed=draw(seeds), rng=draw(st.integers(0, 10**6)),
        cplx=draw(st.booleans()), psd=draw(st.booleans()),
        gap=draw(st.floats(0.0, 0.7)), top=draw(st.one_of(st.sampled_from([1.0, 0.01, 3.7, 250.0]), st.floats(-14, 14).map(lambda e: 10.0**e))),
        tol=draw(st.one_of(st.sampled_from([1e-6, 1e-10, 1e-3, 0.0]), st.floats(-13, 1).map(lambda e: 10.0**e))), max_iter=draw(st.one_of(st.sampled_from([1, 2, 3, 20, 60, 300]), st.integers(1, 120))),
        extra=draw(st.one_of(st.sampled_from([1.0, 1.1, 0.5, 2.0]), st.floats(0.05, 20))), inplace=draw(st.booleans()),
        scalar=draw(st.integers(0, 9)) == 0,
    )


def build(c):
    n = int(np.prod(c["shape"]))
    rs = np.random.RandomState(c["seed"])
    if c["psd"]:
        z = rs.standard_normal((n, n)) + (1j * rs.standard_normal((n, n)) if c["cplx"] else 0)
        q, _ = np.linalg.qr(z)
        ev = np.r_[1.0, rs.uniform(0, c["gap"], n - 1)] * c["top"]
        mat = (q * ev) @ q.conj().T
    else:
        mat = rs.standard_normal((n, n)) * c["top"]
        if c["cplx"]:
            mat = mat + 1j * rs.standard_normal((n, n)) * c["top"]
    if c["scalar"]:
        mat = np.eye(n) * c["top"]
    calls = []

    def op(x):
        inp = np.array(x, copy=True)
        y = (mat @ inp.ravel()).reshape(inp.shape)
        if c["scalar"] and c["inplace"]:
            x *= c["top"]
            y = x
        calls.append((inp, np.array(y, copy=True)))
        return y

    return mat, op, calls


def make(c, op, **kw):
    shape = list(c["shape"]) if c["aslist"] else c["shape"]
    return PowerMethod(op, shape, data_type=complex if c["cplx"] else float, rng=c["rng"], **kw)


@PROP.sub("iteration", case(), quick=1500, rule="more than one iteration performed")
def iteration(c):
    mat, op, calls = build(c)
    pm = make(c, op, auto_run=False)
    need(not calls, "auto_run=False still called the operator")
    pm.get_spec_rad(tolerance=c["tol"], max_iter=c["max_iter"], extra_factor=c["extra"])
    norm2 = np.linalg.norm(mat, 2)
    need(1 <= len(calls) <= c["max_iter"], lambda: f"{len(calls)} operator calls for max_iter={c['max_iter']}")
    norms = [np.linalg.norm(y) for _, y in calls]
    for k, (inp, _) in enumerate(calls):
        need(inp.shape == c["shape"], f"operator called with shape {inp.shape}")
        close(np.linalg.norm(inp), 1.0, f"norm of the vector given to the operator in iteration {k}", rtol=1e-9)
        if k:
            close(inp, calls[k - 1][1] / norms[k - 1], f"vector of iteration {k} is the normalised previous image", rtol=1e-8, atol=1e-8)
    for k in range(2, len(norms)):
        d = abs(norms[k - 1] - norms[k - 2])
        need(d >= c["tol"] * (1 - 1e-6) - 1e-12 * norm2, lambda: f"iteration continued after the change {d} fell below the tolerance")
    if len(calls) < c["max_iter"] and len(calls) > 1:
        d = abs(norms[-1] - norms[-2])
        need(d <= c["tol"] * (1 + 1e-6) + 1e-12 * norm2, lambda: f"stopped before convergence: change {d} > {c['tol']}")
    close(pm.spec_rad, norms[-1] * c["extra"], "spec_rad", rtol=1e-9)
    close(pm.inv_spec_rad * pm.spec_rad, 1.0, "inv_spec_rad * spec_rad", rtol=1e-9)
    need(pm.spec_rad <= norm2 * c["extra"] * (1 + 1e-9), lambda: f"spec_rad {pm.spec_rad} exceeds the operator norm {norm2}")
    # a second computation with the same object starts afresh
    first = list(calls)
    calls.clear()
    pm.get_spec_rad(tolerance=c["tol"], max_iter=c["max_iter"], extra_factor=c["extra"])
    need(len(calls) == len(first), lambda: f"{len(calls)} operator calls in the second computation, {len(first)} in the first")
    close(calls[0][0], first[0][0], "start of the second computation", rtol=1e-12)
    close(pm.spec_rad, norms[-1] * c["extra"], "spec_rad of the second computation", rtol=1e-9)
    calls[:] = first
    # reproducible from the rng
    mat, op2, calls2 = build(c)
    pm2 = make(c, op2, auto_run=False)
    pm2.get_spec_rad(tolerance=c["tol"], max_iter=c["max_iter"], extra_factor=c["extra"])
    close(pm2.spec_rad, pm.spec_rad, "same rng, same spec_rad", rtol=1e-12)
    return len(calls) > 1


@PROP.sub("limit", case(), quick=800, rule="positive semi-definite operator with a spectral gap")
def limit(c):
    c = dict(c, psd=True, scalar=False)
    mat, op, calls = build(c)
    n = int(np.prod(c["shape"]))
    pm = make(c, op, auto_run=False)
    pm.get_spec_rad(tolerance=1e-13 * c["top"], max_iter=400)
    v = np.linalg.eigh((mat + mat.conj().T) / 2)[1][:, -1]
    start = calls[0][0].ravel()
    if abs(np.vdot(v, start)) < 1e-2 and n > 1:
        return False
    close(pm.spec_rad, c["top"], "spec_rad of a PSD operator with a spectral gap", rtol=1e-6)
    return True


@PROP.sub("auto", case(), quick=500, rule="every case")
def auto(c):
    mat, op, calls = build(c)
    pm = make(c, op)
    need(1 <= len(calls) <= 20, lambda: f"{len(calls)} operator calls in automatic mode (default max_iter is 20)")
    close(pm.spec_rad, np.linalg.norm(calls[-1][1]), "spec_rad in automatic mode", rtol=1e-9)
    need(np.all(np.isfinite(calls[0][0])) and np.linalg.norm(calls[0][0]) > 0.5, "initial vector is not a unit vector")
    n0 = len(calls)
    pm.get_spec_rad(max_iter=5, tolerance=0.0, extra_factor=c["extra"])
    need(len(calls) == n0 + 5, lambda: f"{len(calls) - n0} operator calls for max_iter=5, tolerance=0")
    close(pm.spec_rad, np.linalg.norm(calls[-1][1]) * c["extra"], "spec_rad after a second run", rtol=1e-9)
    close(pm.inv_spec_rad, 1.0 / pm.spec_rad, "inv_spec_rad after a second run", rtol=1e-9)
    # different generators start from different vectors
    calls2 = []
    other = PowerMethod(lambda x: (calls2.append(np.array(x)), 1.0 * x)[1], c["shape"], rng=c["rng"] + 1)
    need(not np.allclose(np.abs(calls2[0]), np.abs(calls[0][0]), rtol=0, atol=1e-12), "different rng, same initial vector")
    need(abs(other.spec_rad - 1) < 1e-9, "spec_rad of the identity")
    return True
