"""C38: computations on the device backend give the results of the host (with a strict stand-in for cupy)."""
import contextlib
import io
import warnings

from harness import device

cp = device.install()  # before modopt is imported

import numpy as np  # noqa: E402
import torch  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from modopt.base import backend  # noqa: E402
from modopt.math.matrix import PowerMethod  # noqa: E402
from modopt.opt import algorithms as al  # noqa: E402
from modopt.opt.cost import costObj  # noqa: E402
from modopt.opt.gradient import GradBasic  # noqa: E402
from modopt.opt.linear import Identity, LinearCombo, MatrixOperator, WaveletTransform  # noqa: E402
from modopt.opt.proximity import ElasticNet, GroupLASSO, IdentityProx, LinearCompositionProx, Ridge, SparseThreshold  # noqa: E402
from modopt.signal import noise  # noqa: E402

from harness.core import Prop  # noqa: E402
from harness.gen import array, expand, fixed, seeds  # noqa: E402
from harness.oracle import need  # noqa: E402

PROP = Prop(
    "C38",
    [
        "cupy is not installed: a stand-in (harness/device.py) plays the device; like cupy it returns device arrays from numpy functions and operators, refuses host arrays of one dimension or more, and never converts implicitly",
        "only what supports device arrays is run: ForwardBackward, POGM, Condat, ADMM, FastADMM, VanillaGenericGradOpt, MomentumGradOpt; SparseThreshold, Ridge, ElasticNet, GroupLASSO, IdentityProx, LinearCompositionProx; thresh, PowerMethod, the wavelet transform (README: partial compliance)",
        "solvers with a cost: SparseThreshold or IdentityProx (the other costs are device scalars, which costObj does not add up)",
        "observations stay on the host: the operators of the gradient move data between host and device",
    ],
)
HOST, DEV = (lambda v: np.array(v)), (lambda v: cp.array(v))


def quiet(fn):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn()


def back(v, what):
    need(isinstance(v, device.ndarray), lambda: f"{what}: the result is a {type(v)}, not a device array")
    return v.get()


def agree(dev, host, what, rtol=1e-9):
    dev, host = np.asarray(dev, dtype=complex), np.asarray(host, dtype=complex)
    need(dev.shape == host.shape, lambda: f"{what}: shape {dev.shape} on the device, {host.shape} on the host")
    fin = np.isfinite(host)
    need(np.array_equal(fin, np.isfinite(dev)), lambda: f"{what}: non-finite values differ")
    if np.any(fin):
        size = float(np.max(np.abs(host[fin])))
        need(float(np.max(np.abs(host[fin] - dev[fin]))) <= rtol * size + 1e-12, lambda: f"{what}: {dev} on the device, {host} on the host")


# ------------------------------------------------------------------------------- transfers
@PROP.sub("transfers", fixed(x=array((3, 4)), small=st.booleans(), dt=st.sampled_from(["float64", "float32", "complex128", "int64", "bool"]), hops=st.lists(st.sampled_from(["cupy", "numpy", "cpu", "same", "default"]), min_size=1, max_size=6)), quick=1500, shards=2, rule="at least one change of side")
def transfers(c):
    """Histories of moves between host and device: values, types and the kind of the array."""
    x = (c["x"][:1, :2] if c["small"] else c["x"]).astype(c["dt"])
    keep, cur, moved = x.copy(), x, False
    for hop in c["hops"]:
        was = isinstance(cur, device.ndarray)
        need(backend.get_array_module(cur) is (cp if was else np), "get_array_module does not tell where the data are")
        if hop == "cpu":
            new = backend.move_to_cpu(cur)
            need(isinstance(new, np.ndarray), "move_to_cpu did not return a host array")
        else:
            target = {"default": "cupy", "same": "cupy" if was else "numpy"}.get(hop, hop)
            if was and target == "numpy":
                continue  # the way back is move_to_cpu
            new = backend.change_backend(cur) if hop == "default" else backend.change_backend(cur, target)
            need(isinstance(new, device.ndarray) == (target == "cupy"), lambda: f"change_backend to {target} returned {type(new)}")
        is_dev = isinstance(new, device.ndarray)
        need(is_dev != was or new is cur, "data already in place were copied")
        moved |= is_dev != was
        vals = new.get() if is_dev else new
        need(vals.dtype == keep.dtype and np.array_equal(vals, keep), lambda: f"values changed on the way: {vals}, {keep}")
        cur = new
    need(np.array_equal(x, keep), "the data of the caller changed")
    lib, name = backend.get_backend("cupy")
    need(lib is cp and name == "cupy", "get_backend('cupy')")
    t = backend.convert_to_tensor(cp.array(keep.real.astype(float)))
    need(t.dtype == torch.float32 and np.array_equal(t.numpy(), keep.real.astype("float32")), "convert_to_tensor of device data")
    return moved


# ------------------------------------------------------------------------------- operators
def prox_pair(kind, t, w, a):
    """The same operator for host and device data."""
    def mk(put):
        return {
            "soft": lambda: SparseThreshold(Identity(), t), "soft-weights": lambda: SparseThreshold(Identity(), put(w)), "hard": lambda: SparseThreshold(Identity(), t, thresh_type="hard"), "hard-weights": lambda: SparseThreshold(Identity(), put(w), thresh_type="hard"),
            "ridge": lambda: Ridge(Identity(), t), "elastic": lambda: ElasticNet(Identity(), t, 0.5 * t), "elastic-weights": lambda: ElasticNet(Identity(), t, put(w)), "group": lambda: GroupLASSO(t), "identity": lambda: IdentityProx(),
            "composed": lambda: LinearCompositionProx(MatrixOperator(put(a)), SparseThreshold(Identity(), t)), "transformed": lambda: SparseThreshold(MatrixOperator(put(a)), t),
        }[kind]()
    return mk(HOST), mk(DEV)


PROX = ["soft", "soft-weights", "hard", "hard-weights", "ridge", "elastic", "elastic-weights", "group", "identity", "composed", "transformed"]


@PROP.sub("operators", fixed(kind=st.sampled_from(PROX), seed=seeds, n=st.one_of(st.integers(1, 8), st.sampled_from([40, 300])), k=st.sampled_from([None, None, 1, 3]), cplx=st.booleans(), f=st.sampled_from([1.0, 0.5, 2.0]), style=st.sampled_from(["normal", "ties", "sparse", "smooth"])), quick=3000, rule="a result that is not zero")
def operators(c):
    """Proximity operators, their costs and linear operators on device data."""
    rs = np.random.RandomState(c["seed"] % 2**32)
    shape = (c["n"],) if c["k"] is None else (c["n"], c["k"])
    x = expand(rs.randint(2**31), shape, c["style"], complex if c["cplx"] else float)
    w = np.abs(rs.standard_normal(shape))
    a = np.linalg.qr(rs.standard_normal((min(c["n"], 40), min(c["n"], 40))))[0] if c["n"] <= 40 else np.eye(c["n"])
    host, dev = prox_pair(c["kind"], float(rs.uniform(0.05, 2)), w, a)
    d = cp.array(x)
    got = back(quiet(lambda: dev.op(d, extra_factor=c["f"])), f"{c['kind']}.op")
    want = quiet(lambda: host.op(x.copy(), extra_factor=c["f"]))
    agree(got, want, f"{c['kind']}.op")
    need(np.array_equal(d.get(), x), lambda: f"{c['kind']}.op changed its argument on the device")
    agree(complex(quiet(lambda: dev.cost(d))), quiet(lambda: host.cost(x.copy())), f"{c['kind']}.cost")
    t = float(rs.uniform(0.05, 2))
    for how in ("hard", "soft"):
        agree(back(noise.thresh(d, t, how), f"thresh {how}"), noise.thresh(x.copy(), t, how), f"thresh {how}")
    ops = [Identity(), MatrixOperator(cp.array(a))]
    parts = LinearCombo(ops, weights=[0.5, 2.0]).op(d)
    agree(back(parts[0], "LinearCombo.op"), x, "LinearCombo.op, identity")
    agree(back(parts[1], "LinearCombo.op"), a @ x, "LinearCombo.op, matrix")
    agree(back(MatrixOperator(cp.array(a)).adj_op(d), "MatrixOperator.adj_op"), a.T @ x, "MatrixOperator.adj_op")
    return bool(np.any(want))


@PROP.sub("power_method", fixed(seed=seeds, n=st.integers(1, 8), it=st.integers(1, 40), tol=st.sampled_from([0.0, 1e-6, 1e-3]), again=st.booleans()), quick=800, shards=2, rule="more than one dimension")
def power_method(c):
    rs = np.random.RandomState(c["seed"] % 2**32)
    a = rs.standard_normal((c["n"], c["n"]))
    a = a @ a.T + np.eye(c["n"])

    def go(dev):
        op = (lambda v: cp.array(a @ v.get())) if dev else (lambda v: a @ v)
        pm = PowerMethod(op, (c["n"],), auto_run=False, rng=c["seed"] % 1000, compute_backend="cupy" if dev else "numpy")
        for _ in range(1 + c["again"]):
            pm.get_spec_rad(tolerance=c["tol"], max_iter=c["it"])
        return [complex(pm.spec_rad), complex(pm.inv_spec_rad)]

    agree(quiet(lambda: go(True)), quiet(lambda: go(False)), "spectral radius", rtol=1e-7)
    return c["n"] > 1


# --------------------------------------------------------------------------------- solvers
KINDS = ["fb", "fb-no-lambda", "fb-cd", "fb-adaptive-i", "fb-adaptive-ii", "fb-adaptive-1", "fb-greedy", "pogm", "pogm-sigma", "condat", "condat-identity", "admm", "fadmm", "vanilla", "momentum"]


def build(kind, put, seed, n, m, cplx, cost, start, cols):
    """The solver of a random problem on one side; put uploads (or copies)."""
    rs = np.random.RandomState(seed % 2**32)
    dev = put is DEV
    get = (lambda v: v.get()) if dev else (lambda v: v)
    g = lambda *s: rs.standard_normal(s) + (1j * rs.standard_normal(s) if cplx else 0)
    tail = () if cols is None else (cols,)
    a, b, x0, y0 = g(m, n), g(m, *tail), g(n, *tail), g(n, *tail)
    step = float(0.9 / max(np.linalg.norm(a, 2) ** 2, 1e-3))
    t, w = float(rs.uniform(0.02, 1)), np.abs(rs.standard_normal((n, *tail)))
    pk = ["soft", "soft-weights", "identity", "ridge", "elastic", "group"][rs.randint(3 if cost else 6)]  # the last three report costs as device scalars
    prox = prox_pair(pk, t, w, None)[1 if dev else 0]
    grad = GradBasic(b.copy(), lambda v: a @ get(v), lambda v: put(a.conj().T @ v), verbose=False)
    kw = {"auto_iterate": False, "progress": False, "compute_backend": "cupy" if dev else "numpy"}
    calls = []
    kw["metrics"] = {"m": {"metric": lambda v: calls.append(get(v).copy()) or float(np.linalg.norm(get(v))), "mapping": {"x_new": "v"}, "cst_kwargs": {}, "early_stopping": False}}
    kw["metric_call_period"] = 2
    interval, made = [1, 2][rs.randint(2)], []

    def mk(ops):
        if cost:
            made.append(costObj(ops, tolerance=1e-4, cost_interval=interval, verbose=False))
        return made[0] if cost else None

    kw["linear"] = Identity()
    # a device start may also be given from the host to ForwardBackward, which uploads it
    up = (lambda v: v.copy()) if start and kind.startswith("fb") else put
    if kind.startswith("fb"):
        opt = {"fb": {}, "fb-no-lambda": {"lambda_update": None, "lambda_param": 0.9}, "fb-cd": {"a_cd": 4.0}, "fb-adaptive-i": {"restart_strategy": "adaptive-i", "xi_restart": 0.9}, "fb-adaptive-ii": {"restart_strategy": "adaptive-ii", "xi_restart": 0.9},
               "fb-adaptive-1": {"restart_strategy": "adaptive-1", "xi_restart": 0.9}, "fb-greedy": {"restart_strategy": "greedy", "xi_restart": 0.9, "min_beta": 0.3 * step, "s_greedy": 1.1}}[kind]
        s = al.ForwardBackward(up(x0), grad, prox, cost=mk([grad, prox]), beta_param=step, **opt, **kw)
    elif kind.startswith("pogm"):
        s = al.POGM(put(x0), put(x0), put(y0), put(x0), grad, prox, cost=mk([grad, prox]), beta_param=step, sigma_bar=0.6 if kind == "pogm-sigma" else 1.0, **kw)
    elif kind.startswith("condat"):
        dual = prox_pair("soft", t, w, None)[1 if dev else 0]
        primal = prox if kind == "condat" else IdentityProx()
        s = al.Condat(put(x0), put(y0), grad, primal, dual, cost=mk([grad, primal, dual]), tau=float(1 / (1 / step + 0.5)), sigma=0.5, rho=0.9, **kw)
    elif kind in ("admm", "fadmm"):
        cls = al.ADMM if kind == "admm" else al.FastADMM
        xp = cp if dev else np
        funcs = (lambda u: 0.5 * xp.linalg.norm(u - 1.0) ** 2, lambda v: xp.sum(xp.abs(v))) if cost else None
        s = cls(put(x0), put(y0), put(g(n, *tail)), Identity(), Identity(), put(g(n, *tail)), (lambda init, obs: 0.3 * init + 0.2 * obs, lambda init, obs: 0.1 * init - 0.4 * obs), cost_funcs=funcs, **{k: v for k, v in kw.items() if k not in ("auto_iterate", "linear")})
    else:
        cls = al.VanillaGenericGradOpt if kind == "vanilla" else al.MomentumGradOpt
        s = cls(put(x0), grad, prox, mk([grad, prox]), eta=0.2 * step, **{k: v for k, v in kw.items() if k not in ("auto_iterate", "linear")})
    return s, calls, made


@PROP.sub("solvers", fixed(kind=st.sampled_from(KINDS), seed=seeds, n=st.integers(1, 6), m=st.integers(1, 6), it=st.lists(st.integers(1, 12), min_size=1, max_size=2), cplx=st.booleans(), cost=st.booleans(), start=st.booleans(), cols=st.sampled_from([None, None, None, 1, 2, 4])), quick=2500, rule="a solution that is not zero")
def solvers(c):
    """Final values, metrics and costs of a run on the device and of the same run on the host."""
    cplx = c["cplx"] and c["kind"] not in ("vanilla", "momentum")

    def go(put):
        s, calls, made = build(c["kind"], put, c["seed"], c["n"], c["m"], cplx, c["cost"], c["start"], c["cols"])
        for k in c["it"]:
            s.iterate(max_iter=k)
        names = [n for n in ("x_final", "y_final", "u_final", "v_final", "mu_final") if hasattr(s, n) and getattr(s, n) is not None]
        vals = [getattr(s, n) for n in names]
        return names, vals, calls, [complex(o.cost) for o in made], s.converge

    nd, vd, cd, kd, convd = quiet(lambda: go(DEV))
    nh, vh, ch, kh, convh = quiet(lambda: go(HOST))
    need(nd == nh, lambda: f"{c['kind']}: results {nd} on the device, {nh} on the host")
    for name, a, b in zip(nd, vd, vh):
        agree(back(a, f"{c['kind']}.{name}"), b, f"{c['kind']}.{name}", rtol=1e-7)
    need(len(cd) == len(ch), lambda: f"{c['kind']}: {len(cd)} metric calls on the device, {len(ch)} on the host")
    for i, (a, b) in enumerate(zip(cd, ch)):
        agree(a, b, f"{c['kind']}: iterate seen by the metric, call {i}", rtol=1e-7)
    need(len(kd) == len(kh) and bool(convd) == bool(convh), lambda: f"{c['kind']}: {len(kd)} costs on the device, {len(kh)} on the host")
    agree(kd, kh, f"{c['kind']}: costs", rtol=1e-7)
    return any(np.any(v) for v in vh)


# --------------------------------------------------------------------- wavelets on the device
@contextlib.contextmanager
def no_cuda():
    """Tensors asked for on a CUDA device stay on the CPU."""
    orig = torch.as_tensor

    def as_tensor(data, *a, device=None, **k):
        return orig(data._a if isinstance(data, globals()["device"].ndarray) else data, *a, **k)

    torch.as_tensor = as_tensor
    try:
        yield
    finally:
        torch.as_tensor = orig


@PROP.sub("wavelets", fixed(seed=seeds, side=st.lists(st.integers(4, 17), min_size=2, max_size=2), three=st.booleans(), wav=st.sampled_from(["haar", "db2", "sym4", "bior2.2"]), level=st.integers(1, 2), mode=st.sampled_from(["zero", "symmetric", "periodic"]), batch=st.sampled_from([None, None, 2]), s=st.sampled_from([-1.0, 2.5, 0.3])), quick=600, rule="every case (random images)")
def wavelets(c):
    """The transform with compute_backend='cupy': linear, invertible, and equal to the one of the host."""
    rs = np.random.RandomState(c["seed"] % 2**32)
    shape = (*c["side"], 5) if c["three"] else tuple(c["side"])
    full = shape if c["batch"] is None else (c["batch"], *shape)
    g = lambda: (rs.standard_normal(full) + 1j * rs.standard_normal(full)).astype("complex64")
    x, y = g(), g()
    with no_cuda():
        try:
            w = WaveletTransform(c["wav"], shape, level=c["level"], mode=c["mode"], compute_backend="cupy")
            cx = back(w.op(cp.array(x)), "WaveletTransform.op")
        except RuntimeError as e:
            if "Padding" in str(e):
                return False
            raise
        sizes = [int(np.prod(s)) for s in w.coeffs_shape]
        need(cx.ndim == 1 and cx.size == sum(sizes), lambda: f"{cx.shape} coefficients, subbands {w.coeffs_shape}")
        cy = back(w.op(cp.array(y)), "WaveletTransform.op")
        again = w.op(cp.array(x + np.float32(c["s"]) * y)).get()
        agree(again, cx + c["s"] * cy, "WaveletTransform.op of a combination", rtol=1e-4)
        rec = back(w.adj_op(cp.array(cx)), "WaveletTransform.adj_op")
        agree(rec.reshape(full), x, "WaveletTransform.adj_op(op(x))", rtol=1e-4)
        agree(w.adj_op(cp.array(cx - cy)).get().reshape(full), x - y, "WaveletTransform.adj_op of a combination", rtol=1e-4)
        if c["batch"] is None:
            ref = WaveletTransform(c["wav"], shape, level=c["level"], mode=c["mode"])
            want = ref.op(x)
            agree(np.sort(np.abs(cx)), np.sort(np.abs(want)), "coefficients of the device and of the host", rtol=1e-4)
            agree(cx[: sizes[0]], want[: sizes[0]], "coarse coefficients of the device and of the host", rtol=1e-4)
    return True
