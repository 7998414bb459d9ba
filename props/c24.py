"""C24: add_noise adds reproducible noise of the requested level, independent of the data."""
import numpy as np
from hypothesis import strategies as st
from modopt.signal.noise import add_noise

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay, pos_elem, seeds, shapes
from harness.oracle import Frozen, close, equal, need, raises

PROP = Prop("C24", ["sigma is a Python number or a list/tuple/array with one value per element of the first axis", "statistical bounds are 7 standard errors wide"])


@st.composite
def case(draw):
    shape = draw(shapes(1, 4, 1, 6, big=[(40, 3), (300,), (3, 40, 12)]))
    kind = draw(st.sampled_from(["int", "float", "list", "tuple", "array", "default"]))
    sig = [draw(pos_elem) for _ in range(shape[0])]
    return dict(
        x=draw(array(shape, dtype=draw(st.sampled_from(["float64", "int64", "float32"])))), kind=kind, sig=sig, one=draw(pos_elem), num=draw(st.integers(1, 5)),
        seed=draw(seeds), order=draw(layouts), aslist=draw(st.booleans()),
    )


def sigma_of(c):
    k = c["kind"]
    if k == "int":
        return c["num"], float(c["num"])
    if k == "float":
        return c["one"], c["one"]
    if k == "default":
        return None, 1.0
    s = np.array(c["sig"]).reshape((-1,) + (1,) * (c["x"].ndim - 1))
    return {"list": list, "tuple": tuple, "array": np.array}[k](c["sig"]), s


def run(x, sigma, seed, kind="gauss", **kw):
    if sigma is not None:
        kw["sigma"] = sigma
    if kind is not None:
        kw["noise_type"] = kind
    return add_noise(x, rng=seed, **kw)


@PROP.sub("gauss", case(), quick=1500, rule="more than one sample")
def gauss(c):
    x = lay(c["x"], c["order"])
    sig, scale = sigma_of(c)
    arg = x.tolist() if c["aslist"] else x
    with Frozen("add_noise", x=x, sig=sig):
        res = run(arg, sig, c["seed"])
    need(np.shape(res) == x.shape, lambda: f"shape {np.shape(res)}")
    unit = add_noise(np.zeros(x.shape), rng=c["seed"])
    big = float(np.max(np.abs(c["x"]), initial=1)) + float(np.max(scale)) * 6
    close(res - c["x"].astype(float), scale * unit, "noise is sigma times the unit noise of the same generator state, whatever the data", rtol=1e-9, atol=1e-10, scale=big)
    equal(run(arg, sig, c["seed"]), res, "same seed, same noise")
    equal(run(arg, sig, c["seed"], kind=None), res, "default noise type is gauss")
    equal(run(arg, sig, np.random.default_rng(c["seed"])), res, "a Generator and its seed give the same noise")
    need(not np.array_equal(run(arg, sig, c["seed"] + 1), res), "another seed gives the same noise")
    gen = np.random.default_rng(c["seed"])
    first, second = run(x, sig, gen), run(x, sig, gen)
    equal(first, res, "first use of a Generator")
    need(not np.array_equal(first, second), "a Generator is not advanced by add_noise")
    need(not np.array_equal(add_noise(x), add_noise(x)), "without rng two calls give the same noise")
    equal(run(x, 0.0, c["seed"]), c["x"], "sigma = 0 leaves the data unchanged")
    return x.size > 1


@PROP.sub("poisson", case(), quick=1000, rule="more than one sample, not all zero")
def poisson(c):
    x = lay(c["x"], c["order"])
    sig, scale = sigma_of(c)
    with Frozen("add_noise", x=x, sig=sig):
        res = run(x, sig, c["seed"], kind="poisson")
    need(np.shape(res) == x.shape, lambda: f"shape {np.shape(res)}")
    unit = add_noise(c["x"].astype(float), sigma=1.0, noise_type="poisson", rng=c["seed"]) - c["x"].astype(float)
    big = float(np.max(np.abs(c["x"]), initial=1)) * 10 + 10 * float(np.max(scale))
    close(unit, np.rint(unit), "unit Poisson noise is integer valued", rtol=1e-9, atol=1e-9, scale=big)
    need(np.all(np.rint(unit) >= 0), "Poisson noise is negative")
    need(np.all(np.rint(unit)[c["x"] == 0] == 0), "Poisson noise on a zero pixel")
    close(res - c["x"].astype(float), scale * np.rint(unit), "Poisson noise scales with sigma", rtol=1e-8, atol=1e-8, scale=big)
    neg = add_noise(-c["x"].astype(float), sigma=1.0, noise_type="poisson", rng=c["seed"]) + c["x"].astype(float)
    close(neg, np.rint(unit), "Poisson level is the magnitude of the data", rtol=1e-8, atol=1e-8, scale=big)
    equal(run(x, sig, c["seed"], kind="poisson"), res, "same seed, same noise")
    return x.size > 1 and np.any(c["x"])


@PROP.sub("level", fixed(seed=seeds, sigma=st.sampled_from([0.5, 1.0, 3.0]), n=st.sampled_from([3000, 10000]), lam=st.sampled_from([0.5, 4.0, 30.0, 1000.25, 1e6, 2.0**31 + 5, 1000000033000000.0])), quick=120, rule="every case is a large sample")
def level(c):
    n = c["n"]
    g = add_noise(np.full((n // 10, 10), 5.0), sigma=c["sigma"], rng=c["seed"]) - 5.0
    z = g.ravel() / c["sigma"]
    need(abs(z.mean()) < 7 / np.sqrt(n), lambda: f"mean of the unit noise {z.mean()}")
    need(abs(z.var() - 1) < 7 * np.sqrt(2 / n), lambda: f"variance of the unit noise {z.var()}")
    need(abs((z**4).mean() - 3) < 7 * np.sqrt(96 / n), lambda: f"fourth moment of the unit noise {(z**4).mean()}")
    need(abs((z[:-1] * z[1:]).mean()) < 7 / np.sqrt(n), "correlated noise")
    p = add_noise(np.full(n, c["lam"]), sigma=1.0, noise_type="poisson", rng=c["seed"]) - c["lam"]
    need(abs(p.mean() - c["lam"]) < 7 * np.sqrt(c["lam"] / n), lambda: f"mean of the Poisson noise {p.mean()} for level {c['lam']}")
    lam = c["lam"]
    need(abs(p.var() - lam) < 7 * np.sqrt((lam + 2 * lam**2) / n), lambda: f"variance of the Poisson noise {p.var()}")
    return True


@PROP.sub("reject", fixed(n=st.integers(1, 5), m=st.integers(1, 5), kind=st.sampled_from(["Gauss", "uniform", "", None]), t=st.sampled_from([list, tuple, np.array])), quick=100, shards=1, rule="every case has an invalid argument")
def reject(c):
    raises(ValueError, lambda: add_noise(np.ones(3), noise_type=c["kind"]), "add_noise with an invalid noise type")
    if c["n"] != c["m"]:
        for kind in ("gauss", "poisson"):
            raises(ValueError, lambda: add_noise(np.ones((c["n"], 3)), sigma=c["t"]([1.0] * c["m"]), noise_type=kind), "add_noise with the wrong number of sigmas")  # noqa: B023
    return True
