"""C12: composite operators act as the composition of their parts."""
import numpy as np
from hypothesis import strategies as st
from modopt.opt.gradient import GradBasic
from modopt.opt.linear import Identity, LinearCombo, LinearParent, MatrixOperator, WaveletTransform
from modopt.opt.proximity import (ElasticNet, IdentityProx, LinearCompositionProx, Positivity, ProximityCombo, ProximityParent, Ridge, SparseThreshold)

from harness.core import Prop
from harness.gen import array, elem, expand, fixed, pos_elem, seeds
from harness.oracle import Frozen, as_array, close, equal, need, raises, soft

PROP = Prop("C12", ["weights of LinearCombo are floats; a LinearCombo without weights averages the adjoints (as documented)"])
SEQ = st.sampled_from(["list", "tuple", "array"])


def seq(kind, items):
    if kind == "array":
        out = np.empty(len(items), dtype=object)
        for i, v in enumerate(items):
            out[i] = v
        return out
    return list(items) if kind == "list" else tuple(items)


def orth(seed, n):
    q, r = np.linalg.qr(np.random.RandomState(seed).standard_normal((n, n)))
    return q * np.sign(np.where(np.diag(r) == 0, 1, np.diag(r)))


@PROP.sub("composition_prox", fixed(n=st.one_of(st.integers(1, 6), st.sampled_from([12, 70])), style=st.sampled_from(["normal", "normal", "ints", "sparse", "wide", "const"]), cplx=st.booleans(), seed=seeds, w=pos_elem, f=st.sampled_from([None, 0.5, 2.0]), x=seeds, kind=st.sampled_from(["soft", "ridge", "enet", "pos"]), q=seeds, square=st.booleans()),
          quick=2000, factor=20, rule="orthogonal transform different from the identity, non-zero data")
def composition_prox(c):
    n = c["n"]
    W = orth(c["seed"], n) if c["square"] else expand(c["seed"], (n + 1, n), "normal")
    x = expand(c["x"], (n,), c["style"], complex if c["cplx"] and c["kind"] != "pos" else float)
    lin = MatrixOperator(W)
    inner = {"soft": SparseThreshold(Identity(), c["w"]), "ridge": Ridge(Identity(), c["w"]), "enet": ElasticNet(Identity(), c["w"], 0.3), "pos": Positivity()}[c["kind"]]
    f = 1.0 if c["f"] is None else c["f"]
    ref = {
        "soft": lambda z: soft(z, c["w"] * f), "ridge": lambda z: z / (1 + 2 * c["w"] * f),
        "enet": lambda z: soft(z, 0.3 * f) / (1 + 2 * c["w"] * f), "pos": lambda z: np.maximum(z, 0),
    }[c["kind"]]
    cost = {
        "soft": lambda z: c["w"] * np.sum(np.abs(z)), "ridge": lambda z: c["w"] * np.sum(np.abs(z) ** 2),
        "enet": lambda z: c["w"] * np.sum(np.abs(z) ** 2) + 0.3 * np.sum(np.abs(z)), "pos": lambda z: 0.0,
    }[c["kind"]]
    op = LinearCompositionProx(lin, inner)
    with Frozen("LinearCompositionProx", x=x, W=W):
        p = op.op(x) if c["f"] is None else op.op(x, extra_factor=c["f"])
        got = op.cost(x)
        op.cost(x, verbose=True)
    seen = []
    spy = LinearCompositionProx(lin, ProximityParent(lambda v, extra_factor=1.0: v, lambda v, *a, **k: seen.append((np.array(v), k)) or 3.0))
    opts = {k: v for k, v in (("verbose", c["square"]), ("level", 0), ("weight", None), ("name", ""))[: 1 + n % 4]}
    need(spy.cost(x, **opts) == 3.0 and len(seen) == 1, "the cost of the inner operator is returned as it is")
    need(seen[0][1] == opts, lambda: f"options {opts} reached the cost of the inner operator as {seen[0][1]}")
    close(seen[0][0], W @ x, "argument of the cost of the inner operator", rtol=1e-11, atol=1e-11)
    close(p, W.T @ ref(W @ x), "LinearCompositionProx.op", rtol=1e-10, atol=1e-11)
    close(float(got), cost(W @ x), "LinearCompositionProx.cost", rtol=1e-10, atol=1e-10)
    if c["square"] and c["kind"] != "pos":
        # prox of the composition with a unitary transform
        val = lambda v: 0.5 * np.sum(np.abs(v - x) ** 2) + f * cost(W @ v)
        d = expand(c["q"], (n,), "normal")
        for v in (x, 0 * x, d, p + 1e-3 * d, p - 1e-3 * d):
            need(val(p) <= val(v) + 1e-9 * (1 + val(p)), "LinearCompositionProx.op is not the proximal map of the composed cost")
    return n > 1 and c["square"]


@st.composite
def combo_parts(draw):
    k = draw(st.integers(1, 4))
    same = draw(st.booleans())
    src = [draw(st.integers(0, i)) if draw(st.integers(0, 3)) == 0 else i for i in range(k)]  # the operator of an earlier part listed again
    kinds, ws = [draw(st.sampled_from(["soft", "ridge", "pos", "id", "enet", "own"])) for _ in range(k)], [draw(pos_elem) for _ in range(k)]
    src = [j if src[j] == j else i for i, j in enumerate(src)]
    shapes = [draw(st.sampled_from([(2,), (3,), (2, 2), (1, 4), (2, 1, 3), (70,), (9, 8)])) for _ in range(k)]
    if same:
        shapes = [shapes[0]] * k
    return {
        "x": [draw(array(s)) for s in shapes], "kind": [kinds[j] for j in src], "src": src,
        "w": [ws[j] for j in src], "f": draw(st.sampled_from([None, 0.5, 2.0])), "seq": draw(SEQ), "xseq": draw(SEQ),
    }


def part(kind, w):
    """"own" is an operator of the user, whose cost is not zero at the origin."""
    return {"own": lambda: ProximityParent(lambda v, extra_factor=1.0: v + w * extra_factor, lambda v: w * np.sum(np.abs(v - 1))), "soft": lambda: SparseThreshold(Identity(), w), "ridge": lambda: Ridge(Identity(), w), "pos": lambda: Positivity(), "id": lambda: IdentityProx(), "enet": lambda: ElasticNet(Identity(), w, 0.3)}[kind]()


def part_ref(kind, w, x, f):
    return {"own": lambda: x + w * f, "soft": lambda: soft(x, w * f), "ridge": lambda: x / (1 + 2 * w * f), "pos": lambda: np.maximum(x, 0), "id": lambda: x, "enet": lambda: soft(x, 0.3 * f) / (1 + 2 * w * f)}[kind]()


def part_cost(kind, w, x):
    return {"own": w * np.sum(np.abs(x - 1)), "soft": w * np.sum(np.abs(x)), "ridge": w * np.sum(x**2), "pos": 0.0, "id": 0.0, "enet": w * np.sum(x**2) + 0.3 * np.sum(np.abs(x))}[kind]


@PROP.sub("proximity_combo", combo_parts(), quick=2500, factor=20, rule="at least two different operators")
def proximity_combo(c):
    f = 1.0 if c["f"] is None else c["f"]
    parts = [part(k, w) for k, w in zip(c["kind"], c["w"])]
    op = ProximityCombo(seq(c["seq"], [parts[j] for j in c["src"]]))
    x = seq(c["xseq"], c["x"])
    with Frozen("ProximityCombo", **{f"x{i}": v for i, v in enumerate(c["x"])}):
        p = op.op(x) if c["f"] is None else op.op(x, extra_factor=c["f"])
        cost = op.cost(x)
    need(len(p) == len(c["x"]), lambda: f"{len(p)} results for {len(c['x'])} operators")
    for i, xi in enumerate(c["x"]):
        close(p[i], part_ref(c["kind"][i], c["w"][i], xi, f), f"ProximityCombo.op, part {i} ({c['kind'][i]})", rtol=1e-11, atol=1e-12)
    close(float(cost), sum(part_cost(k, w, xi) for k, w, xi in zip(c["kind"], c["w"], c["x"])), "ProximityCombo.cost", rtol=1e-10, atol=1e-10)
    return len(set(c["kind"])) > 1


@st.composite
def linear_parts(draw):
    k, n = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 4, 2, 3, 9, 12, 25])), draw(st.sampled_from([1, 2, 3, 4, 2, 3, 4, 60]))
    dt = draw(st.sampled_from([float, float, complex]))
    ms = [draw(array((draw(st.integers(1, 4)), n), dtype=dt, scale=False)) for _ in range(k)]
    kind = draw(st.sampled_from(["none", "list", "tuple", "array"]))
    w = [draw(pos_elem) for _ in range(k)]
    src = [draw(st.integers(0, i)) if draw(st.integers(0, 3)) == 0 else i for i in range(k)]  # the same operator listed more than once
    src = [j if src[j] == j else i for i, j in enumerate(src)]
    ms = [ms[j] for j in src]
    return {"src": src, "m": ms, "x": draw(array((n,), dtype=dt, scale=False)), "y": [draw(array((m.shape[0],), dtype=dt, scale=False)) for m in ms], "w": w, "wkind": kind, "seq": draw(SEQ)}


@PROP.sub("linear_combo", linear_parts(), quick=2500, factor=20, rule="at least two operators")
def linear_combo(c):
    ms, k = c["m"], len(c["m"])
    w = {"none": None, "list": list(c["w"]), "tuple": tuple(c["w"]), "array": np.array(c["w"])}[c["wkind"]]
    ops = [MatrixOperator(m) for m in ms]
    op = LinearCombo(seq(c["seq"], [ops[j] for j in c["src"]]), weights=w)
    with Frozen("LinearCombo", x=c["x"], w=w, **{f"y{i}": v for i, v in enumerate(c["y"])}):
        fwd = op.op(c["x"])
        bwd = op.adj_op(seq("array", c["y"]))
        bwd2 = op.adj_op(list(c["y"]))
    need(len(fwd) == k, "number of results of LinearCombo.op")
    for i, m in enumerate(ms):
        close(fwd[i], m @ c["x"], f"LinearCombo.op, part {i}", rtol=1e-11, atol=1e-12)
    parts = [m.conj().T @ y for m, y in zip(ms, c["y"])]
    want = sum(parts) / k if w is None else sum(a * p for a, p in zip(c["w"], parts))
    close(bwd, want, f"LinearCombo.adj_op (weights {c['wkind']})", rtol=1e-10, atol=1e-10)
    close(bwd2, want, f"LinearCombo.adj_op of a list (weights {c['wkind']})", rtol=1e-10, atol=1e-10)
    return k > 1


@st.composite
def tree(draw, depth=2):
    """A linear operator built from matrices by combination, as nested tuples; ``n`` inputs each."""
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return ("mat", draw(st.integers(1, 4)), draw(seeds))
    k = draw(st.integers(1, 3))
    w = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.5, 1.0, 2.0, -1.5, 0.0]), min_size=k, max_size=k)))
    return ("combo", w, [draw(tree(depth=depth - 1)) for _ in range(k)])


class Node:
    """The reference of one node: operator, adjoint and an element of the output space."""

    def __init__(self, t, n, cplx):
        dt = complex if cplx else float
        if t[0] == "mat":
            m = expand(t[2], (t[1], n), "normal", dt)
            self.lib, self.op, self.adj = MatrixOperator(m), lambda x: m @ x, lambda y: m.conj().T @ y
            self.y, self.norm = expand(t[2] ^ 1, (t[1],), "normal", dt), float(np.sum(np.abs(m)))
            return
        kids = [Node(u, n, cplx) for u in t[2]]
        self.lib = LinearCombo([k.lib for k in kids], weights=t[1])
        w = [1.0 / len(kids)] * len(kids) if t[1] is None else t[1]
        self.op = lambda x: [k.op(x) for k in kids]
        self.adj = lambda y: sum(a * k.adj(v) for a, k, v in zip(w, kids, y))
        self.y = seq("array", [k.y for k in kids])
        self.norm = sum(k.norm for k in kids) * max(1.0, *map(abs, w))


def same_tree(got, want, what):
    if isinstance(want, list):
        need(len(got) == len(want), lambda: f"{what}: {len(got)} parts instead of {len(want)}")
        for i, (g, v) in enumerate(zip(got, want)):
            same_tree(g, v, f"{what}[{i}]")
    else:
        close(np.asarray(got), want, what, rtol=1e-11, atol=1e-11)


def size(t):
    return 1 if t[0] == "mat" else 1 + sum(map(size, t[2]))


@PROP.sub("nested", fixed(t=tree(), n=st.integers(1, 5), cplx=st.booleans(), x=seeds, kind=st.sampled_from(["soft", "ridge", "enet"]), w=pos_elem, f=st.sampled_from([0.5, 1.0, 3.0])), quick=800, factor=20, rule="a combination inside a combination, or of three operators and more")
def nested(c):
    """Combinations of combinations, and proximity operators composed with them and combined again."""
    node = Node(c["t"], c["n"], c["cplx"])
    x = expand(c["x"], (c["n"],), "normal", complex if c["cplx"] else float)
    same_tree(node.lib.op(x), node.op(x), "op of nested combinations")
    close(node.lib.adj_op(node.y), node.adj(node.y), "adj_op of nested combinations", rtol=1e-11, atol=1e-11 * (1 + node.norm))
    # a matrix, composed twice, inside a combination of combinations
    m1, m2 = expand(c["x"] ^ 1, (3, c["n"]), "normal"), expand(c["x"] ^ 2, (2, 3), "normal")
    inner = LinearCompositionProx(MatrixOperator(m2), part(c["kind"], c["w"]))
    outer = LinearCompositionProx(MatrixOperator(m1), inner)
    combo = ProximityCombo([outer, ProximityCombo([part(c["kind"], c["w"]), outer])])
    want = m1.T @ m2.T @ part_ref(c["kind"], c["w"], m2 @ m1 @ x, c["f"])
    cost = part_cost(c["kind"], c["w"], np.abs(m2 @ m1 @ x))
    z = np.empty(2, dtype=object)
    z[0], z[1] = x, [x, x]
    got = combo.op(z, extra_factor=c["f"])
    close(np.asarray(got[0]), want, "composition of a composition", rtol=1e-10, atol=1e-10)
    close(np.asarray(got[1][0]), part_ref(c["kind"], c["w"], x, c["f"]), "operator in a nested combination", rtol=1e-10, atol=1e-10)
    close(np.asarray(got[1][1]), want, "composition in a nested combination", rtol=1e-10, atol=1e-10)
    close(float(combo.cost(z)), 2 * cost + part_cost(c["kind"], c["w"], np.abs(x)), "cost of nested combinations", rtol=1e-10, atol=1e-10)
    return size(c["t"]) > 3


class Bare:
    pass


class OpOnly:
    def op(self, x):
        return x


class BadOp:
    op = 3
    adj_op = 4
    cost = 5


BADL = [
    ("TypeError", "Identity()", None), ("TypeError", "'ab'", None), ("TypeError", "{1}", None), ("ValueError", "[]", None), ("ValueError", "()", None), ("ValueError", "[Bare()]", None),
    ("ValueError", "[Identity(), OpOnly()]", None), ("TypeError", "[BadOp()]", None), ("ValueError", "[Identity(), Identity()]", "[1.0]"), ("ValueError", "[Identity()]", "[0.5, 0.5]"),
    ("TypeError", "[Identity(), Identity()]", "[1, 2]"), ("TypeError", "[Identity()]", "0.5"), ("ValueError", "[Identity()]", "[]"), ("TypeError", "[Identity()]", "['a']"),
]
BADP = [("TypeError", "IdentityProx()"), ("TypeError", "'ab'"), ("ValueError", "[]"), ("ValueError", "[Bare()]"), ("ValueError", "[IdentityProx(), OpOnly()]"), ("TypeError", "[BadOp()]"), ("TypeError", "5")]


@PROP.sub("reject", fixed(i=st.integers(0, len(BADL) - 1), j=st.integers(0, len(BADP) - 1)), quick=150, shards=1, rule="every case is invalid")
def reject(c):
    exc, ops, w = BADL[c["i"]]
    raises(eval(exc), lambda: LinearCombo(eval(ops), weights=eval(w) if w else None), f"LinearCombo({ops}, {w})")
    exc, ops = BADP[c["j"]]
    raises(eval(exc), lambda: ProximityCombo(eval(ops)), f"ProximityCombo({ops})")
    return True


@PROP.sub("parents", fixed(x=elem, bad=st.sampled_from(["3", "None", "'f'", "[1]"])), quick=100, shards=1, rule="every case")
def parents(c):
    lp = LinearParent(lambda v: v * 2, lambda v: v * 3)
    need(lp.op(c["x"]) == 2 * c["x"] and lp.adj_op(c["x"]) == 3 * c["x"], "LinearParent forwards its operators")
    lp.op = lambda v: v - 1
    need(lp.op(c["x"]) == c["x"] - 1, "LinearParent.op can be replaced")
    bad, f = eval(c["bad"]), (lambda v: v)
    raises(TypeError, lambda: LinearParent(bad, f), "LinearParent with op not callable")
    raises(TypeError, lambda: LinearParent(f, bad), "LinearParent with adj_op not callable")
    raises(TypeError, lambda: setattr(lp, "op", bad), "LinearParent.op replaced by something not callable")
    raises(TypeError, lambda: setattr(lp, "adj_op", bad), "LinearParent.adj_op replaced by something not callable")
    return True
