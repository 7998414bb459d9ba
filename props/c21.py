"""C21: cube / map / matrix rearrangements are mutually inverse bijections on the pixels."""
import numpy as np
from hypothesis import strategies as st
from modopt.base import transform as tr

from harness.core import Prop
from harness.gen import array, fixed, layouts, lay, shapes
from harness.oracle import Frozen, equal, raises

PROP = Prop("C21", ["tiles handled by map2matrix/matrix2map are square (documented layout)"])
DT = st.sampled_from(["float64", "float64", "float32", "int64", "int32", "complex128", "bool", "uint8"])
LAY = st.sampled_from(["tuple", "list", "array"])


def mk_layout(vals, kind):
    return {"tuple": tuple, "list": list, "array": np.array}[kind](vals)


@st.composite
def cube_case(draw, square=False):
    most = draw(st.sampled_from([5] * 14 + [13]))
    a, b = draw(st.integers(1, most)), draw(st.integers(1, most))
    h = draw(st.integers(1, 6))
    w = h if square else draw(st.integers(1, 6))
    if draw(st.integers(0, 19)) == 0:
        h = w = draw(st.sampled_from([9, 16, 17])) if square else h + 11
    if draw(st.integers(0, 24)) == 0:  # long rows or columns of tiles
        a, b = draw(st.sampled_from([(1, 130), (200, 1), (1, 300), (260, 1), (13, 20), (2, 129)]))
        h = w = draw(st.sampled_from([1, 2, 2, 9]))
    dt = draw(DT)
    dt_gen = "int64" if dt == "bool" else dt
    cube = draw(array((a * b, h, w), dtype=dt_gen)).astype(dt)
    return dict(cube=cube, layout=(a, b), kind=draw(LAY), order=draw(layouts))


def ref_map(cube, a, b):
    n, h, w = cube.shape
    out = np.zeros((a * h, b * w), dtype=cube.dtype)
    for k in range(n):
        for y in range(h):
            for x in range(w):
                out[(k // b) * h + y, (k % b) * w + x] = cube[k, y, x]
    return out


def nontrivial(cube):
    return cube.shape[0] > 1 and cube[0].size > 1 and np.unique(cube).size > 1


@PROP.sub("cube_map", cube_case(), quick=1500, rule="more than one tile, more than one pixel per tile and at least two distinct values")
def cube_map(c):
    a, b = c["layout"]
    cube, layout = lay(c["cube"], c["order"]), mk_layout(c["layout"], c["kind"])
    with Frozen("cube2map", cube=cube):
        res = tr.cube2map(cube, layout)
    exp = ref_map(c["cube"], a, b)
    equal(res, exp, "cube2map", dtype=True)
    m = lay(exp, c["order"])
    with Frozen("map2cube", data_map=m):
        back = tr.map2cube(m, layout)
    equal(back, c["cube"], "map2cube(cube2map(x))", dtype=True)
    equal(tr.cube2map(back, layout), exp, "cube2map(map2cube(m))", dtype=True)
    return nontrivial(cube)


@PROP.sub("map_matrix", cube_case(square=True), quick=1500, rule="more than one tile, more than one pixel per tile and at least two distinct values")
def map_matrix(c):
    a, b = c["layout"]
    layout = mk_layout(c["layout"], c["kind"])
    m = lay(ref_map(c["cube"], a, b), c["order"])
    n, s, _ = c["cube"].shape
    exp = np.zeros((s * s, n), dtype=m.dtype)
    for k in range(n):
        exp[:, k] = [c["cube"][k, y, x] for y in range(s) for x in range(s)]
    with Frozen("map2matrix", data_map=m):
        res = tr.map2matrix(m, layout)
    equal(res, exp, "map2matrix", dtype=True)
    mat = lay(exp, c["order"])
    shape = mk_layout(m.shape, c["kind"])
    with Frozen("matrix2map", data_matrix=mat):
        back = tr.matrix2map(mat, shape)
    equal(back, m, "matrix2map(map2matrix(m))", dtype=True)
    equal(tr.map2matrix(back, layout), exp, "map2matrix(matrix2map(M))", dtype=True)
    # the three layouts describe the same pixels
    equal(tr.cube2matrix(tr.map2cube(m, layout)), res, "cube2matrix(map2cube) vs map2matrix")
    equal(tr.cube2map(tr.matrix2cube(mat, (s, s)), layout), back, "cube2map(matrix2cube) vs matrix2map")
    return nontrivial(c["cube"])


@st.composite
def any_cube(draw):
    shape = draw(shapes(2, 4, 1, 6, big=[(3, 20, 17), (70, 5), (2, 4, 3, 2, 3), (3, 2, 1, 3, 2, 2)]))
    dt = draw(DT)
    return dict(
        cube=draw(array(shape, dtype="int64" if dt == "bool" else dt)).astype(dt),
        order=draw(layouts), kind=draw(LAY),
    )


@PROP.sub("cube_matrix", any_cube(), quick=1500, rule="more than one layer with more than one distinct pixel value")
def cube_matrix(c):
    cube = lay(c["cube"], c["order"])
    n = cube.shape[0]
    with Frozen("cube2matrix", cube=cube):
        mat = tr.cube2matrix(cube)
    exp = np.stack([np.ravel(c["cube"][k], order="C") for k in range(n)], axis=1)
    equal(mat, exp, "cube2matrix", dtype=True)
    m2 = lay(exp, c["order"])
    with Frozen("matrix2cube", mat=m2):
        back = tr.matrix2cube(m2, mk_layout(cube.shape[1:], c["kind"]))
    equal(back, c["cube"], "matrix2cube(cube2matrix(x))", dtype=True)
    return n > 1 and np.unique(cube).size > 1


@PROP.sub(
    "reject", fixed(h=st.integers(1, 9), w=st.integers(1, 9), n=st.integers(1, 9), a=st.integers(1, 6), b=st.integers(1, 6), nd=st.sampled_from([1, 2, 4])),
    quick=1000, rule="a layout that does not divide the data",
)
def reject(c):
    a, b = c["a"], c["b"]
    hit = False
    if c["h"] % a or c["w"] % b:
        hit = True
        raises(ValueError, lambda: tr.map2cube(np.ones((c["h"], c["w"])), (a, b)), "map2cube with a layout that does not divide the map")
    else:
        res = tr.map2cube(np.ones((c["h"], c["w"])), (a, b))
        equal(res, np.ones((a * b, c["h"] // a, c["w"] // b)), "map2cube")
    if c["n"] != a * b:
        hit = True
        raises(ValueError, lambda: tr.cube2map(np.ones((c["n"], 2, 3)), (a, b)), "cube2map with the wrong number of layers")
    raises(ValueError, lambda: tr.cube2map(np.ones((a * b,) + (1,) * (c["nd"] - 1)), (a, b)), "cube2map of data that is not 3D")
    return hit
