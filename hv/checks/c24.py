"""C24: point clustering is a monotone map of the interval onto itself."""

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet
from hv.gen import num, param
from hv.oracle import close, require


def beta():
    return st.one_of(
        st.sampled_from([1.001, 1.01, 1.05, 1.1, 1.2, 1.5, 2.0, 10.0]),
        num(1.002, 3),
        st.integers(2, 60).map(lambda i: 1.0 + i * 1e-3),
    )


@st.composite
def shape_case(draw):
    return {
        "e0": draw(st.booleans()),
        "e1": draw(st.booleans()),
        "beta": draw(st.one_of(beta(), beta(), st.sampled_from([0.5, 0.99, 0.0]))),
        "n": draw(st.integers(2, 40)),
        "x": draw(st.lists(param(), min_size=1, max_size=5)),
    }


def shape(case, ctx):
    from hypervehicle.geometry.path import (
        LinearFunction,
        RobertsFunction,
        clustered_roberts,
    )

    e0, e1, b, n = case["e0"], case["e1"], case["beta"], case["n"]
    f = RobertsFunction(e0, e1, b)
    x = np.linspace(0, 1, n + 1)
    x0 = x.copy()
    y = np.asarray(f(x), float)
    close(x, x0, 0, "argument array after the call")
    close([y[0], y[-1]], [0, 1], 1e-9, "end values")
    out = [v for v in [*y, *map(f, x), *map(f, case["x"]), f(0), f(1)] if not 0 <= v <= 1]
    require(not out, f"values outside the interval: {out}")
    require(np.all(np.diff(y) > 0), f"not increasing: {y.tolist()}")
    close([f(v) for v in x], y, 1e-12, "scalar and array")
    close(clustered_roberts(x, e0, e1, b), y, 1e-12, "function and class")
    close([float(f(v)) for v in case["x"]], f(np.array(case["x"])), 1e-12, "points")
    close([f(0), f(1)], [0, 1], 1e-9, "integer ends")
    on = (e0 or e1) and b >= 1
    d = np.diff(y)
    if not on:
        close(y, x, 1e-12, "no clustering")
        close(LinearFunction()(x), x, 0, "linear function")
        close(LinearFunction().distribute_parameter_values(n + 1), x, 1e-12, "linear")
        ctx.label("uniform")
    elif e0 and e1:
        close(y + y[::-1], np.ones(n + 1), 1e-9, "symmetry")
        m = (n + 1) // 2
        require(np.all(np.diff(d[:m]) >= -1e-12), "spacing must grow from end 0")
        if n >= 3:
            require(d[0] < 1.0 / n and d[-1] < 1.0 / n, "ends not clustered")
        ctx.label("both")
    else:
        if e1:
            g = y
        else:
            g = 1 - y[::-1]
        dg = np.diff(g)
        require(np.all(np.diff(dg) <= 1e-12), "spacing must shrink towards the end")
        if n >= 2:
            require(
                dg[-1] < 1.0 / n < dg[0], f"not clustered at the requested end: {dg}"
            )
        ctx.label("end1" if e1 else "end0")
    # swapping the ends mirrors the map
    z = np.asarray(RobertsFunction(e1, e0, b)(x), float)
    close(z, 1 - y[::-1], 1e-9, "swapped ends")
    dv = f.distribute_parameter_values(n + 1)
    close(dv, y, 1e-9, "distributed values")


@st.composite
def order_case(draw):
    return {
        "e0": draw(st.booleans()),
        "e1": draw(st.booleans()),
        "beta": draw(st.one_of(num(1.005, 1.5), num(1.5, 12))),
        "more": draw(num(1.1, 5)),
        "n": draw(st.integers(3, 30)),
    }


def order(case, ctx):
    from hypervehicle.geometry.path import RobertsFunction

    e0, e1 = case["e0"], case["e1"]
    if not (e0 or e1):
        e0 = True
    b1 = case["beta"]
    b2 = 1 + (b1 - 1) * case["more"]
    x = np.linspace(0, 1, case["n"] + 1)
    d1 = np.diff(RobertsFunction(e0, e1, b1)(x))
    d2 = np.diff(RobertsFunction(e0, e1, b2)(x))
    i = 0 if e0 else -1
    require(d1[i] < d2[i], f"beta {b1} spaces {d1[i]} but beta {b2} spaces {d2[i]}")
    if e0 and e1:
        require(d1[-1] < d2[-1], "other end")
    # independent statement of Roberts' transformation for one end
    if e0 != e1:
        lam = ((b1 + 1) / (b1 - 1)) ** x
        want = b1 * (lam - 1) / (lam + 1)
        if e0:
            want = 1 - want[::-1]
        close(np.concatenate([[0], np.cumsum(d1)]), want, 1e-9, "Roberts stretching")


@st.composite
def dist_case(draw):
    return {
        "t1": draw(num(-5, 5)),
        "t2": draw(num(-5, 5)),
        "n": draw(st.integers(1, 40)),
        "e0": draw(st.booleans()),
        "e1": draw(st.booleans()),
        "beta": draw(st.one_of(beta(), st.just(0.5))),
    }


def dist(case, ctx):
    from hypervehicle.geometry.path import RobertsFunction, distribute_points

    t1, t2, n = case["t1"], case["t2"], case["n"]
    p = np.asarray(
        distribute_points(t1, t2, n, case["e0"], case["e1"], case["beta"]), float
    )
    require(p.shape == (n + 1,), f"{p.shape} points for {n} intervals")
    close([p[0], p[-1]], [t1, t2], 1e-8, "first and last value")
    f = RobertsFunction(case["e0"], case["e1"], case["beta"])
    x = np.linspace(0, 1, n + 1)
    close(p, t1 + (t2 - t1) * np.asarray(f(x)), 1e-8, "distributed values")
    if abs(t2 - t1) < 1e-9:
        ctx.skip("empty interval")
    else:
        require(np.all(np.diff(p) * np.sign(t2 - t1) > 0), "not monotone")


@st.composite
def mesh_case(draw):
    return {
        "n": [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
        "f": [[draw(st.booleans()), draw(st.booleans()), draw(beta())] for _ in range(2)],
        "kind": draw(st.sampled_from(["edges", "sections", "bilinear"])),
        "x": [0.0, *sorted(draw(st.lists(num(0.1, 3), min_size=1, max_size=4, unique_by=lambda v: round(v, 1))))],
        "size": draw(num(0.5, 2)),
    }


def meshed(case, ctx):
    """Surfaces of every kind can be meshed with clustered points, and the
    nodes are the points at the clustered parameter values."""
    from hypervehicle.geometry import CoonsPatch, Line, SweptPatch, Vector3
    from hypervehicle.geometry.geometry import SweptPatchfromEdges
    from hypervehicle.geometry.path import RobertsFunction
    from hypervehicle.utilities import surfce_to_stl
    from hv.gen import xyz

    h = case["size"]

    def square(x):
        c = [Vector3(x, h * (1 + x), h), Vector3(x, -h, h), Vector3(x, -h, -h), Vector3(x, h, -h)]
        return [Line(c[i], c[(i + 1) % 4]) for i in range(4)]

    x = case["x"]
    if case["kind"] == "edges":
        p = SweptPatchfromEdges([square(v)[0] for v in x])
    elif case["kind"] == "sections":
        def section(v):
            e = square(v)
            return CoonsPatch(south=e[0], east=e[1], north=Line(e[2].p1, e[2].p0), west=Line(e[3].p1, e[3].p0))

        p = SweptPatch([section(v) for v in x], "x")
    else:
        e = square(x[-1])
        p = CoonsPatch(south=e[0], east=e[1], north=Line(e[2].p1, e[2].p0), west=Line(e[3].p1, e[3].p0))
    f, g = (RobertsFunction(*a) for a in case["f"])
    ni, nj = case["n"]
    m = surfce_to_stl(p, ni, nj, i_clustering_func=f, j_clustering_func=g)
    got = np.asarray(m.vectors, float).reshape(-1, 3)
    nodes = np.array([xyz(p(float(f(i / ni)), float(g(j / nj)))) for i in range(ni + 1) for j in range(nj + 1)])
    require(len(got) == 12 * ni * nj, f"{len(got)} corners")
    d = np.abs(nodes[:, None] - got[None]).max(axis=2).min(axis=1)
    close(d, np.zeros(len(nodes)), 1e-6 * (1 + np.abs(nodes).max()), "nodes at the clustered values")
    ctx.label(case["kind"])
    if not any((a or b) for a, b, _ in case["f"]):
        ctx.skip("not clustered")


FACETS = [
    Facet("meshed", mesh_case, meshed, 150, rule="clustered"),
    Facet("shape", shape_case, shape, 400, rule="every case (labels give the mix)"),
    Facet("order", order_case, order, 200, rule="every case"),
    Facet("distribute", dist_case, dist, 300, rule="interval is not empty"),
]
ASSUMPTIONS = ["stretching factors from 1.001 to 10, or below 1 for none"]
