"""C28: the resolution refines one and the same geometry."""

import numpy as np
from hypothesis import strategies as st

from hv.comp import build_component, build_vehicle, component_spec, mesh_of, vehicle_spec
from hv.core import Facet
from hv.gen import grid_params, num, xyz
from hv.oracle import close, require

CHEAP = ("revolved", "ogive", "swept", "cube", "sphere", "composite")


def at_res(s, n):
    """The description with another resolution for the whole component."""
    return {**s, "res": n}


def points(c, at):
    return [[xyz(p(*a)) for a in at] for p in c.patches.values()]


# ------------------------------------------------- the surfaces are the same


@st.composite
def comp_case(draw, kinds=CHEAP, most=5):
    n = draw(st.integers(1, most))
    return {
        "c": draw(component_spec(kinds)),
        "n": n,
        "m": draw(st.integers(2, 3)),
        "other": draw(st.integers(1, most)),
        "at": draw(grid_params(3)),
    }


def nested(case, ctx):
    """The mesh at a multiple of a resolution has all its nodes."""
    from scipy.spatial import cKDTree

    n, m = case["n"], case["n"] * case["m"]
    c, f, o = (build_component(at_res(case["c"], k)) for k in (n, m, case["other"]))
    for x in (c, f, o):
        x.generate_patches()
    want = points(c, case["at"])
    size = 1 + np.abs(want).max()
    for x, k in ((f, m), (o, case["other"])):
        require(len(x.patches) == len(want), f"{len(x.patches)} patches at resolution {k}, {len(want)} at {n}")
        close(points(x, case["at"]), want, 1e-9 * size, f"surfaces at resolution {k} and {n}")
    nodes = [xyz(p(i / n, j / n)) for p in c.patches.values() for i in range(n + 1) for j in range(n + 1)]
    fine = mesh_of(f)
    require(len(fine) == 4 * m * m * len(want), f"{len(fine)} triangles at resolution {m}")
    d, _ = cKDTree(fine.reshape(-1, 3)).query(nodes)
    close(d, np.zeros(len(nodes)), 3e-6 * size, f"nodes of resolution {n} in the mesh of resolution {m}")
    ctx.label(case["c"]["k"])
    if n == 1 and case["c"]["k"] not in ("fin", "wing"):
        ctx.skip("corners only")


# ------------------------------------------------------- resolution on request


@st.composite
def request_case(draw, kinds=CHEAP, most=4):
    calls = draw(st.lists(st.one_of(st.none(), st.integers(1, most)), min_size=1, max_size=4))
    c = draw(component_spec(kinds))
    c = {"c": c, "calls": calls, "at": draw(grid_params(2)), "n": draw(st.integers(1, most))}
    if draw(st.booleans()):
        c["cl"] = [draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from(["i", "j", "both"])), draw(num(1.05, 1.8))]
    return c


def clustered(c, cl):
    if cl is None:
        return c
    e1, e2, way, beta = cl
    from hypervehicle.geometry.path import RobertsFunction

    kw = {}
    if way != "j":
        kw["i_clustering_func"] = RobertsFunction(e1, e2, beta)
    if way != "i":
        kw["j_clustering_func"] = RobertsFunction(e2, e1, beta)
    c.add_clustering_options(**kw)
    return c


def request(case, ctx):
    """A resolution asked for is that of a component defined with it, and
    leaves the component's own resolution alone."""
    own = case["c"]["res"] if case["c"]["k"] == "swept" else case["n"]
    s = at_res(case["c"], own)
    cl = case.get("cl")
    c = clustered(build_component(s), cl)
    c.generate_patches()
    before = points(c, case["at"])
    made = {}
    for k in case["calls"] + [None]:
        key = "own" if k is None else k
        if key not in made:
            x = clustered(build_component(at_res(s, own if k is None else k)), cl)
            x.generate_patches()
            made[key] = mesh_of(x)
        if k is None:
            c.surface()
        else:
            c.surface(resolution=k)
            ctx.label("asked")
        want = made[key]
        close(mesh_of(c), want, 1e-6 * (1 + np.abs(want).max()), f"mesh after surface({k}) in {case['calls']}, own resolution {own}")
    close(points(c, case["at"]), before, 0.0, "surfaces after meshing at several resolutions")
    if cl:
        ctx.label("clustered")
    ctx.label("own " + type(own).__name__)
    if all(k is None for k in case["calls"]):
        ctx.skip("nothing asked for")


# -------------------------------------------------------------------- vehicles


@st.composite
def vehicle_case(draw):
    v = draw(vehicle_spec(kinds=("revolved", "ogive", "swept", "composite"), n=(1, 2), rich=True))
    return {"v": v, "res": [draw(st.integers(1, 3)) for _ in v["comps"]], "at": draw(grid_params(2))}


def vehicle(case, ctx):
    """Options and motions act on the geometry, whatever the resolution."""
    a = build_vehicle(case["v"])
    b = build_vehicle({**case["v"], "comps": [{**c, "c": at_res(c["c"], n)} for c, n in zip(case["v"]["comps"], case["res"])]})
    a.generate()
    b.generate()
    for i, (x, y) in enumerate(zip(a.components, b.components)):
        p, q = points(x, case["at"]), points(y, case["at"])
        require(len(p) == len(q), f"component {i}: {len(q)} patches at another resolution, {len(p)} before")
        close(q, p, 1e-9 * (1 + np.abs(p).max()), f"component {i} at another resolution")
        n = case["res"][i]
        require(len(mesh_of(y)) == 4 * n * n * len(q), f"component {i}: {len(mesh_of(y))} triangles at resolution {n} from {len(q)} patches")
        for o in case["v"]["comps"][i]["o"]:
            ctx.label(o)
    if [c["c"]["res"] for c in case["v"]["comps"]] == case["res"]:
        ctx.skip("same resolutions")


FACETS = [
    Facet("nested", comp_case, nested, 80, rule="more than the corners"),
    Facet("nested2", comp_case, nested, 80, rule="more than the corners"),
    Facet("wingfin", lambda: comp_case(kinds=("fin", "wing"), most=1), nested, 6, rule="every case"),
    Facet("request", request_case, request, 70, rule="a resolution is asked for"),
    Facet("request-wingfin", lambda: request_case(kinds=("fin", "wing"), most=2), request, 4, rule="a resolution is asked for"),
    Facet("vehicle", vehicle_case, vehicle, 30, rule="another resolution"),
    Facet("request-swept", lambda: request_case(kinds=("swept",)), request, 40, rule="a resolution is asked for"),
]
