"""C31: whole numbers may be written as integers, floats or numpy floats."""

import numpy as np
from hypothesis import strategies as st

from hv import gen
from hv.checks.c05 import own_directory
from hv.checks.c07 import constructor, run, study_case
from hv.checks.c27 import component_in, field_in, path_in, vehicle_in
from hv.comp import build_component, build_vehicle, component_spec, mesh_of, vehicle_spec
from hv.core import Facet
from hv.gen import V, build_path, build_surface, grid_params, num, param, path_spec, surface_spec, vec, xyz
from hv.oracle import close, require

CHEAP = ("revolved", "ogive", "swept", "cube", "sphere", "composite")
KINDS = ("int", "numpy", "mixed")


def whole(x):
    return abs(x - round(x)) < 1e-9 * (1 + abs(x))


def written(x, kind):
    """The number x in another type, equal in value."""
    if kind == "numpy":
        return np.float64(x)
    if kind == "int" and x == round(x):
        return int(x)
    return float(x)


def snapped(s):
    """The description with numbers that are nearly whole made whole."""
    if isinstance(s, dict):
        return {k: snapped(v) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
        return [snapped(v) for v in s]
    if isinstance(s, float) and whole(s):
        return float(round(s))
    return s


def retyped(s, kind):
    if isinstance(s, dict):
        return {k: retyped(v, kind) for k, v in s.items()}
    if isinstance(s, (list, tuple)):
        return [retyped(v, kind) for v in s]
    if isinstance(s, float):
        return written(s, "int" if kind == "mixed" else kind)
    return s


class numbers:
    """Points are made of numbers of a kind while this is active."""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        self.old = gen.COORDINATE
        count = [0]

        def f(x):
            # mixed: integers and floats within one point
            count[0] += 1
            k = ("int", "float")[count[0] % 2] if self.kind == "mixed" else self.kind
            return written(float(x), k)

        gen.COORDINATE = f

    def __exit__(self, *_):
        gen.COORDINATE = self.old


def both(case, fun, what):
    """fun(retype) evaluated with floats and with numbers of the case's kind."""
    want = fun(lambda s: s)
    with numbers(case["kind"]):
        got = fun(lambda s: retyped(s, case["kind"]))
    require(len(got) == len(want), f"{what}: {len(got)} instead of {len(want)} results")
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = np.asarray(g, float), np.asarray(w, float)
        require(g.shape == w.shape, f"{what}, result {i}: shape {g.shape} instead of {w.shape}")
        size = np.abs(w[np.isfinite(w)]).max() if np.isfinite(w).any() else 0.0
        require((np.isfinite(g) == np.isfinite(w)).all(), f"{what}, result {i}: not finite")
        ok = np.isfinite(w)
        close(g[ok], w[ok], case.get("tol", 1e-9) * (1 + size), f"{what} written as {case['kind']}, result {i}")


def count_whole(s):
    if isinstance(s, dict):
        return sum(count_whole(v) for v in s.values())
    if isinstance(s, (list, tuple)):
        return sum(count_whole(v) for v in s)
    return int(isinstance(s, float) and s == round(s) and s != 0)


# -------------------------------------------------------------------- vectors


@st.composite
def vector_case(draw):
    w = st.integers(-9, 9).map(float)
    v = st.tuples(w, w, w).map(list)
    c = {"kind": draw(st.sampled_from(KINDS)), "v": [draw(v) for _ in range(3)], "k": draw(st.sampled_from([2.0, 3.0, -4.0, 7.0, 10.0])), "n": draw(st.integers(0, 5))}
    # no short cut through zero
    c["v"] = [x if any(x) else [1.0, 2.0, 2.0] for x in c["v"]]
    return c


def vectors(case, ctx):
    from hypervehicle.geometry import Vector3
    from hypervehicle.geometry import vector as m

    def fun(f):
        a, b, c = (V(x) for x in case["v"])
        k = f(case["k"])
        d, e = V(case["v"][0]), V(case["v"][0])
        d /= k
        e *= k
        n = V(case["v"][0])
        n.normalize()
        g = V(case["v"][1])
        x, y, z = Vector3(f(0.6), f(0.8), f(0.0)), Vector3(f(-0.8), f(0.6), f(0.0)), Vector3(f(0.0), f(0.0), f(1.0))
        g.transform_to_local_frame(x, y, z, c)
        h = V(case["v"][1])
        h.transform_to_global_frame(x, y, z, c)
        out = [xyz(q) for q in (a + b, a - b, -a, a / k, a * k, k * a, d, e, n, a.unit, g, h, Vector3(a))]
        s = [abs(a), a.norm, a.dot(b), *a.vec, float(a == b), float(m.approximately_equal_vectors(a, b))]
        return out + [s]

    both(case, fun, f"operations on {case['v']}")
    ctx.label(case["kind"])


# --------------------------------------------------------------------- curves


@st.composite
def curve_case(draw):
    p = draw(path_spec())
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "p": snapped(path_in(p, draw(st.sampled_from([4.0, 1000.0])))),
        "t": [0.0, 1.0] + [draw(param()) for _ in range(3)],
        "ab": draw(st.sampled_from([[0.0, 1.0], [1.0, 0.0], [0.0, 0.5], [1.0, 0.25], [0.25, 1.0]])),
        "f": field_in(draw(gen.field_spec(0.5)), 4.0),
    }


def curves(case, ctx):
    from hypervehicle.geometry import geometry as g
    from hypervehicle.geometry.path import ArcLengthParameterizedPath

    def fun(f):
        p = build_path(f(case["p"]))
        fs = [p, g.SubRangedPath(p, *f(case["ab"])), g.ReversedPath(p), ArcLengthParameterizedPath(p, 20)]
        fs.append(g.OffsetPathFunction(p, gen.build_field(f(case["f"]))))
        fs.append(g.GeometricMeanPathFunction(p, fs[-1]))
        out = [xyz(q(t)) for q in fs for t in f(case["t"])]
        return out + [[q.length() for q in fs[:4]]]

    both(case, fun, case["p"]["k"])
    ctx.label(case["kind"] + " " + case["p"]["k"])
    if count_whole(case["p"]) < 2:
        ctx.skip("few whole numbers")


# ------------------------------------------------------------------- surfaces


@st.composite
def surface_case(draw):
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "s": snapped(draw(surface_spec(depth=2))),
        "at": [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]] + draw(grid_params(3)),
        "n": [draw(st.integers(1, 3)), draw(st.integers(1, 3))],
    }


def surfaces(case, ctx):
    from hypervehicle.utilities import surfce_to_stl

    def fun(f):
        s = build_surface(f(case["s"]))
        return [xyz(s(*a)) for a in f(case["at"])] + [1e-3 * surfce_to_stl(s, *case["n"]).vectors]

    both(case, fun, case["s"]["k"])
    ctx.label(case["kind"] + " " + case["s"]["k"])


# ----------------------------------------------------------------- components


@st.composite
def comp_case(draw, kinds=CHEAP):
    c = draw(component_spec(kinds))
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "c": snapped(component_in(c, draw(st.sampled_from([4.0, 1000.0, 1000.0])))),
        "at": [[0.0, 0.0], [1.0, 1.0]] + draw(grid_params(2)),
        "tol": 1e-7,
    }


def component(case, ctx):
    def fun(f):
        c = build_component(f(case["c"]))
        c.generate_patches()
        return [[xyz(p(*a)) for a in f(case["at"])] for p in c.patches.values()] + [mesh_of(c)]

    both(case, fun, case["c"]["k"])
    ctx.label(case["kind"] + " " + case["c"]["k"])


# ------------------------------------------------------------------- vehicles


@st.composite
def veh_case(draw):
    v = draw(vehicle_spec(kinds=("revolved", "ogive", "swept", "composite"), n=(1, 2), rich=True))
    v = snapped(vehicle_in(v, draw(st.sampled_from([1.0, 4.0, 1000.0]))))
    for i, c in enumerate(v["comps"]):
        c["o"]["name"] = f"part{i}"
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "v": v,
        "dens": [float(draw(st.integers(1, 9))) for _ in v["comps"]],
        "at": [[0.0, 0.0], [1.0, 1.0]] + draw(grid_params(2)),
        "tol": 1e-6,
    }


def vehicle(case, ctx):
    def fun(f):
        v = build_vehicle(f(case["v"]))
        v.generate()
        out = [[xyz(p(*a)) for a in f(case["at"])] for c in v.components for p in c.patches.values()]
        out += [mesh_of(c) for c in v.components]
        vol, mass, _, _ = v.analyse({f"part{i}": d for i, d in enumerate(f(case["dens"]))})
        return out + [[vol, mass], [v.component_properties["area"][f"part{i}"] for i in range(len(case["dens"]))]]

    both(case, fun, "vehicle")
    ctx.label(case["kind"])


# -------------------------------------------------------------------- studies


@st.composite
def number_study(draw):
    c = draw(study_case(named=True, params=(1, 2), comps=(1, 2), linear=True, options=False))
    c["P"] = [[n, float(draw(st.sampled_from([1, 2, 3, -4, 10, 25])))] for n, _ in c["P"]]
    c["pert"] = float(draw(st.sampled_from([1, 2, 5, 10, 20])))
    c["kind"] = draw(st.sampled_from(KINDS))
    c["tol"] = 1e-5
    return c


def study(case, ctx):
    def fun(f):
        # only the parameters and the size of the step are written differently
        c = {**case, "P": [[n, f(v)] for n, v in case["P"]], "pert": f(case["pert"])}
        with own_directory():
            s, got = run(c, constructor(c))
        out = [df.values for t in got.values() for df in t.values()]
        out += [[float(x) for x in p.values()] for p in s.property_sensitivities.values()]
        return out

    both(case, fun, f"study of {case['P']}")
    ctx.label(case["kind"])


FACETS = [
    Facet("vectors", vector_case, vectors, 200, rule="every case"),
    Facet("curves", curve_case, curves, 200, rule="at least two whole numbers"),
    Facet("surfaces", surface_case, surfaces, 150, rule="every case"),
    Facet("component", comp_case, component, 100, rule="every case"),
    Facet("wingfin", lambda: comp_case(kinds=("fin", "wing")), component, 12, rule="every case"),
    Facet("vehicle", veh_case, vehicle, 40, rule="every case"),
    Facet("study", number_study, study, 20, rule="every case"),
]
ASSUMPTIONS = ["numbers are Python integers, Python floats or numpy double-precision floats; resolutions are Python integers"]
