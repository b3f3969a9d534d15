"""C30: messages and displayed objects never change a result."""

import contextlib
import os

import numpy as np
from hypothesis import strategies as st

from hv.checks.c05 import own_directory, read_stl, tree
from hv.checks.c07 import constructor, study_case, tables_of
from hv.comp import build_component, build_options, component_spec, mesh_of, vehicle_spec
from hv.core import Facet
from hv.gen import V, build_field, build_motion, build_path, build_surface, field_spec, grid_params, motion_spec, num, param, path_spec, surface_spec, xyz
from hv.oracle import close, require

CHEAP = ("revolved", "ogive", "swept", "cube", "sphere", "composite")
LEVELS = st.sampled_from([2, 1, 3])


def show(x, what):
    """Display an object in every way; the text is of no importance."""
    for f in (repr, str, "{}".format):
        t = f(x)
        require(isinstance(t, str) and t.strip() != "", f"{what} is displayed as {t!r}")
        require(f(x) == t, f"{what} is displayed differently the second time")
    return repr(x)


@contextlib.contextmanager
def displayed_with(n):
    """Points are displayed with n digits while this is active."""
    from hypervehicle.geometry import Vector3

    old = getattr(Vector3, "PRECISION", 3)
    Vector3.PRECISION = n
    try:
        yield
    finally:
        Vector3.PRECISION = old


# --------------------------------------------------------------- curves, points


@st.composite
def path_case(draw):
    c = {"p": draw(path_spec()), "t": [draw(param()) for _ in range(4)]}
    c["d"] = draw(st.sampled_from(["plain", "arclength", "sub", "reversed", "offset", "mean", "roberts"]))
    c["f"] = draw(field_spec(0.5))
    c["ab"] = [draw(num(0, 0.4)), draw(num(0.6, 1))]
    return c


def make_path(case):
    from hypervehicle.geometry import geometry as g
    from hypervehicle.geometry.path import ArcLengthParameterizedPath, RobertsFunction

    p, d = build_path(case["p"]), case["d"]
    if d == "arclength":
        return ArcLengthParameterizedPath(p, 20)
    if d == "sub":
        return g.SubRangedPath(p, *case["ab"])
    if d == "reversed":
        return g.ReversedPath(p)
    if d == "offset":
        return g.OffsetPathFunction(p, build_field(case["f"]))
    if d == "mean":
        return g.GeometricMeanPathFunction(p, g.OffsetPathFunction(p, build_field(case["f"])))
    if d == "roberts":
        return RobertsFunction(True, case["ab"][0] > 0.2, 1.0 + case["ab"][1])
    return p


def value(x):
    return np.atleast_1d(xyz(x) if hasattr(x, "x") else float(x))


def curves(case, ctx):
    a, b = make_path(case), make_path(case)
    want = [value(b(t)) for t in case["t"]]
    for t, w in zip(case["t"], want):
        show(a, case["d"])
        close(value(a(t)), w, 0.0, f"{case['d']} of {case['p']['k']} at {t} after it was displayed")
    q = V(case["p"]["c"] if "c" in case["p"] else case["ab"] + [-1.0])
    r = xyz(q)
    for n in (0, 1, 6):
        with displayed_with(n):
            show(q, "a point")
            close(value(a(case["t"][0])), want[0], 0.0, f"{case['d']} of {case['p']['k']} when points are displayed with {n} digits")
    close(xyz(q), r, 0.0, "a point after it was displayed")
    ctx.label(case["d"])
    ctx.label(case["p"]["k"])


# ---------------------------------------------------------------------- surfaces


@st.composite
def surface_case(draw):
    return {
        "s": draw(surface_spec(depth=2)),
        "at": draw(grid_params(3)),
        "n": [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
        "v": draw(LEVELS),
    }


def surfaces(case, ctx):
    from hypervehicle.utilities import surfce_to_stl

    a, b = build_surface(case["s"]), build_surface(case["s"])
    for r, s in case["at"]:
        show(a, case["s"]["k"])
        close(xyz(a(r, s)), xyz(b(r, s)), 0.0, f"{case['s']['k']} at ({r}, {s}) after it was displayed")
    m = surfce_to_stl(a, *case["n"], verbosity=case["v"])
    w = surfce_to_stl(b, *case["n"], verbosity=0)
    close(m.vectors, w.vectors, 0.0, f"tessellation with verbosity {case['v']}")
    ctx.label(case["s"]["k"])


# -------------------------------------------------------------------- components


@st.composite
def comp_case(draw, kinds=CHEAP):
    return {
        "c": draw(component_spec(kinds)),
        "v": draw(LEVELS),
        "name": draw(st.sampled_from([None, "nose", "Tail 2", "x.y"])),
        "m": [draw(motion_spec()) for _ in range(draw(st.integers(0, 2)))],
        "shown": draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)),
        "at": draw(grid_params(2)),
    }


def raise_level(c, v):
    c.verbosity = v
    for x in getattr(c, "components", []):
        raise_level(x, v)


def component(case, ctx):
    kw = {"name": case["name"]} if case["name"] else {}
    a, b = build_component(case["c"], **kw), build_component(case["c"], **kw)
    raise_level(a, case["v"])
    what = f"{case['c']['k']} with verbosity {case['v']}"
    steps = [lambda c: None, lambda c: c.generate_patches(), lambda c: [getattr(c, n)(*x) for n, *x in map(build_motion, case["m"])], lambda c: c.surface()]
    for i, step in enumerate(steps):
        step(a)
        step(b)
        if i in case["shown"]:
            t = show(a, what)
            if case["name"]:
                require(case["name"] in t, f"{what} named {case['name']} is displayed as {t}")
            for p in a.patches.values():
                show(p, f"patch of {case['c']['k']}")
    p, q = ([[xyz(x(*u)) for u in case["at"]] for x in c.patches.values()] for c in (a, b))
    require(len(p) == len(q), f"{what}: {len(p)} patches, silent {len(q)}")
    close(p, q, 0.0, what)
    close(mesh_of(a), mesh_of(b), 0.0, "mesh of " + what)
    ctx.label(case["c"]["k"])


# ---------------------------------------------------------------------- vehicles


@st.composite
def veh_case(draw, kinds=("revolved", "ogive", "swept", "composite"), n=(1, 3)):
    v = draw(vehicle_spec(kinds=kinds, n=n, rich=True))
    for i, c in enumerate(v["comps"]):
        c["o"]["name"] = f"part {i}"
    return {
        "v": v,
        "level": draw(LEVELS),
        "when": draw(st.sampled_from(["before", "after", "both"])),
        "prefix": draw(st.sampled_from([None, "run"])),
        "dens": [draw(num(0.5, 5)) for _ in v["comps"]] if draw(st.booleans()) else None,
        "move": draw(motion_spec()) if draw(st.booleans()) else None,
        "at": draw(grid_params(2)),
    }


def history(case, level, shown):
    """Everything observable of a vehicle that is made, moved and written."""
    from hypervehicle import Vehicle

    v = case["v"]
    veh = Vehicle()
    veh.configure(name="veh", verbosity=level if case["when"] != "after" else 0)
    if "angle" in v:
        veh.vehicle_angle_offset = v["angle"]
    for c in v["comps"]:
        if shown:
            show(veh, "a vehicle")
        veh.add_component(build_component(c["c"]), **build_options(c["o"]))
    if "vt" in v:
        veh.add_vehicle_transformations([build_motion(m) for m in v["vt"]])
    if case["when"] == "after":
        veh.configure(name="veh", verbosity=level)
        for c in veh.components:
            raise_level(c, level)
    elif case["when"] == "both":
        for c in veh.components:
            raise_level(c, level)
    dens = {f"part {i}": d for i, d in enumerate(case["dens"])} if case["dens"] else None
    if dens:
        veh.analyse_after_generating(dens)
    veh.generate()
    if shown:
        show(veh, "a generated vehicle")
        for c in veh.components:
            show(c, "a component")
    if case["move"]:
        veh.transform([build_motion(case["move"])])
    veh.add_property("length", 2.5)
    out = {"points": [[[xyz(p(*u)) for u in case["at"]] for p in c.patches.values()] for c in veh.components]}
    with own_directory():
        veh.to_stl(**({"prefix": case["prefix"]} if case["prefix"] else {}))
        out["files"] = tree()
        out["content"] = {}
        for f in out["files"]:
            out["content"][f] = read_stl(f) if f.endswith(".stl") else open(f).read()
    out["meshes"] = [mesh_of(c) for c in veh.components]
    if dens:
        r = veh.analyse(dens)
        out["analysis"] = [np.asarray(x, float) for x in r]
        require(len(r) >= 4, f"analysis returned {len(r)} results")
        kept = veh.analysis_results
        require(bool(kept), "no results kept of the analysis asked for")
        out["kept"] = {k: np.asarray(x, float) for k, x in kept.items()}
    return out


def same(a, b, what):
    if isinstance(b, dict):
        require(isinstance(a, dict) and list(a) == list(b), f"{what}: {list(a)} instead of {list(b)}")
        for k in b:
            same(a[k], b[k], f"{what} {k}")
    elif isinstance(b, list) and (not b or not isinstance(b[0], str)):
        require(len(a) == len(b), f"{what}: {len(a)} instead of {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what} {i}")
    elif isinstance(b, (str, list)):
        require(a == b, f"{what}: {a!r:.200} instead of {b!r:.200}")
    else:
        a, b = np.asarray(a, float), np.asarray(b, float)
        require(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), f"{what} differs")


def vehicle(case, ctx):
    a = history(case, case["level"], True)
    b = history(case, 0, False)
    same(a, b, f"vehicle with verbosity {case['level']}:")
    ctx.label(f"level {case['level']} {case['when']}")
    if case["dens"]:
        ctx.label("analysed")


# ----------------------------------------------------------------------- studies


@st.composite
def msg_case(draw):
    c = draw(study_case(named=True, params=(1, 3), comps=(1, 2)))
    if draw(st.booleans()):
        c["dens"] = [draw(num(0.5, 20)) for _ in c["comps"]]
    c["level"] = draw(LEVELS)
    return c


TRI = """<VTKFile type="UnstructuredGrid"><UnstructuredGrid><Piece NumberOfPoints="{n}"><Points><DataArray>
{p}
</DataArray></Points></Piece></UnstructuredGrid></VTKFile>"""


def study(case, ctx):
    from hypervehicle.utilities import SensitivityStudy, append_sensitivities_to_tri

    out = []
    for level in (case["level"], 0):
        s = SensitivityStudy(constructor(case), verbosity=level)
        if level:
            show(s, "a study")
        with own_directory():
            kw = {"overrides": dict(case["over"])} if case["over"] else {}
            got = s.dvdp(dict(map(tuple, case["P"])), perturbation=case["pert"], nominal_stl_prefix="nom", **kw)
            if level:
                show(s, "a study")
            r = {"returned": {p: {c: df.values for c, df in t.items()} for p, t in got.items()}}
            r["combined"] = {c: df.values for c, df in tables_of(s).items()}
            r["columns"] = {c: list(df.columns) for c, df in tables_of(s).items()}
            s.to_csv()
            names = sorted(f for f in os.listdir(".") if f.endswith("_sensitivity.csv"))
            pts = next(iter(tables_of(s).values()))[["x", "y", "z"]].values[:6]
            body = "\n".join(" ".join(f"{v:.14e}" for v in p) for p in pts)
            with open("c.tri", "w") as h:
                h.write(TRI.format(n=len(pts), p=body))
            r["fraction"] = append_sensitivities_to_tri(names, "c.tri", verbosity=level)
            r["files"] = tree()
            r["text"] = {f: open(f).read() for f in r["files"] if not f.endswith(".stl")}
            r["stl"] = {f: read_stl(f) for f in r["files"] if f.endswith(".stl")}
        out.append(r)
    same(*out, f"study with verbosity {case['level']}:")
    ctx.label(f"level {case['level']}")
    if "dens" in case:
        ctx.label("analysed")


FACETS = [
    Facet("curves", path_case, curves, 250, rule="every case"),
    Facet("surfaces", surface_case, surfaces, 120, rule="every case"),
    Facet("component", comp_case, component, 80, rule="every case"),
    Facet("wingfin", lambda: comp_case(kinds=("fin", "wing")), component, 16, rule="every case"),
    Facet("vehicle", veh_case, vehicle, 30, rule="every case"),
    Facet("vehicle-wingfin", lambda: veh_case(kinds=("fin", "wing"), n=(1, 1)), vehicle, 4, rule="every case"),
    Facet("study", msg_case, study, 16, rule="every case"),
]
