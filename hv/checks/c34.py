"""C34: curves, surfaces, functions, parts and generators of the user's own."""

import contextlib
import functools

import numpy as np
from hypothesis import strategies as st

import hv.gen as gen
from hv.checks.c05 import own_directory
from hv.checks.c07 import constructor, study_case, tables_of
from hv.checks.c30 import make_path, path_case, same, value
from hv.comp import build_component, build_options, build_vehicle, component_spec, mesh_of, vehicle_spec
from hv.core import Facet, Violation
from hv.gen import V, build_motion, build_path, build_surface, grid_params, motion_spec, num, param, path_spec, polyline_spec, surface_spec, xyz
from hv.oracle import close, require

SLACK = 1e-9
OUTSIDE = st.sampled_from(["raises", "nan", "open"])


class Outside(Exception):
    pass


def beyond(*t):
    return any(not -SLACK <= float(u) <= 1 + SLACK for u in t)


def nowhere():
    from hypervehicle.geometry import Vector3

    return Vector3(float("nan"), float("nan"), float("nan"))


def again(points, key, make, what):
    """The same point object every time; it must not have been changed."""
    if key not in points:
        p = make()
        points[key] = (p, xyz(p))
    p, w = points[key]
    if not np.array_equal(xyz(p), w):
        raise Violation(f"a point of {what} was changed from {w} to {xyz(p)}")
    return p


def user_curve(how, kept):
    """A class of curves that knows no more than the abstract one: it is
    defined on [0, 1] only and may hand out the same point object again."""
    from hypervehicle.geometry.path import Path

    class Mine(Path):
        def __init__(self, curve):
            self.curve = curve
            self.points = {}

        def __repr__(self):
            return "my curve"

        def __call__(self, t):
            if beyond(t) and how != "open":
                if how == "raises":
                    raise Outside(f"curve evaluated at {t}")
                return nowhere()
            if not kept:
                return self.curve(t)
            return again(self.points, t, lambda: self.curve(t), "the user's curve")

        def length(self):
            return self.curve.length()

    return Mine


def user_surface(how, kept):
    from hypervehicle.geometry.surface import ParametricSurface

    class Mine(ParametricSurface):
        def __init__(self, surface):
            self.surface = surface
            self.points = {}

        def __repr__(self):
            return "my surface"

        def __call__(self, r, s):
            if beyond(r, s) and how != "open":
                if how == "raises":
                    raise Outside(f"surface evaluated at ({r}, {s})")
                return nowhere()
            if not kept:
                return self.surface(r, s)
            return again(self.points, (r, s), lambda: self.surface(r, s), "the user's surface")

    return Mine


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def method(self, *a, **k):
        return self.f(*a, **k)


FUNCTIONS = {
    "object": Callable,
    "method": lambda f: Callable(f).method,
    "partial": lambda f: functools.partial(f),
    "plain": lambda f: f,
}


def user_point():
    from hypervehicle.geometry import Vector3

    class Mine(Vector3):
        pass

    return Mine


@contextlib.contextmanager
def own(case):
    """Everything is built from classes of the user's own meanwhile."""
    u = case["own"]
    old = gen.WRAP_PATH, gen.WRAP_SURFACE, gen.WRAP_FUNCTION, gen.POINT
    gen.WRAP_PATH = user_curve(u["outside"], u["kept"])
    gen.WRAP_SURFACE = user_surface(u["outside"], u["kept"])
    gen.WRAP_FUNCTION = FUNCTIONS[u["function"]]
    gen.POINT = user_point() if u["point"] else None
    try:
        yield
    except Outside as e:
        raise Violation(f"outside the interval it is defined on: {e}")
    finally:
        gen.WRAP_PATH, gen.WRAP_SURFACE, gen.WRAP_FUNCTION, gen.POINT = old


@st.composite
def own_spec(draw):
    return {
        "outside": draw(OUTSIDE),
        "kept": draw(st.booleans()),
        "function": draw(st.sampled_from(sorted(FUNCTIONS))),
        "point": draw(st.booleans()),
    }


def tag(ctx, case):
    u = case["own"]
    ctx.label(f"outside {u['outside']}")
    ctx.label(f"function {u['function']}")
    if u["kept"]:
        ctx.label("points handed out again")
    if u["point"]:
        ctx.label("points of a subclass")


# ------------------------------------------------------------------------ curves


@st.composite
def curve_case(draw):
    c = draw(path_case())
    c["p"] = draw(st.one_of(path_spec(), polyline_spec(2, 6)))
    c["d"] = draw(st.sampled_from(["plain", "plain", "arclength", "sub", "reversed", "offset", "mean"]))
    c["own"] = draw(own_spec())
    return c


def curves(case, ctx):
    what = f"{case['d']} of {case['p']['k']}"
    b = make_path(case)
    with own(case):
        a = make_path(case)
        for t in case["t"] + [0.0, 1.0]:
            close(value(a(t)), value(b(t)), 1e-12, f"{what} at {t}, of the user's own classes")
        close(a.length(), b.length(), 1e-9, f"length of {what}")
        for t in case["t"]:
            a(t)
    tag(ctx, case)
    ctx.label(case["d"])
    ctx.label(case["p"]["k"])


# ---------------------------------------------------------------------- surfaces


@st.composite
def surface_case(draw):
    return {
        "s": draw(surface_spec(depth=2)),
        "at": draw(grid_params(3)),
        "n": [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
        "own": draw(own_spec()),
        "t": [draw(param()) for _ in range(3)],
    }


def surfaces(case, ctx):
    from hypervehicle.geometry.geometry import SurfacePerimeter
    from hypervehicle.utilities import surfce_to_stl

    k = case["s"]["k"]
    b = build_surface(case["s"])
    with own(case):
        a = build_surface(case["s"])
        for u in case["at"]:
            for _ in range(2):
                close(xyz(a(*u)), xyz(b(*u)), 1e-12, f"{k} at {u}, of the user's own classes")
        m = surfce_to_stl(a, *case["n"])
        for t in case["t"]:
            close(xyz(SurfacePerimeter(a)(t)), xyz(SurfacePerimeter(b)(t)), 1e-12, f"perimeter of {k} at {t}")
    close(m.vectors, surfce_to_stl(b, *case["n"]).vectors, 1e-6, f"mesh of {k}")
    tag(ctx, case)
    ctx.label(k)


# -------------------------------------------------------------------- components


@st.composite
def comp_case(draw, kinds):
    return {
        "c": draw(component_spec(kinds)),
        "m": [draw(motion_spec()) for _ in range(draw(st.integers(0, 2)))],
        "at": draw(grid_params(2)),
        "clus": {k: draw(num(0.5, 2)) for k in draw(st.sampled_from(["", "i", "j", "ij"]))},
        "own": draw(own_spec()),
    }


def made(case):
    from hv.comp import build_clustering

    c = build_component(case["c"])
    if case["clus"]:
        c.add_clustering_options(**build_clustering(case["clus"]))
    c.generate_patches()
    for m in case["m"]:
        n, *args = build_motion(m)
        getattr(c, n)(*args)
    return [[xyz(p(*u)) for u in case["at"]] for p in c.patches.values()], mesh_of(c)


def component(case, ctx):
    k = case["c"]["k"]
    q, w = made(case)
    with own(case):
        p, m = made(case)
    require(len(p) == len(q), f"{k}: {len(p)} patches, of built-in classes {len(q)}")
    close(p, q, 1e-11, f"patches of a {k} made of the user's own classes")
    close(m, w, 1e-6 * (1 + np.abs(w).max()), f"mesh of a {k} made of the user's own classes")
    tag(ctx, case)
    ctx.label(k)


# ------------------------------------------------- vehicles with parts of one's own


def own_part(c):
    """A component class of the user's own that has the patches of c."""
    from hypervehicle.components.component import Component

    class Part(Component):
        componenttype = c.componenttype

        def generate_patches(self):
            c.patches = {}
            c.generate_patches()
            self.patches = {f"mine {i}": p for i, p in enumerate(c.patches.values())}
            n = list(c.patches)
            self.patch_res_r = {f"mine {i}": c.patch_res_r[x] for i, x in enumerate(n) if x in c.patch_res_r}
            self.patch_res_s = {f"mine {i}": c.patch_res_s[x] for i, x in enumerate(n) if x in c.patch_res_s}

    p = Part(stl_resolution=c.stl_resolution, verbosity=0, name=c.name)
    p._multiprocess = False
    return p


def own_subclass(c):
    """The component as an instance of a subclass of its class."""
    c.__class__ = type("Special", (type(c),), {"remark": "mine"})
    return c


@st.composite
def veh_case(draw):
    v = draw(vehicle_spec(kinds=("revolved", "swept", "ogive", "composite"), n=(1, 3)))
    for i, c in enumerate(v["comps"]):
        c["o"]["name"] = f"part {i}"
    return {
        "v": v,
        "parts": [draw(st.sampled_from(["own", "subclass", "built-in"])) for _ in v["comps"]],
        "dens": [draw(num(0.5, 5)) for _ in v["comps"]] if draw(st.booleans()) else None,
        "at": draw(grid_params(2)),
        "own": draw(own_spec()),
    }


def result(case, parts):
    from hypervehicle import Vehicle

    veh = (type("MyVehicle", (Vehicle,), {}) if parts else Vehicle)()
    veh.configure(name="veh", verbosity=0)
    v = case["v"]
    if "angle" in v:
        veh.vehicle_angle_offset = v["angle"]
    for i, x in enumerate(v["comps"]):
        c = build_component(x["c"])
        if parts:
            c = {"own": own_part, "subclass": own_subclass, "built-in": lambda c: c}[parts[i]](c)
        veh.add_component(c, **build_options(x["o"]))
    if "vt" in v:
        veh.add_vehicle_transformations([build_motion(m) for m in v["vt"]])
    veh.generate()
    out = {"points": [np.array([[xyz(p(*u)) for u in case["at"]] for p in c.patches.values()]) for c in veh.components]}
    out["meshes"] = [mesh_of(c) for c in veh.components]
    if case["dens"]:
        r = veh.analyse({f"part {i}": d for i, d in enumerate(case["dens"])})
        out["volume and mass"] = [float(r[0]), float(r[1])]
    return out


def vehicle(case, ctx):
    b = result(case, None)
    with own(case):
        a = result(case, case["parts"])
    for k in ("points", "meshes"):
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            close(x, y, 1e-6 * (1 + np.abs(y).max()), f"{k} of part {i} ({case['parts'][i]}) in a vehicle of the user's own classes")
    if case["dens"]:
        scale = 1 + sum(np.abs(m).max() for m in b["meshes"]) ** 3
        close(a["volume and mass"], b["volume and mass"], 1e-4 * scale, "volume and mass")
    tag(ctx, case)
    for p in case["parts"]:
        ctx.label(f"part {p}")


# ----------------------------------------------------------------------- studies


@st.composite
def gen_case(draw):
    c = draw(study_case(named=True, params=(1, 3), comps=(1, 2)))
    c["how"] = draw(st.sampled_from(["abstract", "unrelated", "function", "partial"]))
    c["own"] = draw(own_spec())
    return c


def own_generator(made, how):
    from hypervehicle.generator import AbstractGenerator

    if how == "function":
        return lambda **kw: made(**kw)
    if how == "partial":
        return functools.partial(made)
    base = AbstractGenerator if how == "abstract" else object

    class Mine(base):
        def __init__(self, **kw):
            self.kw = kw

        def create_instance(self):
            return made(**self.kw).create_instance()

    return Mine


def study(case, ctx):
    from hypervehicle.utilities import SensitivityStudy

    def run(generator):
        s = SensitivityStudy(generator, verbosity=0)
        with own_directory():
            kw = {"overrides": dict(case["over"])} if case["over"] else {}
            s.dvdp(dict(map(tuple, case["P"])), perturbation=case["pert"], write_nominal_stl=False, **kw)
            return {c: df.values for c, df in tables_of(s).items()}

    b = run(constructor(case))
    with own(case):
        a = run(own_generator(constructor(case), case["how"]))
    require(list(a) == list(b), f"study of a generator of the user's own: components {list(a)} instead of {list(b)}")
    for c in b:
        step = min(abs(v * case["pert"] / 100) for _, v in case["P"])
        scale = 1 + np.abs(b[c][:, :3]).max()
        close(a[c], b[c], 1e-5 * scale * (1 + 1 / step), f"sensitivities of {c} by a generator of the user's own ({case['how']})")
    tag(ctx, case)
    ctx.label(case["how"])


FACETS = [
    Facet("curves", curve_case, curves, 250, rule="every case"),
    Facet("surfaces", surface_case, surfaces, 120, rule="every case"),
    Facet("component", lambda: comp_case(("ogive", "composite", "cube", "sphere")), component, 60, rule="every case"),
    Facet("profiles", lambda: comp_case(("revolved",)), component, 60, rule="every case"),
    Facet("sections", lambda: comp_case(("swept",)), component, 60, rule="every case"),
    Facet("wingfin", lambda: comp_case(("fin", "wing")), component, 16, rule="every case"),
    Facet("vehicle", veh_case, vehicle, 40, rule="every case"),
    Facet("study", gen_case, study, 16, rule="every case"),
]
ASSUMPTIONS = [
    "curves and surfaces of the user are subclasses of the abstract ones and are defined on the unit interval or square, up to rounding (1e-9)",
    "functions of the user accept the documented arguments; points of the user are subclasses of the vector class",
]
