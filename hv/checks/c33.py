"""C33: options left out take their documented values; names and positions agree."""

import math
import os

import numpy as np
from hypothesis import strategies as st

from hv.checks.c05 import own_directory, read_stl, tree
from hv.checks.c07 import constructor, study_case, tables_of
from hv.checks.c30 import same
from hv.comp import (
    build_clustering,
    build_component,
    cluster,
    component_spec,
    fin_offset,
    fin_points,
    fin_spec,
    mesh_of,
    ogive_spec,
    option_spec,
    polygon_spec,
    profile_spec,
    swept_spec,
    thickness_function,
    width,
    wing_curve,
    wing_spec,
    wing_thickness,
    wing_t1,
)
from hv.core import Facet
from hv.gen import V, build_curvature, build_field, build_motion, build_path, build_surface, field_spec, grid_params, num, param, path_spec, surface_spec, vec, xyz
from hv.oracle import require

CHEAP = ("revolved", "ogive", "swept", "cube", "sphere", "composite")


@st.composite
def how(draw):
    """How the arguments are given: how many by position, and which of the
    others that have their default value are left out."""
    return {
        "k": draw(st.integers(1, 10)) if draw(st.integers(0, 2)) == 0 else 0,
        "given": draw(st.integers(0, 255)) if draw(st.integers(0, 2)) == 0 else 0,
    }


def call(f, required, optional, way=None):
    """f with required and optional arguments, both in their documented order;
    optional maps names to (default, value)."""
    if way is None:
        return f(**required, **{n: v for n, (_, v) in optional.items()})
    names = list(required) + list(optional)
    values = {**required, **{n: v for n, (_, v) in optional.items()}}
    k = min(way["k"], len(names))
    kw = {}
    for i, n in enumerate(names[k:]):
        default = n in optional and optional[n][1] is optional[n][0]
        if not default or way["given"] >> (i % 8) & 1:
            kw[n] = values[n]
    return f(*[values[n] for n in names[:k]], **kw)


def opt(default, value=None):
    """An optional argument; without a value it has its default."""
    return (default, default if value is None else value)


def note(ctx, way, optional):
    ctx.label("by position" if way["k"] else "by name")
    if any(v is d for d, v in optional.values()):
        ctx.label("defaults left out")


# ------------------------------------------------------------------- curves


@st.composite
def curve_case(draw):
    return {
        "k": draw(st.sampled_from(["vector", "line", "arc", "polyline", "spline", "arclength", "length", "sub", "ellipse", "equal", "mean", "offset"])),
        "p": draw(path_spec()),
        "v": draw(vec(3)),
        "e": draw(num(1e-6, 0.02)),
        "pts": [draw(vec(3)) for _ in range(draw(st.integers(3, 5)))],
        "f": draw(field_spec(0.4)),
        "side": draw(st.sampled_from(["top", "bot"])),
        "n": draw(st.sampled_from([None, None, 7, 40])),
        "closed": draw(st.booleans()),
        "t": [draw(param()) for _ in range(3)],
        "how": draw(how()),
    }


def curves(case, ctx):
    from hypervehicle.geometry import Arc, Line, Polyline, Vector3
    from hypervehicle.geometry import geometry as g
    from hypervehicle.geometry import path as pm
    from hypervehicle.geometry.vector import approximately_equal_vectors

    k, v, pts = case["k"], case["v"], case["pts"]
    spread = [[p[0] + 7.0 * i, p[1], p[2]] for i, p in enumerate(pts)]
    opts = {}

    def build(way):
        nonlocal opts
        if k == "vector":
            # components left out are zero
            y, z = (v[1] if case["closed"] else 0.0), (v[2] if case["n"] else 0.0)
            opts = {"y": opt(0.0, y or None), "z": opt(0.0, z or None)}
            return [xyz(call(Vector3, {"x": v[0]}, opts, way))]
        if k == "equal":
            opts = {"rel_tol": opt(1e-2, case["n"] and 1e-3), "abs_tol": opt(1e-5, case["closed"] and 1e-3 or None)}
            # beside the limit that the tolerances set
            r, t = opts["rel_tol"][1], opts["abs_tol"][1]
            f = 0.97 if case["side"] == "top" else 1.03
            w = [(x + f * t) / (1 - f * r) if i == len(case["pts"]) - 3 else x for i, x in enumerate(map(abs, v))]
            return [float(bool(call(approximately_equal_vectors, {"v1": V(np.abs(v)), "v2": V(w)}, opts, way)))]
        if k == "length":
            opts = {"n": opt(20, case["n"])}
            return [float(call(g.OffsetPathFunction(build_path(case["p"]), build_field(case["f"])).length, {}, opts, way))]
        req = {}
        if k == "line":
            f, req = Line, {"p0": V(spread[0]), "p1": V(spread[1])}
        elif k == "arc":
            c, r = np.array(v), 1.0 + abs(pts[0][0])
            f, req = Arc, {"a": V(c + [r, 0, 0]), "b": V(c + [0, 0.6 * r, 0.8 * r]), "c": V(c)}
        elif k == "polyline":
            f = Polyline
            req = {"segments": [Line(V(a), V(b)) for a, b in zip(spread, spread[1:])]}
            opts = {"closed": opt(False, case["closed"] or None), "tolerance": opt(1e-10, case["n"] and 1e-8)}
        elif k == "spline":
            f, req = pm.Spline, {"points": [V(p) for p in spread]}
            opts = {"closed": opt(False, case["closed"] or None), "tolerance": opt(1e-10, case["n"] and 1e-8)}
        elif k == "arclength":
            f, req = pm.ArcLengthParameterizedPath, {"underlying_path": build_path(case["p"])}
            opts = {"n": opt(1000, case["n"])}
        elif k == "sub":
            f, req = g.SubRangedPath, {"underlying_path": build_path(case["p"]), "t0": 0.2, "t1": 0.7}
        elif k == "ellipse":
            f, req = g.ElipsePath, {"centre": V(v), "thickness": 0.3, "LE_width": 0.2, "side": case["side"]}
        elif k == "mean":
            p = build_path(case["p"])
            f, req = g.GeometricMeanPathFunction, {"underlying_line_1": p, "underlying_line_2": g.ReversedPath(p)}
        else:
            f, req = g.OffsetPathFunction, {"underlying_line": build_path(case["p"]), "offset_function": build_field(case["f"])}
        c = call(f, req, opts, way)
        return [xyz(c(t)) for t in case["t"]]

    want = build(None)
    same(build(case["how"]), want, f"{k} given by {case['how']}:")
    ctx.label(k)
    note(ctx, case["how"], opts)


# ----------------------------------------------------------------- surfaces


@st.composite
def surface_case(draw):
    c = {
        "k": draw(st.sampled_from(["revolved", "swept", "rotated", "mirrored", "trailing", "mean-trailing", "leading", "mean-leading", "cone", "cube", "sphere", "corners", "mesh", "circle", "curved", "moved"])),
        "s": draw(surface_spec(depth=1)),
        "p": draw(path_spec()),
        "f": draw(field_spec(0.4)),
        "v": draw(vec(3)),
        "a": [draw(num(-2, 2)), draw(num(0.2, 1))],
        "axis": draw(st.sampled_from([None, None, "x", "y", "z"])),
        "side": draw(st.sampled_from([None, None, "bot"])),
        "face": draw(st.sampled_from(["east", "west", "south", "north", "bottom", "top"])),
        "set": draw(st.booleans()),
        "n": [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
        "at": draw(grid_params(3)),
        "how": draw(how()),
    }
    return c


def surfaces(case, ctx):
    from hypervehicle.components.common import circle_patch
    from hypervehicle.geometry import CoonsPatch, Line
    from hypervehicle.geometry import geometry as g
    from hypervehicle.utilities import surfce_to_stl

    k, set_, a = case["k"], case["set"], case["a"]
    opts = {}

    def build(way):
        nonlocal opts
        opts = {}
        if k == "mesh":
            opts = {
                "si": opt(1.0, case["axis"] and 1.3),
                "sj": opt(1.0, case["side"] and 0.8),
                "mirror_y": opt(False, set_ or None),
                "i_clustering_func": opt(None, cluster(2.0) if case["axis"] == "x" else None),
                "j_clustering_func": opt(None, cluster(0.5) if case["axis"] == "y" else None),
            }
            req = {"parametric_surface": build_surface(case["s"]), "triangles_per_edge_r": case["n"][0], "triangles_per_edge_s": case["n"][1]}
            return np.asarray(call(surfce_to_stl, req, opts, way).vectors, float)
        if k == "revolved":
            f, req = g.RevolvedPatch, {"line": build_path(case["p"])}
            # angles beyond the defaults only together with them
            opts = {"angle0": opt(0, a[1] if set_ else None), "angle1": opt(2 * np.pi, 1.0 + a[1] if case["side"] else None)}
        elif k == "swept":
            # sections varying along the axis
            i = "xyz".index(case["axis"] or "z")
            sections = []
            for h in (0.0, 1.0, 2.5):
                q = []
                for u, w in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    p = [0.0, 0.0, 0.0]
                    p[(i + 1) % 3], p[(i + 2) % 3], p[i] = u * (1 + h * a[1]), w, h
                    q.append(V(p))
                sections.append(CoonsPatch(p00=q[0], p10=q[1], p11=q[2], p01=q[3]))
            f, req = g.SweptPatch, {"cross_sections": sections}
            opts = {"sweep_axis": opt("z", case["axis"])}
        elif k == "rotated":
            origin = V([0, 0, 0])
            f, req = g.RotatedPatch, {"underlying_surf": build_surface(case["s"]), "angle": a[0]}
            opts = {"axis": opt("x", case["axis"]), "point": opt(origin, V(case["v"]) if set_ else None)}
        elif k == "mirrored":
            f, req = g.MirroredPatch, {"underlying_surf": build_surface(case["s"])}
            opts = {"axis": opt("x", case["axis"])}
        elif k == "curved":
            d, fun, dash = build_curvature({"d": "y" if set_ else "x", "k": [0.1, a[0] / 4, 0.1]})
            f, req = g.CurvedPatch, {"underlying_surf": build_surface(case["s"]), "direction": d, "fun": fun, "fun_dash": dash}
        elif k == "moved":
            f, req = g.OffsetPatchFunction, {"underlying_surf": build_surface(case["s"]), "function": build_field(case["f"])}
        elif k in ("trailing", "mean-trailing"):
            top = thickness_function(lambda x, y: -0.1 - 0.02 * x)
            bot = thickness_function(lambda x, y: 0.15 + 0.01 * y)
            p, q = V([0.0, 0.0, 0.0]), V([0.0, 1.5, 0.0])
            tops, bots = g.TrailingEdgePath(p, q, top), g.TrailingEdgePath(p, q, bot)
            path = bots if case["side"] else tops
            opts = {"flap_angle": opt(0.0, a[0] / 8 if set_ else None), "side": opt("top", case["side"])}
            if k == "trailing":
                f, req = g.TrailingEdgePatch, {"A0": p, "B0": q, "TE_path": path, "flap_length": a[1]}
            else:
                f, req = g.MeanTrailingEdgePatch, {"mean_line": g.GeometricMeanPathFunction(tops, bots), "TE_path": path, "flap_length": a[1]}
        elif k in ("leading", "mean-leading"):
            line = Line(V([0.0, 2.0, 0.0]), V([3.0, 0.2, 0.0]))
            th = thickness_function(lambda x, y: (0.1 if case["side"] else -0.1) * (1 + 0.1 * x))
            opts = {"side": opt("top", case["side"])}
            if k == "leading":
                f = g.LeadingEdgePatchFunction
                req = {"centralLine": line, "thickness_function": th, "LE_width_function": width([0.1, 0.2, 0.1]), "t0": 0.1, "t1": 0.9}
            else:
                f = g.MeanLeadingEdgePatchFunction
                req = {"mean_line": line, "guide_line": g.OffsetPathFunction(line, th), "LE_width_function": width([0.1, 0.2, 0.1]), "t0": 0.1, "t1": 0.9}
        elif k == "cone":
            f, req = g.ConePatch, {"x0": a[0], "x1": a[0] + 1.5, "r0": 0.4, "r1": a[1], "angle0": 0.3, "angle1": 2.0}
        elif k == "cube":
            f, req = g.CubePatch, {"a": a[1], "centre": V(case["v"]), "face": case["face"]}
        elif k == "sphere":
            f, req = g.SpherePatch, {"r": a[1], "centre": V(case["v"]), "face": case["face"]}
        elif k == "circle":
            f, req = circle_patch, {"centre": V(case["v"]), "r": a[1]}
            opts = {"plane": opt("xy")}
        else:
            # four sides in the documented order, or four corners by name
            q = [V(p) for p in ([0, 0, 0], [1, 0.1, 0], [1.2, 1, a[0]], [0, 1, 0.2])]
            sides = {"north": Line(q[3], q[2]), "east": Line(q[1], q[2]), "south": Line(q[0], q[1]), "west": Line(q[0], q[3])}
            if set_ and way is not None:
                c = CoonsPatch(p00=q[0], p10=q[1], p11=q[2], p01=q[3])
                return [np.round(xyz(c(*x)), 12) for x in case["at"]]
            c = call(CoonsPatch, sides, {}, way)
            return [np.round(xyz(c(*x)), 12) for x in case["at"]]
        s = call(f, req, opts, way)
        return [xyz(s(*x)) for x in case["at"]]

    want = build(None)
    same(build(case["how"]), want, f"{k} given by {case['how']}:")
    ctx.label(k)
    note(ctx, case["how"], opts)


# --------------------------------------------------------------- components


def at_origin(s):
    """The wing moved so that its root starts at the origin."""
    x0, y0, a1, chord = s["root"]
    return {**s, "root": [0.0, 0.0, a1, chord], "le": [[x - x0, y - y0, z] for x, y, z in s["le"]]}


@st.composite
def component_case(draw, kinds=("revolved", "ogive", "swept", "cube", "sphere")):
    k = draw(st.sampled_from(list(kinds)))
    table = {
        "revolved": lambda: {"line": draw(profile_spec())},
        "ogive": lambda: draw(ogive_spec()),
        "swept": lambda: draw(swept_spec(per_edge=False)),
        "cube": lambda: draw(polygon_spec(("cube",))),
        "sphere": lambda: draw(polygon_spec(("sphere",))),
        "fin": lambda: draw(fin_spec()),
        "wing": lambda: at_origin(draw(wing_spec())) if draw(st.booleans()) else draw(wing_spec()),
    }
    return {
        "k": k,
        "c": table[k](),
        "keep": [draw(st.booleans()) for _ in range(8)],
        "case": draw(st.sampled_from(["custom", "CUSTOM", "Custom"])),
        "res": draw(st.sampled_from([None, 1] if k in ("fin", "wing") else [None, 1, 3])),
        "name": draw(st.sampled_from([None, "nose"])),
        "at": draw(grid_params(2)),
        "how": draw(how()),
    }


def arguments(case):
    """The class, and its required and optional arguments; about half of the
    options are those of the description, the others have their defaults."""
    from hypervehicle import components as m
    from hypervehicle.components.common import OgiveNose, leading_edge_width_function, uniform_thickness_function

    k, s = case["k"], case["c"]
    keep = iter(case["keep"])

    def maybe(default, value):
        return opt(default, value if next(keep) else None)

    def last(res):
        return {"stl_resolution": opt(res, case["res"]), "verbosity": opt(1, 0), "name": opt(None, case["name"])}

    if k == "revolved":
        return m.RevolvedComponent, {"revolve_line": build_path(s["line"])}, last(4)
    if k == "ogive":
        o = last(3)
        o = {"stl_resolution": o["stl_resolution"], "name": o["name"]}
        return OgiveNose, {"h": s["h"], "r_n": s["rn"], "r_o": s["ro"], "L_o": s["lo"]}, o
    if k == "swept":
        sections = [[build_path(e) for e in loop] for loop in s["cs"]]
        return m.SweptComponent, {"cross_sections": sections}, {"close_ends": opt(True, None) if s["close"] else (True, False), **last(1)}
    if k in ("cube", "sphere"):
        origin = V([0, 0, 0])
        f, n = (m.Cube, "a") if k == "cube" else (m.Sphere, "r")
        return f, {n: s["r"]}, {"centre": maybe(origin, V(s["c"])), **last(2)}
    if k == "fin":
        p = [V(q) for q in fin_points(s)]
        off = fin_offset(s)
        req = {f"p{i}": q for i, q in enumerate(p)}
        req |= {"fin_thickness": s["th"], "fin_angle": math.radians(s["fa"])}
        req |= {"top_thickness_function": uniform_thickness_function(s["th"], "top"), "bot_thickness_function": uniform_thickness_function(s["th"], "bot")}
        o = {
            "LE_wf": maybe(leading_edge_width_function, width(s["lew"])),
            "mirror": opt(False),
            "rudder_type": maybe("flat", s["rudder"]),
            "rudder_length": maybe(0, s["rl"]),
            "rudder_angle": maybe(0, s["ra"]),
            "pivot_angle": maybe(0, math.radians(s["pa"])),
            "pivot_point": maybe(V([0, 0, 0]), V(s["pp"])),
            "offset_func": opt(None, (lambda x, y, z: V(off(np.array([x, y, z])))) if off else None),
            **last(2),
        }
        return m.Fin, req, o
    x0, y0, a1, chord = s["root"]
    t2 = None
    if "t2" in s:
        t1 = wing_t1(s)
        t2 = t1 + (1 - t1) * s["t2"]
    o = {"A0": opt(V([0, 0, 0]), V([x0, y0, 0.0]) if x0 or y0 else None)}
    req = {"A1": V([x0 + a1, y0, 0.0]), "TT": V([x0 + chord, y0, 0.0]), "B0": V(s["le"][0]), "Line_B0TT": build_path(wing_curve(s))}
    # the kind of curve comes between; it is of no consequence
    req |= {"Line_B0TT_TYPE": None}
    req |= {"t_B1": None, "t_B2": t2}
    req |= {"top_tf": thickness_function(wing_thickness(s, "top")), "bot_tf": thickness_function(wing_thickness(s, "bot"))}
    o |= {n: (None, v) if n != "Line_B0TT_TYPE" else opt("Bezier") for n, v in req.items()}
    o |= {"t_B1": opt(None), "t_B2": opt(None, t2)}
    o |= {
        "LE_wf": opt(leading_edge_width_function, None if s["flat"] else width(s["lew"]) if next(keep) else None),
        "LE_type": opt("custom", "FLAT" if s["flat"] else case["case"] if next(keep) else None),
        "tail_option": opt("FLAP"),
        "flap_length": maybe(0, s["flap"][0]),
        "flap_angle": maybe(0, s["flap"][1]),
        "close_wing": opt(False, True if s["close"] else None),
        **last(2),
    }
    return m.Wing, {}, o


def component(case, ctx):
    def build(way):
        f, req, o = arguments(case)
        c = call(f, req, o, way)
        c._multiprocess = False
        c.generate_patches()
        return {"points": [[xyz(p(*a)) for a in case["at"]] for p in c.patches.values()], "mesh": mesh_of(c), "name": [str(c.name)]}, o

    want, o = build(None)
    got, _ = build(case["how"])
    same(got, want, f"{case['k']} given by {case['how']}:")
    ctx.label(case["k"])
    note(ctx, case["how"], o)


# ------------------------------------------------- what is done to components


@st.composite
def method_case(draw, kinds=("rotate", "reflect", "surface", "clustering", "child")):
    k = draw(st.sampled_from(list(kinds)))
    return {
        "k": k,
        # composites are not parts of composites
        "c": draw(component_spec(CHEAP[:-1] if k == "child" else CHEAP)),
        "o": draw(option_spec(modifier=False)),
        "deg": draw(st.sampled_from([None, 30.0, -75.5])),
        "axis": draw(st.sampled_from([None, "x", "z"])),
        "size": draw(st.sampled_from([2e-5, 3e-6, 2e-7, 2e-4])),
        "seed": draw(st.integers(0, 10**6)),
        "set": [draw(st.booleans()), draw(st.booleans())],
        "at": draw(grid_params(2)),
        "how": draw(how()),
    }


def child_options(o):
    return {
        "reflection_axis": opt(None, o.get("reflect")),
        "append_reflection": (True, True if o.get("append", True) else False),
        "curvatures": opt(None, [build_curvature(c) for c in o["curv"]] if "curv" in o else None),
        "clustering": opt(None, build_clustering(o["clus"]) if "clus" in o else None),
        "transformations": opt(None, [build_motion(m) for m in o["tr"]] if "tr" in o else None),
    }


def methods(case, ctx):
    from hypervehicle.components import CompositeComponent

    k = case["k"]
    opts = {}

    def build(way):
        nonlocal opts
        out = {}
        c = build_component(case["c"])
        if k == "child":
            whole = CompositeComponent(verbosity=0)
            whole._multiprocess = False
            o = dict(case["o"])
            if case["set"][0]:
                o["clus"] = {"i": 2.0}
            opts = child_options(o)
            call(whole.add_component, {"component": c}, opts, way)
            c = whole
        c.generate_patches()
        if k == "rotate":
            opts = {"angle": opt(0, case["deg"]), "axis": opt("y", case["axis"])}
            call(c.rotate, {}, opts, way)
        elif k == "reflect":
            opts = {"axis": opt(None, case["axis"])}
            call(c.reflect, {}, opts, way)
        elif k == "clustering":
            opts = {"i_clustering_func": opt(None, cluster(2.0) if case["set"][0] else None), "j_clustering_func": opt(None, cluster(0.5) if case["set"][1] else None)}
            call(c.add_clustering_options, {}, opts, way)
        elif k == "surface":
            opts = {"resolution": opt(None, 3 if case["set"][0] else None)}
            call(c.surface, {}, opts, way)
        elif k in ("repair", "check"):
            v = c.mesh.vectors
            r = np.random.default_rng(case["seed"])
            v += r.uniform(-case["size"], case["size"], v.shape).astype(v.dtype)
            if k == "repair":
                opts = {"small_distance": opt(1e-6, 1e-4 if case["set"][0] else None)}
                call(c.stl_repair, {}, opts, way)
            else:
                opts = {"project_area": opt(True, None) if case["set"][0] else (True, False), "matching_lines": opt(True, None) if case["set"][1] else (True, False)}
                out["checked"] = [float(bool(call(c.stl_check, {}, opts, way)))]
        out["points"] = [[xyz(p(*a)) for a in case["at"]] for p in c.patches.values()]
        out["mesh"] = mesh_of(c)
        return out

    want = build(None)
    same(build(case["how"]), want, f"{k} of {case['c']['k']} given by {case['how']}:")
    ctx.label(k)
    note(ctx, case["how"], opts)


# ----------------------------------------------------------------- vehicles


@st.composite
def veh_case(draw):
    return {
        "comps": [{"c": draw(component_spec(("revolved", "ogive", "swept", "composite"))), "o": draw(option_spec(rich=True)), "ghost": draw(st.integers(0, 3)) == 0, "name": draw(st.booleans())} for _ in range(draw(st.integers(1, 2)))],
        "name": draw(st.sampled_from([None, "craft"])),
        "prefix": draw(st.sampled_from([None, "run"])),
        "angle": draw(st.sampled_from([None, 12.5])),
        "at": draw(grid_params(2)),
        "how": draw(how()),
        "also": draw(how()),
    }


def vehicle(case, ctx):
    from hypervehicle import Vehicle

    def build(way, also):
        veh = Vehicle()
        if case["name"] or way is None:
            call(veh.configure, {}, {"name": opt("vehicle", case["name"]), "verbosity": opt(1)}, way)
        if case["angle"] is not None or way is None:
            veh.vehicle_angle_offset = case["angle"] or 0
        for i, c in enumerate(case["comps"]):
            o = child_options(c["o"])
            o = {"name": opt(None, f"part{i}" if c["name"] else None), **o}
            o["modifier_function"] = opt(None, build_field(c["o"]["mod"]) if "mod" in c["o"] else None)
            o["ghost"] = opt(False, c["ghost"] or None)
            call(veh.add_component, {"component": build_component(c["c"])}, o, also)
        veh.generate()
        veh.add_property("span", 2.0)
        out = {"points": [[[xyz(p(*u)) for u in case["at"]] for p in c.patches.values()] for c in veh.components]}
        with own_directory():
            call(veh.to_stl, {}, {"prefix": opt(None, case["prefix"]), "merge": opt(False)}, way)
            out["files"] = tree()
            out["content"] = {f: read_stl(f) if f.endswith(".stl") else open(f).read() for f in out["files"]}
        return out

    want = build(None, None)
    same(build(case["how"], case["also"]), want, f"vehicle given by {case['how']} and {case['also']}:")
    ctx.label("named" if case["name"] else "default name")


# ------------------------------------------------------------------ studies


@st.composite
def defaults_case(draw):
    c = draw(study_case(named=True, params=(1, 2), comps=(1, 2)))
    c["stl"] = draw(st.booleans())
    c["prefix"] = draw(st.sampled_from([None, "nom"]))
    c["outdir"] = draw(st.booleans())
    c["tri"] = draw(st.booleans())
    c["all"] = draw(st.booleans())
    c["tol"] = draw(st.sampled_from([None, 1e-3]))
    c["round"] = draw(st.sampled_from([None, 1e-3]))
    c["off"] = draw(st.sampled_from([0.0, 3e-6, 5e-5]))
    c["how"] = draw(how())
    c["also"] = draw(how())
    return c


TRI = """<VTKFile type="UnstructuredGrid"><UnstructuredGrid><Piece NumberOfPoints="{n}"><Points><DataArray>
{p}
</DataArray></Points></Piece></UnstructuredGrid></VTKFile>"""


def study(case, ctx):
    from hypervehicle.utilities import SensitivityStudy, append_sensitivities_to_tri

    def build(way, also):
        make = constructor(case)
        with own_directory() as here:
            s = call(SensitivityStudy, {"vehicle_constructor": make}, {"verbosity": opt(1)}, way)
            o = {"overrides": opt(None, dict(case["over"]) or None), "perturbation": (None, case["pert"])}
            o |= {"write_nominal_stl": opt(True) if case["stl"] else (True, False), "nominal_stl_prefix": opt(None, case["prefix"])}
            got = call(s.dvdp, {"parameter_dict": dict(map(tuple, case["P"]))}, o, way)
            r = {"returned": {p: {c: df.values for c, df in t.items()} for p, t in got.items()}}
            where = os.path.join(here, "out") if case["outdir"] else None
            call(s.to_csv, {}, {"outdir": opt(None, where)}, also)
            d = where or "."
            tables = tables_of(s)
            names = [os.path.join(d, f"{c}_sensitivity.csv") for c in tables]
            for n in names:
                require(os.path.exists(n), f"{os.path.basename(n)} was not written")
            pts = np.concatenate([df[["x", "y", "z"]].values[:6] for df in tables.values()]) + [case["off"], 0.0, 0.0]
            f = "own.tri" if case["tri"] else "Components.i.tri"
            with open(f, "w") as h:
                h.write(TRI.format(n=len(pts), p="\n".join(" ".join(f"{x:.14e}" for x in p) for p in pts)))
            o = {
                "components_filepath": opt("Components.i.tri", f if case["tri"] else None),
                "match_tolerance": opt(1e-5, case["tol"]),
                "rounding_tolerance": opt(1e-8, case["round"]),
                "combined_sens_fn": opt("all_components_sensitivity.csv", "mine.csv" if case["all"] else None),
                "outdir": opt(None, where),
                "verbosity": opt(1),
            }
            r["fraction"] = [float(call(append_sensitivities_to_tri, {"dp_filenames": names}, o, also))]
            r["files"] = tree()
            r["text"] = {f: open(f).read() for f in r["files"] if not f.endswith(".stl")}
            r["stl"] = {f: read_stl(f) for f in r["files"] if f.endswith(".stl")}
        return r

    want = build(None, None)
    same(build(case["how"], case["also"]), want, f"study given by {case['how']} and {case['also']}:")
    ctx.label("default files" if not case["tri"] else "other files")


FACETS = [
    Facet("curves", curve_case, curves, 250, rule="every case"),
    Facet("surfaces", surface_case, surfaces, 250, rule="every case"),
    Facet("component", component_case, component, 120, rule="every case"),
    Facet("wingfin", lambda: component_case(kinds=("fin", "wing")), component, 14, rule="every case"),
    Facet("methods", method_case, methods, 100, rule="every case"),
    Facet("repair", lambda: method_case(kinds=("repair", "check")), methods, 60, rule="every case"),
    Facet("vehicle", veh_case, vehicle, 30, rule="every case"),
    Facet("study", defaults_case, study, 25, rule="every case"),
]
