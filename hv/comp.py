"""Descriptions of components and vehicles, with builders.

A description is a plain dict; `build` turns it into a fresh library object, so
that two objects built from one description share nothing.
"""

import math

import numpy as np
from hypothesis import strategies as st

from hv.gen import V, build_path, num, user

# ------------------------------------------------------------------ wings


@st.composite
def wing_spec(draw, closed=None, flat=False, res=(1, 3), bump=False, t2=None):
    """A wing half to the +y side of a straight root A0-A1-TT along x."""
    x0, y0 = draw(num(-1, 1)), draw(num(-0.5, 1))
    chord = draw(num(2, 6))
    a1 = draw(num(0.2, 0.6)) * chord
    span = draw(num(0.75, 3))
    b0x = draw(num(-0.3, 0.1)) * chord
    n = draw(st.integers(1, 3))
    # leading edge: x grows monotonically from B0 to TT, y falls or bulges
    fx = sorted(draw(st.lists(st.integers(2, 18), min_size=n, max_size=n, unique=True)))
    fx = [f / 20 for f in fx]
    pts = [[x0 + b0x, y0 + span, 0.0]]
    for f in fx:
        pts.append(
            [
                x0 + b0x + f * (chord - b0x),
                y0 + span * max(0.05, 1 - f + draw(num(-0.2, 0.4))),
                0.0,
            ]
        )
    pts.append([x0 + chord, y0, 0.0])
    t = draw(num(0.05, 0.3))
    s = {
        "k": "wing",
        "root": [x0, y0, a1, chord],
        "le": pts,
        "tf": {
            "top": [t, draw(num(-0.3, 0.3)) * t / chord, draw(num(-0.3, 0.3)) * t / span],
            "bot": [
                draw(num(0.05, 0.3)),
                draw(num(-0.1, 0.1)) * 0.05 / chord,
                draw(num(-0.3, 0.3)) * 0.05 / span,
            ],
            "bump": draw(num(-0.1, 1.0)) * 0.05 / span**2 if bump and draw(st.booleans()) else 0.0,
        },
        "lew": [draw(num(0.02, 0.3)), draw(num(0, 0.2)), draw(num(0.02, 0.3))],
        "flat": bool(flat),
        "flap": [
            draw(st.one_of(st.just(0.0), num(0.1, 1.0))) if flat is False else draw(num(0.1, 1.0)),
            draw(st.one_of(st.just(0.0), num(-0.8, 0.8))),
        ],
        "close": bool(closed) if closed is not None else draw(st.booleans()),
        "res": draw(st.integers(*res)),
    }
    if s["flat"]:
        s["close"] = False
    if t2 if t2 is not None else draw(st.integers(0, 3)) == 0:
        s["t2"] = draw(num(0.1, 0.9))
    if draw(st.integers(0, 3)) == 0:
        s["poly"] = True
    return s


def wing_curve(s):
    """Path description of the leading-edge curve."""
    if s.get("poly"):
        return {
            "k": "polyline",
            "s": [{"k": "line", "p": [a, b]} for a, b in zip(s["le"], s["le"][1:])],
        }
    return {"k": "bezier", "p": s["le"]}


def wing_origin(s):
    return s["root"][0], s["root"][1]


def wing_thickness(s, side):
    """Signed z displacement; z points down, so the top is negative."""
    x0, y0, _, chord = s["root"]
    c = s["tf"][side]
    m = -1.0 if side == "top" else 1.0
    bump = s["tf"].get("bump", 0.0)

    def f(x, y):
        u, v = (x - x0) / chord, y - y0
        return m * (c[0] + c[1] * (x - x0) + c[2] * v + bump * v * v * math.cos(3 * u))

    return f


def thickness_function(f):
    from hypervehicle.geometry import Vector3

    def tf(x, y, z=0.0):
        return Vector3(x=0.0, y=0.0, z=f(x, y))

    return user(tf)


def width(w):
    """Leading-edge width: quadratic through w at t = 0, 1/2, 1."""

    def f(t):
        return w[0] * (1 - t) + w[2] * t + 4 * w[1] * t * (1 - t)

    return user(f)


def build_wing(s, **kw):
    from hypervehicle.components import Wing
    from hypervehicle.geometry import Vector3

    x0, y0, a1, chord = s["root"]
    args = dict(
        A0=Vector3(x0, y0, 0.0),
        A1=Vector3(x0 + a1, y0, 0.0),
        TT=Vector3(x0 + chord, y0, 0.0),
        B0=V(s["le"][0]),
        Line_B0TT=build_path(wing_curve(s)),
        top_tf=thickness_function(wing_thickness(s, "top")),
        bot_tf=thickness_function(wing_thickness(s, "bot")),
        flap_length=s["flap"][0],
        flap_angle=s["flap"][1],
        close_wing=s["close"],
        stl_resolution=s["res"],
        verbosity=0,
    )
    if s["flat"]:
        args["LE_type"] = s.get("flat_as", "FLAT")
    else:
        args["LE_wf"] = width(s["lew"])
    if "t2" in s:
        t1 = wing_t1(s)
        args["t_B2"] = t1 + (1 - t1) * s["t2"]
    args.update(kw)
    return Wing(**args)


def wing_t1(s):
    """Parameter at which the leading edge is level with A1."""
    from hv.gen import ref_path

    f = ref_path(wing_curve(s))
    target = s["root"][0] + s["root"][2]
    lo, hi = 0.0, 1.0
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        if f(mid)[0] < target:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


# ------------------------------------------------------------------- fins


@st.composite
def fin_spec(draw, res=(1, 3), placed=True):
    x0, y0 = draw(num(-1, 1)), draw(num(-1, 1))
    sweep = draw(num(-0.5, 0.5))
    s = {
        "k": "fin",
        "p0": [x0, y0],
        "d1": [sweep, draw(num(0.5, 2))],
        "d2": [draw(num(0.25, 1.5)), draw(num(-0.3, 0.3))],
        "d3": draw(num(0.25, 1.5)) + max(0.0, -sweep),
        "th": draw(num(0.02, 0.3)),
        "lew": [draw(num(0.02, 0.3)), draw(num(0, 0.2)), draw(num(0.02, 0.3))],
        "rudder": draw(st.sampled_from(["flat", "sharp"])),
        "rl": draw(num(0.1, 0.8)),
        "ra": draw(st.one_of(st.just(0.0), num(-0.6, 0.6))),
        "fa": 0.0,
        "pa": 0.0,
        "res": draw(st.integers(*res)),
    }
    if placed:
        s["fa"] = draw(st.one_of(st.sampled_from([0.0, -90.0, 90.0, 180.0]), num(-180, 180)))
        s["pa"] = draw(st.one_of(st.just(0.0), num(-40, 40)))
        s["pp"] = [draw(num(-1, 2)), draw(num(-1, 1)), draw(num(-1, 1))]
        if draw(st.booleans()):
            s["off"] = [draw(num(-1, 1)) for _ in range(3)]
            if draw(st.integers(0, 2)) == 0:
                s["offx"] = draw(num(-0.2, 0.2))
    return s


def fin_points(s):
    x0, y0 = s["p0"]
    p1 = [x0 + s["d1"][0], y0 + s["d1"][1]]
    p2 = [p1[0] + s["d2"][0], p1[1] + s["d2"][1]]
    p3 = [p2[0] + s["d3"], y0]
    return [[*p, 0.0] for p in ([x0, y0], p1, p2, p3)]


def fin_offset(s):
    if "off" not in s:
        return None
    o, k = s["off"], s.get("offx", 0.0)
    return lambda p: np.array([o[0], o[1] + k * p[0], o[2]])


def build_fin(s, **kw):
    from hypervehicle.components import Fin
    from hypervehicle.components.common import uniform_thickness_function

    p = [V(q) for q in fin_points(s)]
    args = dict(
        p0=p[0],
        p1=p[1],
        p2=p[2],
        p3=p[3],
        fin_thickness=s["th"],
        fin_angle=math.radians(s["fa"]),
        top_thickness_function=uniform_thickness_function(s["th"], "top"),
        bot_thickness_function=uniform_thickness_function(s["th"], "bot"),
        LE_wf=width(s["lew"]),
        rudder_type=s["rudder"],
        rudder_length=s["rl"],
        rudder_angle=s["ra"],
        pivot_angle=math.radians(s["pa"]),
        stl_resolution=s["res"],
        verbosity=0,
    )
    if "pp" in s:
        args["pivot_point"] = V(s["pp"])
    off = fin_offset(s)
    if off is not None:
        args["offset_func"] = user(lambda x, y, z: V(off(np.array([x, y, z]))))
    args.update(kw)
    return Fin(**args)


# ------------------------------------------------------- revolved and swept


@st.composite
def profile_spec(draw, closed=True):
    """Profile in the upper half x-y plane; closed ones start and end on the
    axis and run towards smaller or larger x."""
    n = draw(st.integers(1, 3))
    sgn = draw(st.sampled_from([-1.0, 1.0]))
    x = draw(num(-2, 2))
    pts = [[x, 0.0 if closed else draw(num(0.25, 1)), 0.0]]
    for _ in range(n):
        x += sgn * draw(num(0.25, 2))
        pts.append([x, draw(num(0.25, 2)), 0.0])
    if closed:
        x += sgn * draw(st.one_of(st.just(0.0), num(0.1, 1)))
        pts.append([x, 0.0, 0.0])
    kinds = ["poly", "bezier"] if len(pts) > 2 else ["line"]
    k = draw(st.sampled_from(kinds))
    if k == "line":
        return {"k": "line", "p": pts}
    if k == "bezier":
        return {"k": "bezier", "p": pts}
    return {
        "k": "polyline",
        "s": [{"k": "line", "p": [a, b]} for a, b in zip(pts, pts[1:])],
    }


@st.composite
def revolved_spec(draw, closed=True, res=(2, 4)):
    return {
        "k": "revolved",
        "line": draw(profile_spec(closed)),
        "res": draw(st.integers(*res)),
    }


@st.composite
def ogive_spec(draw, res=(2, 4)):
    h = draw(num(0.5, 2))
    return {
        "k": "ogive",
        "h": h,
        "rn": h * draw(num(0.1, 0.8)),
        "ro": h * draw(num(1.2, 5)),
        "lo": draw(num(0.25, 3)),
        "res": draw(st.integers(*res)),
    }


@st.composite
def loop_spec(draw, n_edges, station):
    """A closed loop of n_edges curves round the point (station, 0, 0)."""
    ang0 = draw(num(0, 90)) / 2
    pts = []
    for i in range(n_edges):
        a = math.radians(ang0 + 360.0 * i / n_edges)
        r = draw(num(0.5, 1.5))
        pts.append(
            [
                round(station + draw(num(-0.1, 0.1)), 6),
                round(r * math.cos(a), 6),
                round(r * math.sin(a), 6),
            ]
        )
    edges = []
    for i in range(n_edges):
        a, b = pts[i], pts[(i + 1) % n_edges]
        if draw(st.booleans()):
            edges.append({"k": "line", "p": [a, b]})
        else:
            m = [0.5 * (u + v) + draw(num(-0.15, 0.15)) for u, v in zip(a, b)]
            edges.append({"k": "bezier", "p": [a, m, b]})
    return edges


@st.composite
def swept_spec(draw, closed=None, res=(1, 3), per_edge=None):
    close = draw(st.booleans()) if closed is None else closed
    n_edges = 4 if close else draw(st.integers(3, 5))
    n = draw(st.integers(2, 4))
    x, loops = draw(num(-1, 1)), []
    sgn = draw(st.sampled_from([1.0, -1.0]))
    for _ in range(n):
        loops.append(draw(loop_spec(n_edges, x)))
        x += sgn * draw(num(0.5, 2))
    if per_edge is None:
        per_edge = draw(st.booleans())
    if per_edge:
        r = {"sweep": draw(st.integers(1, 4))}
        for i in range(n_edges):
            r[f"e{i}"] = draw(st.integers(1, 4))
        if close:
            r["e2"], r["e3"] = r["e0"], r["e1"]
    else:
        r = draw(st.integers(*res))
    return {"k": "swept", "cs": loops, "close": close, "res": r}


# ---------------------------------------------------------------- polygons


@st.composite
def polygon_spec(draw, kinds=("cube", "sphere"), res=(2, 4)):
    return {
        "k": draw(st.sampled_from(list(kinds))),
        "r": draw(num(0.25, 2)),
        "c": [draw(num(-2, 2)) for _ in range(3)],
        "res": draw(st.integers(*res)),
    }


# ----------------------------------------------------------------- building


def build_component(s, serial=True, **kw):
    from hypervehicle.components import (
        CompositeComponent,
        Cube,
        RevolvedComponent,
        Sphere,
        SweptComponent,
    )
    from hypervehicle.components.common import OgiveNose

    k = s["k"]
    if "name" in s:
        kw = {"name": s["name"], **kw}
    if k == "wing":
        c = build_wing(s, **kw)
    elif k == "fin":
        c = build_fin(s, **kw)
    elif k == "revolved":
        c = RevolvedComponent(build_path(s["line"]), stl_resolution=s["res"], verbosity=0, **kw)
    elif k == "ogive":
        c = OgiveNose(s["h"], s["rn"], s["ro"], s["lo"], stl_resolution=s["res"], verbosity=0, **kw)
    elif k == "swept":
        c = SweptComponent(
            [[build_path(e) for e in loop] for loop in s["cs"]],
            close_ends=s["close"],
            stl_resolution=s["res"],
            verbosity=0,
            **kw,
        )
    elif k == "cube":
        c = Cube(s["r"], V(s["c"]), stl_resolution=s["res"], verbosity=0, **kw)
    elif k == "sphere":
        c = Sphere(s["r"], V(s["c"]), stl_resolution=s["res"], verbosity=0, **kw)
    elif k == "composite":
        c = CompositeComponent(stl_resolution=s["res"], verbosity=0, **kw)
        for child in s["children"]:
            c.add_component(build_component(child["c"], serial=serial), **build_options(child.get("o", {})))
    else:
        raise KeyError(k)
    if serial:
        # worker processes are slow to start; C12 compares both ways
        c._multiprocess = False
    return c


def build_options(o):
    """Keyword arguments of add_component from an option description."""
    from hv.gen import build_curvature, build_field, build_motion

    kw = {}
    if "name" in o:
        kw["name"] = o["name"]
    if "reflect" in o:
        kw["reflection_axis"] = o["reflect"]
        kw["append_reflection"] = o["append"]
    if "curv" in o:
        kw["curvatures"] = [build_curvature(c) for c in o["curv"]]
    if "tr" in o:
        kw["transformations"] = [build_motion(m) for m in o["tr"]]
    if "mod" in o:
        kw["modifier_function"] = build_field(o["mod"])
    if "ghost" in o:
        kw["ghost"] = o["ghost"]
    if "clus" in o:
        kw["clustering"] = build_clustering(o["clus"])
    return kw


def cluster(p):
    """Monotone map of [0,1] onto itself."""
    return user(lambda t: t**p)


def build_clustering(c):
    out = {}
    if "i" in c:
        out["i_clustering_func"] = cluster(c["i"])
    if "j" in c:
        out["j_clustering_func"] = cluster(c["j"])
    return out


def component_spec(kinds=("revolved", "ogive", "swept", "fin", "wing"), closed=None, small=True):
    res = (1, 2) if small else (1, 4)
    # one cell round a quarter or along the profile collapses a body of revolution
    res2 = (2, 2) if small else (2, 4)
    table = {
        "revolved": lambda: revolved_spec(True if closed is None else closed, res=res2),
        "ogive": lambda: ogive_spec(res=res2),
        "swept": lambda: swept_spec(closed=closed, res=res),
        "fin": lambda: fin_spec(res=(1, 1) if small else (1, 3)),
        "wing": lambda: wing_spec(closed=closed, res=(1, 1) if small else (1, 3)),
        "cube": lambda: polygon_spec(("cube",), res=res),
        "sphere": lambda: polygon_spec(("sphere",), res=res),
        "composite": lambda: composite_spec(small=small, closed=closed),
    }
    return st.sampled_from(list(kinds)).flatmap(lambda k: table[k]())


@st.composite
def composite_spec(draw, small=True, closed=None, n=(1, 3), options=True, kinds=("cube", "sphere", "revolved", "swept", "ogive")):
    ch = []
    for _ in range(draw(st.integers(*n))):
        c = {"c": draw(component_spec(kinds, closed=closed, small=small))}
        if options:
            c["o"] = draw(option_spec(modifier=False))
        if draw(st.integers(0, 3)) == 0:
            # parts may carry a name of their own, and share it
            c["c"]["name"] = draw(st.sampled_from(["block", "part", "0"]))
        ch.append(c)
    return {"k": "composite", "children": ch, "res": draw(st.integers(2, 3))}


@st.composite
def option_spec(draw, modifier=True, rich=False):
    from hv.gen import curvature_spec, field_spec, motion_spec

    o = {}
    hi = 1 if rich else 2

    def pick():
        return draw(st.integers(0, hi)) == 0

    if pick():
        o["reflect"] = draw(st.sampled_from(["x", "y", "z"]))
        o["append"] = draw(st.booleans())
    if pick():
        o["curv"] = draw(st.lists(curvature_spec(), min_size=1, max_size=2))
    if pick():
        o["tr"] = draw(st.lists(motion_spec(), min_size=1, max_size=3))
    if modifier and pick():
        o["mod"] = draw(field_spec(0.4))
    return o


def ref_point_map(o, angle=0.0):
    """Maps applied to the patches of a component by its options: a list with
    one map per resulting copy (original, mirror image)."""
    from hv.gen import axis_rot, ref_curvature, ref_field, ref_motion

    pre = []
    if "mod" in o:
        f = ref_field(o["mod"])
        pre.append(lambda p: p + f(p))
    for c in o.get("curv", []):
        pre.append(ref_curvature(c))
    if angle:
        m = axis_rot("y", angle)
        pre.append(lambda p: m @ p)
    post = [ref_motion(m) for m in o.get("tr", [])]

    def run(p, mid):
        for f in pre:
            p = f(p)
        p = mid(p)
        for f in post:
            p = f(p)
        return p

    if "reflect" not in o:
        return [lambda p: run(p, lambda q: q)]
    d = np.ones(3)
    d["xyz".index(o["reflect"].lower())] = -1.0
    mirror = lambda p: run(p, lambda q: d * q)
    if o["append"]:
        return [lambda p: run(p, lambda q: q), mirror]
    return [mirror]


def fresh_patches(s):
    """Patches of the bare component built again from its description."""
    c = build_component(s)
    c.generate_patches()
    return list(c.patches.values())


# ----------------------------------------------------------------- vehicles


@st.composite
def vehicle_spec(draw, kinds=("revolved", "ogive", "swept", "fin", "wing", "composite"), n=(1, 3), options=True, motions=True, names=True, ghosts=True, closed=None, rich=False):
    from hv.gen import angle_deg, motion_spec

    comps = []
    for i in range(draw(st.integers(*n))):
        o = draw(option_spec(rich=rich)) if options else {}
        if names and draw(st.booleans()):
            o["name"] = f"part{i}"
        if ghosts and draw(st.integers(0, 3)) == 0:
            o["ghost"] = True
        comps.append({"c": draw(component_spec(kinds, closed=closed)), "o": o})
    v = {"comps": comps}
    if options and draw(st.booleans()):
        v["angle"] = draw(angle_deg(-90, 90))
    if motions and draw(st.booleans()):
        v["vt"] = draw(st.lists(motion_spec(), min_size=1, max_size=3))
    return v


def build_vehicle(v, name="veh", serial=True):
    from hypervehicle import Vehicle
    from hv.gen import build_motion

    veh = Vehicle()
    veh.configure(name=name, verbosity=0)
    if "angle" in v:
        veh.vehicle_angle_offset = v["angle"]
    for c in v["comps"]:
        veh.add_component(build_component(c["c"], serial=serial), **build_options(c["o"]))
    if "vt" in v:
        veh.add_vehicle_transformations([build_motion(m) for m in v["vt"]])
    return veh


def ref_vehicle_maps(v, i):
    """Per copy, the map from bare patches of component i to the vehicle."""
    from hv.gen import ref_motion

    post = [ref_motion(m) for m in v.get("vt", [])]

    def after(f):
        def g(p):
            p = f(p)
            for h in post:
                p = h(p)
            return p

        return g

    return [after(f) for f in ref_point_map(v["comps"][i]["o"], v.get("angle", 0.0))]


def mesh_of(c):
    return np.asarray(c.mesh.vectors, float)
