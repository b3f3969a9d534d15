"""C27: geometry does not depend on the unit of length."""

import numpy as np
from hypothesis import strategies as st

from hv.checks import c06
from hv.comp import build_component, build_vehicle, component_spec, mesh_of, vehicle_spec
from hv.core import Facet
from hv.gen import arc_spec, build_path, grid_params, num, param, path_spec, xyz
from hv.oracle import close, must_raise, require

CHEAP = ("revolved", "ogive", "swept", "cube", "sphere", "composite")


def unit():
    """Millimetres to kilometres, inches, feet, and anything between."""
    return st.one_of(
        st.sampled_from([1e-3, 1e3, 0.0254, 0.3048, 1e-2, 100.0, 39.37]),
        num(0.01, 0.5),
        num(2, 500),
    )


# -------------------------------------------- descriptions in another unit


def times(p, k):
    return [k * x for x in p]


def path_in(e, k):
    if e["k"] == "arc":
        return {**e, "c": times(e["c"], k), "r": k * e["r"]}
    if "s" in e:
        return {**e, "s": [path_in(x, k) for x in e["s"]]}
    return {**e, "p": [times(p, k) for p in e["p"]]}


def field_in(f, k):
    return {"c": times(f["c"], k), "a": f["a"], "q": [x / k for x in f["q"]]}


def motion_in(m, k):
    if m["m"] == "translate":
        return {**m, "v": times(m["v"], k)}
    if m["m"] == "move_by":
        return {**m, "f": field_in(m["f"], k)}
    return m


def options_in(o, k):
    o = dict(o)
    if "curv" in o:
        o["curv"] = [{**c, "k": [c["k"][0] * k, c["k"][1], c["k"][2] / k]} for c in o["curv"]]
    if "tr" in o:
        o["tr"] = [motion_in(m, k) for m in o["tr"]]
    if "mod" in o:
        o["mod"] = field_in(o["mod"], k)
    return o


def component_in(s, k):
    t = s["k"]
    if t == "wing":
        tf = s["tf"]
        return {
            **s,
            "root": times(s["root"], k),
            "le": [times(p, k) for p in s["le"]],
            "tf": {
                "top": [tf["top"][0] * k, *tf["top"][1:]],
                "bot": [tf["bot"][0] * k, *tf["bot"][1:]],
                "bump": tf.get("bump", 0.0) / k,
            },
            "lew": times(s["lew"], k),
            "flap": [s["flap"][0] * k, s["flap"][1]],
        }
    if t == "fin":
        out = {**s, **{n: times(s[n], k) for n in ("p0", "d1", "d2", "lew")}}
        out.update({n: k * s[n] for n in ("d3", "th", "rl")})
        out.update({n: times(s[n], k) for n in ("pp", "off") if n in s})
        return out
    if t == "revolved":
        return {**s, "line": path_in(s["line"], k)}
    if t == "ogive":
        return {**s, **{n: k * s[n] for n in ("h", "rn", "ro", "lo")}}
    if t == "swept":
        return {**s, "cs": [[path_in(e, k) for e in loop] for loop in s["cs"]]}
    if t in ("cube", "sphere"):
        return {**s, "r": k * s["r"], "c": times(s["c"], k)}
    return {**s, "children": [{**c, "c": component_in(c["c"], k), "o": options_in(c.get("o", {}), k)} for c in s["children"]]}


def vehicle_in(v, k):
    out = {**v, "comps": [{"c": component_in(c["c"], k), "o": options_in(c["o"], k)} for c in v["comps"]]}
    if "vt" in v:
        out["vt"] = [motion_in(m, k) for m in v["vt"]]
    return out


# --------------------------------------------------------------------- curves


@st.composite
def curve_case(draw):
    return {
        "p": draw(st.one_of(path_spec(), arc_spec())),
        "k": draw(unit()),
        "t": draw(st.lists(param(), min_size=3, max_size=5)),
        "range": sorted([draw(param()), draw(param())]),
        "closed": draw(st.booleans()),
    }


def curve(case, ctx):
    from hypervehicle.geometry.geometry import ReversedPath, SubRangedPath
    from hypervehicle.geometry.path import ArcLengthParameterizedPath, Polyline

    k = case["k"]
    out = []
    for s in (case["p"], path_in(case["p"], k)):
        p = build_path(s)
        made = [p, SubRangedPath(p, *case["range"]), ReversedPath(p)]
        if case["closed"]:
            made.append(Polyline([p], closed=True))
        made.append(ArcLengthParameterizedPath(p, n=100))
        out.append([[xyz(f(t)) for t in case["t"] + [0.0, 1.0]] for f in made])
        out.append([f.length() for f in made])
    size = 1 + np.abs(out[0]).max()
    close(np.array(out[2]) / k, out[0], 2e-6 * size, f"{case['p']['k']} with all lengths times {k}, divided by {k}")
    close(np.array(out[3]) / k, out[1], 5e-6 * size, f"length of a {case['p']['k']} with all lengths times {k}, divided by {k}")
    ctx.label(case["p"]["k"])
    ctx.label("smaller" if k < 1 else "larger")


# ----------------------------------------------------------------- components


@st.composite
def comp_case(draw, kinds=CHEAP, closed=None):
    return {"c": draw(component_spec(kinds, closed=closed)), "k": draw(unit()), "at": draw(grid_params(4))}


def component(case, ctx):
    def made(k):
        c = build_component(component_in(case["c"], k))
        c.generate_patches()
        return c, [[xyz(p(*a)) for a in case["at"]] for p in c.patches.values()]

    c, p = made(1)
    m = mesh_of(c)
    size = np.abs(m).max()
    # the other way as well, without the mesh
    for k in (case["k"], 1 / case["k"]):
        c, q = made(k)
        what = f"{case['c']['k']} with all lengths times {k}"
        require(len(p) == len(q), f"{len(q)} patches instead of {len(p)} of a {what}")
        close(np.array(q) / k, p, 1e-7 * size, f"surfaces of a {what}, divided by it")
        if k == case["k"]:
            close(mesh_of(c) / k, m, 1e-6 * size, f"mesh of a {what}, divided by it")
    ctx.label(case["c"]["k"])
    ctx.label("mesh smaller" if case["k"] < 1 else "mesh larger")


# -------------------------------------------------- edges that meet to rounding


@st.composite
def joined_case(draw):
    """Round sections: arcs about one centre, whose ends are worked out from
    angles and meet to rounding only."""
    n = draw(st.integers(3, 5))
    secs = []
    x = draw(num(-1, 1))
    for _ in range(draw(st.integers(2, 3))):
        secs.append({"x": x, "c": [draw(num(-2, 2)), draw(num(-2, 2))], "r": draw(num(0.25, 4)), "a": draw(num(0, 360))})
        x += draw(num(0.5, 2))
    kinds = [draw(st.sampled_from(["arc", "arc", "line", "bezier", "polyline"])) for _ in range(n)]
    return {
        "kinds": kinds,
        "secs": secs,
        "k": draw(st.one_of(unit(), st.sampled_from([3e3, 1e4]))),
        "at": draw(grid_params(4)),
        "open": draw(st.one_of(st.none(), st.tuples(st.integers(0, n - 1), st.sampled_from([1e-3, 1e-2, 0.3])).map(list))),
    }


def round_loop(case, sec, k, gap=None):
    from hypervehicle.geometry import Arc, Bezier, Line, Polyline, Vector3

    n = len(case["kinds"])
    cy, cz, r = k * sec["c"][0], k * sec["c"][1], k * sec["r"]

    def at(i, f=1.0):
        a = np.radians(sec["a"] + 360.0 * i / n)
        return Vector3(k * sec["x"], cy + f * r * np.cos(a), cz + f * r * np.sin(a))

    out = []
    for i, kind in enumerate(case["kinds"]):
        a, b, c = at(i), at(i + 1), Vector3(k * sec["x"], cy, cz)
        if gap and gap[0] == i:
            b = Vector3(b.x, b.y + gap[1] * r, b.z - gap[1] * r)
            kind = "line"
        if kind == "arc":
            out.append(Arc(a, b, c))
        elif kind == "line":
            out.append(Line(a, b))
        elif kind == "bezier":
            out.append(Bezier([a, at(i + 0.5, 1.2), b]))
        else:
            m = at(i + 0.4, 1.1)
            out.append(Polyline([Line(a, m), Line(m, b)]))
    return out


def joined(case, ctx):
    from hypervehicle.components import SweptComponent
    from hypervehicle.geometry.surface import CoonsPatch

    def made(k, gap=None):
        loops = [round_loop(case, s, k, gap if i == 0 else None) for i, s in enumerate(case["secs"])]
        c = SweptComponent(loops, close_ends=False, stl_resolution=1, verbosity=0)
        c._multiprocess = False
        c.generate_patches()
        patches = list(c.patches.values())
        if len(case["kinds"]) == 4:
            from hypervehicle.geometry.geometry import ReversedPath

            s, e, n, w = loops[0]
            patches.append(CoonsPatch(south=s, east=e, north=ReversedPath(n), west=ReversedPath(w)))
        return np.array([[xyz(p(*a)) for a in case["at"]] for p in patches])

    size = 8.0 + max(abs(s["x"]) for s in case["secs"])
    p = made(1.0)
    for k in (case["k"], 1 / min(case["k"], 1e3)):
        what = f"round sections with all lengths times {k}"
        q = made(k)
        close(q / k, p, 1e-6 * size, f"surfaces of {what}, divided by it")
        if case["open"]:
            must_raise(lambda: made(k, case["open"]), f"{what}, one open by {case['open'][1]} radii")
            ctx.label("open")
    for kind in set(case["kinds"]):
        ctx.label(kind)
    if len(case["kinds"]) == 4:
        ctx.label("patch")


# ------------------------------------------------------------------- vehicles


@st.composite
def vehicle_case(draw, kinds=("revolved", "ogive", "swept", "composite"), n=(1, 3)):
    return {"v": draw(vehicle_spec(kinds=kinds, n=n, rich=True)), "k": draw(unit())}


def vehicle(case, ctx):
    k = case["k"]
    both = []
    for v in (case["v"], vehicle_in(case["v"], k)):
        veh = build_vehicle(v)
        veh.generate()
        both.append([mesh_of(c) for c in veh.components])
    for i, (m, mk) in enumerate(zip(*both)):
        close(mk / k, m, 2e-6 * (np.abs(m).max() + 1), f"component {i} of a vehicle with all lengths times {k}, divided by {k}")
    for c in case["v"]["comps"]:
        for x in c["o"]:
            ctx.label(x)
    ctx.label("smaller" if k < 1 else "larger")
    if not any(c["o"] for c in case["v"]["comps"]):
        ctx.skip("no options")


@st.composite
def weigh_case(draw):
    return {**draw(c06.vehicle_case(n=(1, 3))), "k": draw(unit())}


def weighed(case, ctx):
    """Results of an analysis scale with the powers of the unit."""
    k = case["k"]
    comps = [{**c, "c": c06.outward(c["c"])} for c in case["comps"]]
    other = [{**c, "c": component_in(c["c"], k), "o": options_in(c["o"], k)} for c in comps]
    a, b = c06.build(comps), c06.build(other)
    a.generate()
    b.generate()
    if c06.thin([mesh_of(c) for c in a.components]):
        ctx.skip("thin body")
        return
    want = a.analyse(c06.densities(comps))
    vol, mass, cog, moi = b.analyse(c06.densities(comps))
    got = (vol / k**3, mass / k**3, np.asarray(cog) / k, np.asarray(moi) / k**5)
    c06.compare(got, want, c06.size(a), f"analysis with all lengths times {k}, divided by its powers")
    close(b.area / k**2, a.area, 1e-4 * a.area, f"area with all lengths times {k}, divided by {k}^2")
    ctx.label("smaller" if k < 1 else "larger")
    if len(comps) > 1:
        ctx.label("several components")


FACETS = [
    Facet("curve", curve_case, curve, 200, rule="every case"),
    Facet("component", comp_case, component, 120, rule="every case"),
    Facet("component2", comp_case, component, 120, rule="every case"),
    Facet("joined", joined_case, joined, 100, rule="every case"),
    Facet("wing", lambda: comp_case(kinds=("wing",)), component, 5, rule="every case"),
    Facet("fin", lambda: comp_case(kinds=("fin",)), component, 6, rule="every case"),
    Facet("vehicle", vehicle_case, vehicle, 60, rule="some component has options"),
    Facet("weighed", weigh_case, weighed, 40, rule="fat bodies"),
]
ASSUMPTIONS = ["factors from a thousandth to a thousand, on definitions of order one (ten thousand for round sections)"]
