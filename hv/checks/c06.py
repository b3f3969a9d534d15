"""C06: mass properties are the physical ones of the meshed bodies."""

import numpy as np
from hypothesis import strategies as st

from hv.comp import build_component, build_options, component_spec, mesh_of, polygon_spec, revolved_spec, swept_spec
from hv.checks.c05 import TYPES
from hv.core import Facet
from hv.gen import angle_deg, axis_rot, build_motion, num, vec
from hv.oracle import area, close, mass_properties, require, signed_volume


# ------------------------------------------------------------------- building


@st.composite
def rigid_motion(draw):
    if draw(st.booleans()):
        return {"m": "rotate", "deg": draw(angle_deg(-180, 180)), "axis": draw(st.sampled_from("xyz"))}
    return {"m": "translate", "v": draw(vec(3))}


def body_spec():
    """Closed bodies a vehicle accepts, fat enough for a sound centre."""
    return st.one_of(
        revolved_spec(True, res=(2, 4)),
        swept_spec(closed=True, res=(1, 3)),
        polygon_spec(res=(2, 3)).map(lambda p: {"k": "composite", "children": [{"c": p, "o": {}}], "res": p["res"]}),
    )


@st.composite
def vehicle_case(draw, n=(1, 4), heavy=False):
    comps = []
    for i in range(draw(st.integers(*n))):
        c = {"c": draw(component_spec(("fin", "wing"), closed=True) if heavy else body_spec()), "o": {}, "d": draw(num(0.25, 4))}
        if draw(st.booleans()):
            c["o"]["tr"] = draw(st.lists(rigid_motion(), min_size=1, max_size=2))
        if draw(st.booleans()):
            c["o"]["name"] = f"part{i}"
        if draw(st.integers(0, 3)) == 0:
            c["o"]["ghost"] = True
        comps.append(c)
    return {"comps": comps}


def flip(s):
    """The same body described the other way round."""
    if s["k"] == "revolved":
        line = s["line"]
        if line["k"] == "polyline":
            return {**s, "line": {**line, "s": [{**e, "p": e["p"][::-1]} for e in line["s"][::-1]]}}
        return {**s, "line": {**line, "p": line["p"][::-1]}}
    if s["k"] == "swept":
        return {**s, "cs": s["cs"][::-1]}
    return s


def outward(s):
    """Describes the body so that its surface faces outwards, which is the
    caller's choice for revolved and swept bodies."""
    c = build_component(s)
    c.generate_patches()
    return flip(s) if signed_volume(mesh_of(c)) < 0 else s


def build(comps):
    from hypervehicle import Vehicle

    veh = Vehicle()
    veh.configure(name="veh", verbosity=0)
    for c in comps:
        veh.add_component(build_component(c["c"]), **build_options(c["o"]))
    return veh


def keys(comps):
    count, out = {}, []
    for c in comps:
        t = TYPES[c["c"]["k"]]
        count[t] = count.get(t, 0) + 1
        out.append(c["o"].get("name") or f"{t}_{count[t]}")
    return out


def densities(comps):
    return dict(zip(keys(comps), [c["d"] for c in comps]))


def compose(parts):
    """Physical composition of (volume, mass, centre, inertia about it)."""
    vol = sum(p[0] for p in parts)
    mass = sum(p[1] for p in parts)
    cog = sum(p[1] * p[2] for p in parts) / mass
    inertia = np.zeros((3, 3))
    for _, m, c, i in parts:
        r = c - cog
        inertia += i + m * (r @ r * np.eye(3) - np.outer(r, r))
    return vol, mass, cog, inertia


def prepare(case):
    comps = [{**c, "c": outward(c["c"])} for c in case["comps"]]
    veh = build(comps)
    veh.generate()
    return comps, veh


def size(veh):
    return 1 + max(np.abs(mesh_of(c)).max() for c in veh.components)


def thin(meshes):
    """A body of nearly no volume has no sound centre in single precision."""
    return any(signed_volume(m) < 2e-3 * np.ptp(m.reshape(-1, 3), axis=0).max() ** 3 for m in meshes)


def compare(got, want, L, what, tol=1e-5):
    vol, mass, cog, moi = want
    close(got[0], vol, tol * (vol + 0.01 * L**3), f"{what}: volume")
    close(got[1], mass, tol * (mass + 0.01 * L**3), f"{what}: mass")
    close(got[2], cog, 3 * tol * L, f"{what}: centre of gravity")
    close(got[3], moi, 3 * tol * (mass + 0.01 * L**3) * L**2, f"{what}: inertia")


# ------------------------------------------------------------------ properties


def physical(case, ctx):
    """Analysis against exact integration over the mesh in double precision."""
    comps, veh = prepare(case)
    meshes = [mesh_of(c) for c in veh.components]
    if thin(meshes):
        ctx.skip("thin body")
        return
    got = veh.analyse(densities(comps))
    L = size(veh)
    parts = [mass_properties(m, c["d"]) for m, c in zip(meshes, comps)]
    cp = veh.component_properties
    for k, p, m in zip(keys(comps), parts, meshes):
        compare([cp["volume"][k], cp["mass"][k], cp["cog"][k], cp["moi"][k]], p, L, f"component {k}", 1e-6)
        close(cp["area"][k], area(m), 1e-4 * area(m), f"component {k}: area")
    require(len(cp["mass"]) == len(comps), f"{len(cp['mass'])} components analysed instead of {len(comps)}")
    compare(got, compose(parts), L, "vehicle", 1e-6)
    close(veh.area, sum(area(m) for m in meshes), 1e-4 * sum(area(m) for m in meshes), "vehicle: area")
    compare([veh.volume, veh.mass, veh.cog, veh.moi], compose(parts), L, "vehicle attributes")
    for c in comps:
        ctx.label(c["c"]["k"])
        if c["o"].get("ghost"):
            ctx.label("ghost")
    if len(comps) < 2:
        ctx.skip("one component")


def on_generation(case, ctx):
    """Results kept after generating are those of an analysis."""
    comps = [{**c, "c": outward(c["c"])} for c in case["comps"]]
    a, b = build(comps), build(comps)
    a.analyse_after_generating(densities(comps))
    a.generate()
    # analysing generates the vehicle when that has not been done
    got = b.analyse(densities(comps))
    if thin([mesh_of(c) for c in a.components]):
        ctx.skip("thin body")
        return
    r = a.analysis_results
    for name, x in zip(("volume", "mass", "cog", "moi"), got):
        close(r[name], x, 1e-6 * (1 + np.abs(x).max()), f"{name} kept on generation")


# ----------------------------------------------------------------- known shapes


@st.composite
def exact_case(draw):
    parts = []
    for i in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(["cube", "box", "spindle"]))
        p = {"k": k, "d": draw(num(0.5, 4)), "c": [draw(num(-3, 3)) for _ in range(3)]}
        if k == "cube":
            p["a"] = draw(num(0.25, 2))
        elif k == "box":
            p["l"] = [draw(num(0.5, 3)) for _ in range(3)]
        else:
            p["r"], p["h"] = draw(num(0.5, 2)), draw(num(0.5, 3))
        p["res"] = draw(st.integers(1, 2)) if k != "spindle" else 12
        parts.append(p)
    return {"parts": parts, "turn": draw(st.lists(rigid_motion(), max_size=2))}


def box_loop(x, c, l):
    y0, y1 = c[1] - l[1] / 2, c[1] + l[1] / 2
    z0, z1 = c[2] - l[2] / 2, c[2] + l[2] / 2
    p = [[x, y0, z0], [x, y1, z0], [x, y1, z1], [x, y0, z1]]
    return [{"k": "line", "p": [p[i], p[(i + 1) % 4]]} for i in range(4)]


def exact_spec(p):
    c = p["c"]
    if p["k"] == "cube":
        cube = {"k": "cube", "r": p["a"], "c": c, "res": p["res"]}
        return {"k": "composite", "children": [{"c": cube, "o": {}}], "res": p["res"]}
    if p["k"] == "box":
        l = p["l"]
        return {"k": "swept", "cs": [box_loop(x, c, l) for x in (c[0] - l[0] / 2, c[0] + l[0] / 2)], "close": True, "res": p["res"]}
    pts = [[0.0, 0.0, 0.0], [p["h"], p["r"], 0.0], [2 * p["h"], 0.0, 0.0]]
    segs = [{"k": "line", "p": [a, b]} for a, b in zip(pts, pts[1:])]
    return {"k": "revolved", "line": {"k": "polyline", "s": segs}, "res": p["res"]}


def exact_props(p):
    d = p["d"]
    if p["k"] in ("cube", "box"):
        l = np.array([2 * p["a"]] * 3 if p["k"] == "cube" else p["l"])
        m = d * l.prod()
        s = l**2
        i = np.diag([s[1] + s[2], s[0] + s[2], s[0] + s[1]]) * m / 12
        return l.prod(), m, np.array(p["c"]), i
    r, h = p["r"], p["h"]
    vol = 2 * np.pi * r * r * h / 3
    m = d * vol
    i = np.diag([0.3 * m * r * r] + [m * (3 * r * r / 20 + h * h / 10)] * 2)
    return vol, m, np.array([h, 0, 0]), i


def exact(case, ctx):
    """Boxes, cubes (exact) and finely meshed spindles against formulas."""
    comps = []
    for p in case["parts"]:
        comps.append({"c": outward(exact_spec(p)), "o": {}, "d": p["d"]})
    veh = build(comps)
    veh.add_vehicle_transformations([build_motion(m) for m in case["turn"]])
    got = veh.analyse(densities(comps))
    parts = [exact_props(p) for p in case["parts"]]
    vol, mass, cog, moi = compose(parts)
    for m in case["turn"]:
        if m["m"] == "rotate":
            r = axis_rot(m["axis"], m["deg"])
            cog, moi = r @ cog, r @ moi @ r.T
        else:
            cog = cog + np.array(m["v"])
    round_ = any(p["k"] == "spindle" for p in case["parts"])
    compare(got, (vol, mass, cog, moi), size(veh), "known shapes", tol=1.2e-2 if round_ else 1e-5)
    for p in case["parts"]:
        ctx.label(p["k"])
    if not case["turn"] and len(case["parts"]) < 2:
        ctx.skip("one part at rest")


# ------------------------------------------------------------------ metamorphic


@st.composite
def meta_case(draw):
    c = draw(vehicle_case(n=(2, 4)))
    c["k"] = draw(num(0.25, 4))
    c["order"] = draw(st.permutations(range(len(c["comps"]))))
    c["move"] = draw(st.lists(rigid_motion(), min_size=1, max_size=3))
    c["which"] = draw(st.integers(0, len(c["comps"]) - 1))
    return c


def metamorphic(case, ctx):
    comps, veh = prepare(case)
    meshes = [mesh_of(c) for c in veh.components]
    if thin(meshes):
        ctx.skip("thin body")
        return
    vol, mass, cog, moi = veh.analyse(densities(comps))
    cp = veh.component_properties
    L = size(veh)
    one = 1e-5 * (mass + 0.01 * L**3)

    # linear in density, all at once and one at a time
    k = case["k"]
    scaled = [{**c, "d": k * c["d"]} for c in comps]
    g = veh.analyse(densities(scaled))
    compare(g, (vol, k * mass, cog, k * np.asarray(moi)), L * max(1, k) ** 0.5, f"densities times {k}")
    w = case["which"]
    name = keys(comps)[w]
    single = [{**c, "d": k * c["d"]} if i == w else c for i, c in enumerate(comps)]
    g = veh.analyse(densities(single))
    close(g[1], mass + (k - 1) * cp["mass"][name], max(1, k) * one, f"density of {name} times {k}: mass")
    for n in keys(comps):
        f = k if n == name else 1
        close(veh.component_properties["mass"][n], f * cp["mass"][n], max(1, k) * one, f"density of {name} changed: mass of {n}")

    # independent of the order in which components were added
    comps2 = [{**comps[i], "o": {**comps[i]["o"], "name": f"q{i}"}} for i in case["order"]]
    g = build(comps2).analyse(densities(comps2))
    compare(g, (vol, mass, cog, moi), L, "components added in another order")

    # translated and rotated vehicles
    for m in case["move"]:
        veh.transform([build_motion(m)])
    g = veh.analyse(densities(comps))
    c2, i2 = np.asarray(cog), np.asarray(moi)
    for m in case["move"]:
        if m["m"] == "rotate":
            r = axis_rot(m["axis"], m["deg"])
            c2, i2 = r @ c2, r @ i2 @ r.T
        else:
            c2 = c2 + np.array(m["v"])
    compare(g, (vol, mass, c2, i2), max(L, size(veh)), "moved vehicle")


@st.composite
def split_case(draw):
    kids = [draw(component_spec(("cube", "sphere", "revolved", "swept"), closed=True)) for _ in range(draw(st.integers(2, 3)))]
    return {
        "kids": kids,
        "tr": [draw(st.lists(rigid_motion(), max_size=2)) for _ in kids],
        "res": draw(st.integers(2, 3)),
        "d": draw(num(0.5, 3)),
    }


def split(case, ctx):
    """One component made of parts weighs and turns like the parts."""
    kids = []
    for s in case["kids"]:
        s = dict(s, res=case["res"])
        kids.append(outward(s))
    child = [{"c": s, "o": {"tr": t} if t else {}} for s, t in zip(kids, case["tr"])]
    whole = [{"c": {"k": "composite", "children": child, "res": case["res"]}, "o": {}, "d": case["d"]}]
    parts = [{"c": {"k": "composite", "children": [c], "res": case["res"]}, "o": {}, "d": case["d"]} for c in child]
    a, b = build(whole), build(parts)
    ga, gb = a.analyse(densities(whole)), b.analyse(densities(parts))
    if thin([mesh_of(c) for c in b.components]):
        ctx.skip("thin body")
        return
    compare(ga, [np.asarray(x) for x in gb], size(a), "one component against its parts")
    close(a.area, b.area, 1e-4 * b.area, "area of one component against its parts")


# ------------------------------------------------------------------ same names


@st.composite
def names_case(draw):
    c = draw(vehicle_case(n=(2, 3)))
    c["comps"][0]["o"]["name"] = c["comps"][-1]["o"]["name"] = "pod"
    return c


def names(case, ctx):
    """Components that share a name tag count like any others."""
    comps, veh = prepare(case)
    meshes = [mesh_of(c) for c in veh.components]
    if thin(meshes):
        ctx.skip("thin body")
        return
    d = densities(comps)
    got = veh.analyse(d)
    parts = [mass_properties(m, d[k]) for m, k in zip(meshes, keys(comps))]
    want = compose(parts)
    L = size(veh)
    if abs(got[1] - compose(parts[1:])[1]) <= 1e-5 * want[1]:
        compare(got, compose(parts[1:]), L, "vehicle without the first of two parts of the same name")
        ctx.known_finding("same-name", f"mass {float(got[1]):.4g} instead of {want[1]:.4g} for two parts named alike")
        return
    compare(got, want, L, "vehicle with two parts of the same name")


FACETS = [
    Facet("physical", vehicle_case, physical, 80, rule="several fat bodies"),
    Facet("physical2", vehicle_case, physical, 80, rule="several fat bodies"),
    Facet("wingfin", lambda: vehicle_case(n=(1, 2), heavy=True), physical, 8, rule="several fat bodies"),
    Facet("generation", lambda: vehicle_case(n=(1, 3)), on_generation, 40, rule="fat bodies"),
    Facet("exact", exact_case, exact, 30, rule="several parts or moved"),
    Facet("metamorphic", meta_case, metamorphic, 30, rule="fat bodies"),
    Facet("metamorphic2", meta_case, metamorphic, 30, rule="fat bodies"),
    Facet("names", names_case, names, 15, rule="fat bodies"),
    Facet("split", split_case, split, 40, rule="fat bodies"),
]
