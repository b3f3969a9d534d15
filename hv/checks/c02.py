"""C02: a surface mesh samples its parametric surface exactly at the requested grid."""

import numpy as np
from hypothesis import strategies as st

from hv.comp import (
    build_clustering,
    build_component,
    cluster,
    component_spec,
    fresh_patches,
    mesh_of,
    swept_spec,
)
from hv.core import Facet
from hv.gen import build_surface, num, ref_surface, surface_spec, xyz
from hv.oracle import close, require


def tessellate(f, rs, ss, mirror=False):
    """Reference tessellation: four triangles per cell round the mean of its
    corners, in double precision."""
    d = np.array([1.0, -1.0 if mirror else 1.0, 1.0])
    grid = [[d * f(r, s) for s in ss] for r in rs]
    out = []
    for i in range(len(rs) - 1):
        for j in range(len(ss) - 1):
            a, b, c, e = grid[i][j], grid[i + 1][j], grid[i + 1][j + 1], grid[i][j + 1]
            m = (a + b + c + e) / 4
            out += [[a, b, m], [b, c, m], [c, e, m], [e, a, m]]
    return np.array(out)


def parameters(n, how):
    """Requested parameter values of n cells."""
    if "p" in how:
        return [cluster(how["p"])(i / n) for i in range(n + 1)]
    return [(i / n) ** how.get("s", 1.0) for i in range(n + 1)]


@st.composite
def spacing(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return {}
    if k == 1:
        return {"s": draw(num(0.4, 2.5))}
    return {"p": draw(num(0.4, 2.5))}


@st.composite
def tess_case(draw):
    return {
        "surf": draw(surface_spec(depth=2)),
        "n": [draw(st.integers(1, 6)), draw(st.integers(1, 6))],
        "i": draw(spacing()),
        "j": draw(spacing()),
        "mirror": draw(st.booleans()),
    }


def tess(case, ctx):
    from hypervehicle.utilities import surfce_to_stl

    ni, nj = case["n"]
    kw = {}
    for ax, fn in (("i", "i_clustering_func"), ("j", "j_clustering_func")):
        h = case[ax]
        if "p" in h:
            kw[fn] = cluster(h["p"])
        elif "s" in h:
            kw["s" + ax] = h["s"]
    if case["mirror"]:
        kw["mirror_y"] = True
    mesh = surfce_to_stl(build_surface(case["surf"]), ni, nj, **kw)
    got = np.asarray(mesh.vectors, float)
    f = ref_surface(case["surf"])
    if f is None:
        own = build_surface(case["surf"])
        f = lambda r, s: xyz(own(r, s))
    want = tessellate(f, parameters(ni, case["i"]), parameters(nj, case["j"]), case["mirror"])
    tol = 2e-6 * (1 + np.abs(want).max())
    close(got, want, tol, f"tessellation {ni}x{nj} of {case['surf']['k']}")
    ctx.label("cells differ" if ni != nj else "cells equal")
    for ax in "ij":
        h = case[ax]
        ctx.label(f"{ax} " + ("clustered" if "p" in h else "spaced" if "s" in h else "even"))
    if case["mirror"]:
        ctx.label("mirrored")
    if ni == nj == 1:
        ctx.skip("one cell")


# ------------------------------------------------- cover of the parameter square


def cover(case, ctx):
    """With the identity map as surface, the triangles tile the unit square
    once with one winding."""
    from hypervehicle.geometry import Vector3
    from hypervehicle.geometry.surface import ParametricSurface
    from hypervehicle.utilities import surfce_to_stl

    class Flat(ParametricSurface):
        def __repr__(self):
            return "flat"

        def __call__(self, r, s):
            return Vector3(float(r), float(s), 0.0)

    ni, nj = case["n"]
    kw = {}
    if "i" in case:
        kw["i_clustering_func"] = cluster(case["i"])
    if "j" in case:
        kw["j_clustering_func"] = cluster(case["j"])
    v = np.asarray(surfce_to_stl(Flat(), ni, nj, **kw).vectors, float)
    require(len(v) == 4 * ni * nj, f"{len(v)} triangles for {ni}x{nj} cells")
    z = np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0])[:, 2] / 2
    require((z > 0).all() or (z < 0).all(), "triangles wind in different directions")
    close(abs(z.sum()), 1.0, 1e-5, "covered area")
    lo, hi = v.reshape(-1, 3).min(axis=0), v.reshape(-1, 3).max(axis=0)
    close(lo[:2], [0, 0], 1e-7, "lowest parameters")
    close(hi[:2], [1, 1], 1e-7, "highest parameters")
    if ni == nj:
        ctx.skip("square grid")


@st.composite
def cover_case(draw):
    c = {"n": [draw(st.integers(1, 9)), draw(st.integers(1, 9))]}
    for ax in "ij":
        if draw(st.booleans()):
            c[ax] = draw(num(0.5, 2))
    return c


# -------------------------------------------------------------- components


@st.composite
def comp_case(draw, heavy=False):
    if heavy:
        s = draw(component_spec(("fin", "wing")))
    else:
        s = draw(
            st.one_of(
                component_spec(("revolved", "ogive", "cube", "sphere"), small=False),
                swept_spec(per_edge=True),
                swept_spec(res=(1, 4), per_edge=False),
            )
        )
    c = {"c": s}
    if draw(st.booleans()):
        c["clus"] = {}
        for ax in "ij":
            if draw(st.booleans()):
                c["clus"][ax] = draw(num(0.4, 2.5))
    if draw(st.integers(0, 2)) == 0:
        c["reflect"] = draw(st.sampled_from(["x", "y", "z"]))
        # cubes and spheres are not accepted by vehicles
        c["append"] = s["k"] in ("cube", "sphere") or draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        c["again"] = draw(st.integers(1, 3))
    return c


def resolutions(s, n_patches):
    """Cells in r and s of every patch in order."""
    if isinstance(s["res"], int):
        return [(s["res"], s["res"])] * n_patches
    r = s["res"]
    out = [(r["sweep"], r[f"e{i}"]) for i in range(len(s["cs"][0]))]
    if s["close"]:
        out += [(r["e0"], r["e1"])] * 2
    return out


def component_mesh(case, ctx):
    from hypervehicle import Vehicle

    s = case["c"]
    c = build_component(s)
    clus = case.get("clus", {})
    if clus:
        c.add_clustering_options(**build_clustering(clus))
    if "reflect" in case and not case["append"]:
        v = Vehicle()
        v.configure(verbosity=0)
        v.add_component(c, reflection_axis=case["reflect"], append_reflection=False)
        v.generate()
        ctx.label("mirror image")
    else:
        c.generate_patches()
        if "reflect" in case:
            c.reflect(case["reflect"])
            ctx.label("reflected")
    got = mesh_of(c)
    base = [lambda r, t, p=p: xyz(p(r, t)) for p in fresh_patches(s)]
    res = resolutions(s, len(base))
    surf = list(base)
    if "reflect" in case:
        d = np.ones(3)
        d["xyz".index(case["reflect"])] = -1
        mir = [lambda r, t, f=f: d * f(r, t) for f in base]
        surf, res = (base + mir, res + res) if case["append"] else (mir, res)

    def expected(res):
        out = []
        for f, (nr, ns) in zip(surf, res):
            rs = parameters(nr, {"p": clus["i"]} if "i" in clus else {})
            ss = parameters(ns, {"p": clus["j"]} if "j" in clus else {})
            out.append(tessellate(f, rs, ss))
        return out

    want = expected(res)
    allv = np.concatenate(want)
    tol = 2e-6 * (1 + np.abs(allv).max())
    close(got, allv, tol, f"mesh of {s['k']}")
    parts = list(c.surfaces.values())
    require(len(parts) == len(want), f"{len(parts)} surfaces for {len(want)} patches")
    for i, (p, w) in enumerate(zip(parts, want)):
        close(p.vectors, w, tol, f"surface {i} of {s['k']}")
    if "again" in case:
        # an explicit resolution replaces the component's own
        n = case["again"]
        c.surface(resolution=n)
        want = expected([(n, n)] * len(surf))
        close(mesh_of(c), np.concatenate(want), tol, f"mesh of {s['k']} at resolution {n}")
        ctx.label("explicit resolution")
    ctx.label(s["k"] + ("" if isinstance(s["res"], int) else " per edge"))
    if clus:
        ctx.label("clustered " + "".join(sorted(clus)))


FACETS = [
    Facet("tess", tess_case, tess, 400, rule="more than one cell"),
    Facet("cover", cover_case, cover, 150, rule="different cells in the two directions"),
    Facet("component", comp_case, component_mesh, 120, rule="every case"),
    Facet("component2", comp_case, component_mesh, 120, rule="every case"),
    Facet("wingfin", lambda: comp_case(heavy=True), component_mesh, 12, rule="every case"),
]
