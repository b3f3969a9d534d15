"""C15: revolved and swept bodies follow their profile and cross-sections."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.comp import build_component, mesh_of, ogive_spec, profile_spec, swept_spec
from hv.core import Facet
from hv.gen import build_path, grid_params, num, param, path_spec, ref_path, xyz
from hv.oracle import close, must_raise, require

# ------------------------------------------------------------------- revolved


@st.composite
def revolved_case(draw):
    # any curve may be turned, also one that leaves the x-y plane
    line = draw(st.one_of(profile_spec(True), profile_spec(False), path_spec(("line", "bezier", "polyline", "spline"))))
    return {"line": line, "t": [draw(param()) for _ in range(3)], "u": draw(param()), "res": draw(st.integers(2, 4))}


def turn_samples(patch, t, n=9):
    """Points of a patch along the direction of rotation at profile parameter t."""
    return np.array([xyz(patch(t, i / (n - 1))) for i in range(n)])


def revolved(case, ctx):
    from hypervehicle.components import RevolvedComponent

    c = RevolvedComponent(build_path(case["line"]), stl_resolution=case["res"], verbosity=0)
    c.generate_patches()
    f = ref_path(case["line"])
    if f is None:
        own = build_path(case["line"])
        f = lambda t: xyz(own(t))
    patches = list(c.patches.values())
    seen = 0
    for t in case["t"] + [0.0, 1.0]:
        p = f(t)
        rho = math.hypot(p[1], p[2])
        scale = 1 + np.abs(p).max()
        total, ends = 0.0, []
        for i, patch in enumerate(patches):
            q = turn_samples(patch, t)
            close(q[:, 0], np.full(len(q), p[0]), 1e-9 * scale, f"axial position of patch {i} at {t}")
            close(np.hypot(q[:, 1], q[:, 2]), np.full(len(q), rho), 1e-9 * scale, f"distance from the axis of patch {i} at {t}")
            if rho < 1e-3:
                continue
            a = np.arctan2(q[:, 2], q[:, 1])
            d = (np.diff(a) + math.pi) % (2 * math.pi) - math.pi
            require((d > 0).all() or (d < 0).all(), f"patch {i} turns back and forth at {t}")
            close(d, np.full(len(d), d.mean()), 1e-7, f"angular steps of patch {i}")
            total += d.sum()
            ends.append((a[0], a[-1]))
        if rho >= 1e-3:
            seen += 1
            close(abs(total), 2 * math.pi, 1e-7, f"angle covered at {t}")
            # the patches lie side by side: every end is the start of another
            starts = [complex(math.cos(x), math.sin(x)) for x, _ in ends]
            for _, y in ends:
                z = complex(math.cos(y), math.sin(y))
                require(min(abs(z - s) for s in starts) < 1e-6, "patches round the axis do not join")
            for j, s in enumerate(starts):
                require(all(abs(s - o) > 1e-3 for o in starts[:j]), "two patches start at the same angle")
    # vertices of the mesh lie on the surface of revolution as well
    n = case["res"]
    m = mesh_of(c).reshape(-1, 4, 3, 3)
    nodes = [f(i / n) for i in range(n + 1)]
    for k in (0, len(m) - 1):
        for v in m[k, :, :2].reshape(-1, 3):
            e = min(max(abs(v[0] - p[0]), abs(math.hypot(v[1], v[2]) - math.hypot(p[1], p[2]))) for p in nodes)
            require(e < 1e-5 * (1 + np.abs(v).max()), f"mesh vertex {v.tolist()} is not on the body")
    if np.abs(f(0.37)[2]) > 1e-9:
        ctx.label("profile out of plane")
    ctx.label(case["line"]["k"])
    if not seen:
        ctx.skip("profile on the axis")


# ---------------------------------------------------------------------- ogive


@st.composite
def ogive_case(draw):
    return {"s": draw(ogive_spec()), "q": draw(grid_params(8)), "n": draw(st.integers(20, 40))}


def ogive(case, ctx):
    s = case["s"]
    c = build_component(s)
    c.generate_patches()
    h, rn, ro, lo = s["h"], s["rn"], s["ro"], s["lo"]
    xo = math.sqrt((ro - rn) ** 2 - (ro - h) ** 2)  # centre of the nose sphere
    yt = rn * (ro - h) / (ro - rn)
    xt = xo + math.sqrt(rn**2 - yt**2)  # where nose and ogive touch
    tip = xo + rn
    tol = 1e-7 * (1 + tip + lo + ro)
    hit = set()
    at = case["q"] + [[i / case["n"], 0.25] for i in range(case["n"] + 1)]
    for patch in c.patches.values():
        for r, t in at:
            p = xyz(patch(r, t))
            x, y = p[0], math.hypot(p[1], p[2])
            e = {
                "nose": abs(math.hypot(x - xo, y) - rn) if x >= xt - tol else np.inf,
                "ogive": abs(math.hypot(x, y - (h - ro)) - ro) if -tol <= x <= xt + tol else np.inf,
                "body": abs(y - h) if -lo - tol <= x <= tol else np.inf,
                "base": abs(x + lo) if y <= h + tol else np.inf,
            }
            k = min(e, key=e.get)
            require(e[k] <= tol, f"point x={x:.6g}, radius={y:.6g} at {r, t} is {e[k]:.3g} off the nose shape")
            hit.add(k)
        a, b = xyz(patch(0.0, 0.3)), xyz(patch(1.0, 0.3))
        close(a, [tip, 0, 0], tol, "tip of the nose")
        close(b, [-lo, 0, 0], tol, "centre of the base")
    top = max(math.hypot(*xyz(p(i / 200, 0.0))[1:]) for p in list(c.patches.values())[:1] for i in range(201))
    close(top, h, 1e-2 * h, "height of the nose")
    require(top <= h + tol, f"radius {top} exceeds the height {h}")
    for k in hit:
        ctx.label(k)


# ---------------------------------------------------------------------- swept


@st.composite
def swept_case(draw):
    near = st.one_of(num(0.0001, 0.02, 4), st.integers(1, 99).map(lambda i: i * 1e-6))
    return {"s": draw(swept_spec()), "q": draw(grid_params(6)), "near": [draw(near), draw(near)]}


def swept(case, ctx):
    s = case["s"]
    c = build_component(s)
    c.generate_patches()
    patches = list(c.patches.values())
    loops = s["cs"]
    n, ne = len(loops), len(loops[0])
    require(len(patches) == ne + (2 if s["close"] else 0), f"{len(patches)} patches for {ne} edges")
    refs = [[ref_path(e) for e in loop] for loop in loops]
    for j in range(ne):
        for k in range(n):
            for _, t in case["q"]:
                close(xyz(patches[j](k / (n - 1), t)), refs[k][j](t), 1e-8, f"edge {j} at section {k}")
        near = [[k / (n - 1) + s * e, case["q"][0][1]] for k in range(n) for s in (-1, 1) for e in case["near"]]
        for r, t in case["q"] + [a for a in near if 0 <= a[0] <= 1]:
            k = min(int(math.floor(r * (n - 1))), n - 2)
            a = r * (n - 1) - k
            close(xyz(patches[j](r, t)), (1 - a) * refs[k][j](t) + a * refs[k + 1][j](t), 1e-8, f"edge {j} between sections {k} and {k + 1}")
    if s["close"]:
        for which, patch in ((0, patches[-2]), (-1, patches[-1])):
            cap(patch, refs[which], case["q"], "first" if which == 0 else "last")
        ctx.label("capped")
    ctx.label(f"{n} sections")
    if n == 2:
        ctx.skip("two sections")


def cap(patch, loop, q, what):
    """The rim of an end cap is the section, and its inside is the blend of
    the four edges, whatever side it starts from."""
    ts = np.linspace(0, 1, 17)
    rim = np.array(
        [xyz(patch(t, 0)) for t in ts]
        + [xyz(patch(1, t)) for t in ts]
        + [xyz(patch(t, 1)) for t in ts[::-1]]
        + [xyz(patch(0, t)) for t in ts[::-1]]
    )
    sec = np.array([e(t) for e in loop for t in ts])
    best = min(
        np.abs(r - np.roll(sec, 17 * k, axis=0)).max()
        for k in range(4)
        for r in (rim, rim[::-1])
    )
    require(best < 1e-7, f"rim of the {what} cap is {best:.3g} off the section")
    # interior: bilinearly blended edges, in the orientation of the section
    e = loop
    corners = [f(0.0) for f in e]

    def blend(u, v):
        south, north, west, east = e[0](u), e[2](1 - u), e[3](1 - v), e[1](v)
        flat = (1 - u) * (1 - v) * corners[0] + u * (1 - v) * corners[1] + u * v * corners[2] + (1 - u) * v * corners[3]
        return (1 - v) * south + v * north + (1 - u) * west + u * east - flat

    for u, v in q:
        p = xyz(patch(u, v))
        d = min(
            np.abs(p - blend(*w)).max()
            for w in ((u, v), (1 - u, v), (u, 1 - v), (1 - u, 1 - v), (v, u), (1 - v, u), (v, 1 - u), (1 - v, 1 - u))
        )
        require(d < 1e-7, f"inside of the {what} cap is {d:.3g} off the blend of its edges")


# ------------------------------------------------------------------- rejections


@st.composite
def bad_case(draw):
    s = draw(swept_spec(closed=draw(st.booleans()), per_edge=False))
    return {
        "s": s,
        "how": draw(st.sampled_from(["gap", "count", "cap", "resolution"])),
        "at": draw(st.integers(0, 99)),
        "edge": draw(st.integers(0, 99)),
        "axis": draw(st.integers(0, 2)),
        "by": draw(num(0.001, 0.5)) * draw(st.sampled_from([-1, 1])),
        "r": [draw(st.integers(1, 3)) for _ in range(4)],
    }


def rejected(case, ctx):
    s = {**case["s"], "cs": [[dict(e) for e in loop] for loop in case["s"]["cs"]]}
    i = case["at"] % len(s["cs"])
    j = case["edge"] % len(s["cs"][i])
    how = case["how"]
    build_component(s)  # valid as generated
    if how == "gap":
        e = s["cs"][i][j]
        p = [list(q) for q in e["p"]]
        p[case["at"] % 2 - 1][case["axis"]] += case["by"]
        s["cs"][i][j] = {**e, "p": p}
        must_raise(lambda: build_component(s), f"section {i} open by {case['by']} at edge {j}")
    elif how == "count":
        p = s["cs"][i].pop(j)
        k = (j - 1) % len(s["cs"][i])
        # still a closed loop, with one edge fewer than the others
        e = s["cs"][i][k]
        s["cs"][i][k] = {"k": "line", "p": [e["p"][0], p["p"][-1]]}
        must_raise(lambda: build_component(s), f"section {i} with one edge fewer")
    elif how == "cap":
        if len(s["cs"][0]) == 4:
            ctx.skip("four edges can be capped")
            return
        s["close"] = True
        must_raise(lambda: build_component(s), f"cap over {len(s['cs'][0])} edges")
    else:
        if not s["close"]:
            ctx.skip("no caps")
            return
        r = case["r"]
        s["res"] = {"sweep": 2, **{f"e{k}": r[k] for k in range(4)}}
        if r[0] == r[2] and r[1] == r[3]:
            c = build_component(s)
            c.generate_patches()
            mesh_of(c)
        else:
            must_raise(lambda: build_component(s), f"caps with edge resolutions {r}")
    ctx.label(how)


FACETS = [
    Facet("revolved", revolved_case, revolved, 150, rule="profile off the axis"),
    Facet("ogive", ogive_case, ogive, 60, rule="every case"),
    Facet("swept", swept_case, swept, 120, rule="more than two sections"),
    Facet("swept2", swept_case, swept, 120, rule="more than two sections"),
    Facet("rejected", bad_case, rejected, 200, rule="a defect was made"),
]
