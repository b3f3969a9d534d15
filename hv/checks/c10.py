"""C10: hangar vehicles respond to their parameters as documented."""

import math

import numpy as np
from hypothesis import strategies as st

from hv.core import Facet, Violation
from hv.gen import axis_rot, bernstein, xyz
from hv.oracle import close, require

Q = [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0), (0.5, 0.5)]
# fewer points, none of them on an axis of symmetry, where only change matters
FEW = [(0.0, 0.0), (1.0, 1.0), (0.4, 0.3)]

# Per vehicle: scalable parameters with their documented defaults, angles in
# degrees (default, largest), and the parts in the order they are added.
VEHICLES = {
    "D21": dict(
        p=dict(R_b=1, L_b=20, L_w=16, W_w=5),
        a=dict(flap_angle=(0, 30)),
        parts=["fuselage", "nose", "wing", "tail", "aft1", "aft2"],
        patches=[4, 4, 26, 12, 12, 12],
    ),
    "Falcon9": dict(
        p=dict(D=3.75, L_b=60, h=2.5, r_n=0.75, r_o=7, f_L=6),
        a={},
        parts=["fairing", "body"],
        patches=[4, 4],
    ),
    "Finner": dict(
        p=dict(diameter=1.0, total_length=10.0, nose_length=2.84, fin_height=1.0, fin_length=1.0, max_fin_thickness=0.08),
        a={},
        parts=["body", "fin1", "fin2", "fin3", "fin4"],
        patches=[12, 6, 6, 6, 6],
    ),
    "HIFiRE4": dict(
        p=dict(x_curve_mult=0.3, y_curve_mult=0.5, R=0.2, L_n=2, L_b=4),
        a={},
        parts=["fuselage", "wing", "fin1", "fin2", "fin3"],
        patches=[4, 26, 13, 13, 13],
    ),
    "HIFiRE8": dict(
        p=dict(L=1.2, R_base=0.175, R_nose=0.1, nozzle_length=0.1),
        a={},
        parts=["fuselage", "wing", "nose", "fin1", "fin2", "fin3"],
        patches=[8, 26, 20, 12, 12, 12],
    ),
    "HTV": dict(
        p=dict(L=1, body_width=0.5, h=0.1, t_LE=0.01),
        a=dict(flap_angle=(15, 30)),
        parts=["body", "flap1", "flap2"],
        patches=[26, 13, 26],
    ),
    "ReFEX": dict(
        p=dict(h=0.225, r_n=0.075, r_o=1.5, L_o=0.05, L_b=2.5, fin_thickness=0.02, wing_length=0.9, wing_span=0.35, tail_height=0.35, tail_thickness=0.02),
        a=dict(canard_angle=(0, 30)),
        parts=["nose", "body", "canard1", "canard2", "wing", "transition", "tail"],
        patches=[4, 4, 13, 13, 26, 6, 13],
    ),
    "Waverider": dict(
        p=dict(length=1, width=0.35, le_width=0.003, LE_thickness=0.003, f1x=0.25, f1y=0.075, f2y=0.075, p2x=1 / 3, p2y=0.35 / 3, p3x=2.75 / 3, p3y=0.0875, u1y=0.1, u2x=0.35 / 6, u3x=0.35 / 3, u3y=0.01, flap_height=0.1, a0_t=0.065, tt_t=0.35, w1x=0.1, w1y=1.0, w2x=0.1, w2y=1.0, x_curve_mult=5.001, y_curve_mult=5.001),
        a=dict(aoa=(3.0, 15)),
        parts=["fuselage", "wings", "right_flap", "left_flap", "fin"],
        patches=[4, 26, 19, 19, 12],
    ),
    "Wedge": dict(p=dict(wingspan=1, chord=1, thickness=0.1), a={}, parts=["wedge"], patches=[6]),
    "X43": dict(
        p=dict(body_length=3.7, body_width=1, wing_span=0.4, wing_length=1.0, wing_TE_back=0.25, flap_length=0.3, engine_h=0.1, fin_height=0.3, fin_length=1.0, rudder_length=0.2),
        a=dict(body_angle=(0, 8), flap_angle=(0, 30), rudder_angle=(0, 30)),
        parts=["body", "wing1", "wing2", "inlet", "fin1", "fin2"],
        patches=[26, 19, 38, 26, 13, 13],
    ),
}

# Parts that a parameter acts on; every other part must stay put.
ACTS = {
    "D21": dict(R_b="fuselage nose wing tail aft1 aft2", L_b="fuselage nose tail aft1 aft2", L_w="wing tail aft1 aft2", W_w="wing tail aft1 aft2", flap_angle="wing"),
    "Falcon9": dict(D="fairing body", L_b="body", h="fairing", r_n="fairing", r_o="fairing", f_L="fairing body"),
    "Finner": dict(diameter="body fin1 fin2 fin3 fin4", total_length="body fin1 fin2 fin3 fin4", nose_length="body", fin_height="fin1 fin2 fin3 fin4", fin_length="fin1 fin2 fin3 fin4", max_fin_thickness="fin1 fin2 fin3 fin4"),
    "HIFiRE4": dict(x_curve_mult="fuselage wing fin1 fin2 fin3", y_curve_mult="fuselage wing", R="fuselage wing fin1 fin2 fin3", L_n="fuselage wing fin1 fin2 fin3", L_b="fuselage wing fin1 fin2 fin3"),
    "HIFiRE8": dict(L="fuselage nose fin1 fin2 fin3", R_base="fuselage fin1 fin2 fin3", R_nose="fuselage nose fin1 fin2 fin3", nozzle_length="fuselage"),
    "HTV": dict(L="body flap1 flap2", body_width="body flap1 flap2", h="body", t_LE="body flap1 flap2", flap_angle="flap1 flap2"),
    "ReFEX": dict(h="nose body canard1 canard2 wing transition tail", r_n="nose", r_o="nose", L_o="nose canard1 canard2", L_b="body wing transition tail", fin_thickness="canard1 canard2 wing", wing_length="wing transition", wing_span="wing", tail_height="tail", tail_thickness="tail", canard_angle="canard1 canard2"),
    "Waverider": dict(
        length="fuselage wings right_flap left_flap fin", width="wings right_flap left_flap", le_width="wings right_flap left_flap", LE_thickness="wings right_flap left_flap", aoa="fuselage wings right_flap left_flap fin", f1x="fuselage wings", f1y="fuselage wings", f2y="fuselage wings",
        p2x="wings right_flap left_flap", p2y="wings right_flap left_flap", p3x="wings right_flap left_flap", p3y="wings right_flap left_flap", u1y="wings", u2x="wings", u3x="wings", u3y="wings", flap_height="right_flap left_flap", a0_t="right_flap left_flap", tt_t="right_flap left_flap",
        w1x="right_flap left_flap", w1y="right_flap left_flap", w2x="right_flap left_flap", w2y="right_flap left_flap", x_curve_mult="fuselage wings right_flap left_flap fin", y_curve_mult="fuselage wings right_flap left_flap fin",
    ),
    "Wedge": dict(wingspan="wedge", chord="wedge", thickness="wedge"),
    "X43": dict(body_length="body wing1 wing2 inlet fin1 fin2", body_width="body wing1 wing2 inlet fin1 fin2", body_angle="body wing1 wing2 inlet fin1 fin2", wing_span="wing1 wing2", wing_length="wing1 wing2", wing_TE_back="wing1 wing2", flap_length="wing1 wing2", engine_h="inlet", fin_height="fin1 fin2", fin_length="fin1 fin2", rudder_length="fin1 fin2", flap_angle="wing1 wing2", rudder_angle="fin1 fin2"),
}


def maker(name):
    import hypervehicle.hangar as hangar

    return getattr(hangar, "Parametric" + name)


def sample_vehicle(v, q=Q):
    """Points of every part at fixed surface parameters."""
    for c in v.components:
        c._multiprocess = False
        c.verbosity = 0
    v.verbosity = 0
    v.generate()
    out = []
    for c in v.components:
        out.append(np.array([[xyz(p(r, s)) for r, s in q] for p in c.patches.values()]))
    return out


def sample(name, kw, parts=None, q=Q):
    v = maker(name)(**kw).create_instance()
    got = sample_vehicle(v, q)
    info = VEHICLES[name]
    require(len(got) == len(info["parts"]) if parts is None else True, f"{name}: {len(got)} parts")
    if parts is None:
        for part, n, g in zip(info["parts"], info["patches"], got):
            require(len(g) == n, f"{name} {part}: {len(g)} patches instead of {n}")
    for g in got:
        require(bool(np.all(np.isfinite(g))), f"{name}: geometry is not finite with {kw}")
    return got


# ------------------------------------------------------------- dimensions


def on_profile(pts, profile, tol, what):
    """Every point lies on the surface of revolution of a profile (x, r)
    polyline about the x axis, and the ends of the profile are reached."""
    pts = pts.reshape(-1, 3)
    a = np.array(profile, float)
    x, r = pts[:, 0], np.hypot(pts[:, 1], pts[:, 2])
    best = np.full(len(pts), np.inf)
    for p, q in zip(a[:-1], a[1:]):
        d = q - p
        n = d @ d
        if n == 0:
            continue
        t = np.clip(((x - p[0]) * d[0] + (r - p[1]) * d[1]) / n, 0, 1)
        best = np.minimum(best, np.hypot(x - p[0] - t * d[0], r - p[1] - t * d[1]))
    if best.max() > tol:
        i = int(best.argmax())
        raise Violation(f"{what}: point at x={x[i]:.4f}, radius {r[i]:.4f} is {best[i]:.3g} off the profile")
    for e in (a[0], a[-1]):
        d = np.hypot(x - e[0], r - e[1]).min()
        require(d <= tol, f"{what}: profile end {e.round(4).tolist()} missing by {d:.3g}")


def extent(pts, axis, side, lo, hi, what):
    p = pts.reshape(-1, 3)[:, "xyz".index(axis)]
    v = float(p.max() if side == "max" else p.min())
    tol = 1e-9 + 1e-6 * max(abs(lo), abs(hi))
    if not lo - tol <= v <= hi + tol:
        raise Violation(f"{what}: {side} {axis} is {v:.6f}, expected {lo:.6f}" + ("" if lo == hi else f" to {hi:.6f}"))


def corners(pts, axes, want, what):
    """The named points of the planform are points of the surface."""
    p = pts.reshape(-1, 3)[:, ["xyz".index(a) for a in axes]]
    size = np.abs(p).max()
    for w in want:
        d = np.abs(p - np.array(w, float)).max(axis=1).min()
        if d > 1e-6 * size:
            raise Violation(f"{what}: no point at {axes} = {np.round(w, 6).tolist()}, the nearest is {d:.3g} away")


def curve(points, n=400):
    f = bernstein([[*p, 0.0] for p in points])
    return [f(t)[:2].tolist() for t in np.linspace(0, 1, n)]


def ogive_profile(h, rn, ro, n=200):
    """Spherically blunted tangent ogive from the tip to its base at x = 0."""
    xo = math.sqrt((ro - rn) ** 2 - (ro - h) ** 2)
    yt = rn * (ro - h) / (ro - rn)
    a1 = math.acos(math.sqrt(max(0.0, rn**2 - yt**2)) / rn)
    nose = [[xo + rn * math.cos(t), rn * math.sin(t)] for t in np.linspace(0, a1, n)]
    b0 = math.asin((yt + ro - h) / ro)
    arc = [[ro * math.cos(t), h - ro + ro * math.sin(t)] for t in np.linspace(b0, math.pi / 2, n)]
    return nose + arc


def dims_wedge(P, g, what):
    for ax, v in (("x", P["chord"]), ("y", P["thickness"]), ("z", P["wingspan"])):
        extent(g[0], ax, "max", v / 2, v / 2, what)
        extent(g[0], ax, "min", -v / 2, -v / 2, what)


def dims_finner(P, g, what):
    R, L = P["diameter"] / 2, P["total_length"]
    on_profile(g[0], [[0, 0], [P["nose_length"], R], [L, R], [L, 0]], 1e-8, what + " body")
    rad = np.hypot(g[0][..., 1], g[0][..., 2])
    require(abs(rad.max() - R) < 1e-9, f"{what}: body radius {rad.max():.6f} instead of {R}")
    for i in range(4):
        f = g[i + 1].reshape(-1, 3) @ axis_rot("x", -90.0 * i).T
        w = f"{what} fin {i + 1}"
        extent(f, "x", "min", L - P["fin_length"], L - P["fin_length"], w)
        extent(f, "x", "max", L, L, w)
        extent(f, "z", "min", R, R, w)
        extent(f, "z", "max", R + P["fin_height"], R + P["fin_height"], w)
        for s, side in ((1, "max"), (-1, "min")):
            extent(f, "y", side, *([s * P["max_fin_thickness"] / 2] * 2), w)
        close(g[i + 1].reshape(-1, 3), g[1].reshape(-1, 3) @ axis_rot("x", 90.0 * i).T, 1e-8 * L, w + " is not the first fin turned about the axis")


def dims_falcon9(P, g, what):
    fl = P["f_L"]
    prof = ogive_profile(P["h"], P["r_n"], P["r_o"]) + [[-fl, P["h"]], [-1.1 * fl, P["D"] / 2], [-1.3 * fl, 0]]
    on_profile(g[0], prof, 1e-3, what + " fairing")
    r = P["D"] / 2
    on_profile(g[1], [[-fl, 0], [-fl, r], [-fl - P["L_b"], r], [-fl - P["L_b"], 0]], 1e-6, what + " body")


def dims_d21(P, g, what):
    R, L, W, Lw = P["R_b"], P["L_b"], P["W_w"], P["L_w"]
    on_profile(g[0], [[0, 0], [0, R], [-L, R], [-L, 0]], 1e-6 * L, what + " fuselage")
    nose = curve([[0.15 * L - 0.1, 0], [-0.1, 0.3 * R], [-0.1, R]]) + [[-0.6, 0]]
    on_profile(g[1], nose, 1e-3, what + " nose")
    a = math.radians(P["flap_angle"])
    wt = 0.15 * R
    extent(g[2], "y", "max", W, W + 0.1, what + " wing")
    extent(g[2], "x", "max", -0.3, -0.2, what + " wing")
    if P["flap_angle"] == 0:
        extent(g[2], "x", "min", -1.1 * Lw, -1.1 * Lw, what + " wing")
        extent(g[2], "z", "max", wt / 2, wt / 2, what + " wing")
        extent(g[2], "z", "min", -wt / 2 - 0.5, -wt / 2 - 0.5, what + " wing")
    else:
        extent(g[2], "x", "min", -Lw - 0.1 * Lw * math.cos(a) - 0.12, -Lw - 0.1 * Lw * math.cos(a) + 0.02, what + " wing")
    # half way from the tip to the body, 60% along the wing
    corners(g[2], "xy", [(-Lw, 0), (-Lw, W), (-0.4 * Lw, 0.5 * W), (-0.3, 0)], what + " wing")
    D = L - Lw
    corners(g[3], "xz", [(-L, -0.95 * R), (-L, -0.95 * R - 0.15 * W), (-L + 0.4 * D, -0.95 * R - 0.15 * W), (-L + D, -0.95 * R)], what + " tail")
    for i, s in ((4, 1), (5, -1)):
        corners(g[i], "xy", [(-L, 0), (-L, s * 0.45 * W), (-L + 1.3 * D, s * 0.45 * W), (-L + 1.3 * D, 0)], what + " aft wing")
    w = what + " tail"
    extent(g[3], "x", "min", -L, -L, w)
    extent(g[3], "x", "max", -L + D, -L + D + 0.1, w)
    extent(g[3], "z", "max", -0.95 * R, -0.95 * R, w)
    extent(g[3], "z", "min", -0.95 * R - 0.15 * W - 0.1, -0.95 * R - 0.15 * W, w)
    for s in (1, -1):
        f = g[4 if s == 1 else 5]
        w = what + " aft wing"
        extent(f, "x", "min", -L, -L, w)
        extent(f, "x", "max", -L + 1.3 * D, -L + 1.3 * D + 0.1, w)
        f = f * np.array([1, s, 1])
        extent(f, "y", "max", 0.45 * W, 0.45 * W + 0.1, w)
        extent(f, "y", "min", 0, 0, w)
    for i in (3, 4):
        ax = "y" if i == 3 else "z"
        extent(g[i], ax, "max", wt / 2, wt / 2, what + " thickness")
        extent(g[i], ax, "min", -wt / 2, -wt / 2, what + " thickness")


def bend(pts, kx, ky):
    """The curvatures z = kx x^2, then z = ky y^2, applied to points."""
    p = np.array(pts, float).reshape(-1, 3)
    for i, k in ((0, kx), (1, ky)):
        u, z = p[:, i].copy(), p[:, 2].copy()
        m = 2 * k * u
        n = np.hypot(1, m)
        p[:, i] = u - z * m / n
        p[:, 2] = k * u * u + z / n
    return p


def dims_hifire4(P, g, what):
    R, Ln, Lb = P["R"], P["L_n"], P["L_b"]
    Lt = Ln + Lb
    flat = sample("HIFiRE4", dict(P, x_curve_mult=0.0, y_curve_mult=0.0))
    rho = (R * R + Ln * Ln) / (2 * R)
    b0 = math.acos(Ln / rho)
    arc = [[-Ln + rho * math.cos(t), R - rho + rho * math.sin(t)] for t in np.linspace(b0, math.pi / 2, 400)]
    on_profile(flat[0], arc + [[-Lt, R], [-Lt, 0]], 1e-4, what + " fuselage")
    extent(flat[1], "x", "min", -0.9 * Lt, -0.9 * Lt, what + " wing")
    extent(flat[1], "x", "max", -0.3, -0.2, what + " wing")
    extent(flat[1], "y", "max", 3.5 * R, 3.5 * R + 0.1, what + " wing")
    extent(flat[1], "z", "max", R / 8, R / 8, what + " wing")
    extent(flat[1], "z", "min", -R / 8, -R / 8, what + " wing")
    corners(flat[1], "xy", [(-0.8 * Lt, 0), (-0.8 * Lt, 3.5 * R), (-0.4 * Lt, 0.95 * 3.5 * R), (-0.3, 0)], what + " wing")
    kx, ky = 0.05 * P["x_curve_mult"], 0.1 * P["y_curve_mult"]
    for i, part in ((0, "fuselage"), (1, "wing")):
        close(g[i].reshape(-1, 3), bend(flat[i], kx, ky), 1e-6, f"{what} {part} with curvature")
    x0 = -0.9 * Lt
    for i, y in ((2, 3.5 * R), (3, -3.5 * R), (4, 0.0)):
        w = f"{what} {VEHICLES['HIFiRE4']['parts'][i]}"
        z = kx * x0**2 - (0.95 * R if i == 4 else 0)
        points = [(x0, 0), (x0, R), (x0 + 0.08 * Lt, 0.5 * R), (x0 + 0.16 * Lt, 0)]
        corners(g[i], "xz", [(px, z - kx * x0**2 + kx * px**2 - py) for px, py in points], w)
        extent(g[i], "y", "max", y + R / 8, y + R / 8, w)
        extent(g[i], "y", "min", y - R / 8, y - R / 8, w)
        extent(g[i], "z", "max", z, z, w)
        extent(g[i], "z", "min", z - R - 0.12, z - R + 0.02, w)
        extent(g[i], "x", "min", x0 - R / 4 - 1e-6, x0 - R / 4 + 1e-6, w)
        extent(g[i], "x", "max", x0 + 0.16 * Lt, x0 + 0.16 * Lt + 0.1, w)


def dims_hifire8(P, g, what):
    L, R, r, nl = P["L"], P["R_base"], P["R_nose"], P["nozzle_length"]
    on_profile(g[0], [[L, 0], [L, r], [0, R], [-nl, R], [-nl, 0]], 1e-8, what + " fuselage")
    n = what + " nose"
    extent(g[2], "x", "min", L, L, n)
    extent(g[2], "x", "max", L + 0.5, L + 0.5, n)
    extent(g[2], "y", "max", max(r, 0.075), max(r, 0.075), n)
    extent(g[2], "z", "min", -r, -r, n)
    extent(g[2], "z", "max", r, r, n)
    corners(g[2], "xy", [(L, 0), (L, r), (L + 0.25, r - 0.5 * (r - 0.075)), (L + 0.5, 0)], n)
    # round at the body, flat at the tip, linear in between
    p = g[2].reshape(-1, 3)
    k = 1 - (p[:, 0] - L) / 0.5
    top = k * np.sqrt(np.maximum(r**2 - p[:, 1] ** 2, 0)) + (1 - k) * 0.005
    require(bool(np.all(np.abs(p[:, 2]) <= top + 1e-6)), f"{n}: thicker than the blend of its ends")
    on = np.abs(np.abs(p[:, 2]) - top) < 1e-6
    require(np.count_nonzero(on & (p[:, 0] > L + 0.01) & (p[:, 0] < L + 0.49)) >= 8, f"{n}: not the blend of its ends")
    rad = lambda x: R - x * (R - r) / L
    for i, deg, k in ((3, 45.0, 1.0), (4, 135.0, 1.0), (5, -90.0, 0.5)):
        f = g[i].reshape(-1, 3) @ axis_rot("x", -deg).T
        w = f"{what} fin {i - 2}"
        corners(f, "xy", [(0, rad(0)), (k * 0.08, k * (rad(0.08) + 0.16)), (k * 0.28, k * (rad(0.28) + 0.16)), (0.4, rad(0.4))], w)
        if k == 1.0:
            extent(f, "y", "min", rad(0.4), rad(0), w)
            extent(f, "y", "max", rad(0.08) + 0.16, rad(0.08) + 0.16 + 0.1, w)
        extent(f, "x", "min", 0, 0, w)
        extent(f, "x", "max", 0.4, 0.5, w)
        extent(f, "z", "max", 0.004, 0.004, w)
        extent(f, "z", "min", -0.004, -0.004, w)
    w = what + " wing"
    extent(g[1], "x", "min", 0, 0, w)
    extent(g[1], "x", "max", 1.5, 1.6, w)
    extent(g[1], "y", "max", 0.4, 0.5, w)


def dims_htv(P, g, what):
    L, W, h, t = P["L"], P["body_width"], P["h"], P["t_LE"]
    w = what + " body"
    extent(g[0], "x", "min", 0, 0, w)
    extent(g[0], "x", "max", L, L + 0.0101, w)
    extent(g[0], "y", "max", W / 2, W / 2 + 0.0101, w)
    extent(g[0], "z", "min", -h * (L + 0.05), -h * (L + 0.05), w)
    extent(g[0], "z", "max", 0.2 * t, 0.2 * t, w)
    corners(g[0], "xy", [(0, 0), (0, W / 2), (0.15 * L, W / 2), (L, 0)], w)
    # the top is a cosine across the local width, tapered along the body
    p = g[0].reshape(-1, 3)
    half = np.where(p[:, 0] < 0.15 * L, W / 2, W / 2 * (L - p[:, 0]) / (0.85 * L))
    y = np.abs(p[:, 1])
    on = (p[:, 2] < 0) & (p[:, 0] > 1e-6) & (y <= half + 1e-7)
    flat = y >= half - t
    arch = 0.5 * (h - t) * np.cos(np.pi * y / np.where(flat, 1.0, half - t)) + 0.5 * (h + t)
    z = -np.where(flat, t, arch) * (L - p[:, 0] + 0.05)
    close(p[on, 2], z[on], 1e-6, w + " top")
    gap = 0.01 * W / 0.8
    for i in (1, 2):
        w = f"{what} flap {i}"
        extent(g[i], "x", "max", 0.3 * L, 0.3 * L + 0.1, w)
        tip = 0.4 * W + gap / 2
        corners(g[i], "xy", [(0.2 * L, gap / 2), (0.2 * L, tip), (0.25 * L, tip / 2), (0.3 * L, gap / 2)], w)
        extent(g[i], "y", "max", 0.4 * W + gap / 2, 0.4 * W + gap / 2 + 0.1, w)
        if P["flap_angle"] == 0:
            extent(g[i], "x", "min", 0, 0, w)
            extent(g[i], "z", "min", -1.1 * t, -1.1 * t, w)
            extent(g[i], "z", "max", 0.1 * t, 0.1 * t, w)
    extent(g[1], "y", "min", gap / 2 * 0.5, gap / 2, what + " flap 1")


def uncart(pts):
    """Undo the turn of the axes applied to the whole vehicle."""
    p = pts.reshape(-1, 3)
    return np.stack([-p[:, 0], -p[:, 2], -p[:, 1]], axis=1)


def dims_refex(P, g, what):
    h, Lb = P["h"], P["L_b"]
    g = [uncart(p) for p in g]
    prof = ogive_profile(h, P["r_n"], P["r_o"]) + [[-P["L_o"], h], [-P["L_o"], 0]]
    on_profile(g[0], prof, 1e-3, what + " nose")
    on_profile(g[1], [[0, 0], [0, h], [-Lb, h], [-Lb, 0]], 1e-6, what + " body")
    fh = 1.3 * h
    top, ft = h - 0.02 * fh, P["fin_thickness"]
    for i in (2, 3):
        f = g[i] * np.array([1, 1 if i == 2 else -1, 1])
        w = f"{what} canard {i - 1}"
        extent(f, "y", "min", top - 0.02 * fh, top, w)
        extent(f, "y", "max", top + 0.96 * fh, top + fh + 0.05, w)
        if P["canard_angle"] == 0:
            x3 = -P["L_o"] + 0.15
            x0 = x3 - 1.3 * fh
            corners(f, "xy", [(x0, top), (x0, top + 0.98 * fh), (x0 + 0.39 * fh, top + 0.96 * fh), (x3, top)], w)
            extent(f, "x", "max", -P["L_o"] + 0.15, -P["L_o"] + 0.15 + 0.05, w)
            extent(f, "x", "min", -P["L_o"] + 0.15 - 1.3 * fh - ft, -P["L_o"] + 0.15 - 1.3 * fh - ft, w)
            extent(f, "z", "max", ft / 2, ft / 2, w)
            extent(f, "z", "min", -ft / 2, -ft / 2, w)
    wl = P["wing_length"]
    w = what + " wing"
    tip, a0 = P["wing_span"] + h, -Lb + 0.1 * wl
    corners(g[4], "xy", [(a0, 0), (a0, tip), (a0 + 0.5 * wl, tip * 5 / 6), (a0 + wl, 0)], w)
    extent(g[4], "x", "min", -Lb, -Lb, w)
    extent(g[4], "x", "max", -Lb + 1.1 * wl, -Lb + 1.1 * wl + 0.05, w)
    extent(g[4], "y", "max", P["wing_span"] + h, P["wing_span"] + h + 0.05, w)
    extent(g[4], "z", "max", h, h, w)
    extent(g[4], "z", "min", h - 3 * ft, h - 3 * ft, w)
    w = what + " transition"
    x = -Lb + 0.9 * wl
    corners(g[5], "xyz", [(x, h, h / 2), (x, -h, h / 2), (x, 0, h), (x, 0, 0)], w)
    for y in (h, -h):
        x = -Lb + 1.3 * wl
        corners(g[5], "xyz", [(-Lb, y, 0), (-Lb, y, h), (x, y, 0), (x, y / 2, h * math.sqrt(0.75))], w)
    extent(g[5], "x", "min", -Lb, -Lb, w)
    extent(g[5], "x", "max", -Lb + 1.3 * wl, -Lb + 1.3 * wl, w)
    extent(g[5], "y", "max", h, h, w)
    extent(g[5], "z", "max", h, h, w)
    extent(g[5], "z", "min", 0, 0, w)
    th, tt = P["tail_height"], P["tail_thickness"]
    w = what + " tail"
    x0, y0 = -Lb + 2 * tt, h - 0.02 * th
    corners(g[6], "xz", [(x0, -y0), (x0, -y0 - 0.98 * th), (x0 + 0.48 * th, -y0 - 0.96 * th), (x0 + 1.2 * th, -y0 + 0.02 * th)], w)
    extent(g[6], "x", "min", -Lb + tt, -Lb + tt, w)
    extent(g[6], "x", "max", -Lb + 2 * tt + 1.2 * th, -Lb + 2 * tt + 1.2 * th + 0.05, w)
    extent(g[6], "z", "min", -(h + 0.96 * th) - 0.05, -(h + 0.94 * th), w)
    extent(g[6], "z", "max", -(h - 0.04 * th), -(h - 0.04 * th), w)
    extent(g[6], "y", "max", tt / 2, tt / 2, w)


def dims_waverider(P, g, what):
    level = sample("Waverider", dict(P, x_curve_mult=5.0, y_curve_mult=5.0, aoa=0.0), q=Q + [(0.3, 0.25), (0.6, 0.7)])
    body = [uncart(p[:, : len(Q)]) for p in level]
    L, W, lw, lt = P["length"], P["width"], P["le_width"], P["LE_thickness"]
    prof = curve([[0, 0], [P["f1x"], P["f1y"]], [L / 2, P["f2y"]], [L - P["f1x"], P["f1y"]], [L, 0]], 800)
    up = body[0][body[0][:, 2] < -1e-9]
    r = np.interp(up[:, 0], [p[0] for p in prof], [p[1] for p in prof])
    close(np.hypot(up[:, 1], up[:, 2]), r, 2e-4, what + " fuselage radius")
    extent(body[0], "z", "max", 0, 0, what + " fuselage underside")
    extent(body[0], "x", "max", L, L, what + " fuselage")
    extent(body[1], "x", "max", L, L + lw, what + " wings")
    extent(body[1], "y", "max", W / 2, W / 2 + lw, what + " wings")
    extent(body[1], "z", "max", lt / 2, lt / 2, what + " wings")
    mid = float(np.interp(L / 2, [p[0] for p in prof], [p[1] for p in prof]))
    # the corner of the upper surface above the middle of the root
    extent(body[1], "z", "min", -mid * 1.2 - lt, -mid * 0.9, what + " wings")
    height = lambda x: float(np.interp(x, [p[0] for p in prof], [p[1] for p in prof]))
    p2y = max(P["p2y"], height(P["p2x"]))
    p3y = max(P["p3y"], height(P["p2x"]))
    edge = bernstein([[0, W / 2, 0], [P["p2x"], p2y, 0], [P["p3x"], p3y, 0], [L, 0, 0]])
    # the upper surface follows the contour over the local half width
    line = np.array([edge(t) for t in np.linspace(0, 1, 2000)])
    contour = bernstein([[0, P["u1y"], 0], [P["u2x"], P["u1y"], 0], [P["u3x"], P["u3y"], 0], [W / 2, 0, 0]])
    top = uncart(level[1])
    top = top[top[:, 2] < -lt / 2 - 1e-6]
    require(len(top) >= 10, f"{what}: the wings have no upper surface")
    s = np.abs(top[:, 1]) / np.interp(top[:, 0], line[:, 0], line[:, 1])
    z = np.array([contour(min(t, 1.0))[1] * height(x) / P["u1y"] for t, x in zip(s, top[:, 0])])
    close(top[:, 2], -z - lt / 2, 5e-6 * L, what + " upper surface of the wings")
    A0, TT = edge(P["a0_t"]), edge(P["tt_t"])
    for i, s in ((2, 1), (3, -1)):
        f = body[i] * np.array([1, s, 1])
        w = f"{what} {VEHICLES['Waverider']['parts'][i]}"
        B0 = A0 + [0, P["flap_height"], 0]
        front = bernstein([B0, B0 + [P["w1x"], P["w1y"] - 1, 0], TT - [P["w2x"], P["w2y"] - 1, 0], TT])
        front = np.array([front(t) for t in np.linspace(0, 1, 2000)])
        mid = edge(0.5 * (P["a0_t"] + P["tt_t"]))[0]
        corners(f, "xy", [A0[:2], B0[:2], TT[:2]], w)
        if np.all(np.diff(front[:, 0]) > 0):
            near = np.abs(f[:, 0] - mid) < 1e-6
            y = float(np.interp(mid, front[:, 0], front[:, 1]))
            require(near.any() and np.abs(f[near, 1] - y).min() < 1e-4 * L, f"{w}: leading edge is not at {y:.5f} above its middle")
        extent(f, "x", "min", 0, 0, w)
        extent(f, "x", "max", TT[0], TT[0] + lw, w)
        extent(f, "y", "max", A0[1] + P["flap_height"], A0[1] + P["flap_height"] + lw + 0.06 * abs(P["w1y"] - 1) + 0.002, w)
        extent(f, "y", "min", TT[1] - lw - 1e-3, TT[1] + 1e-3, w)
        extent(f, "z", "max", lt / 2, lt / 2, w)
        extent(f, "z", "min", -lt / 2, -lt / 2, w)
    extent(body[4], "x", "max", 0.3, 0.31, what + " fin")
    extent(body[4], "z", "min", -0.12, -0.1, what + " fin")
    kx, ky = 0.25 * (P["x_curve_mult"] - 5), 0.5 * (P["y_curve_mult"] - 5)
    angle = P["aoa"] + math.degrees(2 * kx * L)
    turn = axis_rot("z", -angle)
    for i, part in enumerate(VEHICLES["Waverider"]["parts"]):
        b = bend(body[i], kx, ky)
        want = np.stack([-b[:, 0], -b[:, 2], -b[:, 1]], axis=1) @ turn.T
        close(g[i].reshape(-1, 3), want, 1e-6, f"{what} {part} with curvature and angle of attack")


def dims_x43(P, g, what):
    L, W = P["body_length"], P["body_width"]
    b = math.tan(math.radians(P["body_angle"]))
    k = L / 3.7
    w = what + " body"
    extent(g[0], "x", "min", 0, 0, w)
    extent(g[0], "x", "max", L, L + 0.051, w)
    extent(g[0], "y", "max", W / 2, W / 2 + 0.051, w)
    extent(g[0], "z", "min", -L * b - 0.1 * k - 0.025 * L, -L * b - 0.1 * k - 0.025 * L, w) if b >= 0 else None
    if b == 0:
        extent(g[0], "z", "max", 0.1 * k, 0.1 * k, w)
    corners(g[0], "xy", [(0, 0), (0, W / 2), (1.8 * k, W / 2), (L, 0)], w)
    span = W / 2 + P["wing_span"]
    for i in (1, 2):
        w = f"{what} wing {i}"
        extent(g[i], "y", "max", span, span + 0.051, w)
        wl, fl = P["wing_length"], P["flap_length"]
        corners(g[i], "xy", [(fl, W / 2), (fl - P["wing_TE_back"], span), (wl / 2, W / 2 + 0.625 * P["wing_span"]), (wl, W / 2)], w)
        extent(g[i], "x", "max", P["wing_length"], P["wing_length"] + 0.051, w)
        if P["flap_angle"] == 0:
            extent(g[i], "x", "min", -P["wing_TE_back"] - 0.02, -P["wing_TE_back"], w)
            if b == 0:
                extent(g[i], "z", "max", 0.015 * k, 0.015 * k, w)
                extent(g[i], "z", "min", -0.015 * k, -0.015 * k, w)
    extent(g[1], "y", "min", W / 2, W / 2, what + " wing 1")
    w = what + " inlet"
    extent(g[3], "x", "min", 0, 0, w)
    tip = 0.5 * (L + 1.8 * k)
    extent(g[3], "x", "max", tip, tip + 0.0011, w)
    extent(g[3], "y", "max", W / 2, W / 2 + 0.0011, w)
    corners(g[3], "xy", [(0, 0), (0, W / 2), (1.8 * k, W / 2), (tip, 0)], w)
    lower = lambda x: (x - L) * math.tan(math.atan((L * b - 0.1 * k + 0.025 * k) / L)) + 0.025 * k
    if b == 0:
        # the engine hangs its height below the body along the middle section
        deep = lambda x: lower(x) + P["engine_h"] + 1e-5
        lo = min(deep(0.8 * 1.8 * k), deep(0.3 * 1.8 * k))
        hi = max(deep(0.8 * 1.8 * k), deep(0.3 * 1.8 * k))
        extent(g[3], "z", "max", 0.0, hi, w)
        mid = g[3].reshape(-1, 3)
        at = mid[(np.abs(mid[:, 0] - 0.5 * 1.8 * k) < 1e-6) & (np.abs(mid[:, 1]) < 1e-6)]
        for p in at[at[:, 2] > lower(0.9 * k) + 0.2 * P["engine_h"]]:
            close(p[2], deep(p[0]), 1e-6, w + " depth at the middle")
    rise = (L - P["fin_length"]) * b
    for i, s in ((4, 1), (5, -1)):
        w = f"{what} fin {i - 3}"
        f = g[i]
        fl, rl, up = P["fin_length"], P["rudder_length"], -rise - P["fin_height"]
        corners(f, "xz", [(rl, -rise), (rl, up), (0.5 * fl, up), (fl, -rise)], w)
        extent(f, "x", "max", P["fin_length"], P["fin_length"] + 0.051, w)
        extent(f, "z", "max", -rise, -rise, w)
        extent(f, "z", "min", -rise - P["fin_height"] - 0.051, -rise - P["fin_height"], w)
        if P["rudder_angle"] == 0:
            extent(f, "x", "min", 0, 0, w)
            extent(f, "y", "max", s * W / 2 + 0.01 * k, s * W / 2 + 0.01 * k, w)
            extent(f, "y", "min", s * W / 2 - 0.01 * k, s * W / 2 - 0.01 * k, w)


DIMS = {
    "D21": dims_d21,
    "Falcon9": dims_falcon9,
    "Finner": dims_finner,
    "HIFiRE4": dims_hifire4,
    "HIFiRE8": dims_hifire8,
    "HTV": dims_htv,
    "ReFEX": dims_refex,
    "Waverider": dims_waverider,
    "Wedge": dims_wedge,
    "X43": dims_x43,
}


def mirror_axis(name):
    return 2 if name in ("ReFEX", "Waverider") else 1


def mirrored(name, g, what):
    """The vehicle is its own mirror image in its plane of symmetry."""
    from scipy.spatial import cKDTree

    pts = np.concatenate([p.reshape(-1, 3) for p in g])
    size = np.ptp(pts, axis=0).max()
    tree = cKDTree(pts)
    flip = pts.copy()
    flip[:, mirror_axis(name)] *= -1
    d = tree.query(flip)[0]
    if d.max() > 1e-6 * size:
        k = int(d.argmax())
        for part, p in zip(VEHICLES[name]["parts"], g):
            if k < p.size // 3:
                break
            k -= p.size // 3
        raise Violation(f"{what}: {part} has no mirror image, off by {d.max():.3g}")


@st.composite
def full_case(draw, name):
    info = VEHICLES[name]
    P = {}
    spread = {"Waverider": 30, "D21": 80}.get(name, 150)
    for k, v in info["p"].items():
        if draw(st.integers(0, 4)) == 0:
            continue
        f = 1 + draw(st.integers(-spread, spread)) / 1000
        P[k] = round(v * f, 6)
    for k, (v, hi) in info["a"].items():
        c = draw(st.integers(0, 3))
        if c == 0:
            P[k] = 0
        elif c == 1:
            P[k] = float(draw(st.integers(-hi, hi)))
    # curvature multipliers of the waverider are measured from five
    for k in ("x_curve_mult", "y_curve_mult"):
        if name == "Waverider" and k in P:
            P[k] = round(5 + draw(st.integers(-300, 300)) / 1000, 6)
    return {"v": name, "P": P, "again": draw(st.booleans())}


def full(case, ctx):
    name, given = case["v"], case["P"]
    info = VEHICLES[name]
    what = f"{name}({', '.join(f'{k}={v}' for k, v in given.items())})"
    gen = maker(name)(**given)
    P = {**info["p"], **{k: v for k, (v, _) in info["a"].items()}, **given}
    for k, v in P.items():
        close(getattr(gen, k), v, 1e-12 * (1 + abs(v)), f"{what}: parameter {k}")
    v1 = gen.create_instance()
    g = sample_vehicle(v1)
    require(len(g) == len(info["parts"]), f"{what}: {len(g)} parts instead of {len(info['parts'])}")
    for part, n, p in zip(info["parts"], info["patches"], g):
        require(len(p) == n, f"{what} {part}: {len(p)} patches instead of {n}")
        require(bool(np.all(np.isfinite(p))), f"{what} {part}: not finite")
    DIMS[name](P, g, what)
    if not (name == "X43" and P["rudder_angle"] != 0):
        mirrored(name, g, what)
    if case["again"]:
        # the same definition again, from the same and from a new generator
        twin = sample_vehicle(gen.create_instance() if len(given) % 2 else maker(name)(**given).create_instance())
        for part, a, b in zip(info["parts"], g, twin):
            close(b, a, 1e-12, f"{what} {part}: built again")
    ctx.label(f"{len(given)} given")
    if not given:
        ctx.skip("nominal vehicle")


# ---------------------------------------------------------------- response

_base = {}


@st.composite
def respond_case(draw, names, n):
    """Several distinct parameters, so that few cases still cover many."""
    every = [(v, p) for v in names for p in sorted(ACTS[v])]
    return [
        {
            "v": v,
            "par": p,
            "d": draw(st.integers(10, 50)) / 1000 * draw(st.sampled_from([1, -1])),
            "base": draw(st.integers(0, 1)),
        }
        for v, p in draw(st.lists(st.sampled_from(every), min_size=n, max_size=n, unique=True))
    ]


def base_of(name, which):
    """Two cached starting points: the nominal vehicle and a larger one."""
    if (name, which) not in _base:
        kw = {}
        if which:
            for i, (k, v) in enumerate(VEHICLES[name]["p"].items()):
                if name == "Waverider" and k.endswith("curve_mult"):
                    kw[k] = 5.05
                else:
                    kw[k] = v * (1.01 + 0.005 * (i % 5 if name == "Waverider" else 2 * (i % 5)))
        _base[name, which] = (kw, sample(name, kw, q=FEW))
    return _base[name, which]


def respond(case, ctx):
    for one in case:
        respond_one(one, ctx)


def respond_one(case, ctx):
    name, par = case["v"], case["par"]
    info = VEHICLES[name]
    kw, g0 = base_of(name, case["base"])
    angle = par in info["a"]
    if angle:
        p0 = info["a"][par][0]
        step = 40 * case["d"]
    else:
        p0 = kw.get(par, info["p"][par])
        step = case["d"] * info["p"][par]
        if par.endswith("curve_mult"):
            step = case["d"]
    what = f"{name} {par} {p0:.6g}+{step:.3g}"
    g1 = sample(name, {**kw, par: p0 + step}, q=FEW)
    g2 = sample(name, {**kw, par: p0 + step / 2}, q=FEW)
    size = max(np.abs(p).max() for p in g0)
    acts = ACTS[name][par].split()
    for part, a, b, c in zip(info["parts"], g0, g1, g2):
        full_move, half_move = np.abs(b - a).max(), np.abs(c - a).max()
        if part not in acts:
            if full_move > 1e-7 * size:
                raise Violation(f"{what}: moves {part} by {full_move:.3g}")
            continue
        if full_move <= 1e-9 * size:
            msg = f"{what}: no effect on {part}"
            if name == "Waverider" and par in ("u2x", "u3x"):
                ctx.known_finding(f"waverider-{par}", msg)
                continue
            raise Violation(msg)
        gain = math.radians(abs(step)) * 2 * size if angle else 4.5 * abs(step) * (size if par.endswith("mult") else 1)
        if full_move > gain:
            raise Violation(f"{what}: {part} moves by {full_move:.3g}, out of proportion")
        ratio = full_move / max(half_move, 1e-300)
        if not 1.6 <= ratio <= 2.5:
            raise Violation(f"{what}: {part} moves by {half_move:.3g} for half the change and {full_move:.3g} for all of it")
    ctx.label(f"{name}.{par}")


# ------------------------------------------------------------------ angles


@st.composite
def angle_case(draw, kinds):
    out = []
    for which in draw(st.permutations(kinds)):
        big = 8 if which == "X43.body" else 30
        a = draw(st.integers(2, 4 * big)) / 4 * draw(st.sampled_from([1, -1]))
        out.append({"w": which, "a": a, "k": 1 + draw(st.integers(-100, 100)) / 1000})
    return out


LENGTHS = {
    "D21.flap": ("L_w", 16, lambda v: 0.1 * v, ["wing"]),
    "HTV.flap": ("L", 1, lambda v: 0.2 * v, ["flap1", "flap2"]),
    "X43.flap": ("flap_length", 0.3, lambda v: v, ["wing1", "wing2"]),
    "X43.rudder": ("rudder_length", 0.2, lambda v: v, ["fin1", "fin2"]),
}


def angles(case, ctx):
    for one in case:
        angle_one(one, ctx)


def angle_one(case, ctx):
    name, kind = case["w"].split(".")
    a = case["a"]
    rad = math.radians(a)
    parts = VEHICLES[name]["parts"]
    par = "aoa" if kind == "aoa" else kind + "_angle"
    ctx.label(case["w"])
    what = f"{name} {par}={a}"
    if case["w"] in LENGTHS:
        key, v, length, moved = LENGTHS[case["w"]]
        kw = {key: round(v * case["k"], 6)}
        L = length(kw[key])
        still = sample(name, {**kw, par: 0}, q=Q[:4])
        down = sample(name, {**kw, par: a}, q=Q[:4])
        up = sample(name, {**kw, par: -a}, q=Q[:4])
        cross = 1 if kind == "rudder" else 2
        for part, s, d, u in zip(parts, still, down, up):
            if part not in moved:
                close(d, s, 1e-9, f"{what}: {part}")
                continue
            chord = np.linalg.norm(d - s, axis=-1)
            close(chord.max(), 2 * L * abs(math.sin(rad / 2)), 0.02 * L * abs(rad), f"{what}: travel of the edge of {part}")
            i = np.unravel_index(chord.argmax(), chord.shape)
            close((d - s)[i][0], L * (1 - math.cos(rad)), 0.02 * L * abs(rad), f"{what}: forward travel of {part}")
            close(abs((d - s)[i][cross]), L * abs(math.sin(rad)), 0.02 * L * abs(rad), f"{what}: deflection of {part}")
            if kind == "rudder":
                require((d - s)[i][1] * a > 0, f"{what}: {part} turns to the wrong side")
            # the opposite angle deflects to the other side
            j = np.unravel_index(np.linalg.norm(u - s, axis=-1).argmax(), chord.shape)
            require((u - s)[j][cross] * (d - s)[i][cross] < 0, f"{what}: {part} turns to the same side for the opposite angle")
        return
    if case["w"] == "X43.body":
        kw = {"body_length": round(3.7 * case["k"], 6)}
        L = kw["body_length"]
        still, lean = sample(name, kw, q=Q[:4]), sample(name, {**kw, par: a}, q=Q[:4])
        for part, s, d in zip(parts, still, lean):
            move = d - s
            if part.startswith("fin"):
                # fins are set on the body at their tip
                close(move.reshape(-1, 3), np.tile([0, 0, -(L - 1.0) * math.tan(rad)], (move.size // 3, 1)), 1e-6, f"{what}: shift of {part}")
                continue
            # the body is sheared so that its axis leaves the nose at the angle
            close(np.abs(move[..., :2]).max(), 0.0, 5e-3, f"{what}: sideways shift of {part}")
            want = -(L - s[..., 0]) * math.tan(rad)
            # flaps stay level behind their hinge
            on = s[..., 0] > (0.35 if part.startswith("wing") else -1.0)
            close(move[..., 2][on], want[on], 0.02 * L * abs(rad) + 2e-3, f"{what}: slope of {part}")
        return
    if kind == "canard":
        kw = {"h": round(0.225 * case["k"], 6)}
        still, turned = sample(name, kw, q=Q[:4]), sample(name, {**kw, par: a}, q=Q[:4])
        px = -(-0.05 + 0.15 - 0.5 * 1.3 * 1.3 * kw["h"])
        pivot = np.array([px, 0, 0])
        errs = []
        for part, s, d in zip(parts, still, turned):
            if not part.startswith("canard"):
                close(d, s, 1e-9, f"{what}: {part}")
                continue
            # both turn the same way about the pivot line across the body
            want = (s.reshape(-1, 3) - pivot) @ axis_rot("z", -a).T + pivot
            back = (s.reshape(-1, 3) - pivot) @ axis_rot("z", a).T + pivot
            errs.append((np.abs(d.reshape(-1, 3) - want).max(), np.abs(d.reshape(-1, 3) - back).max()))
        one, two = max(e[0] for e in errs), max(e[1] for e in errs)
        require(min(one, two) < 1e-6, f"{what}: canards are not turned by {a} degrees about their pivot ({min(one, two):.3g} off)")
        return
    if kind == "aoa":
        still = sample(name, {par: 0}, q=Q[:4])
        turned = sample(name, {par: a}, q=Q[:4])
        r = axis_rot("z", -a)
        for part, s, d in zip(parts, still, turned):
            close(d.reshape(-1, 3), s.reshape(-1, 3) @ r.T, 1e-8, f"{what}: {part}")
        return
    # the waverider takes its flap angle in radians
    still = sample(name, {"x_curve_mult": 5.0, "y_curve_mult": 5.0, "aoa": 0}, q=Q[:4])
    turned = sample(name, {"x_curve_mult": 5.0, "y_curve_mult": 5.0, "aoa": 0, par: rad}, q=Q[:4])
    moves = []
    for part, s, d in zip(parts, still, turned):
        if not part.endswith("flap"):
            close(d, s, 1e-9, f"{what}: {part}")
            continue
        edge = bernstein([[0, 0.175, 0], [1 / 3, 0.35 / 3, 0], [2.75 / 3, 0.0875, 0], [1, 0, 0]])
        L = edge(0.065)[0]
        chord = np.linalg.norm(d - s, axis=-1)
        close(chord.max(), 2 * L * abs(math.sin(rad / 2)), 0.03 * L * abs(rad), f"{what}: travel of the edge of {part}")
        i = np.unravel_index(chord.argmax(), chord.shape)
        moves.append((d - s)[i][1])
    require(moves[0] * moves[1] > 0, f"{what}: flaps turn to opposite sides")


# ---------------------------------------------------------------- switches

SWITCH = {
    "generate_fuselage": ["nose", "body", "transition"],
    "generate_wings": ["wing"],
    "generate_canards": ["canard1", "canard2"],
    "generate_tail": ["tail"],
}


@st.composite
def switch_case(draw):
    off = [k for k in sorted(SWITCH) if draw(st.booleans())]
    kw = {}
    for k, v in VEHICLES["ReFEX"]["p"].items():
        if draw(st.integers(0, 3)) == 0:
            kw[k] = round(v * (1 + draw(st.integers(-80, 80)) / 1000), 6)
    return {"off": off, "kw": kw}


def switches(case, ctx):
    off = case["off"]
    gone = {p for k in off for p in SWITCH[k]}
    everything = sample("ReFEX", case["kw"])
    some = sample("ReFEX", {**case["kw"], **{k: False for k in off}}, parts=[])
    left = [(p, g) for p, g in zip(VEHICLES["ReFEX"]["parts"], everything) if p not in gone]
    require(len(some) == len(left), f"ReFEX without {off}: {len(some)} parts instead of {[p for p, _ in left]}")
    for (part, a), b in zip(left, some):
        close(b, a, 1e-12, f"ReFEX without {off}: {part}")
    ctx.label(f"{len(off)} off")
    if not off:
        ctx.skip("nothing switched off")


# ------------------------------------------------------- scaling and meshes


@st.composite
def scale_case(draw):
    name = draw(st.sampled_from(["Wedge", "Finner", "Falcon9"]))
    P = {k: round(v * (1 + draw(st.integers(-150, 150)) / 1000), 6) for k, v in VEHICLES[name]["p"].items()}
    return {"v": name, "P": P, "k": draw(st.integers(2, 60)) / 10}


def scaling(case, ctx):
    """Vehicles given by lengths alone scale with them."""
    name, k = case["v"], case["k"]
    a = sample(name, case["P"])
    b = sample(name, {p: v * k for p, v in case["P"].items()})
    for part, x, y in zip(VEHICLES[name]["parts"], a, b):
        close(y, x * k, 2e-6 * k * np.abs(x).max(), f"{name} scaled by {k}: {part}")
    ctx.label(name)


MESHED = [("Wedge", 0), ("Finner", 0), ("Finner", 2), ("D21", 0), ("D21", 3), ("HIFiRE8", 0), ("Waverider", 0), ("Waverider", 4), ("X43", 4), ("HIFiRE4", 0), ("ReFEX", 5)]
FACES = {
    ("Wedge", 0): 2400,
    ("Finner", 0): 3072,
    ("Finner", 2): 384,
    ("D21", 0): 6400,
    ("D21", 3): 432,
    ("HIFiRE8", 0): 2048,
    ("Waverider", 0): 14400,
    ("Waverider", 4): 768,
    ("X43", 4): 208,
    ("HIFiRE4", 0): 6400,
    ("ReFEX", 5): 9600,
}


@st.composite
def mesh_case(draw):
    name, i = draw(st.sampled_from(MESHED))
    P = {}
    for k, v in VEHICLES[name]["p"].items():
        if draw(st.booleans()):
            P[k] = round(v * (1 + draw(st.integers(-30, 30)) / 1000), 6)
    c = {"v": name, "i": i, "P": P}
    if name == "D21" and i == 3:
        c["res"] = ["te_fin_stl_res", draw(st.integers(1, 3)), 3]
    if name == "Waverider":
        c["res"] = ["fin_stl_res", draw(st.integers(1, 4)), 4] if i == 4 else ["fuse_stl_res", draw(st.integers(3, 12)), 30]
    return c


def meshes(case, ctx):
    name, i = case["v"], case["i"]
    kw = dict(case["P"])
    want = FACES[name, i]
    if "res" in case:
        key, n, nominal = case["res"]
        kw[key] = n
        want = want * n * n // (nominal * nominal)
    out = []
    for _ in range(2):
        v = maker(name)(**kw).create_instance()
        for c in v.components:
            c._multiprocess = False
            c.verbosity = 0
        v.verbosity = 0
        v.generate()
        c = v.components[i]
        out.append(np.asarray(c.mesh.vectors, float))
    what = f"{name} part {i} with {kw}"
    require(len(out[0]) == want, f"{what}: {len(out[0])} triangles instead of {want}")
    require(bool(np.all(np.isfinite(out[0]))), f"{what}: mesh is not finite")
    close(out[1], out[0], 1e-12, f"{what}: second vehicle")
    # the mesh carries the corners of the surface
    from scipy.spatial import cKDTree

    pts = sample_vehicle(v, Q[:4])[i].reshape(-1, 3)
    d = cKDTree(out[0].reshape(-1, 3)).query(pts)[0].max()
    require(d <= 2e-6 * (1 + np.abs(pts).max()), f"{what}: surface corner {d:.3g} away from the mesh")
    ctx.label(f"{name}.{i}")
    if not case["P"] and "res" not in case:
        ctx.skip("nominal vehicle")


# Resolution parameters, and the parts meshed with them.
RESOLUTIONS = {
    "D21": {"wing_stl_res": ["wing"], "te_fin_stl_res": ["tail", "aft1", "aft2"]},
    "Waverider": {"fuse_stl_res": ["fuselage"], "wing_stl_res": ["wings", "right_flap", "left_flap"], "fin_stl_res": ["fin"]},
}


@st.composite
def resolution_case(draw):
    name = draw(st.sampled_from(sorted(RESOLUTIONS)))
    # a fuselage meshed with a single cell has no volume
    c = {"v": name, "res": {k: draw(st.sampled_from([2, 3] if k.startswith("fuse") else [1, 2, 3])) for k in RESOLUTIONS[name]}}
    if name == "Waverider":
        c["dens"] = {p: draw(st.integers(1, 20)) / 2 for p in VEHICLES[name]["parts"]}
    return c


def resolutions(case, ctx):
    """Each resolution parameter sets the mesh size of its parts."""
    name = case["v"]
    info = VEHICLES[name]
    kw = {"densities": case["dens"]} if "dens" in case else {}
    v = maker(name)(**case["res"], **kw).create_instance()
    for c in v.components:
        c._multiprocess = False
        c.verbosity = 0
    v.verbosity = 0
    v.generate()
    for key, n in case["res"].items():
        for part in RESOLUTIONS[name][key]:
            i = info["parts"].index(part)
            want = info["patches"][i] * 4 * n * n
            got = len(v.components[i].mesh.vectors)
            require(got == want, f"{name} with {case['res']}: {part} has {got} triangles instead of {want}")
    if "dens" in case:
        kept = v.analysis_results
        require(bool(kept), f"{name} with densities: not analysed when generated")
        for key, want in zip(("volume", "mass", "cog", "moi"), v.analyse(case["dens"])):
            close(kept[key], want, 1e-9 * (1 + np.abs(want).max()), f"{name} with densities: {key} kept on generation")
    else:
        require(not v.analysis_results, f"{name} without densities: analysed when generated")
    ctx.label(name)


def full_for(name):
    return lambda: full_case(name)


def respond_for(n, *names):
    return lambda: respond_case(list(names), n)


def angles_for(*kinds):
    return lambda: angle_case(list(kinds))


_N = {"X43": 7, "Waverider": 5, "HTV": 7, "D21": 8, "HIFiRE4": 5, "HIFiRE8": 8, "ReFEX": 8, "Finner": 120, "Falcon9": 80, "Wedge": 120}
FACETS = (
    [Facet(f"dims-{n.lower()}", full_for(n), full, _N[n], rule="some parameter given") for n in _N]
    + [
        Facet("respond-x43", respond_for(3, "X43"), respond, 2, rule="every case"),
        Facet("respond-waverider", respond_for(4, "Waverider"), respond, 2, rule="every case"),
        Facet("respond-wings", respond_for(4, "D21", "HIFiRE4", "HTV"), respond, 2, rule="every case"),
        Facet("respond-other", respond_for(4, "HIFiRE8", "ReFEX"), respond, 3, rule="every case"),
        Facet("respond-simple", respond_for(6, "Finner", "Falcon9", "Wedge"), respond, 20, rule="every case"),
        Facet("angles-x43", angles_for("X43.flap", "X43.rudder", "X43.body"), angles, 2, rule="every case"),
        Facet("angles", angles_for("D21.flap", "HTV.flap", "ReFEX.canard", "Waverider.flap", "Waverider.aoa"), angles, 2, rule="every case"),
        Facet("switches", switch_case, switches, 9, rule="a part switched off"),
        Facet("scaling", scale_case, scaling, 150, rule="every case"),
        Facet("mesh", mesh_case, meshes, 9, rule="not the nominal vehicle"),
        Facet("resolutions", resolution_case, resolutions, 4, rule="every case"),
    ]
)
ASSUMPTIONS = [
    "lengths within 15% of their defaults (3% for the waverider), angles within 30 degrees",
    "the sense of elevon deflection is not asserted",
]
