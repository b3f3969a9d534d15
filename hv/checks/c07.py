"""C07: geometry sensitivities are the finite differences of the regenerated geometry."""

import copy
import os

import numpy as np
from hypothesis import strategies as st

from hv.checks.c05 import own_directory, read_stl
from hv.comp import build_component, build_options, component_spec, composite_spec, mesh_of, option_spec
from hv.core import Facet
from hv.gen import num
from hv.oracle import close, require

NAMES = ["width", "L", "edxdge", "a_b", "x", "theta", "n2", "dx", "body_length"]

# ------------------------------------------------------- parametric vehicles


def part(i):
    return ("Nose", "main wing", "tail_B.2", "part3")[i]


@st.composite
def study_case(draw, params=(1, 3), comps=(1, 3), linear=None, options=True, named=None, analysed=None):
    if analysed is None:
        analysed = draw(st.integers(0, 2)) == 0
    k = draw(st.integers(*params))
    names = draw(st.permutations(NAMES))[:k]
    P = []
    for n in names:
        v = draw(st.one_of(num(0.25, 4), num(-4, -0.25), num(20, 200, 1), st.sampled_from([1, 2, 10])))
        P.append([n, v])
    if linear is None:
        linear = draw(st.booleans())
    named = draw(st.booleans()) if named is None else named
    out = []
    for i in range(draw(st.integers(*comps))):
        if options:
            c = {"c": draw(component_spec(("revolved", "swept", "composite", "ogive"), closed=True))}
        else:
            c = {
                "c": draw(
                    st.one_of(
                        component_spec(("revolved", "swept", "ogive"), closed=True),
                        composite_spec(closed=True, options=False, kinds=("cube", "sphere", "swept")),
                    )
                )
            }
        c["o"] = draw(option_spec(modifier=False)) if options else {}
        if analysed or not options:
            # an appended mirror image may cancel the volume (see C01)
            bare(c["c"])
            c["o"].pop("reflect", None)
        if named:
            c["o"]["name"] = part(i)
        c["G"] = [[draw(num(-1, 1)) for _ in range(3)] for _ in P]
        c["H"] = [draw(num(-0.5, 0.5)) for _ in P]
        c["Q"] = [0.0 if linear else draw(num(-0.5, 0.5)) for _ in P]
        out.append(c)
    case = {
        "P": P,
        "comps": out,
        "pert": draw(st.sampled_from([5, 5.0, 1, 10, 20, 0.5, 50, -5])),
        "props": [[draw(num(-2, 2)) for _ in range(len(P) + 2)] for _ in range(draw(st.integers(0, 2)))],
        "over": {"shift": draw(num(-1, 1))} if draw(st.booleans()) else {},
        "linear": linear,
    }
    if named and analysed:
        case["dens"] = [draw(num(0.5, 20)) for _ in out]
    return case


def bare(spec):
    """Children of composites without options of their own."""
    for child in spec.get("children", []):
        child.pop("o", None)
        bare(child["c"])


def scaled(spec, f, s):
    """The description with every point p replaced by f p + s."""
    k = spec["k"]
    move = lambda p: [f * a + b for a, b in zip(p, s)]

    def path(e):
        if "s" in e:
            return {**e, "s": [path(x) for x in e["s"]]}
        return {**e, "p": [move(p) for p in e["p"]]}

    if k == "swept":
        return {**spec, "cs": [[path(e) for e in loop] for loop in spec["cs"]]}
    if k == "revolved":
        s = [s[0], 0.0, 0.0]
        return {**spec, "line": path(spec["line"])}
    if k in ("cube", "sphere"):
        return {**spec, "r": f * spec["r"], "c": move(spec["c"])}
    if k == "ogive":
        return {**spec, **{n: f * spec[n] for n in ("h", "rn", "ro", "lo")}}
    if k == "composite":
        return {**spec, "children": [{**c, "c": scaled(c["c"], f, s)} for c in spec["children"]]}
    raise KeyError(k)


def scaled_revolved_shift(spec, s):
    return [s[0], 0.0, 0.0] if spec["k"] == "revolved" else ([0.0] * 3 if spec["k"] == "ogive" else s)


def constructor(case):
    """A vehicle generator class of the case; every instance starts afresh."""
    from hypervehicle import Vehicle
    from hypervehicle.generator import Generator

    nominal = dict(map(tuple, case["P"]))

    class Made(Generator):
        def __init__(self, **kw):
            for n, v in nominal.items():
                setattr(self, n, v)
            self.shift = 0.0
            super().__init__(**kw)

        def create_instance(self):
            veh = Vehicle()
            veh.configure(name="veh", verbosity=0)
            d = [getattr(self, n) - v for n, v in nominal.items()]
            e = [a / v for a, v in zip(d, nominal.values())]
            for i, c in enumerate(case["comps"]):
                f = 1 + sum(h * a + q * a * a for h, q, a in zip(c["H"], c["Q"], e))
                s = [sum(g[j] * a for g, a in zip(c["G"], d)) for j in range(3)]
                s = scaled_revolved_shift(c["c"], [s[0] + self.shift, s[1], s[2]])
                veh.add_component(build_component(scaled(c["c"], f, s)), **build_options(c["o"]))
            for i, p in enumerate(case["props"]):
                val = p[-1] + sum(a * getattr(self, n) for a, n in zip(p, nominal)) + p[-2] * d[0] * d[-1]
                veh.add_property(f"prop{i}", val)
            if "dens" in case:
                veh.analyse_after_generating({part(i): r for i, r in enumerate(case["dens"])})
            return veh

    return Made


def instances(case, make):
    """Nominal vehicle, and one per parameter with only that one increased."""
    nominal = dict(map(tuple, case["P"]))
    veh = make(**nominal, **case["over"]).create_instance()
    veh.generate()
    out = {}
    for n, v in nominal.items():
        new = v * (1 + case["pert"] / 100)
        w = make(**{**nominal, n: new}, **case["over"]).create_instance()
        w.generate()
        out[n] = (w, new - v)
    return veh, out


def run(case, make, **kw):
    from hypervehicle.utilities import SensitivityStudy

    params, over = dict(map(tuple, case["P"])), dict(case["over"])
    keep = copy.deepcopy((params, over))
    study = SensitivityStudy(make, verbosity=0)
    args = dict(perturbation=case["pert"], write_nominal_stl=False)
    if case["over"]:
        args["overrides"] = over
    args.update(kw)
    got = study.dvdp(params, **args)
    require((params, over) == keep and list(params) == list(keep[0]), f"caller's dictionaries changed to {params}, {over}")
    return study, got


def rows_match(table, want, tol, what, positions=False):
    """Rows of both tables agree as sets, within a tolerance per column.  With
    positions, vertices in the same place need not all be listed."""
    from scipy.spatial import cKDTree

    table, want = np.asarray(table, float), np.asarray(want, float)
    require(table.shape[1] == want.shape[1], f"{what}: {table.shape[1]} columns instead of {want.shape[1]}")
    require(len(table) > 0, f"{what}: no rows")
    require(np.isfinite(table).all(), f"{what}: values that are not finite")
    a, b = table / tol, want / tol
    d, i = cKDTree(b).query(a, p=np.inf)
    require(d.max() <= 1, f"{what}: row {table[int(d.argmax())].tolist()} is not a difference of the meshes; nearest is {want[i[int(d.argmax())]].tolist()}")
    if positions:
        a, b = a[:, :3], b[:, :3]
    d, i = cKDTree(a).query(b, p=np.inf)
    require(d.max() <= 1, f"{what}: {int((d > 1).sum())} vertices missing or with other values, first {want[int(d.argmax())].tolist()}, nearest row {table[i[int(d.argmax())]].tolist()}")


def column(df, name, what):
    require(name in df.columns, f"{what}: no column {name} among {list(df.columns)}")
    return np.asarray(df[name], float)


def tables(case, study, got, veh, pert):
    names = [n for n, _ in case["P"]]
    require(list(got) == names, f"parameters {list(got)} instead of {names}")
    base = [mesh_of(c).reshape(-1, 3) for c in veh.components]
    every = [[b] for b in base]
    tols = [[np.full(3, 1e-6 * (1 + np.abs(b).max()))] for b in base]
    for n in names:
        w, dp = pert[n]
        require(len(got[n]) == len(base), f"{n}: {len(got[n])} components instead of {len(base)}")
        for i, (df, c) in enumerate(zip(got[n].values(), w.components)):
            d = mesh_of(c).reshape(-1, 3) - base[i]
            what = f"component {i}, parameter {n}"
            eps = 4e-7 * (1 + np.abs(base[i]).max() + np.abs(d).max())
            cols = ["x", "y", "z", "dx", "dy", "dz", f"dxd{n}", f"dyd{n}", f"dzd{n}"]
            tab = np.stack([column(df, k, what) for k in cols], axis=1)
            want = np.concatenate([base[i], d, d / dp], axis=1)
            tol = np.array([eps] * 6 + [eps / abs(dp)] * 3)
            rows_match(tab, want, tol, what)
            close(column(df, "magnitude", what), np.linalg.norm(tab[:, 3:6], axis=1), 1e-6 * (1 + np.abs(d).max()), what + ": magnitude")
            every[i].append(d / dp)
            tols[i].append(np.full(3, eps / abs(dp)))
    comb = tables_of(study)
    require(list(comb) == list(next(iter(got.values()))), "other components in the combined tables")
    for i, df in enumerate(comb.values()):
        what = f"combined table of component {i}"
        cols = ["x", "y", "z"] + [f"d{a}d{n}" for n in names for a in "xyz"]
        require(list(df.columns) == cols, f"{what}: columns {list(df.columns)}")
        rows_match(df.values, np.concatenate(every[i], axis=1), np.concatenate(tols[i]), what, positions=True)
    keys = list(comb)
    for i, c in enumerate(case["comps"]):
        if "name" in c["o"]:
            require(keys[i] == c["o"]["name"], f"component {c['o']['name']} reported as {keys[i]}")


def tables_of(study):
    """The combined tables of a study, one for each component."""
    tables = study.component_sensitivities
    require(bool(tables), "a study keeps no combined tables")
    for k, t in tables.items():
        missing = {"x", "y", "z"} - set(t.columns)
        require(not missing, f"combined table of {k} without {sorted(missing)}")
    return tables


def entry(results, name, what):
    require(results is not None and name in results, f"no {what} sensitivities for {name}")
    return results[name]


def scalars(case, study, veh, pert):
    for n, _ in case["P"]:
        w, dp = pert[n]
        if "dens" in case:
            s = entry(study.scalar_sensitivities, n, "scalar")
            for k, v in veh.analysis_results.items():
                require(k in s, f"no sensitivity of {k} with respect to {n}")
                d = (np.asarray(w.analysis_results[k], float) - np.asarray(v, float)) / dp
                close(s[k], d, 1e-6 * (1 + np.abs(np.asarray(v)).max()) * (1 + 1 / abs(dp)), f"{k} with respect to {n}")
            t = entry(study.component_scalar_sensitivities, n, "component scalar")
            for i in [*range(len(case["comps"])), "vehicle"]:
                row = i if i == "vehicle" else part(i)
                require(row in t.index, f"no {row} in the table of {n}")
            for k in ("mass", "volume", "area"):
                require(k in t.columns, f"no {k} in the table of {n}")
            for i in range(len(case["comps"])):
                for k in ("mass", "volume", "area"):
                    a, b = veh.component_properties[k][part(i)], w.component_properties[k][part(i)]
                    close(t.loc[part(i), k], (b - a) / dp, 1e-6 * (1 + abs(a)) * (1 + 1 / abs(dp)), f"{k} of {part(i)} with respect to {n}")
            for k in ("mass", "volume", "area"):
                close(t.loc["vehicle", k], (getattr(w, k) - getattr(veh, k)) / dp, 1e-6 * (1 + abs(getattr(veh, k))) * (1 + 1 / abs(dp)), f"{k} of the vehicle with respect to {n}")
        if case["props"]:
            s = entry(study.property_sensitivities, n, "property")
            require(set(s) == set(veh.properties), f"properties {sorted(s)}")
            for k in veh.properties:
                d = (w.properties[k] - veh.properties[k]) / dp
                close(s[k], d, 1e-9 * (1 + abs(veh.properties[k])) * (1 + 1 / abs(dp)), f"{k} with respect to {n}")
    if "dens" not in case:
        require(not study.scalar_sensitivities, "scalar sensitivities without an analysis")
    if not case["props"]:
        require(not study.property_sensitivities, "property sensitivities without properties")


def differences(case, ctx):
    make = constructor(case)
    study, got = run(case, make)
    veh, pert = instances(case, make)
    tables(case, study, got, veh, pert)
    scalars(case, study, veh, pert)
    for c, d in zip(study.nominal_vehicle_instance.components, veh.components):
        close(mesh_of(c), mesh_of(d), 1e-6 * (1 + np.abs(mesh_of(d)).max()), "nominal vehicle of the study")
    ctx.label(f"{len(case['P'])} parameters")
    ctx.label(f"{len(case['comps'])} components")
    for k in ("dens", "props", "over"):
        if case.get(k):
            ctx.label({"dens": "analysed", "props": "properties", "over": "overrides"}[k])
    if len(case["P"]) < 2 and len(case["comps"]) < 2:
        ctx.skip("one parameter and one component")


# --------------------------------------------------------- exact derivatives


def linear(case, ctx):
    """Geometry linear in the parameters: the reported value is the derivative
    worked out by hand, whatever the perturbation."""
    make = constructor(case)
    study, _ = run(case, make)
    shift = case["over"].get("shift", 0.0)
    for c, df in zip(case["comps"], tables_of(study).values()):
        x = np.stack([column(df, a, "table") for a in "xyz"], axis=1)
        at = np.array(scaled_revolved_shift(c["c"], [shift, 0.0, 0.0]))
        for (n, v), G, H in zip(case["P"], c["G"], c["H"]):
            g = np.array(scaled_revolved_shift(c["c"], G))
            want = g + H / v * (x - at)
            got = np.stack([column(df, f"d{a}d{n}", "table") for a in "xyz"], axis=1)
            dp = abs(v * case["pert"] / 100)
            size = 1 + np.abs(x).max() + np.abs(g).max() * dp
            close(got, want, 1e-5 * (1 + np.abs(want).max()) + 1e-6 * size / dp, f"derivative of a {c['c']['k']} with respect to {n}")
    for k, p in enumerate(case["props"]):
        if len(case["P"]) > 1 or p[-2] == 0:
            for (n, v), a in zip(case["P"], p):
                # the product term needs two parameters to change at once
                if len(case["P"]) > 1:
                    s = entry(study.property_sensitivities, n, "property")
                    require(f"prop{k}" in s, f"prop{k} is not among {sorted(s)}")
                    close(s[f"prop{k}"], a, 1e-7 * (1 + abs(v)) * (1 + 100 / abs(v * case["pert"])), f"derivative of prop{k} with respect to {n}")
    ctx.label(f"{len(case['P'])} parameters")
    if not any(any(c["H"]) or np.any(c["G"]) for c in case["comps"]):
        ctx.skip("nothing moves")


# ------------------------------------------------------- touching children


@st.composite
def touching_case(draw):
    """Two blocks with a common face, each with parameters of its own."""
    return {
        "P": [["width", draw(num(0.5, 2))], ["x", draw(num(0.5, 2))]],
        "r": draw(num(0.25, 2)),
        "axis": draw(st.integers(0, 2)),
        "G": [[draw(num(-1, 1)) for _ in range(3)] for _ in range(2)],
        "swap": draw(st.booleans()),
        "res": draw(st.integers(1, 3)),
        "pert": draw(st.sampled_from([5, 1, 20])),
        "over": {},
        "comps": [{"o": {}}],
        "props": [],
    }


def touching(case, ctx):
    """Vertices in the same place that move apart are all reported."""
    from hypervehicle import Vehicle
    from hypervehicle.generator import Generator

    nominal = dict(map(tuple, case["P"]))

    class Made(Generator):
        def __init__(self, **kw):
            for n, v in nominal.items():
                setattr(self, n, v)
            super().__init__(**kw)

        def create_instance(self):
            children = []
            for i, (n, v) in enumerate(nominal.items()):
                at = np.zeros(3)
                at[case["axis"]] = 2 * case["r"] * i
                at += (getattr(self, n) - v) * np.array(case["G"][i])
                children.append({"c": {"k": "cube", "r": case["r"], "c": at.tolist(), "res": case["res"]}, "o": {}})
            if case["swap"]:
                children.reverse()
            veh = Vehicle()
            veh.configure(name="veh", verbosity=0)
            veh.add_component(build_component({"k": "composite", "children": children, "res": case["res"]}))
            return veh

    study, got = run(case, Made)
    veh, pert = instances(case, Made)
    tables(case, study, got, veh, pert)
    if not (any(case["G"][0]) and any(case["G"][1])):
        ctx.skip("a block stays")


# ------------------------------------------------------- order and repetition


@st.composite
def order_case(draw):
    c = draw(study_case(params=(2, 4), comps=(1, 2), options=False))
    c["perm"] = draw(st.permutations(range(len(c["P"]))))
    c["keep"] = draw(st.integers(1, len(c["P"])))
    c["again"] = draw(st.booleans())
    return c


def order(case, ctx):
    """Each parameter's table is the same in any order and beside any others;
    a second study with the same object replaces the first."""
    make = constructor(case)
    study, first = run(case, make)
    want = {n: [np.array(df.values, float) for df in first[n].values()] for n, _ in case["P"]}
    P = [case["P"][i] for i in case["perm"]][: case["keep"]]
    params = dict(map(tuple, P))
    if case["again"]:
        other = study
    else:
        from hypervehicle.utilities import SensitivityStudy

        other = SensitivityStudy(make, verbosity=0)
    over = {**dict(map(tuple, case["P"])), **case["over"]}
    for n in params:
        over.pop(n)
    got = other.dvdp(params, overrides=over, perturbation=case["pert"], write_nominal_stl=False)
    require(list(got) == list(params), f"parameters {list(got)} instead of {list(params)}")
    for n in params:
        for i, df in enumerate(got[n].values()):
            rows = np.array(df.values, float)
            require(rows.shape == want[n][i].shape, f"{n}: table of {rows.shape} instead of {want[n][i].shape}")
            close(rows, want[n][i], 1e-7 * (1 + np.abs(want[n][i]).max()), f"{n}, component {i}, beside {list(params)}")
    for i, df in enumerate(tables_of(other).values()):
        cols = ["x", "y", "z"] + [f"d{a}d{n}" for n in params for a in "xyz"]
        require(list(df.columns) == cols, f"component {i}: columns {list(df.columns)} instead of {cols}")
    for s in (other.scalar_sensitivities, other.property_sensitivities):
        require(not s or list(s) == list(params), f"results for {list(s)} instead of {list(params)}")
    ctx.label(f"{len(P)} of {len(case['P'])}")
    ctx.label("same study" if case["again"] else "new study")
    if list(params) == [n for n, _ in case["P"]]:
        ctx.skip("same order")


# ------------------------------------------------------------- nominal output


@st.composite
def files_case(draw):
    c = draw(study_case(params=(1, 1), comps=(1, 3), named=True))
    c["prefix"] = draw(st.sampled_from([None, "pre"]))
    c["write"] = draw(st.booleans())
    return c


def files(case, ctx):
    make = constructor(case)
    with own_directory():
        run(case, make, write_nominal_stl=case["write"], nominal_stl_prefix=case["prefix"])
        have = sorted(f for f in os.listdir(".") if f.endswith(".stl"))
        pre = f"{case['prefix']}-" if case["prefix"] else ""
        want = sorted(f"{pre}{part(i)}.stl" for i in range(len(case["comps"]))) if case["write"] else []
        require(have == want, f"files {have} instead of {want}")
        if case["write"]:
            veh, _ = instances({**case, "P": case["P"][:1]}, make)
            for i, c in enumerate(veh.components):
                close(read_stl(f"{pre}{part(i)}.stl"), mesh_of(c), 1e-6 * (1 + np.abs(mesh_of(c)).max()), f"file of component {i}")
    ctx.label("written" if case["write"] else "not written")
    if not case["write"]:
        ctx.skip("nothing written")


FACETS = [
    Facet("differences", study_case, differences, 25, rule="more than one parameter or component"),
    Facet("differences2", study_case, differences, 25, rule="more than one parameter or component"),
    Facet("analysed", lambda: study_case(named=True, analysed=True), differences, 25, rule="more than one parameter or component"),
    Facet("linear", lambda: study_case(linear=True, options=False), linear, 40, rule="some parameter moves the geometry"),
    Facet("touching", touching_case, touching, 25, rule="both blocks move"),
    Facet("order", order_case, order, 15, rule="other order or selection of parameters"),
    Facet("order2", order_case, order, 15, rule="other order or selection of parameters"),
    Facet("files", files_case, files, 20, rule="files were written"),
]
