"""C08: exported and mapped sensitivity data attach each value to the right point."""

import copy
import os
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st

from hv.checks.c05 import own_directory
from hv.checks.c07 import NAMES, constructor, part, run, study_case, tables_of
from hv.core import Facet
from hv.gen import num
from hv.oracle import close, must_raise, require

ALL = "all_components_sensitivity.csv"


def read_csv(path, index=None):
    import pandas as pd

    require(os.path.isfile(path), f"no file {path}")
    return pd.read_csv(path, index_col=index)


# ----------------------------------------------------------------- csv export


@st.composite
def export_case(draw):
    c = draw(study_case(named=True, params=(1, 3), comps=(1, 3), options=False))
    if draw(st.integers(0, 2)) > 0:
        c["dens"] = [draw(num(0.5, 20)) for _ in c["comps"]]
    c["dir"] = draw(st.sampled_from([None, "out", "old"]))
    return c


def export(case, ctx):
    make = constructor(case)
    study, _ = run(case, make)
    tables = {k: df.copy() for k, df in tables_of(study).items()}
    scalars, props = copy.deepcopy(study.scalar_sensitivities), copy.deepcopy(study.property_sensitivities)
    parts = copy.deepcopy(study.component_scalar_sensitivities)
    with own_directory() as here:
        if case["dir"] == "old":
            # files of an earlier study in the same place
            os.mkdir("old")
            for f in (f"{part(0)}_sensitivity.csv", ALL, "other.csv"):
                with open(os.path.join("old", f), "w") as h:
                    h.write("x,y,z,dxdq,dydq,dzdq\n1,2,3,4,5,6\n")
        got = study.to_csv() if case["dir"] is None else study.to_csv(case["dir"])
        d = case["dir"] or "."
        require(os.path.abspath(got) == os.path.join(os.path.abspath(here if case["dir"] is None else d), ALL), f"returned path {got}")
        for k, df in tables.items():
            require((tables_of(study)[k].values == df.values).all(), "exporting changed the study")
            same_table(os.path.join(d, f"{k}_sensitivity.csv"), list(df.columns), df.values, f"table of {k}")
        cols = list(next(iter(tables.values())).columns)
        same_table(os.path.join(d, ALL), cols, np.concatenate([t.values for t in tables.values()]), "combined table")
        want = {ALL} | {f"{k}_sensitivity.csv" for k in tables}
        have = {f for f in os.listdir(d) if f.endswith(".csv")}
        require(have - {"other.csv"} == want, f"files {sorted(have)} instead of {sorted(want)}")
        sd = os.path.join(d, "scalar_sensitivities")
        require(os.path.isdir(sd) == bool(scalars or props), "directory of scalar sensitivities")
        if scalars:
            vm = read_csv(os.path.join(sd, "volmass_sensitivity.csv"), 0)
            require(list(vm.columns) == list(scalars), f"columns {list(vm.columns)} of the mass table")
            for p, t in parts.items():
                require(len(vm) == t.size, f"{len(vm)} rows in the mass table")
                for comp in t.index:
                    for k in t.columns:
                        require(f"{comp}_{k}" in vm.index, f"no row {comp}_{k} in the mass table")
                        close(vm.loc[f"{comp}_{k}", p], t.loc[comp, k], 1e-9 * (1 + abs(t.loc[comp, k])), f"{k} of {comp} for {p}")
            for p in scalars:
                for k in ("cog", "moi"):
                    f = os.path.join(sd, f"{p}_{k}_sensitivity.txt")
                    require(os.path.isfile(f), f"no file {f}")
                    v = np.fromfile(f, sep=", ")
                    w = np.asarray(scalars[p][k], float).ravel()
                    close(v, w, 1e-9 * (1 + np.abs(w).max()), f"{k} for {p}")
            ctx.label("analysed")
        if props:
            t = read_csv(os.path.join(sd, "property_sensitivity.csv"), 0)
            for p in props:
                for k in props[p]:
                    require(k in t.index and p in t.columns, f"no {k} for {p} in the property table")
                    close(t.loc[k, p], props[p][k], 1e-9 * (1 + abs(props[p][k])), f"{k} for {p}")
            ctx.label("properties")
    ctx.label(str(case["dir"]))
    if len(case["P"]) < 2 and len(case["comps"]) < 2:
        ctx.skip("one parameter and one component")


def same_table(path, cols, values, what):
    require(os.path.isfile(path), f"{what}: no file {os.path.basename(path)}")
    df = read_csv(path)
    require(list(df.columns) == cols, f"{what}: columns {list(df.columns)} instead of {cols}")
    require(len(df) == len(values), f"{what}: {len(df)} rows instead of {len(values)}")
    close(df.values, values, 1e-12 * (1 + np.abs(values).max()), what)


def unready(case, ctx):
    from hypervehicle.utilities import SensitivityStudy

    with own_directory():
        must_raise(lambda: SensitivityStudy(constructor(case), verbosity=0).to_csv(), "export before the study")
        require(os.listdir(".") == [], "files written before the study")


# ------------------------------------------------------- mapping to a surface


@st.composite
def map_case(draw):
    names = draw(st.permutations(NAMES))[: draw(st.integers(1, 3))]
    n = draw(st.integers(1, 25))
    # vertices on a lattice far coarser than any tolerance used
    cells = draw(st.lists(st.integers(0, 7**3 - 1), min_size=n, max_size=n, unique=True))
    comp = [draw(st.integers(0, 2)) for _ in range(n)]
    m = draw(st.integers(1, 30))
    return {
        "names": names,
        "cells": cells,
        "comp": comp,
        "seed": draw(st.integers(0, 2**32 - 1)),
        "tol": draw(st.sampled_from([None, 1e-5, 1e-3, 1e-2])),
        "round": draw(st.sampled_from([None, 1e-8, 1e-3])),
        # a vertex of the tables, displaced by part of the tolerance, or a stray point
        "pts": [
            [draw(st.integers(-1, n - 1)), draw(st.sampled_from([0.0, 0.0, 0.4, -0.7, 3.0]))]
            for _ in range(m)
        ],
        "out": draw(st.sampled_from([None, "out", "have"])),
        "fn": draw(st.sampled_from([None, None, "combined.csv"])),
        "stale": draw(st.sampled_from([None, "here", "away"])),
        "older": draw(st.booleans()),
        "swap": draw(st.booleans()),
        "twice": draw(st.booleans()),
        "blank": draw(st.booleans()),
    }


TRI = """<?xml version="1.0"?>
<VTKFile type="UnstructuredGrid" version="0.1">
<UnstructuredGrid>
<Piece NumberOfPoints="{n}" NumberOfCells="{c}">
<Points>
<DataArray Name="Points" type="Float64" NumberOfComponents="3" format="ascii">{pts}</DataArray>
</Points>
<Cells><DataArray Name="connectivity" type="Int32" format="ascii">
 0 0 0
</DataArray></Cells>
{extra}</Piece>
</UnstructuredGrid>
</VTKFile>
"""


def text_of(e):
    return (e.tag, tuple(sorted(e.attrib.items())), (e.text or "").strip(), tuple(text_of(c) for c in e))


def numbers(text):
    return np.array([float(v) for v in text.split()]).reshape(-1, 3)


def mapped(case, ctx):
    import pandas as pd
    from hypervehicle.utilities import append_sensitivities_to_tri

    r = np.random.default_rng(case["seed"])
    names = case["names"]
    tol = case["tol"] or 1e-5
    low = case["round"] or 1e-8
    n = len(case["cells"])
    at = np.array([[c % 7, c // 7 % 7, c // 49] for c in case["cells"]]) * 0.5 - 1.5
    at = at + r.uniform(-0.1, 0.1, at.shape)
    val = r.normal(size=(n, 3 * len(names))) * 10.0 ** r.integers(-4, 3, (n, 1))
    val[r.uniform(size=val.shape) < 0.1] = 0.0
    val[r.uniform(size=val.shape) < 0.1] *= low * 0.01
    cols = ["x", "y", "z"] + [f"d{a}d{p}" for p in names for a in "xyz"]
    pts, src = [], []
    for k, off in case["pts"]:
        if k < 0:
            pts.append(r.uniform(10, 20, 3))
            src.append(None)
        else:
            # displaced along one axis or all of them
            d = off * tol * (np.ones(3) if r.integers(2) else np.eye(3)[r.integers(3)])
            pts.append(at[k] + d * np.where(r.uniform(size=3) < 0.5, -1, 1))
            src.append(k if abs(off) < 1 else None)
    pts = np.array(pts)
    with own_directory():
        files = []
        for c in sorted(set(case["comp"])):
            pick = [i for i in range(n) if case["comp"][i] == c]
            df = pd.DataFrame(np.concatenate([at[pick], val[pick]], axis=1), columns=cols)
            if case["swap"] and files and len(names) > 1:
                # the same columns with the parameters in another order
                df = df[cols[:3] + cols[6:] + cols[3:6]]
            f = f"part{c}_sensitivity.csv"
            df.to_csv(f, index=False)
            files.append(f)
        fn = case["fn"] or ALL
        if case["stale"]:
            # a combined table from an earlier run, with other values
            if case["stale"] == "away":
                os.mkdir("away")
            f = os.path.join("away", fn) if case["stale"] == "away" else fn
            pd.DataFrame(np.concatenate([at, val + 1], axis=1), columns=cols).to_csv(f, index=False)
            files.insert(int(r.integers(len(files) + 1)), f)
            ctx.label("stale combined table")
        body = "\n " + "\n ".join("\t".join(f"{v:.14e}" for v in p) for p in pts) + "\n"
        if case["blank"]:
            body += "\n \n"
        older = '<PointData><DataArray Name="old_sens" NumberOfComponents="3">' + "0 1 2 " * len(pts) + "</DataArray></PointData>\n"
        with open("Components.i.tri", "w") as h:
            h.write(TRI.format(n=len(pts), c=1, pts=body, extra=older if case["older"] else ""))
        before = ET.parse("Components.i.tri").getroot()
        kw = {"verbosity": 0}
        if case["tol"]:
            kw["match_tolerance"] = case["tol"]
        if case["round"]:
            kw["rounding_tolerance"] = case["round"]
        if case["fn"]:
            kw["combined_sens_fn"] = case["fn"]
        if case["out"]:
            kw["outdir"] = case["out"]
            if case["out"] == "have":
                os.mkdir("have")
        keep = list(files)
        frac = append_sensitivities_to_tri(files, "Components.i.tri", **kw)
        require(files == keep, f"caller's list of files changed to {files}")
        hits = [s is not None for s in src]
        close(frac, sum(hits) / len(pts), 1e-12, "matched fraction")
        want = np.zeros((len(pts), 3 * len(names)))
        for i, s in enumerate(src):
            if s is not None:
                want[i] = np.where(np.abs(val[s]) < low, 0.0, val[s])
        after = ET.parse("Components.i.tri").getroot()
        compare_tri(before, after, names, want)
        df = read_csv(os.path.join(case["out"] or ".", fn))
        require(set(df.columns) == set(cols), f"columns {list(df.columns)} of the combined table")
        close(df[["x", "y", "z"]].values, pts, 1e-9, "points of the combined table")
        close(df[cols[3:]].values, want, 1e-12 * (1 + np.abs(want).max()), "values of the combined table")
        if case["twice"]:
            # append the first parameter again under another name
            pd.DataFrame(np.concatenate([at, val[:, :3]], axis=1), columns=["x", "y", "z", "dxdagain", "dydagain", "dzdagain"]).to_csv("again.csv", index=False)
            append_sensitivities_to_tri(["again.csv"], "Components.i.tri", **kw)
            compare_tri(after, ET.parse("Components.i.tri").getroot(), ["again"], want[:, :3])
            ctx.label("twice")
    if all(hits):
        ctx.label("all matched")
    elif any(hits):
        ctx.label("some matched")
    else:
        ctx.skip("none matched")


def compare_tri(before, after, names, want):
    a, b = before[0][0], after[0][0]
    require(before.attrib == after.attrib and before[0].attrib == after[0].attrib and a.attrib == b.attrib, "attributes of the file changed")
    for i, e in enumerate(a):
        require(i < len(b) and text_of(e) == text_of(b[i]), f"element {i} ({e.tag}) of the file changed")
    new = [d for e in b[len(a) :] for d in e.iter("DataArray")]
    got = [d.attrib.get("Name") for d in new]
    require(sorted(got) == sorted(f"{p}_sens" for p in names), f"data arrays {got} added for {names}")
    require(all(e.tag == "PointData" for e in b[len(a) :]), "data added elsewhere than to the points")
    for d in new:
        k = [f"{p}_sens" for p in names].index(d.attrib["Name"])
        require(d.attrib.get("NumberOfComponents") == "3", "number of components")
        v = numbers(d.text)
        close(v, want[:, 3 * k : 3 * k + 3], 1e-11 * (1 + np.abs(want).max()), f"values of {names[k]} in the file")


# ------------------------------------------------------------ study to surface


@st.composite
def chain_case(draw):
    c = draw(study_case(named=True, params=(1, 2), comps=(1, 2), options=False))
    c["seed"] = draw(st.integers(0, 2**32 - 1))
    return c


def chained(case, ctx):
    """A study, its export and the mapping onto the vehicle's own vertices in
    any order: every vertex is found, with a value reported for it."""
    from hypervehicle.utilities import append_sensitivities_to_tri

    make = constructor(case)
    study, _ = run(case, make)
    r = np.random.default_rng(case["seed"])
    rows = np.concatenate([df.values for df in tables_of(study).values()])
    pts = rows[r.permutation(len(rows))[:40], :3]
    names = [n for n, _ in case["P"]]
    with own_directory():
        study.to_csv("sens")
        with open("Components.i.tri", "w") as h:
            h.write(TRI.format(n=len(pts), c=1, pts="\n" + "\n".join(" ".join(repr(float(v)) for v in p) for p in pts) + "\n", extra=""))
        files = [os.path.join("sens", f) for f in sorted(os.listdir("sens")) if f.endswith(".csv")]
        frac = append_sensitivities_to_tri(files, "Components.i.tri", outdir="sens", verbosity=0)
        close(frac, 1.0, 0.0, "matched fraction")
        root = ET.parse("Components.i.tri").getroot()
        arrays = {d.attrib["Name"]: numbers(d.text) for e in root[0][0][2:] for d in e.iter("DataArray")}
        require(all(f"{n}_sens" in arrays for n in names), f"data arrays {sorted(arrays)} for {names}")
        got = np.concatenate([arrays[f"{n}_sens"] for n in names], axis=1)
    for p, v in zip(pts, got):
        near = rows[np.abs(rows[:, :3] - p).max(axis=1) < 1e-5, 3:]
        near = np.where(np.abs(near) < 1e-8, 0.0, near)
        d = np.abs(near - v).max(axis=1).min()
        require(d <= 1e-9 * (1 + np.abs(v).max()), f"point {p.tolist()} got {v.tolist()}, not reported for it")
    ctx.label(f"{len(names)} parameters")
    if len(names) < 2 and len(case["comps"]) < 2:
        ctx.skip("one parameter and one component")


FACETS = [
    Facet("export", export_case, export, 40, rule="more than one parameter or component"),
    Facet("unready", lambda: study_case(comps=(1, 1)), unready, 3, rule="every case"),
    Facet("mapped", map_case, mapped, 80, rule="some point is matched"),
    Facet("mapped2", map_case, mapped, 80, rule="some point is matched"),
    Facet("chained", chain_case, chained, 25, rule="more than one parameter or component"),
]
