"""C24: scenario groups."""
import io
import shutil
import tempfile
from pathlib import Path

import pandas as pd

from andromede.simulation import build_problem
from andromede.study.parsing import parse_scenario_builder, parse_yaml_components
from andromede.study.resolve_components import build_scenarized_data_base

from vf import lpstub, spec
from vf.harness import Harness
from vf.props.c23 import Dir
from vf.spec import C, Data, MSpec, Study, V

prepare_symbolic = lpstub.install
X, P, Q, R = ("var", "x"), ("par", "p"), ("par", "q"), ("par", "r")


def yaml(comps, nodes, groups, pgroups, kinds, wrong=None):
    out = ["system:"]
    for title, which in (("nodes", nodes), ("components", [c for c in comps if c not in nodes])):
        out.append(f"  {title}:" if which else f"  {title}: []")
        for c in which:
            out += [f"    - id: {c}", "      model: lib.m"]
            if groups.get(c):
                out.append(f"      scenario-group: {groups[c]}")
            out.append("      parameters:")
            for p, k in kinds.items():
                out.append(f"        - id: {p}")
                if k in ("time", "ts"):
                    out.append("          time-dependent: true")
                if k in ("scen", "ts"):
                    out.append("          scenario-dependent: true")
                if pgroups.get((c, p)):
                    out.append(f"          scenario-group: {pgroups[(c, p)]}")
                out.append(f"          value: {'1' if k == 'const' else c + '_' + p}")
    return "\n".join(out) + "\n"


def builder_csv(maps, interleave):
    rows = [(g, y, s) for g, m in maps.items() for y, s in m.items()]
    if interleave:
        rows.sort(key=lambda r: (r[1], r[0]))
    return rows


def h_groups(ctx, years, ncols, T):
    """Each value is taken in the column given by the group of the parameter, else of the component, else in the year's own column."""
    ids = ["A", "N"]
    nodes = ctx.pick("nodes", [[], ["N"], ["A", "N"]])
    groups = {c: ctx.pick("g" + c, [None, "g1", "g2"] + (["g3"] if c == "N" else [])) for c in ids}
    kinds = {"p": "ts", "q": "scen", "r": "time"}
    which = ctx.pick("which", ["p", "q", "r"])
    pgroups = {("A", which): ctx.pick("pg", [None, "g1", "g2"])}
    maps = {g: {y: int(ctx.int(f"{g}_{y}", 0, ncols - 1)) for y in range(years)} for g in ("g1", "g2")}
    maps["g3"] = {y: (y + 1) % ncols for y in range(years)}
    # raw tables: one column per scenario
    raw = {}
    for c in ids:
        for p, k in kinds.items():
            raw[(c, p)] = spec.data_for(ctx, c + p, (True, True), T, ncols, spec.NZ, 1000, k)
    files = {}
    for (c, p), d in raw.items():
        files[f"{c}_{p}"] = d.v if d.kind == "ts" else [d.v] if d.kind == "scen" else [[x] for x in d.v]
    rows = builder_csv(maps, ctx.flag("interleave"))
    with Dir(files) as d:
        (d / "scenariobuilder.dat").write_text("".join(f"{g},{y},{s}\n" for g, y, s in rows))
        sb = parse_scenario_builder(d / "scenariobuilder.dat")
        db = build_scenarized_data_base(parse_yaml_components(io.StringIO(yaml(ids, nodes, groups, pgroups, kinds))), sb, d)
    ref = {}
    for (c, p), dt in raw.items():
        g = pgroups.get((c, p)) or groups[c]
        m = maps[g] if g else {y: y for y in range(min(years, ncols))}
        for y in m:
            for t in range(T):
                got = db.get_data(c, p).get_value(t, y)
                ctx.check_close(got, dt.at(t, m[y]), f"{c}.{p} at timestep {t}, year {y} (group {g})")
    ctx.cover("end")


def h_problem(ctx, T, S):
    """A problem built on scenario groups uses, for each scenario, the columns of the groups."""
    maps = {g: {y: int(ctx.int(f"{g}_{y}", 0, S - 1)) for y in range(S)} for g in ("g1", "g2")}
    groups = {"A": "g1", "N": ctx.pick("gN", ["g2", None])}
    kinds = {"p": "ts", "q": "scen", "r": "time"}
    m = MSpec("m", params={"p": (True, True), "q": (False, True), "r": (True, False)}, vars={"x": V((True, True), None, P)}, constraints=[C("c", ("*", Q, X), "<=", R)], obj=("expec", ("sumall", ("*", P, X))))
    raw = {(c, p): spec.data_for(ctx, c + p, st, T, S, spec.NZ, 1000, kinds[p]) for c in groups for p, st in m.params.items()}
    files = {f"{c}_{p}": d.v if d.kind == "ts" else [d.v] if d.kind == "scen" else [[x] for x in d.v] for (c, p), d in raw.items()}
    with Dir(files) as d:
        sb = pd.DataFrame(builder_csv(maps, True), columns=["name", "year", "scenario"])
        db = build_scenarized_data_base(parse_yaml_components(io.StringIO(yaml(groups, ["N"], groups, {}, kinds))), sb, d)
    values = {}
    for (c, p), dt in raw.items():
        mp = maps[groups[c]] if groups[c] else {y: y for y in range(S)}
        values[(c, p)] = Data(
            dt.kind,
            dt.v if dt.kind == "time" else [dt.v[mp[s]] for s in range(S)] if dt.kind == "scen" else [[dt.v[t][mp[s]] for s in range(S)] for t in range(T)],
        )
    st = Study({"A": m, "N": m}, ("N",), values=values)
    problem = build_problem(st.network(), db, spec.block(range(T)), S)
    spec.check_problem(ctx, problem, spec.expected(st, list(range(T)), S))
    ctx.cover("end")


def h_invalid(ctx):
    """Unknown groups and years given twice are refused."""
    case = ctx.pick("case", ["ok", "component", "parameter", "twice"])
    rows = [("g1", 0, 1), ("g1", 1, 0)]
    if case == "twice":
        rows.append(("g1", ctx.pick("y", [0, 1]), ctx.pick("s", [0, 1])))
    groups = {"A": "nothing" if case == "component" else "g1"}
    pgroups = {("A", "p"): "nothing"} if case == "parameter" else {}
    try:
        with Dir({"A_p": [[1.0, 2.0]]}) as d:
            build_scenarized_data_base(
                parse_yaml_components(io.StringIO(yaml(["A"], [], groups, pgroups, {"p": "scen"}))), pd.DataFrame(rows, columns=["name", "year", "scenario"]), d
            )
        ctx.check(case == "ok", f"accepted: {case}")
        ctx.cover("ok")
    except (ValueError, KeyError):
        ctx.check(case != "ok", "valid groups were refused")
        ctx.cover("refused")


HARNESSES = [
    Harness(
        "groups",
        h_groups,
        "two components or nodes, three parameters, three groups given per component or per parameter, symbolic year to scenario maps and symbolic values",
        quick=dict(years=2, ncols=2, T=2),
        thorough=dict(years=3, ncols=2, T=2),
        covers=["end"],
    ),
    Harness("problem", h_problem, "whole problems on scenario groups, symbolic maps", quick=dict(T=2, S=2), thorough=dict(T=2, S=3), covers=["end"]),
    Harness("invalid", h_invalid, "unknown groups, years given twice", covers=["ok", "refused"]),
]
