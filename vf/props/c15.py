"""C15: parameter data."""
import os
import shutil
import tempfile
from pathlib import Path

import pandas as pd

from andromede.model.parameter import Parameter
from andromede.simulation import build_problem
from andromede.study.data import (
    ComponentParameterIndex,
    ConstantData,
    DataBase,
    Scenarization,
    ScenarioIndex,
    ScenarioSeriesData,
    TimeIndex,
    TimeScenarioSeriesData,
    TimeSeriesData,
    TreeData,
    dataframe_to_scenario_series,
    dataframe_to_time_series,
    load_ts_from_txt,
)

from vf import lpstub, spec
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import C, MSpec, Study, V

prepare_symbolic = lpstub.install
KINDS = ["const", "time", "scen", "ts"]
KIND_STRUCT = {"const": (False, False), "time": (True, False), "scen": (False, True), "ts": (True, True)}
X, P = ("var", "x"), ("par", "p")


def _make(ctx, kind, name, nt, ns, mapping=None):
    """Data of this kind and its reference value at (t, s)."""
    d = spec.data_for(ctx, name, KIND_STRUCT[kind], nt, ns, kind=kind)
    real = d.real()
    if mapping is not None and kind == "scen":
        real = ScenarioSeriesData(real.scenario_series, Scenarization(dict(mapping)))
    if mapping is not None and kind == "ts":
        real = TimeScenarioSeriesData(real.time_scenario_series, Scenarization(dict(mapping)))
    return d, real


def h_lookup(ctx, nt, ns):
    """The value at any index is the value that was given for it; an index that is needed and absent is an error."""
    kind = ctx.pick("kind", KINDS)
    mapping = None
    if ctx.flag("scenarized"):
        mapping = {y: int(ctx.int(f"m{y}", 0, ns - 1)) for y in range(ns + 1)}
    d, real = _make(ctx, kind, "d", nt, ns, mapping)
    tree = ctx.flag("tree")
    if tree:
        d2, real2 = _make(ctx, ctx.pick("kind2", KINDS), "e", nt, ns)
        node = ctx.pick("node", ["a", "b"])
        td = TreeData({"a": real, "b": real2})
        if node == "b":
            d, mapping, kind = d2, None, d2.kind
        get = lambda t, s: td.get_value(t, s, node)
    else:
        get = lambda t, s: real.get_value(t, s, ctx.pick("any", ["", "a"]))
    t = None if ctx.flag("no_t") else int(ctx.int("t", 0, nt - 1))
    s = None if ctx.flag("no_s") else int(ctx.int("s", 0, ns - 1))
    need = KIND_STRUCT[kind]
    missing = (need[0] and t is None) or (need[1] and s is None)
    try:
        v = get(t, s)
    except KeyError:
        ctx.check(missing, "an existing value was not found")
        ctx.cover("missing")
        return
    ctx.check(not missing, "a value was returned without the index it depends on")
    ct, cs = (None if t is None else int(t)), (None if s is None else int(s))
    if need[1] and mapping is not None:
        cs = mapping[cs]
    ctx.check_close(v, d.at(ct, cs), f"value at ({ct}, {cs})")
    ctx.cover("found")


NUMBERS = [0.0, 1234567.875, -123456789.0, 1e-12, 0.1, 1 / 3, 1e15, 3, -7]


def h_numbers(ctx, numbers):
    """Values are given back with all their digits."""
    kind = ctx.pick("kind", KINDS + ["file"])
    v, w = ctx.pick("v", numbers), ctx.pick("w", numbers)
    rows = [[v, w], [w, v]]
    if kind == "file":
        d = Path(tempfile.mkdtemp(prefix="vf_"))
        try:
            (d / "f.txt").write_text("\n".join(" ".join(repr(x) for x in r) for r in rows) + "\n")
            rows_ = load_ts_from_txt("f", d)
        finally:
            shutil.rmtree(d)
        real = TimeScenarioSeriesData(rows_)
    else:
        real = {
            "const": lambda: ConstantData(v),
            "time": lambda: TimeSeriesData({TimeIndex(0): v, TimeIndex(1): w}),
            "scen": lambda: ScenarioSeriesData({ScenarioIndex(0): v, ScenarioIndex(1): w}),
            "ts": lambda: TimeScenarioSeriesData(pd.DataFrame(rows)),
        }[kind]()
    want = {"const": lambda t, s: v, "time": lambda t, s: rows[0][t], "scen": lambda t, s: rows[0][s]}.get(kind, lambda t, s: rows[t][s])
    for t in range(2):
        for s in range(2):
            got, ref = float(real.get_value(t, s)), want(t, s)
            ctx.check(abs(got - ref) <= 1e-13 * abs(ref), f"{kind}: {ref!r} was read as {got!r}")
    ctx.cover(kind)


def h_outside(ctx, nt, ns):
    """An index outside the data, or a tree node that has none, is refused: no value is made up."""
    kind = ctx.pick("kind", KINDS)
    mapping = None
    if ctx.flag("scenarized"):
        mapping = {y: int(ctx.int(f"m{y}", 0, ns)) for y in range(ns)}
    d, real = _make(ctx, kind, "d", nt, ns, mapping)
    node = ctx.pick("node", [None, "a", "b", ""])
    data = real if node is None else TreeData({"a": real})
    t, s = int(ctx.int("t", 0, nt + 1)), int(ctx.int("s", 0, ns + 1))
    need = KIND_STRUCT[kind]
    cs = s
    bad = node in ("b", "") or (need[0] and t >= nt)
    if need[1]:
        cs = s if mapping is None else mapping.get(s)
        bad = bad or cs is None or cs >= ns
    try:
        v = data.get_value(t, s, node or "")
    except (KeyError, IndexError):
        ctx.check(bad, "an existing value was not found")
        ctx.cover("refused")
        return
    ctx.check(not bad, f"a value was returned for timestep {t}, scenario {s}, tree node {node}")
    ctx.check_close(v, d.at(t, cs), f"value at ({t}, {cs})")
    ctx.cover("found")


def h_requirement(ctx, depth):
    """Data is accepted for a parameter exactly when it does not depend on more than the parameter does."""

    def mk(level):
        kind = ctx.pick("kind", KINDS + (["tree"] if level else []))
        if kind == "tree":
            subs = [mk(level - 1) for _ in range(ctx.choose("n", 3))]
            st = (any(s[1][0] for s in subs), any(s[1][1] for s in subs))
            return TreeData({f"n{i}": s[0] for i, s in enumerate(subs)}), st
        return _make(ctx, kind, "v", 2, 2)[1], KIND_STRUCT[kind]

    data, st = mk(depth)
    struct = ctx.pick("struct", STRUCTS)
    ok = (struct[0] or not st[0]) and (struct[1] or not st[1])
    r = data.check_requirement(struct[0], struct[1])
    ctx.check(bool(r) == ok, f"data depending on {st} for a parameter depending on {struct}: {r}")
    ctx.cover("ok" if ok else "refused")


def h_tree_windows(ctx, nt, ns):
    """The values of the tree node are used everywhere: coefficients, bounds, shifts and windows."""
    k, x = ("par", "k"), ("var", "x")
    m = MSpec(
        "m",
        params={"p": (True, True), "k": (False, False)},
        vars={"x": V((True, True), ("neg", k), None)},
        constraints=[
            C("c", ctx.pick("e", [("tsum", ("*", P, x), ("neg", k), 0), ("shift", x, k), ("eval", x, k), ("tsum", x, 0, k), ("*", k, x)]), "<=", P),
        ],
        obj=("*", k, ("expec", ("sumall", ("*", P, x)))),
    )
    nodes = ["a", "b"]
    per = {n: {"p": spec.data_for(ctx, "p" + n, (True, True), nt, ns, 1, 100), "k": spec.Data("const", ctx.intreal("k" + n, 0, 2))} for n in nodes}
    where = ctx.pick("tree", [("p", "k"), ("k",), ("p",)])
    db = DataBase()
    for n in m.params:
        db.add_data("G", n, TreeData({t: per[t][n].real() for t in nodes}) if n in where else per["a"][n].real())
    node = ctx.pick("node", nodes)
    st = Study({"G": m}, values={("G", n): per[node if n in where else "a"][n] for n in m.params})
    problem = build_problem(st.network(), db, spec.block(range(nt)), ns, decision_tree_node=node)
    spec.check_problem(ctx, problem, spec.expected(st, list(range(nt)), ns))
    ctx.cover(node)


def h_consistency(ctx):
    """A problem is only built when every parameter of every component and node has suitable data."""
    m = MSpec(
        "m",
        params={"p": ctx.pick("sp", STRUCTS), "q": (False, True)},
        vars={"x": V((True, True))},
        constraints=[C("c", ("*", P, X), "<=", ("par", "q"))],
    )
    bad = ctx.pick("where", [("A", "p"), ("A", "q"), ("N", "p"), ("N", "q")])
    kind = ctx.pick("kind", KINDS + ["absent"])
    values = {}
    for c in ("A", "N"):
        for p, s in m.params.items():
            if (c, p) == bad:
                if kind != "absent":
                    values[(c, p)] = spec.data_for(ctx, c + p, KIND_STRUCT[kind], 2, 2, 1, 10, kind)
            else:
                values[(c, p)] = spec.data_for(ctx, c + p, s, 2, 2, 1, 10)
    need = m.params[bad[1]]
    ok = kind != "absent" and all(need[i] or not KIND_STRUCT[kind][i] for i in (0, 1))
    st = Study({"A": m, "N": m}, ("N",), values=values)
    # data of components that are not in the network does not matter
    db = st.database()
    db.add_data("Z", "p", TimeScenarioSeriesData(pd.DataFrame([[1.0]])))
    try:
        db.requirements_consistency(st.network())
        accepted = True
    except (ValueError, KeyError):
        accepted = False
    ctx.check(accepted == ok, f"{bad} with {kind} data: {'accepted' if accepted else 'refused'}")
    try:
        problem = build_problem(st.network(), db, spec.block([0, 1]), 2)
    except (ValueError, KeyError):
        ctx.check(not ok, "the problem was refused although the data is suitable")
        ctx.cover("refused")
        return
    ctx.check(ok, "the problem was built although the data is not suitable")
    spec.check_problem(ctx, problem, spec.expected(st, [0, 1], 2))
    ctx.cover("built")


def h_database(ctx, N):
    """The database returns, for each (component, parameter), the data last given for it."""
    db, ref = DataBase(), {}
    for i in range(N):
        c, p = ctx.pick("c", ["a", "b", "ab"]), ctx.pick("p", ["x", "y", "bx"])
        d = ConstantData(ctx.real(f"v{i}", -1000, 1000))
        db.add_data(c, p, d)
        ref[(c, p)] = d
    for c in ["a", "b", "ab"]:
        for p in ["x", "y", "bx"]:
            if (c, p) in ref:
                ctx.check(db.get_data(c, p) is ref[(c, p)], "wrong data")
                ctx.check_close(db.get_value(ComponentParameterIndex(c, p), 0, 0), ref[(c, p)].value, "value")
            else:
                for f in (lambda: db.get_data(c, p), lambda: db.get_value(ComponentParameterIndex(c, p), 0, 0)):
                    try:
                        f()
                        ctx.fail(f"data for ({c}, {p}) came from nowhere")
                    except KeyError:
                        pass
    ctx.cover("end")


def h_files(ctx, maxr, maxc):
    """Tables read from text files keep every value at its row (timestep) and column (scenario)."""
    r, c = 1 + ctx.choose("r", maxr), 1 + ctx.choose("c", maxc)
    rows = [[ctx.real(f"v{i}_{j}", -1000, 1000) for j in range(c)] for i in range(r)]
    sep = ctx.pick("sep", [" ", "\t", "   "])
    cells = [[str(v) for v in row] for row in rows]
    if ctx.flag("written"):
        # usual ways to write a number
        i, j = ctx.choose("wi", r), ctx.choose("wj", c)
        cells[i][j], rows[i][j] = ctx.pick("form", [("-5", -5), ("-0.25", -0.25), ("1e3", 1000), ("2.5E-1", 0.25), ("+3", 3), (".5", 0.5), ("007", 7), ("0", 0)])
    d = Path(tempfile.mkdtemp(prefix="vf_"))
    try:
        (d / "my.series.txt").write_text("\n".join(sep.join(row) for row in cells) + "\n")
        df = load_ts_from_txt("my.series", d)
        try:
            load_ts_from_txt("other", d)
            ctx.fail("a missing file was read")
        except FileNotFoundError:
            pass
    finally:
        shutil.rmtree(d)
    ctx.check(df.shape == (r, c), f"table of shape {df.shape}, expected {(r, c)}")
    full = TimeScenarioSeriesData(df)
    for i in range(r):
        for j in range(c):
            ctx.check_close(full.get_value(i, j), rows[i][j], f"value at ({i}, {j})")
    try:
        ts = dataframe_to_time_series(df)
        ctx.check(c == 1, "several columns were accepted as one time series")
        ctx.check(set(ts) == {TimeIndex(i) for i in range(r)}, "timesteps of the series")
        for i in range(r):
            ctx.check_close(TimeSeriesData(ts).get_value(i, None), rows[i][0], f"timestep {i}")
        ctx.cover("time")
    except ValueError:
        ctx.check(c != 1, "a single column was refused")
    try:
        ss = dataframe_to_scenario_series(df)
        ctx.check(r == 1, "several lines were accepted as one scenario series")
        ctx.check(set(ss) == {ScenarioIndex(i) for i in range(c)}, "scenarios of the series")
        for j in range(c):
            ctx.check_close(ScenarioSeriesData(ss).get_value(None, j), rows[0][j], f"scenario {j}")
        ctx.cover("scenario")
    except ValueError:
        ctx.check(r != 1, "a single line was refused")


def h_incomplete(ctx, maxr, maxc):
    """A table in which a value is missing or is not a number."""
    r, c = 2 + ctx.choose("r", maxr - 1), 2 + ctx.choose("c", maxc - 1)
    rows = [[str(ctx.real(f"v{i}_{j}", -1000, 1000)) for j in range(c)] for i in range(r)]
    i, j = ctx.choose("i", r), ctx.choose("j", c)
    what = ctx.pick("what", ["nan", "NA", "abc", "1,5", "short", "long", "only"])
    if what == "short":
        del rows[i][j]
    elif what == "long":
        rows[i].insert(j, "3.5")
    elif what == "only":
        # one scenario more on all lines but one
        rows = [[*row, "1"] if k != i else row for k, row in enumerate(rows)]
    else:
        rows[i][j] = what
    d = Path(tempfile.mkdtemp(prefix="vf_"))
    try:
        (d / "s.txt").write_text("\n".join(" ".join(row) for row in rows) + "\n")
        try:
            data = TimeScenarioSeriesData(load_ts_from_txt("s", d))
            got = [data.get_value(a, b) for a in range(r) for b in range(max(map(len, rows)))]
        except Exception:  # noqa: BLE001
            ctx.cover("refused")
            return
    finally:
        shutil.rmtree(d)
    ctx.fail(f"an incomplete table ({what}) was read: {got}")


def h_frames(ctx, n, hi):
    """Tables made in Python: a time series is read at the labels of its rows, a scenario series at the positions of its columns."""
    k = 1 + ctx.choose("k", n)
    base = ctx.pick("base", [0, 8758, 100000])
    labels = [base + int(ctx.int(f"i{j}", 0, hi)) for j in range(k)]
    ctx.assume(len(set(labels)) == k)
    vals = [ctx.real(f"v{j}", -1000, 1000) for j in range(k)]
    text = ctx.flag("text_labels")
    index = [str(i) for i in labels] if text else labels
    ts = dataframe_to_time_series(pd.DataFrame({"c": vals}, index=index, dtype=object))
    ctx.check(set(ts) == {TimeIndex(i) for i in labels}, f"timesteps of the series {sorted(t.time for t in ts)}, expected {labels}")
    d = TimeSeriesData(ts)
    for i, v in zip(labels, vals):
        ctx.check_close(d.get_value(i, None), v, f"timestep {i}")
    ss = dataframe_to_scenario_series(pd.DataFrame([vals], columns=[f"c{i}" for i in labels] if text else labels, index=[labels[0]], dtype=object))
    ctx.check(set(ss) == {ScenarioIndex(i) for i in range(k)}, "scenarios of the series")
    for j, v in enumerate(vals):
        ctx.check_close(ScenarioSeriesData(ss).get_value(None, j), v, f"scenario {j}")
    ctx.cover("end")


def h_long(ctx, n):
    """A table longer than a year: every timestep has its own value."""
    t = ctx.pick("t", [0, 167, 168, 8735, 8736, 8759, 8760, 8761, n - 1])
    v = ctx.real("v", -1000, 1000)
    other = ctx.real("w", 2000, 3000)
    col = [other] * n
    col[t] = v
    d = TimeScenarioSeriesData(pd.DataFrame({0: [1.0] * n, 1: col}, dtype=object))
    ctx.check_close(d.get_value(t, 1), v, f"value at timestep {t}")
    for u in {max(t - 1, 0), min(t + 1, n - 1), t % 168, t % 8736, t % 8760} - {t}:
        ctx.check_close(d.get_value(u, 1), other, f"value at timestep {u}")
    s = dataframe_to_time_series(pd.DataFrame({1: col}, dtype=object))
    ctx.check(len(s) == n, "length of the series")
    ctx.check_close(TimeSeriesData(s).get_value(t, None), v, f"value at timestep {t}")
    ctx.cover("end")


def h_scenarization(ctx, N):
    """A year is mapped to the scenario given for it; giving a year twice is refused and changes nothing."""
    sc, ref = Scenarization({}), {}
    for i in range(N):
        y, s = int(ctx.int(f"y{i}", 0, 2)), ctx.int(f"s{i}", 0, 5)
        try:
            sc.add_year(y, s)
            ctx.check(y not in ref, "a year was defined twice")
            ref[y] = s
        except ValueError:
            ctx.check(y in ref, "a new year was refused")
            ctx.cover("refused")
    for y, s in ref.items():
        ctx.check(sc.get_scenario_for_year(y) == s, f"scenario of year {y}")
    try:
        sc.get_scenario_for_year(99)
        ctx.fail("an undefined year has a scenario")
    except KeyError:
        pass
    ctx.cover("end")


HARNESSES = [
    Harness(
        "tree_windows",
        h_tree_windows,
        "problems of one of two tree nodes, with data per node for coefficients, bounds, shifts and windows (symbolic whole values 0..2)",
        quick=dict(nt=3, ns=2),
        thorough=dict(nt=4, ns=3),
        covers=["a", "b"],
    ),
    Harness(
        "numbers",
        h_numbers,
        "pairs of 9 numbers of various magnitudes in every kind of data and in a text file",
        quick=dict(numbers=NUMBERS),
        covers=KINDS + ["file"],
    ),
    Harness(
        "lookup",
        h_lookup,
        "the four kinds of data with nt timesteps and ns scenarios, symbolic values, symbolic index (or none), symbolic year to "
        "scenario mapping, alone or in per-tree-node data",
        quick=dict(nt=2, ns=2),
        thorough=dict(nt=4, ns=3),
        covers=["found", "missing"],
    ),
    Harness(
        "outside",
        h_outside,
        "as lookup, with indices, years and tree nodes that the data does not have",
        quick=dict(nt=2, ns=2),
        thorough=dict(nt=3, ns=3),
        covers=["found", "refused"],
    ),
    Harness(
        "requirement",
        h_requirement,
        "the four kinds of data and per-tree-node data (0 to 2 nodes per level, nested `depth` levels) against the four structures",
        quick=dict(depth=1),
        thorough=dict(depth=2),
        covers=["ok", "refused"],
    ),
    Harness("consistency", h_consistency, "a component and a node, two parameters each, one of them with any kind of data or none", covers=["built", "refused"]),
    Harness("database", h_database, "N additions over 9 (component, parameter) pairs", quick=dict(N=2), thorough=dict(N=3), covers=["end"]),
    Harness(
        "files",
        h_files,
        "tables of up to maxr lines and maxc columns of symbolic values, three separators, with one value written in any of 8 usual forms",
        quick=dict(maxr=3, maxc=3),
        thorough=dict(maxr=5, maxc=5),
        covers=["time", "scenario"],
    ),
    Harness("frames", h_frames, "tables of up to n values with any distinct row labels in base..base+hi, base one of 0, 8758 and 100000 (numbers or digits) in any order", quick=dict(n=3, hi=3), thorough=dict(n=4, hi=5), covers=["end"]),
    Harness("long_series", h_long, "series of n timesteps (more than a year) of symbolic values, read at and around the ends of days, weeks and years", quick=dict(n=8790), covers=["end"]),
    Harness("scenarization", h_scenarization, "N additions with symbolic years and scenarios", quick=dict(N=3), thorough=dict(N=4), covers=["end", "refused"]),
    Harness("incomplete_files", h_incomplete, "files of 2 to maxr x 2 to maxc symbolic values with a value missing, in excess or not a number at any place", quick=dict(maxr=3, maxc=3), covers=["refused"]),
]
