"""C20: files of the decomposed problem."""
import json
import shutil
import tempfile
from pathlib import Path

from andromede.simulation.benders_decomposed import BendersDecomposedProblem, build_benders_decomposed_problem
from andromede.simulation.output_values import BendersDecomposedSolution

from vf import lpstub, spec
from vf.harness import Harness
from vf.trees import NAMES, SHAPES, Pathway

prepare_symbolic = lpstub.install
LONG = "a" * 60
NAMES["long"] = ["r" + LONG, "s" + LONG, "t" + LONG, "u" + LONG]


def _lines(text):
    res = []
    for l in text.splitlines():
        if l.strip():
            res.append(tuple(l.split()))
    return res


def _pathway(ctx, shapes, blocks, names):
    p = Pathway(ctx, ctx.pick("shape", shapes), ctx.pick("names", names), blocks=ctx.pick("blocks", blocks), scenarios=ctx.pick("S", [1, 2]), second=ctx.flag("second"), vary=ctx.flag("vary"))
    p.build_tree()
    coup = ctx.pick("coupled", ["none", "last", "all"])
    for i in range(p.n):
        if coup == "all" or (coup == "last" and i == p.n - 1):
            p.couple(i)
    return p


def h_structure(ctx, shapes, blocks, names):
    """The structure file: for each problem, the columns of the variables it shares with the master."""
    p = _pathway(ctx, shapes, blocks, names)
    b = build_benders_decomposed_problem(p.nodes[0], p.database())
    got = _lines(b.export_structure())
    ctx.check(all(len(l) == 3 for l in got), "a line of the structure file does not have three fields")
    exp = set()
    master = {v.name(): v.index() for v in b.master.solver.variables()}
    want = {f"{i}_{c}_{v}" for i in p.ids for c in p.comps for v in ("inv", "maxp")}
    ctx.check(set(master) == want, f"columns of the master: {sorted(master)}")
    for n, i in master.items():
        exp.add(("master", n, str(i)))
    for s in b.subproblems:
        for v in s.solver.variables():
            if v.name() in master:
                exp.add((s.name, v.name(), str(v.index())))
    ctx.check(len(got) == len(set(got)), "a line is repeated")
    ctx.check(set(got) == exp, f"structure file: unexpected {sorted(set(got) - exp)[:3]}, missing {sorted(exp - set(got))[:3]}")
    # every subproblem is linked to the master by its own node's capacity
    for s in b.subproblems:
        linked = {n for q, n, _ in got if q == s.name}
        ctx.check(len(linked) == len(p.comps), f"subproblem {s.name} is linked by {sorted(linked)}")
    ctx.check(b.export_options()["MASTER_NAME"] == "master", "name of the master in the options")
    ctx.cover("end")


def h_files(ctx, shapes, blocks, names):
    """Every problem is written to a file of its own, under the name used in the structure and the options."""
    p = _pathway(ctx, shapes, blocks, names)
    b = build_benders_decomposed_problem(p.nodes[0], p.database())
    d = Path(tempfile.mkdtemp(prefix="vf_"))
    try:
        out = d / ctx.pick("directory", ["lp", "a/b/lp"])
        b.emplacement = out
        if ctx.flag("again"):  # files of an earlier run are there
            b.initialise(solver_name="other", log_level=1, is_debug=ctx.flag("debugged"))
        debug = ctx.flag("debug")
        solver, level = ctx.pick("run", [("COIN", 2), ("XPRESS", 0), ("CBC", 7)])
        b.initialise(solver_name=solver, log_level=level, is_debug=debug)
        options = json.loads((out / "options.json").read_text())
        struct = _lines((out / options["STRUCTURE_FILE"]).read_text())
        ctx.check(sorted(struct) == sorted(_lines(b.export_structure())), "the structure file differs from the structure")
        names_ = {l[0] for l in struct}
        ctx.check((out / (options["MASTER_NAME"] + ".mps")).read_text() == b.master.export_as_mps(), "file of the master")
        ctx.check(options["SOLVER_NAME"] == solver and options["LOG_LEVEL"] == level, "options of the run")
        files = {f.stem for f in out.glob("*.mps")}
        ctx.check(names_ == files, f"problems {sorted(names_)} in the structure, files {sorted(files)}")
        for s in b.subproblems:
            ctx.check((out / (s.name + ".mps")).read_text() == s.export_as_mps(), f"file of {s.name}")
        if debug:
            ctx.check({f.stem for f in out.glob("*.lp")} == files, "debug files")
            ctx.check((out / "master.lp").read_text() == b.master.export_as_lp(), "debug file of the master")
            for s in b.subproblems:
                ctx.check((out / (s.name + ".lp")).read_text() == s.export_as_lp(), f"debug file of {s.name}")
    finally:
        shutil.rmtree(d)
    ctx.cover("end")


def h_empty(ctx):
    """A decomposition without subproblems is refused."""
    p = Pathway(ctx, "single")
    p.build_tree()
    b = build_benders_decomposed_problem(p.nodes[0], p.database())
    try:
        BendersDecomposedProblem(b.master, []).export_structure()
        ctx.fail("a decomposition without subproblems was exported")
    except RuntimeError:
        ctx.cover("refused")


HARNESSES = [
    Harness(
        "structure",
        h_structure,
        "trees of up to 4 nodes, one or two candidates, one or two blocks, couplings or not, short and long (>60 characters) names",
        quick=dict(shapes=["single", "one", "two"], blocks=[((0,),), ((0, 1), (2,))], names=["plain", "prefix", "long"]),
        thorough=dict(shapes=["single", "one", "two", "chain", "mixed"]),
        covers=["end"],
    ),
    Harness(
        "files",
        h_files,
        "as structure; the written files are compared with the problems, in a new directory or one with the files of an earlier run",
        quick=dict(shapes=["single", "two"], blocks=[((0,),), ((0, 1), (2,))], names=["plain"]),
        thorough=dict(shapes=["single", "one", "two", "chain", "mixed"], names=["plain", "prefix"]),
        covers=["end"],
    ),
    Harness("no_subproblem", h_empty, "one", covers=["refused"]),
]
