"""C30: running an expansion reports what the external solver did."""
import json
import os
import shutil
import tempfile
from pathlib import Path

from andromede import utils
from andromede.simulation.benders_decomposed import build_benders_decomposed_problem
from andromede.simulation.runner import CommandRunner
from andromede.simulation.output_values import BendersDecomposedSolution, BendersMergedSolution

from vf import lpstub, sym
from vf.harness import Harness
from vf.trees import Pathway

ASSUMPTIONS = ["the solver binaries are replaced by scripts that record how they are called, produce a given result file and a given exit code"]


def prepare_symbolic():
    lpstub.install()
    real = json.load

    def value(v):
        if isinstance(v, dict):
            return {k: value(x) for k, x in v.items()}
        return sym._TOKENS.get(v, v) if isinstance(v, str) else v

    json.load = lambda f, **k: value(real(f, **k))


SCRIPT = """#!/bin/sh
pwd > "{root}/ran"
echo "{name}" "$@" >> "{root}/ran"
ls >> "{root}/ran"
if [ -f "{root}/outcome" ]; then mkdir -p {out}; cp "{root}/outcome" {out}/out.json; fi
exit $(cat "{root}/code")
"""
FIELDS = dict(
    overall_cost="overall_cost",
    investment_cost="investment_cost",
    operational_cost="operational_cost",
    absolute_gap="optimality_gap",
    relative_gap="relative_gap",
)


def outcome(ctx, name):
    sol = {k: ctx.real(name + k, -100, 100) for k in FIELDS.values()}
    sol["values"] = {k: ctx.real(name + k, 0, 100) for k in (("cand_a", "cand_b") if ctx.flag(name + "cands") else ("cand_b",))}
    sol.update(problem_status="OPTIMAL", stopping_criterion="gap", lb=ctx.real(name + "lb", 0, 9), ub=ctx.real(name + "ub", 0, 9), iteration=7 + len(name))
    return {"solution": sol, "run_duration": ctx.real(name + "dur", 0, 9)}


def _text(d):
    return json.dumps(d, default=str)


def h_run(ctx, nruns, codes):
    p = Pathway(ctx, "single")
    p.build_tree()
    b = build_benders_decomposed_problem(p.nodes[0], p.database())
    root = Path(tempfile.mkdtemp(prefix="vf_")).resolve()
    old = os.getcwd()
    try:
        os.chdir(root)
        (root / "bin").mkdir()
        out = ctx.pick("out", ["expansion", "results"])
        for n in ("benders", "merge_mps"):
            f = root / "bin" / n
            f.write_text(SCRIPT.format(root=root, name=n, out=out))
            f.chmod(0o755)
        b.emplacement = root / "lp" if ctx.flag("absolute") else Path("lp")
        b.output_path = Path(out)
        last = None
        for r in range(nruns):
            merge = ctx.flag(f"merge{r}")
            code = ctx.pick(f"code{r}", codes)
            written = r > 0 or ctx.flag("written")
            data = outcome(ctx, f"r{r}")
            (root / "code").write_text(str(code))
            if written:
                (root / "outcome").write_text(_text(data))
            if (root / "ran").exists():
                (root / "ran").unlink()
            ok = b.run(solver_name="COIN", log_level=1, should_merge=merge)
            ctx.check(ok is (code == 0), f"run {r} returned {ok} with exit code {code}")
            ctx.check(os.getcwd() == str(root), "the working directory has changed")
            ctx.check((root / "ran").exists(), "no solver was run")
            cwd, call, *files = (root / "ran").read_text().splitlines()
            ctx.check(cwd == str(root / "lp"), f"run in {cwd}")
            ctx.check(call == ("merge_mps" if merge else "benders") + " options.json", f"called: {call}")
            want = {"options.json", "structure.txt"} | {f"{q.name}.mps" for q in [b.master, *b.subproblems]}
            ctx.check(want <= set(files), f"files of the run: {files}")
            opts = json.loads((root / "lp" / "options.json").read_text())
            ctx.check(opts["JSON_FILE"] == f"{out}/out.json" and opts["SOLVER_NAME"] == "COIN" and opts["LOG_LEVEL"] == 1, "options")
            if code == 0 and written:
                last = (merge, data)
            s = b.solution
            if last is None:
                ctx.check(s is None, "a solution without result")
                continue
            merged, d = last
            ctx.check(isinstance(s, BendersMergedSolution if merged else BendersDecomposedSolution), f"kind of solution: {type(s).__name__}")
            for a, k in FIELDS.items():
                ctx.check_close(getattr(s, a), d["solution"][k], a)
            ctx.check(set(s.candidates) == set(d["solution"]["values"]), "candidates")
            for k, v in d["solution"]["values"].items():
                ctx.check_close(s.candidates[k], v, f"candidate {k}")
            ctx.check(s.status == "OPTIMAL" and s.stopping_criterion == "gap", "status")
            if merged:
                ctx.check_close(s.lower_bound, d["solution"]["lb"], "lower bound")
                ctx.check_close(s.upper_bound, d["solution"]["ub"], "upper bound")
                ctx.cover("merged")
            else:
                ctx.check(s.nb_iterations == d["solution"]["iteration"], "iterations")
                ctx.check_close(s.duration, d["run_duration"], "duration")
                ctx.cover("decomposed")
        ctx.cover("end")
    finally:
        os.chdir(old)
        shutil.rmtree(root)


def h_command(ctx, codes):
    """Any command is run where it must be, with its arguments, and its exit code is returned."""
    root = Path(tempfile.mkdtemp(prefix="vf_")).resolve()
    old = os.getcwd()
    try:
        os.chdir(root)
        (root / "bin").mkdir()
        (root / "there" / "deep").mkdir(parents=True)
        f = root / "bin" / "tool"
        f.write_text(f'#!/bin/sh\npwd > "{root}/ran"\nfor a in "$@"; do echo "$a" >> "{root}/ran"; done\nexit {ctx.pick("code", codes)}\n')
        f.chmod(0o755)
        code = int(f.read_text().split()[-1])
        args = ctx.pick("args", [[], ["a"], ["options.json", "--level"], ["a b", "c", "$HOME", "*"]])
        where = root / "there" / "deep" if ctx.flag("absolute") else Path("there/deep")
        runner = CommandRunner(root / "bin" / "tool" if ctx.flag("absolute_command") else Path("bin/tool"), args, where)
        for _ in range(1 + ctx.choose("again", 2)):
            if (root / "ran").exists():
                (root / "ran").unlink()
            got = runner.run()
            ctx.check(got == code, f"returned {got}, the command returned {code}")
            ctx.check(os.getcwd() == str(root), "the working directory has changed")
            ctx.check((root / "ran").exists(), "the command was not run")
            ctx.check((root / "ran").read_text().splitlines() == [str(root / "there" / "deep"), *args], "how the command was run")
        ctx.cover("end")
    finally:
        os.chdir(old)
        shutil.rmtree(root)


HARNESSES = [
    Harness(
        "commands",
        h_command,
        "a command with up to 4 arguments (spaces and special characters), run once or twice from an absolute or relative directory, exit codes of the list",
        quick=dict(codes=[0, 1, 3, 255]),
        covers=["end"],
    ),
    Harness(
        "runs",
        h_run,
        "nruns successive runs of one decomposition, merged or not, any exit code of the list, result file present or not, symbolic results",
        quick=dict(nruns=2, codes=[0, 1, 3]),
        thorough=dict(nruns=3, codes=[0, 1, 3, 255]),
        covers=["end", "merged", "decomposed"],
    ),
]
