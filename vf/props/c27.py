"""C27: the command line simulates the study it is given."""
import contextlib
import io
import shutil
import sys
import tempfile
from pathlib import Path

from andromede.main import main as cli
from andromede.main.main import input_database, input_libs, input_study, main_cli
from andromede.simulation import optimization

from vf import lpstub, spec, text
from vf.harness import Harness
from vf.props.c23 import P, PORT, X, Y
from vf.props.c23 import system_yaml
from vf.spec import C, Data, MSpec, Study, V



def prepare_symbolic():
    lpstub.install()
    # the outcome of the solver is not what is checked here
    lpstub.Solver.Solve = lambda self, *a: 0
    lpstub.Obj.Value = lambda self: 42.5


ASSUMPTIONS = ["main_cli is called in process with sys.argv set; the study is written in a scratch directory"]


class Files:
    """A study on disk."""

    def __init__(self):
        self.d = Path(tempfile.mkdtemp(prefix="vf_")).resolve()

    def __enter__(self):
        return self

    def write(self, rel, txt):
        p = self.d / rel
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(txt)
        return str(p)

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def rows_text(rows):
    return "\n".join(" ".join(str(v) for v in r) for r in rows) + "\n"


def run(argv):
    """Runs the command: (problems built, output)."""
    built = []
    real = optimization.OptimizationProblem.__init__

    def init(self, *a, **k):
        built.append(self)
        return real(self, *a, **k)

    out, err, old = io.StringIO(), io.StringIO(), sys.argv
    optimization.OptimizationProblem.__init__ = init
    sys.argv = ["andromede"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main_cli()
    finally:
        sys.argv = old
        optimization.OptimizationProblem.__init__ = real
    return built, out.getvalue()


def specs():
    node = MSpec("node", ports={"port": PORT}, binding=[C("balance", ("pfsum", "port", "f"), "=", ("lit", 0.0))])
    gen = MSpec(
        "gen",
        params={"p": (True, True), "q": (False, False)},
        vars={"x": V((True, True), ("lit", 0.0), ("par", "q"))},
        ports={"port": PORT},
        defs={("port", "f"): X},
        obj=("expec", ("sumall", ("*", P, X))),
    )
    # same name in the other library, other contents
    gen2 = MSpec("gen", params={"p": (True, True)}, vars={"y": V((True, True), ("lit", 0.5), ("lit", 50.0))}, ports={"port": PORT}, defs={("port", "f"): ("neg", Y)}, constraints=[C("c", Y, "<=", P)])
    return node, gen, gen2


def h_cli(ctx):
    node, gen, gen2 = specs()
    # models that only one of the libraries has
    dem = MSpec("dem", params={"q": (False, False)}, ports={"port": PORT}, defs={("port", "f"): ("neg", ("par", "q"))})
    ext = MSpec("ext", params={"q": (False, False)}, vars={"y": V((True, False), ("lit", 0.0), ("par", "q"))}, ports={"port": PORT}, defs={("port", "f"): Y})
    third = MSpec("third", params={"q": (False, False)}, vars={"y": V((True, True), ("lit", 0.125), ("par", "q"))}, ports={"port": PORT}, defs={("port", "f"): ("*", ("lit", 3.0), Y)})
    nlib = ctx.pick("libraries", [1, 2, 3])
    two = nlib > 1
    layout = ctx.pick("layout", ["study", "options"])
    kind = ctx.pick("data", ["const", "ts"])
    dur, scen = ctx.pick("duration", [None, 1, 2, 3]), ctx.pick("scenario", [None, 1, 2, 3])
    nt, ns = dur or 1, scen or 1
    comps = {"N": "base.node", "A": "base.gen"}
    if two:
        comps["B"] = "more.gen"
    if ctx.flag("others"):
        comps["D"] = "base.dem"
        if two:
            comps["E"] = "more.ext"
    if nlib == 3:
        comps["F"] = "last.third"
    byname = {"last.third": third, "base.node": node, "base.gen": gen, "more.gen": gen2, "base.dem": dem, "more.ext": ext}
    links = [("N", "port", c, "port") for c in comps if c != "N"]
    values = {}
    for c in comps:
        for p in byname[comps[c]].params:
            if p == "q" or kind == "const":
                values[(c, p)] = Data("const", 12345)
            else:
                values[(c, p)] = Data("ts", [[ctx.real(f"{c}{t}{s}", 1, 100) for s in range(2)] for t in range(2)])
    files = {}
    yml = system_yaml(comps, ("N",), links, values, files)
    short = kind == "ts" and (nt > 2 or ns > 2)
    study = Study({c: byname[m] for c, m in comps.items()}, ("N",), links, values)
    with Files() as f:
        base = "input/" if layout == "study" else "here/"
        libs = [text.library_yaml("base", [node, gen, dem], [PORT])] + ([text.library_yaml("more", [gen2, ext], [], ["base"])] if two else [])
        if nlib == 3:
            libs.append(text.library_yaml("last", [third], [], ["base"]))
        if ctx.flag("order"):
            libs = libs[::-1]
        if layout == "study":
            for i, l in enumerate(libs):
                f.write(f"input/models/lib{i}.{('yml', 'yaml', 'yml')[i]}", l)
            f.write("input/components/components.yml", yml)
            (f.d / "input/components/series").mkdir(exist_ok=True)
            for n, rows in files.items():
                f.write(f"input/components/series/{n}.txt", rows_text(rows))
            argv = ["--study", str(f.d)]
        else:
            argv = ["--models"] + [f.write(f"m{i}/lib.yml", l) for i, l in enumerate(libs)]
            argv += ["--component", f.write("sys.yml", yml)]
            for n, rows in files.items():
                f.write(f"ts/{n}.txt", rows_text(rows))
            if files or ctx.flag("series"):
                (f.d / "ts").mkdir(exist_ok=True)
                argv += ["--timeseries", str(f.d / "ts")]
        if dur is not None:
            argv += ["--duration", str(dur)]
        if scen is not None:
            argv += ["--scenario", str(scen)]
        try:
            built, out = run(argv)
        except (SystemExit, Exception) as e:
            if not short:
                raise
            ctx.check(not isinstance(e, SystemExit) or bool(e.code), "success reported")
            ctx.cover("too short")
            return
    ctx.check(not short, f"{nt} steps and {ns} scenarios were read in series of 2 steps and 2 scenarios")
    ctx.check(len(built) == 1, f"{len(built)} problems")
    spec.check_problem(ctx, built[0], spec.expected(study, list(range(nt)), ns))
    value = built[0].solver.Objective().Value()
    lines = [l for l in out.splitlines() if l.strip()]
    ctx.check(any("cost" in l and str(value) in l for l in lines), f"cost {value} not in {lines}")
    ctx.check(any("status" in l and l.split()[-1] == "0" for l in lines), f"status in {lines}")
    ctx.cover(layout)


def h_refused(ctx):
    """Ambiguous, incomplete or inconsistent command lines are refused."""
    node, gen, gen2 = specs()
    comps = {"N": "base.node", "A": "base.gen"}
    values = {("A", "p"): Data("const", 1), ("A", "q"): Data("const", 1)}
    yml = system_yaml(comps, ("N",), [("N", "port", "A", "port")], values, {})
    with Files() as f:
        base = text.library_yaml("base", [node, gen], [PORT])
        f.write("input/models/lib.yml", base)
        f.write("input/components/components.yml", yml)
        lib, sysf = f.write("lib.yml", base), f.write("sys.yml", yml)
        twice = f.write("again.yml", text.library_yaml("base", [node], [PORT]))
        more = f.write("more.yml", text.library_yaml("more", [gen2], [], ["base"]))
        alone = f.write("alone.yml", text.library_yaml("alone", [gen2], [PORT]))
        nomodel = f.write("nomodel.yml", yml.replace("base.gen", "base.other"))
        (f.d / "ts").mkdir()
        s, m, c, t = ["--study", str(f.d)], ["--models", lib], ["--component", sysf], ["--timeseries", str(f.d / "ts")]
        cases = [
            (True, s),
            (True, m + c),
            (True, m + c + t),
            (True, m + [more] + c),
            (True, ["--models", more, lib] + c),
            (True, m + [alone] + c),
            (True, ["--models", more, lib, alone] + c),
            (False, ["--models", lib, more, twice] + c),
            (False, ["--models", twice, alone, more, lib] + c),
            (False, []),
            (False, m),
            (False, c),
            (False, m + t),
            (False, c + t),
            (False, t),
            (False, s + m),
            (False, s + c),
            (False, s + t),
            (False, s + m + c),
            (False, s + m + c + t),
            (False, m + [twice] + c),
            (False, ["--models", twice, lib] + c),
            (False, ["--models", twice] + c),
            (False, ["--models", more] + c),
            (False, ["--models", alone] + c),
            (False, m + ["--component", nomodel]),
            (False, m + c + ["--duration", "x"]),
            (False, m + c + ["--scenario", "1.5"]),
            (False, m + c + ["--unknown", "1"]),
            (False, ["--study", str(f.d / "nowhere")]),
        ]
        good, argv = ctx.pick("argv", cases)
        try:
            built, out = run(argv)
            ok = True
        except SystemExit as e:
            ctx.check(bool(e.code), "the command reports success")
            ok = False
        except Exception:
            ok = False
        ctx.check(ok == good, f"{'accepted' if ok else 'refused'}: {[a.replace(str(f.d), '.') for a in argv]}")
        ctx.cover("accepted" if ok else "refused")


HARNESSES = [
    Harness(
        "studies",
        h_cli,
        "one to three libraries (a model name in both) in either order, study directory or separate files, constants or series of 2 steps and 2 scenarios with symbolic values, durations and scenarios up to 3 or omitted",
        covers=["study", "options", "too short"],
    ),
    Harness("refused", h_refused, "30 command lines", covers=["accepted", "refused"]),
]
