"""
Development aid: mutants of the code that pass the tests, and which checks tell them apart.
    python3 tools/mutate.py gen OUT.json [file...]        mutants that pass the stable tests
    python3 tools/mutate.py run OUT.json RES.json          run the checks of the file on each
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = "/repo/src/andromede/"
FILES = {
    "expression/expression.py": "C01 C06 C08",
    "expression/evaluate.py": "C01 C05 C32",
    "expression/evaluate_parameters.py": "C05 C06",
    "expression/degree.py": "C07",
    "expression/indexing.py": "C08 C32",
    "expression/indexing_structure.py": "C08 C09",
    "expression/copy.py": "C16 C05",
    "expression/equality.py": "C16 C33",
    "expression/print.py": "C16",
    "expression/operators_expansion.py": "C06 C05 C32",
    "expression/port_resolver.py": "C12",
    "expression/context_adder.py": "C16 C12 C32",
    "expression/parsing/parse_expression.py": "C02 C03",
    "expression/visitor.py": "C05 C01 C16",
    "expression/scenario_operator.py": "C06",
    "expression/port_operator.py": "C12",
    "model/constraint.py": "C10 C16 C07 C22 C31 C33",
    "model/variable.py": "C09 C16 C22 C31 C33",
    "model/parameter.py": "C10 C22 C16 C31 C33",
    "model/model.py": "C07 C12 C22 C11 C31 C33",
    "model/port.py": "C12 C16 C31 C32 C33",
    "model/parsing.py": "C22",
    "model/resolve_library.py": "C21 C22",
    "model/probability_law.py": "C17 C06",
    "simulation/linear_expression.py": "C04",
    "simulation/linearize.py": "C05 C06 C32",
    "simulation/optimization.py": "C10 C11 C09 C12 C13 C14 C18",
    "simulation/strategy.py": "C14 C11",
    "simulation/decision_tree.py": "C18 C19",
    "simulation/benders_decomposed.py": "C20 C19 C30",
    "simulation/output_values.py": "C17",
    "simulation/runner.py": "C30",
    "simulation/time_block.py": "C13 C15",
    "study/data.py": "C15 C24 C19",
    "study/network.py": "C12 C23 C18 C31",
    "study/parsing.py": "C23 C27 C24",
    "study/resolve_components.py": "C23 C24",
    "main/main.py": "C27",
    "input_converter/src/converter.py": "C26",
    "input_converter/src/utils.py": "C26",
    "input_converter/src/data_preprocessing/thermal.py": "C25",
    "input_converter/src/data_preprocessing/dataclasses.py": "C26",
    "input_converter/src/data_preprocessing/binding_constraints.py": "C26",
    "pypsa_converter/pypsa_converter.py": "C29",
    "pypsa_converter/utils.py": "C29",
    "utils.py": "C20 C22",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0] : pos(n)[1]].decode()
    out = []

    def put(a, e, new, n, kind):
        out.append((n.lineno, kind, (b[:a] + new.encode() + b[e:]).decode()))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0]))
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.Raise):
            for c in ast.walk(n):
                if c is not n:
                    skip.add(id(c))
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation:
            for c in ast.walk(n.annotation):
                skip.add(id(c))
        if isinstance(n, ast.FunctionDef):
            if n.returns:
                for c in ast.walk(n.returns):
                    skip.add(id(c))
            for dd in n.decorator_list:
                for c in ast.walk(dd):
                    skip.add(id(c))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        a, e = pos(n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            put(a, e, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", n, "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            put(a, e, f"{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}", n, "bin")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(a, e, "(" + o.join(seg(v) for v in n.values) + ")", n, "bool")
            for i in range(len(n.values)):
                k = " and " if isinstance(n.op, ast.And) else " or "
                put(a, e, "(" + k.join(seg(v) for j, v in enumerate(n.values) if j != i) + ")", n, "boolpart")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(a, e, f"({seg(n.operand)})", n, "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(a, e, str(not n.value), n, "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            put(a, e, repr(n.value + 1), n, "const")
        elif isinstance(n, (ast.If, ast.While)):
            ta, te = pos(n.test)
            put(ta, te, "False", n, "if-false")
            put(ta, te, "True", n, "if-true") if isinstance(n, ast.If) else None
        elif isinstance(n, ast.IfExp):
            put(a, e, f"({seg(n.body)})", n, "ifexp")
            put(a, e, f"({seg(n.orelse)})", n, "ifexp")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(a, e, "pass", n, "drop")
        elif isinstance(n, ast.Raise):
            put(a, e, "pass", n, "raise")
        elif isinstance(n, ast.AugAssign):
            put(a, e, f"{seg(n.target)} = {seg(n.value)}", n, "aug")
        elif isinstance(n, ast.Continue):
            put(a, e, "break", n, "continue")
        elif isinstance(n, ast.Break):
            put(a, e, "continue", n, "break")
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                x, y = n.args
                put(pos(x)[0], pos(y)[1], f"{seg(y)}, {seg(x)}", n, "swap")
            for k in n.keywords:
                if k.arg and len(n.keywords) > 1:
                    parts = [seg(x) for x in n.args] + [f"{q.arg}={seg(q.value)}" if q.arg else f"**{seg(q.value)}" for q in n.keywords if q is not k]
                    put(pos(n.func)[1], e, "(" + ", ".join(parts) + ")", n, "kw")
        elif isinstance(n, ast.comprehension) and n.ifs:
            pass
        elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(getattr(n, "ctx", None), ast.Load) and len(n.elts) == 2:
            x, y = n.elts
            put(pos(x)[0], pos(y)[1], f"{seg(y)}, {seg(x)}", n, "swap2")
    for n in ast.walk(tree):
        for c in getattr(n, "generators", []):
            for t in c.ifs:
                ta, te = pos(t)
                put(ta, te, "True", t, "comp-if")
    res = []
    for m in out:
        try:
            ast.parse(m[2])
        except SyntaxError:
            continue
        if m[2] != src:
            res.append(m)
    return res


def tests(w):
    env = dict(os.environ, PYTHONPATH=w + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    x = tempfile.mktemp(suffix=".xml")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        subprocess.run(
            [PY, "-m", "pytest", "-q", "--maxfail=6", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=120", "--continue-on-collection-errors", "--ignore=tests/pypsa_converter", "-o", "junit_family=xunit2", "--junitxml=" + x],
            cwd=w, env=env, capture_output=True, timeout=400,
        )
        import xml.etree.ElementTree as ET

        ok = set()
        for tc in ET.parse(x).getroot().iter("testcase"):
            if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                ok.add(f"{tc.get('classname')}::{tc.get('name')}")
        os.unlink(x)
        return not (stable - ok)
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return False


def gen(out, files, per=30, procs=int(os.environ.get("MUT_PROCS", "7"))):
    random.seed(int(os.environ.get("VERIF_SEED", "1")))
    work = []
    for f in files or FILES:
        src = open(SRC + f).read()
        ms = mutants(src)
        random.shuffle(ms)
        work += [(f, *m) for m in ms[:per]]
    random.shuffle(work)
    print(len(work), "mutants", flush=True)
    import queue

    q = queue.Queue()
    base = tempfile.mkdtemp(prefix="mut-")
    for i in range(procs):
        subprocess.run(["cp", "-a", "/repo", f"{base}/{i}"], check=True)
        q.put(f"{base}/{i}")
    res = []

    def one(m):
        w = q.get()
        try:
            p = f"{w}/src/andromede/{m[0]}"
            old = open(p).read()
            open(p, "w").write(m[3])
            ok = tests(w) if "pypsa" not in m[0] else True
            open(p, "w").write(old)
            if ok:
                res.append(m)
                json.dump(sorted(res), open(out, "w"))
        finally:
            q.put(w)

    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(one, work))
    shutil.rmtree(base)
    print(len(res), "pass the tests")


def run(inp, out, procs=int(os.environ.get("MUT_PROCS", "8"))):
    ms = json.load(open(inp))
    done = json.load(open(out)) if os.path.exists(out) else []
    seen = {(d[0], d[1], d[2], d[4]) for d in done}
    import difflib
    import hashlib

    def one(m):
        f, line, kind, text = m
        h = hashlib.md5(text.encode()).hexdigest()
        if (f, line, kind, h) in seen:
            return
        d = tempfile.mkdtemp(prefix="mutrun-")
        try:
            subprocess.run(["cp", "-a", "/repo/src", d + "/src"], check=True)
            subprocess.run(["cp", "-a", ROOT + "/vf", d + "/vf"], check=True)
            subprocess.run(["cp", "-a", ROOT + "/check", ROOT + "/KNOWN_FINDINGS.txt", d], check=True)
            orig = open(f"{d}/src/andromede/{f}").read()
            open(f"{d}/src/andromede/{f}", "w").write(text)
            diff = [l for l in difflib.unified_diff(orig.splitlines(), text.splitlines(), n=0, lineterm="") if l[:1] in "+-" and l[:3] not in ("+++", "---")]
            got = {}
            for p in FILES[f].split():
                env = dict(os.environ, VF_SRC=d + "/src", VF_PROCS="1", VF_BUDGET=os.environ.get("MUT_BUDGET", "60"))
                try:
                    r = subprocess.run(["./check", p, "quick"], cwd=d, env=env, capture_output=True, text=True, timeout=400)
                    got[p] = r.returncode
                    if r.returncode == 1:
                        break
                except subprocess.TimeoutExpired:
                    got[p] = "timeout"
            done.append([f, line, kind, diff, h, got])
            json.dump(done, open(out, "w"))
        finally:
            shutil.rmtree(d)

    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(one, ms))
    caught = sum(1 in d[5].values() for d in done)
    print(caught, "caught of", len(done))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], sys.argv[3:], int(os.environ.get("MUT_PER", "30")))
    else:
        run(sys.argv[2], sys.argv[3])
