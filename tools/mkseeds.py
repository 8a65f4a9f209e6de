"""
Makes /verif/seeded/<id>/ from the descriptions of tools/seeds.py and confirms each one in a scratch copy:
    python3 tools/mkseeds.py [id...]
A bug is kept when its patch applies, the stable tests pass with it and its demonstration tells it apart.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seeds import HELPER, PYPSA, SEEDS  # noqa: E402

PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, timeout=600):
    env = dict(os.environ, PYTHONPATH=cwd + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def tests(cwd):
    x = tempfile.mktemp(suffix=".xml")
    run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=300", "--continue-on-collection-errors",
         "--ignore=tests/pypsa_converter", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd)
    import xml.etree.ElementTree as ET

    ok = set()
    for tc in ET.parse(x).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    os.unlink(x)
    return STABLE - ok


def one(s):
    sid = s["id"]
    d = tempfile.mkdtemp(prefix="seed-")
    w = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        demo = d + "/demo"
        os.makedirs(demo)
        open(demo + "/demo.sh", "w").write(SH)
        open(demo + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        if "pypsa_helper" in s["demo"]:
            open(demo + "/pypsa_helper.py", "w").write(PYPSA)
        elif "helper" in s["demo"]:
            open(demo + "/helper.py", "w").write(HELPER)
        p = run(["bash", demo + "/demo.sh"], w, 200)
        if p.returncode != 0:
            return sid, "demo fails on the unchanged tree: " + (p.stdout + p.stderr)[-500:]
        for fn, old, new in s["edits"]:
            f = f"{w}/src/andromede/{fn}"
            t = open(f).read()
            if t.count(old) != 1:
                return sid, f"{t.count(old)} occurrences of {old!r} in {fn}"
            open(f, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
        p = run(["bash", demo + "/demo.sh"], w, 200)
        if p.returncode == 0:
            return sid, "demo passes with the change"
        bad = tests(w)
        if bad:
            return sid, f"tests fail: {sorted(bad)[:3]}"
        out = f"{ROOT}/seeded/{sid}"
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(demo, out, ignore=shutil.ignore_patterns("__pycache__"))
        open(out + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        return sid, "kept"
    except Exception as e:  # noqa: BLE001
        return sid, f"{type(e).__name__}: {e}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    todo = [s for s in SEEDS if not sys.argv[1:] or s["id"] in sys.argv[1:]]
    with ThreadPoolExecutor(8) as ex:
        for sid, r in ex.map(one, todo):
            print(sid, r, flush=True)
