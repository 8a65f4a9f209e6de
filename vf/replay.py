"""
Replays inputs on the real, unpatched code of /repo (real OR-Tools).

  python -m vf.replay FILE          replay one counterexample: exit 1 if the
                                    violation reproduces, 0 if it does not
  python -m vf.replay --batch FILE  runs many assignments, prints JSON results
"""
import json
import sys
import traceback

from vf.harness import load, setup_paths

setup_paths()

from vf import engine, sym  # noqa: E402


def run_one(h, params, values):
    """None if the property held, else a message; raises EngineError if it diverged."""
    ctx = engine.ConcreteCtx(values)
    try:
        h.fn(ctx, **params)
    except engine.Infeasible:
        return None, "infeasible"
    except engine.Violation as v:
        return v.msg, "violation"
    except sym.EngineError as e:
        return f"{e}", "diverged"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return (
            f"unexpected {type(e).__name__}: {engine._short(e)} ({tb.filename.rsplit('/', 1)[-1]}:{tb.lineno})",
            "violation",
        )
    return None, "held"


def main():
    if sys.argv[1] == "--batch":
        spec = json.load(open(sys.argv[2]))
        mod = load(spec["property"])
        hs = {h.name: h for h in mod.HARNESSES}
        out = []
        for item in spec["items"]:
            msg, st = run_one(hs[item["harness"]], hs[item["harness"]].params(spec["tier"]), item["values"])
            out.append([st, msg])
        json.dump(out, open(spec["out"], "w"))
        return 0
    spec = json.load(open(sys.argv[1]))
    mod = load(spec["property"])
    hs = {h.name: h for h in mod.HARNESSES}
    h = hs[spec["harness"]]
    params = h.params(spec["tier"])
    for v in spec.get("history", []):
        run_one(h, params, v)
    msg, st = run_one(h, params, spec["values"])
    if st == "violation":
        print(f"REPRODUCED property={spec['property']} harness={h.name}: {msg}")
        return 1
    print(f"not reproduced ({st}): {msg}")
    return 0 if st in ("held", "infeasible") else 3


if __name__ == "__main__":
    sys.exit(main())
