"""
Runs the check of one property:  python -m vf.run C01 [quick|thorough]
"""
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time

from vf.harness import load, setup_paths

setup_paths()

import z3  # noqa: E402

from vf import engine, sym  # noqa: E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_STATE = {}
_SEEN_CODE = set()


def _start_monitor():
    """Names of the functions of /repo that were symbolically executed."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.PROFILER_ID, "vf")
    except ValueError:
        return

    def start(code, off):
        fn = code.co_filename
        if "/repo/src/andromede/" in fn:
            _SEEN_CODE.add(f"{fn.split('/repo/src/')[1]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


def _work(task):
    hname, prefixes, seed, max_paths, deadline, level, known = task
    h = _STATE["h"][hname]
    _SEEN_CODE.clear()
    r = engine.explore(
        h.fn,
        h.params(_STATE["tier"]),
        prefixes,
        deadline,
        stop=_STATE["stop"],
        max_paths=max_paths,
        want_samples=h.samples,
        rng=random.Random(seed),
        split_ints=level > 0,
        known=known,
    )
    r["harness"] = hname
    r["level"] = level
    r["code"] = sorted(_SEEN_CODE)
    return r


def _worker_loop(inq, outq):
    _start_monitor()
    if not os.environ.get("VF_STDERR"):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    while True:
        t = inq.get()
        if t is None:
            return
        try:
            outq.put(_work(t))
        except BaseException as e:  # noqa: BLE001
            import traceback

            outq.put(dict(harness=t[0], error=f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VF_BUDGET", "600" if tier == "quick" else "5400"))
    deadline = t0 + budget
    mod = load(prop)
    prep = getattr(mod, "prepare_symbolic", None)
    sym.patch_modules()
    if prep:
        prep()
    only = os.environ.get("VF_HARNESS")
    hs = [h for h in mod.HARNESSES if tier in h.tiers and (not only or h.name in only.split(","))]
    _STATE.update(h={h.name: h for h in hs}, tier=tier)
    mpx = mp.get_context("fork")
    _STATE["stop"] = mpx.Event()
    nproc = int(os.environ.get("VF_PROCS", str(os.cpu_count() or 4)))
    inq, outq = mpx.Queue(), mpx.Queue()
    procs = [mpx.Process(target=_worker_loop, args=(inq, outq), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()

    per = {
        h.name: dict(stats=engine.Stats(), confirmed=[], nonrepro=[], incomplete=[], samples=[], remaining=0, code=set(), level=0, known=set())
        for h in hs
    }
    pending = 0
    errors = []
    # small first slices so that the trees split quickly between the workers
    for h in hs:
        inq.put((h.name, [[]], seed, 24, deadline, 0, ()))
        pending += 1
    n = 0
    nrep = 0
    while pending:
        try:
            r = outq.get(timeout=30)
        except Exception:  # queue.Empty
            if time.time() > deadline + 120 or not any(p.is_alive() for p in procs):
                errors.append("workers stopped answering")
                break
            continue
        pending -= 1
        if "error" in r:
            errors.append(r["error"])
            _STATE["stop"].set()
            continue
        d = per[r["harness"]]
        d["stats"].add(r["stats"])
        d["incomplete"] += r["incomplete"]
        d["samples"] += r["samples"]
        d["code"] |= set(r["code"])
        d["end"] = time.time()
        restart = False
        for v in r["violations"]:
            if _STATE["stop"].is_set() and sum(len(x["confirmed"]) for x in per.values()) >= 3:
                break
            sk = engine.skeleton(v["msg"])
            if sk in d["known"]:
                d["incomplete"].append(dict(why=["not reproduced: " + v["msg"]], values=v["values"]))
                continue
            hit, why = replay(prop, tier, _STATE["h"][r["harness"]], v, nrep)
            nrep += 1
            if hit:
                d["confirmed"].append(hit)
                _STATE["stop"].set()
                break
            d["nonrepro"].append((v, why))
            d["incomplete"].append(dict(why=["not reproduced: " + v["msg"]], values=v["values"]))
            if sum(engine.skeleton(x["msg"]) == sk for x, _ in d["nonrepro"]) >= 3:
                d["known"].add(sk)
            restart = restart or v["kind"] == "exception"
        if restart and d["level"] == 0:
            # proxies reached code that refuses them: again, with integers split on their values
            d["level"] = 1
            n += 1
            inq.put((r["harness"], [[]], seed + n, 24, deadline, 1, tuple(d["known"])))
            pending += 1
        if r["level"] != d["level"]:
            continue
        rem = r["remaining"]
        if rem and not _STATE["stop"].is_set() and time.time() < deadline:
            # re-queue, split
            chunk = max(1, len(rem) // (2 * nproc))
            for i in range(0, len(rem), chunk):
                n += 1
                inq.put((r["harness"], rem[i : i + chunk], seed + n, 300, deadline, d["level"], tuple(d["known"])))
                pending += 1
        else:
            d["remaining"] += len(rem)
    for _ in procs:
        inq.put(None)
    if errors:
        for p in procs:
            p.terminate()
    for p in procs:
        p.join(timeout=10)
        if p.is_alive():
            p.terminate()
    return finish(prop, tier, seed, t0, hs, per, errors, mod)


def _sub(args, timeout=240):
    env = dict(os.environ)
    return subprocess.run(
        [sys.executable, "-m", "vf.replay", *args],
        cwd=ROOT,
        env=env,
        capture_output=True,
        text=True,
        timeout=timeout,
    )


def replay(prop, tier, h, v, n):
    """Replays a counterexample on the unpatched code: (violation or None, why not)."""
    if v["values"] is None:
        return None, "no model"
    outdir = os.path.join(ROOT, "out")
    os.makedirs(outdir, exist_ok=True)
    spec = dict(property=prop, tier=tier, harness=h.name, params=h.params(tier), values=v["values"], msg=v["msg"])
    path = os.path.join(outdir, f"{prop}-{h.name}-{n}.json")
    json.dump(spec, open(path, "w"), indent=1, default=str)
    p = _sub([path])
    if p.returncode == 0 and v.get("history"):
        spec["history"] = v["history"]
        json.dump(spec, open(path, "w"), indent=1, default=str)
        p = _sub([path])
    if p.returncode == 1 and "REPRODUCED" in p.stdout:
        return dict(harness=h.name, msg=v["msg"], replay=path, detail=p.stdout.strip()), ""
    os.unlink(path)
    return None, (p.stdout + p.stderr)[-400:]


def finish(prop, tier, seed, t0, hs, per, errors, mod):
    outdir = os.path.join(ROOT, "out")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rc = 0
    violations = []
    notes = list(errors)
    params = {h.name: h.params(tier) for h in hs}
    # 1. counterexamples that reproduced on the unpatched code
    nonrepro = []
    nrep = 100
    for h in hs:
        for c in per[h.name]["confirmed"]:
            print(c["detail"])
            violations.append(c)
        nonrepro += [(h.name, v, why) for v, why in per[h.name]["nonrepro"]]
    violations = violations[:3]
    # 2. validate sampled passing paths (and every incomplete path) on the unpatched code
    items = []
    for h in hs:
        d = per[h.name]
        smp = list(d["samples"])
        random.Random(seed).shuffle(smp)
        cap = 60 if tier == "quick" else 200
        items += [dict(harness=h.name, params=params[h.name], values=s) for s in smp[:cap]]
        items += [
            dict(harness=h.name, params=params[h.name], values=i["values"])
            for i in d["incomplete"][:150]
            if i["values"]
        ]
    validated = 0
    if items and not violations:
        bf = os.path.join(outdir, f"{prop}-batch-{os.getpid()}.json")
        of = os.path.join(outdir, f"{prop}-batch-{os.getpid()}.out.json")
        json.dump(dict(property=prop, tier=tier, items=items, out=of), open(bf, "w"), default=str)
        p = _sub(["--batch", bf])
        if p.returncode != 0 or not os.path.exists(of):
            notes.append("validation batch failed: " + p.stderr[-800:])
            rc = 2
        else:
            for it, (st, msg) in zip(items, json.load(open(of))):
                if st in ("held",):
                    validated += 1
                elif st == "violation":
                    path = os.path.join(outdir, f"{prop}-{it['harness']}-v{nrep}.json")
                    nrep += 1
                    json.dump(dict(property=prop, tier=tier, harness=it["harness"], params=it["params"], values=it["values"], msg=msg), open(path, "w"), indent=1, default=str)
                    p2 = _sub([path])
                    if p2.returncode == 1:
                        print(p2.stdout.strip())
                        violations.append(dict(harness=it["harness"], msg=msg, replay=path, detail="found by concrete validation of a solver path"))
                        break
                elif st == "diverged":
                    notes.append(f"replay diverged: {it['harness']}: {msg}")
            os.unlink(of)
        os.unlink(bf)
    # 3. outcome
    inc = sum(len(per[h.name]["incomplete"]) for h in hs)
    rem = sum(per[h.name]["remaining"] for h in hs)
    complete = inc == 0 and rem == 0 and not nonrepro and not errors
    for hname, v, why in nonrepro:
        notes.append(f"counterexample not reproduced: {hname}: {v['msg']}: {why.strip()}")
    if errors and not violations:
        rc = 2
    missing = []
    if not violations and complete:
        for h in hs:
            for c in h.covers:
                if c not in per[h.name]["stats"].covers:
                    missing.append(f"{h.name}:{c}")
        if missing:
            notes.append(f"reachability witnesses never reached: {missing}")
            rc = rc or 2
    tot = engine.Stats()
    for h in hs:
        tot.add(per[h.name]["stats"])
    known = []
    kf = getattr(mod, "known_findings", None)
    if kf and not violations:
        listed = open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")).read()
        try:
            found = kf()
        except Exception as e:  # noqa: BLE001
            found = []
            notes.append(f"known findings could not be looked at: {type(e).__name__}: {e}")
            rc = rc or 2
        for k in found:
            if f"finding: property={prop} {k}" in listed:
                known.append(k)
                print(f"KNOWN-FINDING: property={prop} {k}")
            else:
                path = os.path.join(outdir, f"{prop}-finding-{len(violations)}.json")
                json.dump(dict(property=prop, finding=k), open(path, "w"), indent=1)
                violations.append(dict(harness="known_findings", msg=k, replay=path, detail=k))
    code = sorted(set().union(*[per[h.name]["code"] for h in hs])) if hs else []
    sample = [per[h.name]["samples"][0] for h in hs if per[h.name]["samples"]][:3]
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=max(1, tot.paths),
            transitions=max(1, tot.branch_queries + tot.selectors),
            traces_validated_against_impl=validated,
            samples=sample or [{"note": "no sample"}],
            technique="bounded symbolic execution of the real Python code with z3; one path = all inputs satisfying its path condition",
            exhaustive_within_bounds=bool(complete),
            paths_explored=tot.paths,
            branch_queries=tot.branch_queries,
            property_queries=tot.check_queries,
            property_queries_discharged=tot.checks_discharged,
            constant_checks=tot.trivial_checks,
            solver_unknown=tot.unknown,
            concretisations=tot.concretisations,
            solver_seconds=round(tot.solver_s, 2),
            solver=f"z3 {z3.get_version_string()}",
            harnesses={
                h.name: dict(
                    bounds=h.bounds,
                    params=params[h.name],
                    **per[h.name]["stats"].as_dict(),
                    unexplored_prefixes=per[h.name]["remaining"],
                    incomplete=[i["why"] for i in per[h.name]["incomplete"][:5]],
                )
                for h in hs
            },
            functions_encoded=code,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        violations=[dict(harness=v["harness"], message=v["msg"], replay=v["replay"]) for v in violations],
        known_findings=known,
        notes=notes,
        wall_s=round(time.time() - t0, 2),
    )
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(
        f"{prop} {tier}: paths={tot.paths} branch_queries={tot.branch_queries} "
        f"property_queries={tot.check_queries} discharged={tot.checks_discharged} trivial={tot.trivial_checks} "
        f"unknown={tot.unknown} solver={tot.solver_s:.1f}s validated={validated} "
        f"complete={complete} wall={time.time()-t0:.1f}s"
    )
    for h in hs:
        s = per[h.name]["stats"]
        print(f"  {h.name}: paths={s.paths} queries={s.check_queries} solver={s.solver_s:.1f}s end={per[h.name].get('end', t0)-t0:.1f}s"
              + (f" UNEXPLORED={per[h.name]['remaining']}" if per[h.name]["remaining"] else "")
              + (f" INCOMPLETE={len(per[h.name]['incomplete'])} {per[h.name]['incomplete'][0]['why']}" if per[h.name]["incomplete"] else ""))
    for nt in notes[:10]:
        print("NOTE:", nt)
    if violations:
        for v in violations:
            print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    if not complete and rc == 0:
        print("NOTE: exploration incomplete; the property held on everything explored")
    return rc


COMMON_ASSUMPTIONS = [
    "Python floats are modelled as exact reals (values agree up to 1e-6); inf is kept concrete",
    "inputs outside the stated bounds are not covered",
    "trusted: the CPython interpreter, z3, the proxies of vf/sym.py (validated by replaying sampled paths on the unpatched code)",
]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(prop, tier))


if __name__ == "__main__":
    main()
