"""C21: libraries of models and their dependencies."""
import io
import itertools

import signal
from contextlib import contextmanager

from andromede.model import PortField, PortType
from andromede.model.library import library
from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library

from vf.harness import Harness


def text(lib):
    """YAML of one library."""
    out = ["library:", f"  id: {lib['id']}"]
    if lib["deps"]:
        out.append("  dependencies: [" + ", ".join(lib["deps"]) + "]")
    out.append("  port-types:" if lib["ports"] else "  port-types: []")
    for p, fields in lib["ports"]:
        out += [f"    - id: {p}", "      fields:"] + [f"        - id: {f}" for f in fields]
    out.append("  models:" if lib["models"] else "  models: []")
    for m, uses in lib["models"]:
        out += [f"    - id: {m}", "      ports:" if uses else "      ports: []"]
        for i, u in enumerate(uses):
            out += [f"        - id: port{i}", f"          type: {u}"]
    return "\n".join(out) + "\n"


def visible(libs, pre, i, seen=()):
    """Port types (id -> fields) a library can use, or None when the set of libraries is not acceptable."""
    by_id = {l["id"]: l for l in libs}
    if i in seen:
        return None
    res = {}
    for p in pre:
        res.update({k: v for k, v in p["ports"]})
    for d in by_id[i]["deps"]:
        if d in by_id:
            sub = visible(libs, pre, d, seen + (i,))
            if sub is None:
                return None
            res.update(sub)
        elif d not in {p["id"] for p in pre}:
            return None
    own = [p for p, _ in by_id[i]["ports"]]
    if any(p in res for p in own) or len(set(own)) < len(own):
        return None
    res.update(dict(by_id[i]["ports"]))
    return res


def acceptable(libs, pre):
    for l in libs:
        v = visible(libs, pre, l["id"])
        if v is None:
            return False
        ids = [m for m, _ in l["models"]]
        if len(set(ids)) != len(ids):
            return False
        if any(u not in v for _, uses in l["models"] for u in uses):
            return False
    return True


class Endless(BaseException):
    pass


@contextmanager
def limited(seconds):
    """Raises Endless after some seconds of processor time."""

    def stop(*_):
        raise Endless()

    old = signal.signal(signal.SIGVTALRM, stop)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def run(ctx, libs, pre, order):
    ok = acceptable(libs, pre)
    pl = [library(p["id"], [PortType(k, [PortField(f) for f in fs]) for k, fs in p["ports"]], []) for p in pre] or None
    inputs = [parse_yaml_library(io.StringIO(text(libs[i]))) for i in order]
    try:
        explicit = pl is not None or ctx.flag("explicit_none")
        with limited(20):
            res = resolve_library(inputs, pl) if explicit else resolve_library(inputs)
    except Endless:
        ctx.fail("libraries are still being resolved after 20 s")
    except Exception as e:
        ctx.check(not ok, f"acceptable libraries were refused: {type(e).__name__} {e}")
        ctx.cover("refused")
        return
    ctx.check(ok, "libraries that do not resolve were accepted")
    for l in libs:
        v = visible(libs, pre, l["id"])
        r = res[l["id"]]
        ctx.check(r.id == l["id"], "id of a library")
        ctx.check(list(r.models) == [m for m, _ in l["models"]] and all(r.models[m].id == m for m in r.models), f"models of {l['id']}: {list(r.models)}")
        for p, fs in l["ports"]:
            ctx.check(p in r.port_types and [f.name for f in r.port_types[p].fields] == fs, f"port type {p} of {l['id']}")
        for m, uses in l["models"]:
            ports = r.models[m].ports
            ctx.check(list(ports) == [f"port{i}" for i in range(len(uses))], f"ports of {l['id']}.{m}")
            for i, u in enumerate(uses):
                t = ports[f"port{i}"].port_type
                ctx.check(t.id == u and [f.name for f in t.fields] == v[u], f"type of port{i} of {l['id']}.{m}: {t}")
    for p in pre:
        ctx.check({k: [f.name for f in t.fields] for k, t in res[p["id"]].port_types.items()} == dict(p["ports"]), f"port types of the preloaded library {p['id']}")
    ctx.check(set(res) == {l["id"] for l in libs} | {p["id"] for p in pre}, f"libraries {sorted(res)}")
    ctx.cover("accepted")


NAMES = ["a", "b", "c", "d"]


def h_graph(ctx, N, orders):
    """Any dependency graph between N libraries, given in any order."""
    libs = []
    for i in range(N):
        deps = [NAMES[j] for j in range(N) if ctx.flag(f"dep{i}{j}")]
        uses = ctx.pick(f"uses{i}", [[], [f"p{NAMES[(i + 1) % N]}"], [f"p{NAMES[i]}"]])
        libs.append({"id": NAMES[i], "deps": deps, "ports": [(f"p{NAMES[i]}", [f"f{i}", "g"])], "models": [("m", uses)]})
    order = ctx.pick("order", orders or list(itertools.permutations(range(N))))
    run(ctx, libs, [], order)


def h_many(ctx):
    """A library with many dependencies uses the port types of any of them."""
    n = ctx.pick("n", [3, 5])
    names = "abcde"[:n]
    libs = [
        {"id": k, "deps": [names[i - 1]] if i and ctx.flag(f"chain{i}") else [], "ports": [(f"p{k}", ["f"])], "models": [("m", [f"p{k}"])]}
        for i, k in enumerate(names)
    ]
    deps = list(names)[:: ctx.pick("reversed", [1, -1])]
    libs.append({"id": "z", "deps": deps, "ports": [], "models": [("m", [f"p{ctx.pick('use', list(names))}"]), ("all", [f"p{k}" for k in names])]})
    order = list(range(n + 1))
    run(ctx, libs, [], order if ctx.flag("forward") else order[::-1])


def h_clash(ctx):
    """Port types and models defined twice; preloaded libraries; unknown dependencies."""
    a = {"id": "a", "deps": [], "ports": [("flow", ["f"])], "models": [("m", ["flow"])]}
    b = {"id": "b", "deps": ctx.pick("bdeps", [[], ["a"], ["pre"], ["a", "pre"], ["unknown"]]), "ports": [], "models": []}
    c = {"id": "c", "deps": ctx.pick("cdeps", [[], ["b"], ["a", "b"]]), "ports": [], "models": []}
    if ctx.flag("b_defines"):
        b["ports"].append((ctx.pick("bport", ["flow", "flow2"]), ["f", "g"]))
        if ctx.flag("twice"):
            b["ports"] += ctx.pick("again", [[("flow3", ["k"])], b["ports"], [("flow3", ["k"]), (b["ports"][0][0], ["h"])]])
    if ctx.flag("c_defines"):
        c["ports"].append((ctx.pick("cport", ["flow", "flow2"]), ["h"]))
    # two dependencies that define the same port type independently: ambiguous, not specified
    if "a" in c["deps"] and b["ports"] and b["ports"][0][0] == "flow" and "a" not in b["deps"]:
        ctx.assume(False)
    b["models"] = ctx.pick("bmodels", [[], [("m", [])], [("m", []), ("m", [])], [("m", ["flow"]), ("n", ["flow", "pflow"])]])
    c["models"] = ctx.pick("cmodels", [[], [("m", ["flow2"])], [("x", ["pflow"])]])
    pre = [{"id": "pre", "ports": [("pflow", ["f"])] + ([("flow2", ["z"])] if ctx.flag("pre2") else [])}] if ctx.flag("pre") else []
    run(ctx, [a, b, c], pre, ctx.pick("order", [(0, 1, 2), (2, 1, 0)]))


def h_preloaded(ctx):
    """Several preloaded libraries."""
    ports = [[], [("pflow", ["f"])], [("pflow", ["f"]), ("flow2", ["z"])]]
    pre = [{"id": "pre", "ports": ctx.pick("p", ports)}, {"id": "more", "ports": ctx.pick("q", [[], [("mflow", ["f", "k"])]])}]
    if ctx.flag("third"):
        pre.append({"id": "last", "ports": [("lflow", ["l"])]})
    pre = ctx.pick("pre_order", [pre, pre[::-1]])
    names = ["pflow", "mflow", "lflow"]
    b = {"id": "b", "deps": ctx.pick("bdeps", [[], ["pre"], ["more", "pre"], ["a"]]), "ports": [("flow", ["f"])], "models": [("m", [ctx.pick("bm", names)])]}
    a = {"id": "a", "deps": [], "ports": ctx.pick("ap", [[], [("mflow", ["o"])]]), "models": [("m", ctx.pick("am", [[], *[[n] for n in names]]))]}
    run(ctx, [a, b], pre, ctx.pick("order", [(0, 1), (1, 0)]))


HARNESSES = [
    Harness(
        "graphs",
        h_graph,
        "every dependency graph over N libraries (self-dependencies and cycles included), each with a port type and a model that uses its "
        "own port type, another library's or none, in the given orders",
        quick=dict(N=3, orders=[(0, 1, 2), (2, 1, 0), (1, 0, 2)]),
        thorough=dict(orders=[]),
        covers=["accepted", "refused"],
    ),
    Harness("many", h_many, "a library with three or five dependencies, each of which may depend on the one before", covers=["accepted"]),
    Harness("clashes", h_clash, "three libraries and a preloaded one with clashing port types and models, unknown dependencies", covers=["accepted", "refused"]),
    Harness("preloaded", h_preloaded, "two libraries and two or three preloaded ones in two orders", covers=["accepted", "refused"]),
]
