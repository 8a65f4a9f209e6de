"""C23: system files and networks."""
import io
import shutil
import tempfile
from pathlib import Path

from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import build_problem
from andromede.study import Network, Node, PortRef, create_component
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import build_data_base, build_network, consistency_check, resolve_system

from vf import lpstub, spec, text
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import C, Data, MSpec, Study, V

prepare_symbolic = lpstub.install
X, Y, P, Q = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "q")
PORT = ("flow", ["f"])


def libs(ctx, sp):
    """Two libraries; a model id is used in both with different contents."""
    node = MSpec("node", ports={"port": PORT}, binding=[C("balance", ("pfsum", "port", "f"), "=", ("lit", 0.0))])
    gen = MSpec(
        "gen",
        params={"p": sp, "q": (False, False)},
        vars={"x": V((True, True), ("lit", 0.0), ("par", "q"))},
        ports={"port": PORT},
        defs={("port", "f"): X},
        obj=("expec", ("sumall", ("*", P, X))),
    )
    gen2 = MSpec("gen", params={"p": sp}, vars={"y": V((True, False))}, ports={"port": PORT}, defs={("port", "f"): ("neg", Y)}, constraints=[C("c", Y, "<=", P)])
    resolved = resolve_library(
        [
            parse_yaml_library(io.StringIO(text.library_yaml("base", [node, gen], [PORT]))),
            parse_yaml_library(io.StringIO(text.library_yaml("more", [gen2], [], ["base"]))),
        ]
    )
    return {"base.node": node, "base.gen": gen, "more.gen": gen2}, resolved


def system_yaml(comps, nodes, links, values, files):
    """YAML of a system: comps id -> model reference; values (id, param) -> Data."""
    out = ["system:", "  nodes:" if nodes else "  nodes: []"]

    def params(c):
        ps = [(p, d) for (cc, p), d in values.items() if cc == c]
        res = []
        if ps:
            res.append("      parameters:")
        for p, d in ps:
            res.append(f"        - id: {p}")
            if d.kind == "const":
                res.append("          value: 12345")
            else:
                if d.kind in ("time", "ts"):
                    res.append("          time-dependent: true")
                if d.kind in ("scen", "ts"):
                    res.append("          scenario-dependent: true")
                res.append(f"          value: {c}_{p}")
                files[f"{c}_{p}"] = {"time": lambda: [[v] for v in d.v], "scen": lambda: [d.v], "ts": lambda: d.v}[d.kind]()
        return res

    for n in nodes:
        out += [f"    - id: {n}", f"      model: {comps[n]}"] + params(n)
    out.append("  components:")
    for c in comps:
        if c not in nodes:
            out += [f"    - id: {c}", f"      model: {comps[c]}"] + params(c)
    out.append("  connections:" if links else "  connections: []")
    for a, pa, b, pb in links:
        out += [f"    - component1: {a}", f"      port1: {pa}", f"      component2: {b}", f"      port2: {pb}"]
    return "\n".join(out) + "\n"


def put_constants(inp, values):
    """Constants of the file, made symbolic."""
    for comp in inp.components + inp.nodes:
        for prm in comp.parameters or []:
            d = values[(comp.id, prm.id)]
            if d.kind == "const":
                prm.value = d.v


class Dir:
    def __init__(self, files):
        self.files = files

    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="vf_"))
        for n, rows in self.files.items():
            (self.d / f"{n}.txt").write_text("\n".join(" ".join(str(v) for v in r) for r in rows) + "\n")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def h_system(ctx, T, S, maxcomp):
    """The problem built from system and model files is the one they describe."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    sp = ctx.pick("sp", STRUCTS)
    kind = ctx.pick("kind", [k for k, st in (("const", (0, 0)), ("time", (1, 0)), ("scen", (0, 1)), ("ts", (1, 1))) if st[0] <= sp[0] and st[1] <= sp[1]])
    specs, resolved = libs(ctx, sp)
    ids = ctx.pick("ids", [["A", "B", "C"], ["z", "y", "x"], ["G1", "G10", "G"]])
    comps = {"N": "base.node", "M": "base.node"}
    links = []
    for i in range(maxcomp):
        comps[ids[i]] = ctx.pick("model", ["base.gen", "more.gen"])
        at = ctx.pick("at", ["N", "M", ""])
        if at:
            links.append((at, "port", ids[i], "port") if ctx.flag("rev") else (ids[i], "port", at, "port"))
    if links and ctx.flag("twice"):
        links.append(links[0])
    nodes = ("N", "M")
    values = {}
    for c, m in comps.items():
        for p, st in specs[m].params.items():
            values[(c, p)] = spec.data_for(ctx, f"{c}_{p}", st, nt, ns, spec.NZ if p == "p" else 1, 1000 if p == "p" else 1e8, kind if p == "p" else None)
    files = {}
    t = system_yaml(comps, nodes, links, values, files)
    study = Study({c: specs[m] for c, m in comps.items()}, nodes, links, values)
    with Dir(files) as d:
        inp = parse_yaml_components(io.StringIO(t))
        put_constants(inp, values)
        system = resolve_system(inp, resolved)
        ctx.check(consistency_check(system.components, {m.id: m for l in resolved.values() for m in l.models.values()}), "consistency")
        net = build_network(system)
        db = build_data_base(inp, d)
    ctx.check({n.id for n in net.nodes} == set(nodes), "nodes of the network")
    ctx.check({n.id for n in net.components} == set(comps) - set(nodes), "components of the network")
    problem = build_problem(net, db, spec.block(range(nt)), ns)
    spec.check_problem(ctx, problem, spec.expected(study, list(range(nt)), ns))
    ctx.cover(kind)


def h_invalid(ctx):
    """Files that refer to what does not exist, or whose data does not fit, are refused."""
    specs, resolved = libs(ctx, (True, True))
    good = """system:
  nodes:
    - id: N
      model: base.node
  components:
    - id: A
      model: base.gen
      parameters:
        - id: p
          time-dependent: true
          scenario-dependent: true
          value: series
        - id: q
          value: 10
  connections:
    - component1: N
      port1: port
      component2: A
      port2: port
"""
    more = """    - id: ID
      model: base.gen
      parameters:
        - id: p
          value: 1
        - id: q
          value: 10
"""
    changes = [
        ("", ""),
        ("  connections:\n", more.replace("ID", "B") + "  connections:\n"),
        ("model: base.gen", "model: base.gen2"),
        ("model: base.gen", "model: other.gen"),
        ("model: base.node", "model: more.node"),
        ("model: base.gen", "model: some.base.gen"),
        ("model: base.gen", "model: gen"),
        ("          time-dependent: true\n          scenario-dependent: true\n          value: series", "          time-dependent: true\n          value: 3"),
        ("          time-dependent: true\n          scenario-dependent: true\n          value: series", "          scenario-dependent: true\n          value: 3"),
        ("          time-dependent: true\n          scenario-dependent: true\n          value: series", "          value: series"),
        ("          time-dependent: true\n          scenario-dependent: true\n          value: series", "          time-dependent: true\n          value: series"),
        ("          time-dependent: true\n          scenario-dependent: true\n          value: series", "          scenario-dependent: true\n          value: series"),
        ("          time-dependent: true\n          scenario-dependent: true\n          value: series", "          scenario-dependent: true\n          value: onecol"),
        ("component2: A", "component2: Z"),
        ("component1: N", "component1: M"),
        ("port2: port", "port2: other"),
        ("component2: A", "component2: N"),
        ("value: series", "value: missing"),
        ("value: series", "value: 3"),
        ("value: 10", "value: series"),
        ("        - id: q\n          value: 10\n", ""),
        ("        - id: q\n          value: 10\n", "        - id: q\n          time-dependent: true\n          value: onecol\n"),
        ("          value: 10\n", "          value: 10\n          unknown: 3\n"),
        ("    - id: A\n", "    - name: A\n"),
        ("  connections:\n", more.replace("ID", "A") + "  connections:\n"),
        ("  connections:\n", more.replace("ID", "N") + "  connections:\n"),
        ("  components:\n", "    - id: N\n      model: base.node\n  components:\n"),
    ]
    i = ctx.choose("change", len(changes))
    assert changes[i][0] in good
    t = good.replace(changes[i][0], changes[i][1], 1) if i else good
    v = ctx.real("v", 1, 9)
    with Dir({"series": [[v, 2.0], [3.0, v]], "onecol": [[v], [2.0]]}) as d:
        try:
            inp = parse_yaml_components(io.StringIO(t))
            db = build_data_base(inp, d)
            net = build_network(resolve_system(inp, resolved))
            build_problem(net, db, spec.block([0, 1]), 2)
            ok = True
        except Exception as e:
            ok = False
    ctx.check(ok == (i < 2), f"{'accepted' if ok else 'refused'}: {changes[i][1]!r}")
    ctx.cover("accepted" if ok else "refused")


def h_consistency(ctx):
    """The consistency check refuses exactly the studies that use a model that is not available."""
    specs, resolved = libs(ctx, (False, False))
    used = [n for n in ("base.node", "base.gen") if ctx.flag("use" + n)]
    avail = [n for n in ("base.node", "base.gen") if ctx.flag("has" + n)]
    comps = {f"c{i}": create_component(resolved["base"].models[n.split(".")[1]], f"c{i}") for i, n in enumerate(used)}
    models = {n.split(".")[1]: resolved["base"].models[n.split(".")[1]] for n in avail}
    ok = set(used) <= set(avail)
    try:
        r = consistency_check(comps, models)
        ctx.check(ok and r is True, "a model that is not available was accepted")
        ctx.cover("ok")
    except ValueError:
        ctx.check(not ok, "a consistent study was refused")
        ctx.cover("refused")


def h_replicate(ctx, T):
    """A copy of a network describes the same problem, and stays independent of the original."""
    port = PORT
    node = MSpec("node", ports={"port": port}, binding=[C("b", ("pfsum", "port", "f"), "=", ("lit", 0.0))])
    gen = MSpec("gen", params={"p": (True, False)}, vars={"x": V((True, True), ("neg", P), P, ctx.pick("type", ["float", "int"]))}, ports={"port": port}, defs={("port", "f"): ("*", P, X)}, obj=("expec", ("sumall", X)))
    comps = {"N": node, "A": gen}
    if ctx.flag("two"):
        comps["B"] = gen
    links = [(c, "port", "N", "port") for c in comps if c != "N"]
    values = {(c, "p"): spec.data_for(ctx, c, (True, False), T, 1, 1, 1000) for c in comps if c != "N"}
    st = Study(comps, ("N",), links, values)
    models = {}
    net = st.network(models)
    rep = net.replicate(id="copy") if ctx.flag("rename") else net.replicate()
    ctx.check({n.id for n in rep.nodes} == {"N"} and {c.id for c in rep.components} == set(comps) - {"N"}, "contents of the copy")
    ctx.check(len(list(rep.connections)) == len(links), "connections of the copy")
    # change one of the two after the copy
    extra = ctx.pick("extra", ["none", "original", "copy"])
    target = net if extra == "original" else rep
    if extra != "none":
        e = create_component(models[id(gen)], "E")
        target.add_component(e)
        target.connect(PortRef(e, "port"), PortRef(target.get_node("N"), "port"))
        target.add_node(Node(model=models[id(node)], id="N2"))
    bigger = Study(
        {**comps, "E": gen, "N2": node},
        ("N", "N2"),
        links + [("E", "port", "N", "port")],
        {**values, ("E", "p"): spec.data_for(ctx, "E", (True, False), T, 1, 1, 1000)},
    )
    db = bigger.database()
    for n in (net, rep):
        s = bigger if (extra != "none" and n is target) else st
        problem = build_problem(n, db, spec.block(range(T)), 1)
        spec.check_problem(ctx, problem, spec.expected(s, list(range(T)), 1))
    # components and models
    a = net.get_component("A")
    b = a.replicate(id="other")
    ctx.check(a.id == "A" and b.id == "other" and b.model is a.model, "copy of a component under another id")
    ctx.cover(extra)


def h_network(ctx, N):
    """Contents of a network after any sequence of additions."""
    from andromede.model import model

    net = Network("n")
    m = model("m")
    comps, nodes = {}, {}
    ctx.check(net.is_empty(), "a new network is not empty")
    for i in range(N):
        cid = ctx.pick("id", ["a", "b", "ab"])
        if ctx.flag("node"):
            if cid in comps:
                ctx.assume(False)  # one id for a node and a component
            nodes[cid] = Node(model=m, id=cid)
            net.add_node(nodes[cid])
        else:
            if cid in nodes:
                ctx.assume(False)
            comps[cid] = create_component(m, cid)
            net.add_component(comps[cid])
    ctx.check(N == 0 or not net.is_empty(), "the network is empty")
    ctx.check({c.id: c for c in net.components} == comps and {c.id: c for c in net.nodes} == nodes, "contents")
    ctx.check(sorted(c.id for c in net.all_components) == sorted([*comps, *nodes]), "all components")
    for cid in ("a", "b", "ab"):
        for d, get, err in (({**comps, **nodes}, net.get_component, KeyError), (nodes, net.get_node, KeyError)):
            try:
                r = get(cid)
                ctx.check(cid in d and r is d[cid], f"{cid}: wrong component")
            except err:
                ctx.check(cid not in d, f"{cid} was not found")
    ctx.cover("end")


HARNESSES = [
    Harness(
        "system",
        h_system,
        "two nodes and maxcomp components of two libraries (clashing model ids), any connections in both directions, data given as constants or "
        "files of every shape with symbolic values",
        quick=dict(T=[2], S=[2], maxcomp=2),
        thorough=dict(T=[1, 2, 3], S=[1, 2], maxcomp=2),
        covers=["const", "time", "scen", "ts"],
    ),
    Harness("invalid", h_invalid, "two system files and 17 invalid variants", covers=["accepted", "refused"]),
    Harness("consistency", h_consistency, "any subset of two models used and available", covers=["ok", "refused"]),
    Harness("replicate", h_replicate, "networks of 2 or 3 components, copied, one of the two then extended", quick=dict(T=2), covers=["none", "original", "copy"]),
    Harness("network", h_network, "N additions over three ids", quick=dict(N=3), thorough=dict(N=4), covers=["end"]),
]
