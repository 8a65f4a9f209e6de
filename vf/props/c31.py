"""C31: replicas of networks, components and declarations."""
import copy
from dataclasses import replace

from andromede.expression import literal, var
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model import ValueType
from andromede.simulation import build_problem
from andromede.simulation.strategy import InvestmentProblemStrategy, MergedProblemStrategy, OperationalProblemStrategy
from andromede.study import Network, Node, PortRef, create_component

from vf import lpstub, spec
from vf.harness import Harness
from vf.spec import COUP, INV, C, MSpec, Study, V, to_node

prepare_symbolic = lpstub.install

PORT = ("flow", ["f"])
X, Y, P, Q = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "q")
STRATEGIES = {"merged": MergedProblemStrategy, "investment": InvestmentProblemStrategy, "operational": OperationalProblemStrategy}


def node_spec():
    return MSpec("node", ports={"port": PORT}, binding=[C("balance", ("pfsum", "port", "f"), "=", ("lit", 0.0))])


def gen_spec():
    return MSpec(
        "gen",
        params={"p": (True, True), "q": (False, False)},
        vars={"x": V((True, True), ("lit", 0.0), Q), "y": V((False, False), ("lit", 0.0), None, "int", COUP)},
        constraints=[C("c", X, "<=", ("*", P, Y)), C("d", ("+", X, Y), lb=("neg", Q), ub=Q), C("g", Y, ub=Q, context=COUP)],
        obj=("expec", ("sumall", ("*", P, X))),
        inv_obj=("*", Q, Y),
        ports={"port": PORT},
        defs={("port", "f"): ("*", ("lit", 2.0), X)},
    )


def values(ctx, comps, nt, ns):
    return {
        (c, p): spec.data_for(ctx, f"{c}{p}", st, nt, ns, 1, 100) for c, m in comps.items() for p, st in m.params.items()
    }


def check(ctx, net, st, ts, ns, strategy="merged"):
    problem = build_problem(net, st.database(), spec.block(ts), ns, build_strategy=STRATEGIES[strategy]())
    spec.check_problem(ctx, problem, spec.expected(st, ts, ns, strategy))


def h_network(ctx, T, S, N):
    """A network and its replicas, modified independently of each other."""
    node, gen = node_spec(), gen_spec()
    comps = {"N": node, "A": gen}
    if ctx.flag("second node"):
        comps["M"] = node
    nodes = tuple(c for c in comps if c in "NM")
    links = [("N", "port", "A", "port")] if ctx.flag("connected") else []
    models = {}
    studies = [Study(dict(comps), nodes, list(links))]
    nets = [studies[0].network(models)]
    for k in range(N):
        op = ctx.pick("op", ["replicate", "add", "connect", "node", "redirect"])
        i = ctx.choose("on", len(nets))
        net, st = nets[i], studies[i]
        if op == "replicate":
            changes = ctx.pick("changes", [{}, {"id": f"r{k}"}])
            rep = net.replicate(**changes)
            ctx.check(rep is not net, "the replica is the network itself")
            ctx.check(rep.id == changes.get("id", net.id), f"id of the replica: {rep.id}")
            nets.append(rep)
            studies.append(Study(dict(st.comps), st.nodes, list(st.links)))
        elif op == "add":
            st.comps[f"Z{k}"] = gen
            net.add_component(create_component(model=models[id(gen)], id=f"Z{k}"))
        elif op == "connect":
            st.links.append(("N", "port", "A", "port"))
            net.connect(PortRef(net.get_node("N"), "port"), PortRef(net.get_component("A"), "port"))
        elif op == "redirect":
            # the first connection is moved to another node
            ctx.assume(st.links and "M" in st.comps)
            try:
                net.get_connection(0).port1 = PortRef(net.get_node("M"), "port")
            except AttributeError:  # connections cannot be modified: then they may be shared
                ctx.assume(False)
            st.links[0] = ("M",) + st.links[0][1:]
        else:
            st.comps[f"W{k}"] = node
            st.nodes += (f"W{k}",)
            net.add_node(Node(model=models[id(node)], id=f"W{k}"))
    ctx.assume(len(nets) > 1)
    every = {c: m for st in studies for c, m in st.comps.items()}
    vals = values(ctx, every, T, S)
    for net, st in zip(nets, studies):
        st.values = {k: v for k, v in vals.items() if k[0] in st.comps}
        ctx.check({n.id for n in net.nodes} == set(st.nodes), "nodes of a network")
        ctx.check({c.id for c in net.components} == set(st.comps) - set(st.nodes), "components of a network")
        ctx.check(len(list(net.connections)) == len(st.links), "connections of a network")
        ctx.check(not net.is_empty(), "a network with components is empty")
        check(ctx, net, st, list(range(T)), S)
    ctx.cover(f"{len(nets)} networks")


def _replace_var(g, n, **kw):
    g.vars = {k: replace(v, **kw) if k == n else v for k, v in g.vars.items()}


def changes(ctx):
    """name -> (function of the real model giving the changed one, function changing the specification)."""
    k = ("lit", ctx.real("k", 1, 50))

    def vrep(n, **kw):
        return lambda m: m.replicate(variables={**m.variables, n: m.variables[n].replicate(**kw)})

    def crep(n, **kw):
        return lambda m: m.replicate(constraints={**m.constraints, n: m.constraints[n].replicate(**kw)})

    def cspec(g, n, new):
        g.constraints = [new if c.name == n else c for c in g.constraints]

    def ports(m):
        new = {n: p.replicate() for n, p in m.ports.items()}
        defs = {i.replicate(): d.replicate(definition=to_node(("-", X, P))) for i, d in m.port_fields_definitions.items()}
        return m.replicate(ports=new, port_fields_definitions=defs)

    def set_(**kw):
        return lambda g: [setattr(g, a, v) for a, v in kw.items()]

    return {
        "nothing": (lambda m: m.replicate(), lambda g: None),
        "id": (lambda m: m.replicate(id="other"), lambda g: None),
        "everything": (
            lambda m: m.replicate(
                variables={n: v.replicate() for n, v in m.variables.items()},
                parameters={n: p.replicate() for n, p in m.parameters.items()},
                constraints={n: c.replicate() for n, c in m.constraints.items()},
                binding_constraints={n: c.replicate() for n, c in m.binding_constraints.items()},
            ),
            lambda g: None,
        ),
        "objective": (
            lambda m: m.replicate(objective_operational_contribution=to_node(("expec", ("sumall", ("*", k, X))))),
            set_(obj=("expec", ("sumall", ("*", k, X)))),
        ),
        "no objective": (lambda m: m.replicate(objective_investment_contribution=None), set_(inv_obj=None)),
        "lower bound": (vrep("x", lower_bound=literal(-3)), lambda g: _replace_var(g, "x", lb=("lit", -3.0))),
        "no upper bound": (vrep("x", upper_bound=None), lambda g: _replace_var(g, "x", ub=None)),
        "upper bound": (vrep("y", upper_bound=to_node(("+", Q, k))), lambda g: _replace_var(g, "y", ub=("+", Q, k))),
        "type": (vrep("x", data_type=ValueType.INTEGER), lambda g: _replace_var(g, "x", type="int")),
        "structure": (vrep("y", structure=IndexingStructure(True, True)), lambda g: (_replace_var(g, "y", struct=(True, True)), setattr(g, "inv_obj", None))),
        "context": (vrep("y", context=INV), lambda g: _replace_var(g, "y", context=INV)),
        "comparison": (crep("c", upper_bound=to_node(k)), lambda g: cspec(g, "c", C("c", ("-", X, ("*", P, Y)), ub=k))),
        "constraint": (crep("d", lower_bound=literal(-1), expression=to_node(("-", X, Y))), lambda g: cspec(g, "d", C("d", ("-", X, Y), lb=("lit", -1.0), ub=Q))),
        "constraint name": (
            lambda m: m.replicate(constraints={**m.constraints, "e": m.constraints["d"].replicate(name="e", upper_bound=to_node(k))}),
            lambda g: setattr(g, "constraints", g.constraints + [C("e", ("+", X, Y), lb=("neg", Q), ub=k)]),
        ),
        "constraint context": (crep("d", context=COUP, expression=to_node(Y)), lambda g: cspec(g, "d", C("d", Y, lb=("neg", Q), ub=Q, context=COUP))),
        "parameter": (
            lambda m: m.replicate(parameters={**m.parameters, "p": m.parameters["p"].replicate(structure=IndexingStructure(True, False))}),
            set_(params={"p": (True, False), "q": (False, False)}),
        ),
        "ports": (ports, set_(defs={("port", "f"): ("-", X, P)})),
    }


def h_declarations(ctx, T, S):
    """Component Z uses a model replicated with a change, component A the original."""
    node, gen = node_spec(), gen_spec()
    table = changes(ctx)
    what = ctx.pick("change", list(table))
    real, change = table[what]
    other = copy.copy(gen)
    models = {}
    base = Study({"N": node, "A": gen}, ("N",), [("N", "port", "A", "port")])
    net = base.network(models)
    mod = models[id(gen)]
    if what == "structure":
        mod = mod.replicate(objective_investment_contribution=None)  # its objective is over the structure changed
    change(other)
    comp = net.get_component("A").replicate(id="Z", model=real(mod))
    ctx.check(comp.id == "Z" and net.get_component("A").id == "A", "id of a replicated component")
    net.add_component(comp)
    st = Study({"N": node, "A": gen, "Z": other}, ("N",), list(base.links))
    if ctx.flag("connected"):
        st.links.append(("Z", "port", "N", "port"))
        net.connect(PortRef(comp, "port"), PortRef(net.get_node("N"), "port"))
    st.values = values(ctx, st.comps, T, S)
    strategy = ctx.pick("strategy", list(STRATEGIES))
    if strategy != "merged":
        # each phase uses only its own variables
        st.links, other_ok = [], what in ("context", "constraint context", "no objective", "nothing", "id", "everything", "upper bound", "structure")
        ctx.assume(other_ok and strategy == "investment")
        net = net_without_links(net)
    check(ctx, net, st, list(range(T)), S, strategy)
    ctx.cover(strategy)


def net_without_links(net):
    res = Network("n")
    for n in net.nodes:
        res.add_node(n)
    for c in net.components:
        res.add_component(c)
    return res


def h_invalid(ctx):
    """A replica is subject to the same rules as a declaration."""
    mod = gen_spec().build()
    x = mod.variables["x"]
    attempts = [
        (True, lambda: x.replicate(upper_bound=literal(3))),
        (False, lambda: x.replicate(upper_bound=var("y"))),
        (False, lambda: x.replicate(lower_bound=var("y") + 1)),
        (False, lambda: mod.constraints["d"].replicate(upper_bound=var("y"))),
        (False, lambda: mod.constraints["d"].replicate(lower_bound=literal(float("inf")))),
        (False, lambda: mod.constraints["c"].replicate(expression=var("x") <= var("y"))),
        (False, lambda: mod.replicate(objective_operational_contribution=var("x"))),
        (False, lambda: mod.replicate(objective_operational_contribution=(var("y") * var("y")))),
        (True, lambda: mod.replicate(objective_operational_contribution=var("y") * 3)),
        (False, lambda: mod.replicate(ports={})),
        (True, lambda: mod.replicate(ports={}, port_fields_definitions={})),
    ]
    good, act = ctx.pick("attempt", attempts)
    try:
        act()
        ok = True
    except ValueError:
        ok = False
    ctx.check(ok == good, f"replica {'accepted' if ok else 'refused'}")
    ctx.cover("accepted" if ok else "refused")


HARNESSES = [
    Harness(
        "networks",
        h_network,
        "a network with one or two nodes, connected or not, and N steps among: replicating any of the networks, adding a component, a node or a connection to any of them, moving its first connection to another node; symbolic data",
        quick=dict(T=2, S=1, N=3),
        thorough=dict(T=2, S=2, N=4),
        covers=["2 networks", "3 networks"],
    ),
    Harness(
        "declarations",
        h_declarations,
        "17 changes of a model, its variables, parameters, constraints, ports and port definitions; the replica next to the original in one network; symbolic data",
        quick=dict(T=2, S=2),
        thorough=dict(T=3, S=3),
        covers=["merged", "investment"],
    ),
    Harness("invalid", h_invalid, "11 replicas", covers=["accepted", "refused"]),
]
