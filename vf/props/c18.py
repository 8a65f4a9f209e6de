"""C18: decision trees."""
from andromede.simulation.benders_decomposed import build_benders_decomposed_problem
from andromede.simulation.decision_tree import CouplingInfo, DecisionTreeNode, InterDecisionTimeScenarioConfig
from andromede.simulation.time_block import TimeBlock
from andromede.study import DataBase, Network, create_component

from vf import lpstub, spec
from vf.harness import Harness
from vf.sym import and_, or_
from vf.trees import SHAPES, Pathway, candidate, children, reach

prepare_symbolic = lpstub.install
CFG = InterDecisionTimeScenarioConfig([TimeBlock(1, [0])], 1)


def _tree(ctx, shape, cond, how):
    """The same tree, given top-down, bottom-up, or attached afterwards."""
    n = len(SHAPES[shape]) + 1
    nodes = [None] * n
    if how == "parent":
        for i in range(n):
            nodes[i] = DecisionTreeNode(f"n{i}", CFG, Network(f"net{i}"), parent=nodes[SHAPES[shape][i - 1]] if i else None, prob=cond[i])
    elif how == "children":
        for i in reversed(range(n)):
            nodes[i] = DecisionTreeNode(f"n{i}", CFG, Network(f"net{i}"), children=[nodes[j] for j in children(shape, i)] or None, prob=cond[i])
    else:
        for i in range(n):
            nodes[i] = DecisionTreeNode(f"n{i}", CFG, Network(f"net{i}"), prob=cond[i])
        for i in reversed(range(1, n)):
            nodes[i].parent = nodes[SHAPES[shape][i - 1]]
    return nodes


def h_prob(ctx, shapes):
    """Probability of a node; which trees are consistent."""
    shape = ctx.pick("shape", shapes)
    n = len(SHAPES[shape]) + 1
    cond = {i: ctx.real(f"p{i}", 0, 1) for i in range(n)}
    nodes = _tree(ctx, shape, cond, ctx.pick("how", ["parent", "children", "later"]))
    for i in range(n):
        ctx.check_close(nodes[i].prob, reach(shape, cond, i), f"probability of node {i}")
    order = [x.id for x in nodes[0].traverse()]
    ctx.check(sorted(order) == sorted(x.id for x in nodes) and order[0] == "n0", f"traversal {order}")
    for i in range(1, n):
        ctx.check(order.index(f"n{SHAPES[shape][i - 1]}") < order.index(f"n{i}"), "a node comes before its parent")
    ctx.cover("end")


def h_sum(ctx, shapes):
    """Consistent exactly when the children of every node share out its probability."""
    shape = ctx.pick("shape", shapes)
    n = len(SHAPES[shape]) + 1
    cond = {0: ctx.real("p0", 0.5, 1)}
    wrong = ctx.pick("wrong", [None] + [i for i in range(n) if children(shape, i)])
    for i in range(n):
        ch = children(shape, i)
        total = 0
        for k, j in enumerate(ch):
            if k == len(ch) - 1 and i != wrong:
                cond[j] = 1 - total
            else:
                cond[j] = ctx.real(f"p{j}", 0.1, 0.4 if len(ch) > 1 else 1)
            total = total + cond[j]
        if i == wrong:
            ctx.assume(or_(total >= 1.001, total <= 0.999))
    nodes = _tree(ctx, shape, cond, ctx.pick("how", ["parent", "children", "later"]))
    ctx.check(bool(nodes[0].is_leaves_prob_sum_one()) == (wrong is None), f"consistency of the tree (inconsistent at {wrong})")
    if wrong is not None:
        try:
            build_benders_decomposed_problem(nodes[0], DataBase())
            ctx.fail("an inconsistent tree was accepted")
        except ValueError:
            ctx.cover("refused")
    else:
        ctx.cover("accepted")


def h_invalid(ctx):
    """A probability outside [0, 1] is refused and leaves the tree as it was."""
    root = DecisionTreeNode("root", CFG, Network("n"))
    other = DecisionTreeNode("a", CFG, Network("n"), prob=1.0)
    p = ctx.real("p", -2, 2)
    kw = {}
    if ctx.flag("with_parent"):
        kw["parent"] = root
    if ctx.flag("with_children"):
        kw["children"] = [other]
    valid = bool(and_(p >= 0, p <= 1))
    try:
        DecisionTreeNode("b", CFG, Network("n"), prob=p, **kw)
        ctx.check(valid, "an invalid probability was accepted")
        ctx.check(len(root.children) == (1 if "parent" in kw else 0), "children of the parent")
        ctx.cover("accepted")
    except ValueError:
        ctx.check(not valid, "a valid probability was refused")
        ctx.check(len(root.children) == 0 and other.parent is None, "a refused node is part of the tree")
        ctx.cover("refused")


def h_coupling(ctx):
    """A coupling is only accepted between components of the two nodes' networks and variables of their models."""
    good = spec.Study({"C": candidate(ctx)})
    n0, n1 = good.network({}), good.network({})
    root = DecisionTreeNode("r", CFG, n0)
    child = DecisionTreeNode("c", CFG, n1, parent=root)
    if ctx.flag("deeper"):
        # two levels below: a component of the root's network is not one of the parent's
        middle = spec.Study({"C": candidate(ctx), "D": candidate(ctx)}).network({})
        root = DecisionTreeNode("r", CFG, n0)
        n0.add_component(create_component(n0.get_component("C").model, "Z"))
        child = DecisionTreeNode("c", CFG, n1, parent=DecisionTreeNode("m", CFG, middle, parent=root))
        n0 = middle
    stranger = create_component(n0.get_component("C").model, "Z")
    # same id, but another model: not a component of the network either
    m2 = candidate(ctx)
    m2.name = "twin"
    m2.vars["twin"] = spec.V((False, False), ("lit", 0.0), None, context=spec.INV)
    twin = spec.Study({"C": m2}).network({}).get_component("C")
    par = ctx.pick("par", [n0.get_component("C"), stranger, twin])
    chd = ctx.pick("chd", [n1.get_component("C"), stranger, twin])
    names = [ctx.pick(k, [ok, "nothing"]) for k, ok in (("v1", "maxp"), ("v2", "maxp"), ("v3", "inv"))]
    ok = par not in (stranger, twin) and chd not in (stranger, twin) and "nothing" not in names
    try:
        child.define_coupling_constraint(par, names[0], chd, names[1], names[2])
        ctx.check(ok, "an invalid coupling was accepted")
        ctx.cover("accepted")
    except (ValueError, RuntimeError):
        ctx.check(not ok, "a valid coupling was refused")
        ctx.check(len(child.coupling_info.constraints) == 0, "a refused coupling was kept")
        ctx.cover("refused")


COUPLINGS = {
    "none": [],
    "C": [("C",)],
    "both": [("C",), ("E",)],
    "pairs": [("C",), ("C", "maxp2", "inv2")],
    "crossed": [("E", "maxp", "inv", "C"), ("E", "maxp2", "inv2", "C", "maxp2")],
    "increments": [("C",), ("C", "maxp", "inv2")],
    "mixed": [("C", "maxp2", "inv", "C", "maxp"), ("E", "maxp", "inv2", "C", "maxp2")],
}


def h_rows(ctx, shapes, names):
    """Each coupling becomes one equation of its own tree's master, whatever other trees exist."""
    shape = ctx.pick("shape", shapes)
    p = Pathway(ctx, shape, ctx.pick("names", names), second=True, pairs=2)
    root = p.build_tree()
    other = None
    if ctx.flag("other_tree"):
        other = Pathway(ctx, shape, treedata=False)
        other.build_tree()
    for i in range(p.n):
        for c in COUPLINGS[ctx.pick(f"couple{i}", list(COUPLINGS))]:
            p.couple(i, *c)
    if other:
        other.couple(p.n - 1, "C")
    b = build_benders_decomposed_problem(root, p.database())
    if other:
        ob = build_benders_decomposed_problem(other.nodes[0], other.database())
        other.check_master(ob.master)
    p.check_master(b.master)
    ctx.cover("end")


HARNESSES = [
    Harness(
        "probability",
        h_prob,
        "trees of up to 5 nodes with symbolic conditional probabilities, built top-down, bottom-up or attached afterwards",
        quick=dict(shapes=["single", "two", "chain", "mixed"]),
        thorough=dict(shapes=list(SHAPES)),
        covers=["end"],
    ),
    Harness(
        "consistency",
        h_sum,
        "as probability; one node at most whose children's conditional probabilities differ from 1 by at least 0.001",
        quick=dict(shapes=["one", "two", "chain", "mixed", "third"]),
        thorough=dict(shapes=[s for s in SHAPES if s != "single"]),
        covers=["refused", "accepted"],
    ),
    Harness("invalid_probability", h_invalid, "symbolic probability in [-2,2], with and without parent and children", covers=["accepted", "refused"]),
    Harness("invalid_coupling", h_coupling, "each component and each variable of a coupling right or wrong", covers=["accepted", "refused"]),
    Harness(
        "couplings",
        h_rows,
        "at every node no coupling or several (same component, the two components, two pairs of variables, crossed), alone or next to another tree",
        quick=dict(shapes=["single", "one"], names=["plain", "prefix"]),
        thorough=dict(shapes=["single", "one", "two", "chain"], names=["plain", "prefix"]),
        covers=["end"],
    ),
]
