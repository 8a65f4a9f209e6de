"""C16: comparing, copying, instantiating, resolving and printing expressions."""
from andromede.expression import EvaluationContext, evaluate, literal, param, var
from andromede.expression.context_adder import add_component_context
from andromede.expression.copy import copy_expression
from andromede.expression.equality import expressions_equal
from andromede.expression.evaluate import ValueProvider
from andromede.expression.evaluate_parameters import ParameterValueProvider, resolve_parameters
from andromede.expression.expression import (
    Comparator,
    ComparisonNode,
    CurrentScenarioIndex,
    NoScenarioIndex,
    NoTimeIndex,
    OneScenarioIndex,
    ScenarioOperatorNode,
    TimeShift,
    TimeStep,
    comp_param,
    comp_var,
    port_field,
    problem_param,
    problem_var,
)
from andromede.expression.print import print_expr

from vf import refparse, symstr
from vf.harness import Harness
from vf.props.c02 import ref_value
from vf.spec import to_node

prepare_symbolic = symstr.install_numbers

LEAVES = ["var", "par", "lit", "cvar", "cpar", "pvar", "ppar", "pf"]
UN = ["neg", "shift", "eval", "tsum", "sumall", "expec", "variance", "pfsum"]
BIN = ["+", "-", "*", "/", "<=", ">=", "=="]


def leaf(ctx, kinds):
    k = ctx.pick("leaf", kinds)
    if k in ("pvar", "ppar"):
        return (k, ctx.pick("index", [0, 9]))
    return (k, ctx.real("lit", -10, 10)) if k == "lit" else (k, 0)


def shape(ctx, depth, leaves, un, bi):
    op = ctx.pick("op", ["leaf"] + un + bi) if depth else "leaf"
    if op == "leaf":
        return leaf(ctx, leaves)
    if op == "pfsum":
        return (op, 0)
    a = shape(ctx, depth - 1, leaves, un, bi)
    if op in ("shift", "eval"):
        return (op, a, ("lit", ctx.real("k", -5, 5)))
    if op == "tsum":
        return (op, a, ("lit", ctx.real("k1", -5, 5)), ("lit", ctx.real("k2", -5, 5)))
    if op in un:
        return (op, a)
    return (op, a, shape(ctx, depth - 1, leaves, un, bi))


TI = [TimeShift(0), TimeShift(1), TimeStep(0), TimeStep(1), NoTimeIndex()]
SI = [CurrentScenarioIndex(), OneScenarioIndex(0), OneScenarioIndex(1), NoScenarioIndex()]


def node(a):
    """The expression of a description; `i` numbers the variants of leaves."""
    op = a[0]
    if op == "lit":
        return literal(a[1])
    i = a[1] if isinstance(a[1], int) else 0
    if op == "var":
        return var(["x", "y"][i])
    if op == "par":
        return param(["p", "q"][i])
    if op == "cvar":
        return [comp_var("C", "x"), comp_var("D", "x"), comp_var("C", "y")][i]
    if op == "cpar":
        return [comp_param("C", "p"), comp_param("D", "p"), comp_param("C", "q")][i]
    if op in ("pvar", "ppar"):
        f = problem_var if op == "pvar" else problem_param
        vs = [f("C", "x", t, s) for t in TI for s in SI] + [f("D", "x", TI[0], SI[0]), f("C", "y", TI[0], SI[0])]
        return vs[i]
    if op == "pf":
        return [port_field("P", "f"), port_field("P", "g"), port_field("Q", "f")][i]
    if op == "pfsum":
        return [port_field("P", "f"), port_field("P", "g"), port_field("Q", "f")][i].sum_connections()
    x = node(a[1])
    if op == "neg":
        return -x
    if op == "shift":
        return x.shift(node(a[2]))
    if op == "eval":
        return x.eval(node(a[2]))
    if op == "tsum":
        return x.time_sum(node(a[2]), node(a[3]))
    if op == "sumall":
        return x.time_sum()
    if op == "expec":
        return x.expec()
    if op == "variance":
        return x.variance()
    y = node(a[2])
    return {
        "+": lambda: x + y,
        "-": lambda: x - y,
        "*": lambda: x * y,
        "/": lambda: x / y,
        "<=": lambda: x <= y,
        ">=": lambda: x >= y,
        "==": lambda: x == y,
    }[op]()


NVAR = {"var": 2, "par": 2, "cvar": 3, "cpar": 3, "pvar": 22, "ppar": 22, "pf": 3, "pfsum": 3}
SWAP = {
    "var": "par",
    "par": "var",
    "cvar": "cpar",
    "cpar": "cvar",
    "pvar": "ppar",
    "ppar": "pvar",
    "pf": "pfsum",
    "pfsum": "pf",
    "shift": "eval",
    "eval": "shift",
    "expec": "variance",
    "variance": "expec",
    "sumall": "expec",
    "+": "-",
    "-": "+",
    "*": "/",
    "/": "*",
    "<=": ">=",
    ">=": "==",
    "==": "<=",
}


def paths(a, pre=()):
    yield pre
    for i, b in enumerate(a[1:], 1):
        if isinstance(b, tuple):
            yield from paths(b, pre + (i,))


def put(a, path, f):
    if not path:
        return f(a)
    i = path[0]
    return a[:i] + (put(a[i], path[1:], f),) + a[i + 1 :]


def mutate(ctx, a):
    """A description that denotes something else."""
    path = ctx.pick("where", list(paths(a)))

    def f(b):
        if b[0] == "lit":
            if ctx.flag("grow"):
                return ("+", b, ("var", 1))
            v = ctx.real("newlit", -10, 10)
            return ("lit", v)
        if b[0] in NVAR and ctx.flag("rename"):
            return (b[0], ctx.pick("variant", [i for i in range(NVAR[b[0]]) if i != b[1]]))
        how = ctx.pick("how", ["swap", "grow", "drop"] if b[0] in BIN else ["swap", "grow"])
        if how == "grow":
            return ("+", b, ("var", 1)) if ctx.flag("after") else ("+", ("var", 1), b)
        if how == "drop":
            return b[1 + ctx.choose("keep", 2)]
        if b[0] in SWAP:
            return (SWAP[b[0]],) + b[1:]
        return ("neg", b)

    return put(a, path, f)


def literals(a):
    if a[0] == "lit":
        return [a[1]]
    return [x for b in a[1:] if isinstance(b, tuple) for x in literals(b)]


def skeleton(a):
    if a[0] == "lit":
        return ("lit",)
    return (a[0],) + tuple(skeleton(b) if isinstance(b, tuple) else b for b in a[1:])


def h_equal(ctx, depth, leaves, un, bi, tol):
    a = shape(ctx, depth, leaves, un, bi)
    which = ctx.pick("which", ["same", "mutated"])
    b = a if which == "same" else mutate(ctx, a)
    abs_tol = rel_tol = 0
    if tol:
        abs_tol = ctx.pick("abs", [0, 0.5])
        rel_tol = ctx.pick("rel", [0, 0.1])
    x, y = node(a), node(b)
    got = expressions_equal(x, y, abs_tol, rel_tol) if tol else expressions_equal(x, y)
    ctx.check(isinstance(got, bool) or got in (0, 1), "equality is not a boolean")
    if skeleton(a) != skeleton(b):
        ctx.check(not got, f"{x} and {y} are declared equal")
        ctx.cover("different")
        return
    same = True
    for u, v in zip(literals(a), literals(b)):
        d = abs(u - v)
        m = abs(u) if abs(u) > abs(v) else abs(v)
        if not (d <= abs_tol or d <= rel_tol * m):
            same = False
    ctx.check(bool(got) == same, f"{x} and {y}: equality is {got}")
    ctx.cover("equal" if same else "literal")


class Prov(ValueProvider, ParameterValueProvider):
    def __init__(self, vals):
        self.vals = vals

    def get_variable_value(self, name):
        return self.vals[("", name)]

    get_parameter_value = get_variable_value

    def get_component_variable_value(self, component_id, name):
        return self.vals[(component_id, name)]

    get_component_parameter_value = get_component_variable_value


def h_copy(ctx, depth, leaves, un, bi):
    a = shape(ctx, depth, leaves, un, bi)
    x = node(a)
    c = copy_expression(x)
    ctx.check(expressions_equal(c, x), f"copy of {x} is {c}")
    ctx.check(expressions_equal(x, node(a)), f"copying changed the expression {x}")
    ctx.cover("end")


def value(a, vals, comp):
    op = a[0]
    if op == "lit":
        return a[1]
    if op == "var":
        return vals[(comp, ["x", "y"][a[1]])]
    if op == "par":
        return vals[(comp, ["p", "q"][a[1]])]
    if op == "neg":
        return -value(a[1], vals, comp)
    l, r = value(a[1], vals, comp), value(a[2], vals, comp)
    return l + r if op == "+" else l - r if op == "-" else l * r if op == "*" else l / r


def h_context(ctx, depth, leaves, un, bi):
    """Instantiation for a component, then parameter resolution, keep the value."""
    a = shape(ctx, depth, leaves, un, bi)
    vals = {(c, n): ctx.nonzero(f"{c}{n}", 1, 100) for c in ("", "C", "D") for n in "xp"}
    e = node(a)
    try:
        want = {c: value(a, vals, c) for c in ("", "C", "D")}
    except ZeroDivisionError:
        ctx.assume(False)
    inst = {c: add_component_context(c, e) for c in ("C", "D")}
    for c in ("C", "D"):
        ctx.check_close(evaluate(inst[c], Prov(vals)), want[c], f"instance for component {c}")
        noparam = {k: v for k, v in vals.items() if k[1] == "x"}
        r = resolve_parameters(inst[c], Prov({k: v for k, v in vals.items() if k[1] == "p"}))
        ctx.check_close(evaluate(r, Prov(noparam)), want[c], f"resolved instance for component {c}")
    r = resolve_parameters(e, Prov(vals))
    ctx.check_close(evaluate(r, EvaluationContext(variables={"x": vals[("", "x")]})), want[""], "resolved expression")
    ctx.check_close(
        evaluate(e, EvaluationContext(variables={"x": vals[("", "x")]}, parameters={"p": vals[("", "p")]})),
        want[""],
        "expression after its transformations",
    )
    if any(k in str(a) for k in ("'var'", "'par'")):
        try:
            add_component_context("D", inst["C"])
        except ValueError:
            pass
        else:
            ctx.fail("an expression of a component was associated to another component")
    ctx.cover("end")


def h_print(ctx, depth, leaves, un, bi):
    """The printed text denotes the same value."""
    a = shape(ctx, depth, leaves, un, bi)

    def lits(b):
        if b[0] == "lit":
            return ("lit", ctx.pick("num", [0.5, -3.0, 12.0]))
        return (b[0],) + tuple(lits(c) if isinstance(c, tuple) else c for c in b[1:])

    a = lits(a)
    vals = {("", n): ctx.nonzero(n, 1, 100) for n in ("x", "y", "p", "q")}
    try:
        want = value(a, vals, "")
    except ZeroDivisionError:
        ctx.assume(False)
    text = print_expr(node(a))
    try:
        ref = refparse.parse(text, {"x", "y"}, {"p", "q"})
    except refparse.Bad as e:
        ctx.fail(f"printed text {text!r} is not readable: {e}")
    ctx.check_close(ref_value(ref, {n: v for (_, n), v in vals.items()}), want, f"value of the printed text {text!r}")
    ctx.cover("end")


HARNESSES = [
    Harness(
        "equality",
        h_equal,
        "trees of the given depth over all kinds of nodes, compared with themselves and with every single-point mutation; symbolic literals",
        quick=dict(depth=1, leaves=LEAVES, un=UN, bi=BIN, tol=False),
        thorough=dict(depth=2, leaves=["var", "lit", "pf"], un=["neg", "shift", "tsum", "expec"], bi=["+", "/", "<="], tol=False),
        covers=["equal", "different", "literal"],
    ),
    Harness(
        "equality_deep",
        h_equal,
        "as equality at depth 2 on fewer kinds",
        quick=dict(depth=2, leaves=["var", "lit"], un=["neg", "tsum"], bi=["+", "/"], tol=False),
        thorough=dict(leaves=["par", "lit"], un=["eval", "sumall"], bi=["-", "*"]),
        covers=["equal", "different", "literal"],
    ),
    Harness(
        "tolerances",
        h_equal,
        "as equality with absolute (0.5) and relative (0.1) tolerances",
        quick=dict(depth=1, leaves=["lit", "var"], un=["neg", "shift"], bi=["+", "*"], tol=True),
        covers=["equal", "different", "literal"],
    ),
    Harness(
        "copies",
        h_copy,
        "trees of the given depth over all kinds of nodes",
        quick=dict(depth=2, leaves=["var", "par", "lit", "pvar"], un=UN, bi=["+", "-", "/", "<="]),
        thorough=dict(leaves=LEAVES, bi=BIN),
        covers=["end"],
    ),
    Harness(
        "components",
        h_context,
        "arithmetic trees of the given depth; symbolic values of the variables and parameters of two components",
        quick=dict(depth=2, leaves=["var", "par", "lit"], un=["neg"], bi=["+", "-", "*", "/"]),
        covers=["end"],
    ),
    Harness(
        "printing",
        h_print,
        "arithmetic trees of the given depth, literals among 0.5, -3, 12, symbolic values of the names",
        quick=dict(depth=2, leaves=["var", "par", "lit"], un=["neg"], bi=["+", "-", "*", "/"]),
        covers=["end"],
    ),
]
