"""C32: an expression that an operation cannot interpret is refused, never given a result."""
from andromede.expression import EvaluationContext, evaluate, literal, param, var
from andromede.expression.context_adder import add_component_context
from andromede.expression.expression import (
    CurrentScenarioIndex,
    NoScenarioIndex,
    NoTimeIndex,
    OneScenarioIndex,
    TimeShift,
    TimeStep,
    comp_param,
    comp_var,
    port_field,
    problem_param,
    problem_var,
)
from andromede.expression.indexing import compute_indexation
from andromede.expression.indexing_structure import IndexingStructure
from andromede.expression.operators_expansion import ProblemDimensions, expand_operators
from andromede.model import Constraint, ModelPort, PortField, PortType, model
from andromede.model.port import port_field_def
from andromede.simulation import build_problem
from andromede.simulation.linearize import linearize_expression
from andromede.study import DataBase, Network, create_component

from vf import lpstub, spec
from vf.harness import Harness
from vf.spec import Data, MSpec, Study, V
from vf.sym import not_

prepare_symbolic = lpstub.install

CUR, ANY = CurrentScenarioIndex(), NoScenarioIndex()


def pvar(n="x", t=None, s=None):
    return problem_var("C", n, t or TimeShift(0), s or CUR)


def ppar(n="p", t=None, s=None):
    return problem_param("C", n, t or NoTimeIndex(), s or ANY)


# parts of expressions, by name
PARTS = {
    "variable": lambda: var("x"),
    "parameter": lambda: param("p"),
    "unknown variable": lambda: var("nothing"),
    "unknown parameter": lambda: param("nothing"),
    "component variable": lambda: comp_var("C", "x"),
    "component parameter": lambda: comp_param("C", "p"),
    "unknown component": lambda: comp_var("K", "x"),
    "problem variable": lambda: pvar(),
    "problem parameter": lambda: ppar(),
    "port field": lambda: port_field("q", "f"),
    "sum of port fields": lambda: port_field("q", "f").sum_connections(),
}
BASE = {"model": lambda: var("y"), "component": lambda: comp_var("C", "y"), "problem": lambda: pvar("y", NoTimeIndex(), ANY)}


def over(op, e, ctx=None):
    fraction = 0.5
    if ctx is not None and "fraction" in op:
        # any number of tenths that is not whole
        fraction = ctx.int("tenths", -29, 29) / 10
        ctx.assume(fraction.is_integer() is False if isinstance(fraction, float) else not_(fraction.is_integer()))
    return {
        "shift": lambda: e.shift(1),
        "evaluation": lambda: e.eval(0),
        "windowed sum": lambda: e.time_sum(0, 1),
        "sum": lambda: e.time_sum(),
        "expectation": lambda: e.expec(),
        "variance": lambda: e.variance(),
        "comparison": lambda: e <= literal(3),
        "equality": lambda: e == literal(3),
        "twice": lambda: e.eval(0).eval(1),
        "shift by a fraction": lambda: e.shift(literal(fraction)),
        "evaluation at a fraction": lambda: e.eval(literal(fraction)),
        "sum to a fraction": lambda: e.time_sum(literal(0), literal(fraction)),
        "shift by a variable": lambda: e.shift(var("y")),
        "shift by a series": lambda: e.shift(param("s")),
        "sum from a series": lambda: e.time_sum(param("s"), literal(1)),
        "shift by scenario": lambda: e.shift(param("u")),
        "evaluation by scenario": lambda: e.eval(param("u") - 1),
        "sum to a scenario value": lambda: e.time_sum(literal(0), param("u")),
    }[op]()


def around(ctx, bad, good, depth, divisor=False):
    """An arithmetic expression that has the part in it somewhere."""
    e = bad
    for d in range(depth):
        op = ctx.pick("around", ["none", "neg", "add", "radd", "sub", "mul", "rmul", "div", "three"] + (["rdiv"] if divisor and not d else []))
        k = ctx.real(f"k{d}", 2, 10)
        if op == "neg":
            e = -e
        elif op == "add":
            e = e + good
        elif op == "radd":
            e = good + e
        elif op == "sub":
            e = good * k - e
        elif op == "mul":
            e = e * literal(k)
        elif op == "rmul":
            e = literal(k) * e
        elif op == "div":
            e = e / literal(k)
        elif op == "rdiv":
            e = literal(k) / e
        elif op == "three":
            e = good + literal(k) + e
    return e


class Provider:
    """Structures: x depends on nothing here, so that no part of an expression decides alone."""

    def get_variable_structure(self, name):
        return self._s(name)

    get_parameter_structure = get_variable_structure

    def get_component_variable_structure(self, comp, name):
        return self._s(name, comp)

    get_component_parameter_structure = get_component_variable_structure

    def _s(self, name, comp="C"):
        if comp != "C" or name == "nothing":
            raise KeyError(name)
        return IndexingStructure(False, False)

    def get_parameter_value(self, comp, name, t, s):
        if comp != "C" or name != "p":
            raise KeyError(name)
        return 2.0


STAGES = {
    # operation: (stage of its expressions, parts refused, operators refused, the operation)
    "evaluate": (
        "model",
        ["unknown variable", "unknown parameter", "component variable", "component parameter", "problem variable", "problem parameter", "port field", "sum of port fields"],
        ["shift", "evaluation", "windowed sum", "sum", "expectation", "variance", "comparison", "equality"],
        lambda ctx, e: evaluate(e, EvaluationContext({"x": ctx.real("x", 1, 9), "y": ctx.real("y", 1, 9)}, {"p": ctx.real("p", 1, 9)})),
    ),
    "linearize": (
        "problem",
        ["variable", "parameter", "component variable", "component parameter", "port field", "sum of port fields"],
        ["shift", "evaluation", "windowed sum", "sum", "expectation", "variance", "comparison", "equality"],
        lambda ctx, e: linearize_expression(e, 0, 0, Provider()),
    ),
    "linearize without time": ("problem", ["problem variable"], [], lambda ctx, e: linearize_expression(e, None, 0, Provider())),
    "linearize without data": ("problem", ["problem parameter"], [], lambda ctx, e: linearize_expression(e, 0, 0)),
    "expand": (
        "component",
        ["problem variable", "problem parameter", "unknown component"],
        ["variance"],
        lambda ctx, e: expand_operators(e, ProblemDimensions(2, 2), lambda n: evaluate(n, EvaluationContext()), Provider()),
    ),
    "expand and linearize": (
        "component",
        ["variable", "parameter", "problem variable", "problem parameter", "unknown component", "port field", "sum of port fields"],
        ["variance", "comparison", "equality"],
        lambda ctx, e: linearize_expression(expand_operators(e, ProblemDimensions(2, 2), lambda n: evaluate(n, EvaluationContext()), Provider()), 0, 0, Provider()),
    ),
    "index": (
        "component",
        ["unknown variable", "unknown component", "problem variable", "problem parameter", "port field", "sum of port fields"],
        [],
        lambda ctx, e: compute_indexation(e, Provider()),
    ),
    "add a component": ("model", ["component variable", "component parameter", "problem variable", "problem parameter"], [], lambda ctx, e: add_component_context("D", e)),
    "define a port field": (
        "model",
        ["component variable", "component parameter", "problem variable", "problem parameter", "port field", "sum of port fields"],
        ["comparison", "equality"],
        lambda ctx, e: port_field_def("q", "f", e),
    ),
}
GOOD = {"model": ["variable", "parameter"], "component": ["component variable", "component parameter"], "problem": ["problem variable", "problem parameter"]}


def h_stages(ctx, depth):
    name = ctx.pick("operation", list(STAGES))
    stage, parts, ops, run = STAGES[name]
    what = ctx.pick("what", parts + ops + ["fine"])
    good = BASE[stage]()
    if what == "fine":
        bad = PARTS[ctx.pick("part", GOOD[stage][:1] if "data" in name else GOOD[stage][1:] if "time" in name else GOOD[stage])]()
    elif what in parts:
        bad = PARTS[what]()
        if name != "linearize" and not name.startswith("linearize w"):
            # under an operator the operation knows
            inside = ctx.pick("inside", ["none"] + (["shift", "sum", "expectation"] if stage != "model" or name in ("add a component", "define a port field") else []))
            if inside != "none":
                bad = over(inside, bad)
    else:
        bad = over(what, PARTS[GOOD[stage][0]]())
    e = around(ctx, bad, good, depth, divisor=what != "fine" or "linearize" not in name)
    try:
        res = run(ctx, e)
    except Exception as ex:  # noqa: BLE001
        if not isinstance(ex, (ValueError, KeyError, NotImplementedError, TypeError, RuntimeError, AttributeError)):
            raise
        ctx.check(what != "fine", f"{name}: {ex!r} for an expression it can interpret")
        ctx.cover("refused")
        return
    ctx.check(what == "fine", f"{name}: {what} was accepted and gave {type(res).__name__}")
    ctx.cover("accepted")


def h_builds(ctx, depth):
    """Models whose expressions cannot be given a meaning are refused, at the latest when the problem is built."""
    what = ctx.pick(
        "what",
        ["fine", "twice", "variance", "shift by a fraction", "evaluation at a fraction", "sum to a fraction", "shift by a variable", "shift by a series", "sum from a series",
         "shift by scenario", "evaluation by scenario", "sum to a scenario value",
         "unknown variable", "unknown parameter", "component variable", "component parameter", "problem variable", "problem parameter", "port field"],
    )
    bad = PARTS["variable"]() if what == "fine" else PARTS[what]() if what in PARTS else over(what, var("x"), ctx)
    e = around(ctx, bad, var("y"), depth)
    where = ctx.pick("where", ["constraint", "member", "binding", "objective"])
    m = MSpec("m", params={"p": (False, False), "s": (True, False), "u": (False, True)}, vars={"x": V((True, False)), "y": V((False, False))})
    values = {("C", "p"): Data("const", ctx.real("p", 1, 9)), ("C", "s"): Data("time", [1.0, 2.0]) if ctx.flag("series") else Data("const", 1.0), ("C", "u"): Data("const", 1.0)}
    if what in ("shift by scenario", "evaluation by scenario", "sum to a scenario value") and ctx.flag("scenarios"):
        values[("C", "u")] = Data("scen", [1.0, 2.0])
    st = Study({"C": m}, values=values)
    try:
        built = m.build()
        if where == "objective":
            # scalar: sums over time of an expression already evaluated stay
            built = built.replicate(objective_operational_contribution=e.time_sum())
        else:
            c = Constraint("c", (e <= literal(3)) if where != "member" else (literal(3) >= e))
            built = built.replicate(**{"binding_constraints" if where == "binding" else "constraints": {"c": c}})
        net = Network("n")
        net.add_component(create_component(model=built, id="C"))
        problem = build_problem(net, st.database(), spec.block(range(2)), 1)
    except Exception as ex:  # noqa: BLE001
        if not isinstance(ex, (ValueError, KeyError, NotImplementedError, TypeError, RuntimeError, AttributeError)):
            raise
        ctx.check(what != "fine", f"{where}: {ex!r} for a meaningful expression")
        ctx.cover("refused")
        return
    ctx.check(what == "fine", f"{where}: {what} was accepted")
    ctx.cover("accepted")


HARNESSES = [
    Harness(
        "operations",
        h_stages,
        "9 operations; a part or operator the operation cannot interpret (or one it can) inside `depth` levels of arithmetic with symbolic literals",
        quick=dict(depth=2),
        thorough=dict(depth=3),
        covers=["refused", "accepted"],
    ),
    Harness(
        "models",
        h_builds,
        "19 parts or operators in a constraint (either member), a binding constraint or the objective, inside `depth` levels of arithmetic",
        quick=dict(depth=1),
        thorough=dict(depth=2),
        covers=["refused", "accepted"],
    ),
]
