"""C05: linearisation preserves the value and refuses what is not linear."""
from andromede.expression.expression import (
    CurrentScenarioIndex,
    NoScenarioIndex,
    NoTimeIndex,
    OneScenarioIndex,
    TimeShift,
    TimeStep,
    literal,
    problem_param,
    problem_var,
)
from andromede.simulation.linearize import ParameterGetter, linearize_expression

from vf.harness import Harness


class Getter(ParameterGetter):
    def __init__(self, values):
        self.values = values

    def get_parameter_value(self, component_id, parameter_name, timestep, scenario):
        return self.values[(component_id, parameter_name, timestep, scenario)]


LEAVES = ["x", "x1", "y", "z", "p", "q", "lit"]


def leaf(ctx, kinds, t, s, pt, pv):
    k = ctx.pick("leaf", kinds)
    if k == "x":
        key = ("A", "x", t, s)
        return problem_var("A", "x", TimeShift(0), CurrentScenarioIndex()), pt(key), 1
    if k == "x1":
        d = ctx.pick("shift", [-1, 1])
        return problem_var("A", "x", TimeShift(d), CurrentScenarioIndex()), pt(("A", "x", t + d, s)), 1
    if k == "y":
        n = ctx.pick("step", [t, t + 1])
        return problem_var("B", "x", TimeStep(n), OneScenarioIndex(0)), pt(("B", "x", n, 0)), 1
    if k == "z":
        return problem_var("A", "z", NoTimeIndex(), NoScenarioIndex()), pt(("A", "z", None, None)), 1
    if k == "p":
        return problem_param("A", "p", TimeShift(1), CurrentScenarioIndex()), pv(("A", "p", t + 1, s)), 0
    if k == "q":
        return problem_param("A", "q", NoTimeIndex(), NoScenarioIndex()), pv(("A", "q", None, None)), 0
    v = ctx.real("lit", -10, 10)
    return literal(v), v, 0


class Div0(Exception):
    pass


def build(ctx, depth, kinds, ops, t, s, pt, pv):
    op = ctx.pick("op", ["leaf"] + ops) if depth else "leaf"
    if op == "leaf":
        return leaf(ctx, kinds, t, s, pt, pv)
    a, va, da = build(ctx, depth - 1, kinds, ops, t, s, pt, pv)
    if op == "neg":
        return -a, -va, da
    b, vb, db = build(ctx, depth - 1, kinds, ops, t, s, pt, pv)
    if op == "+":
        return a + b, va + vb, max(da, db)
    if op == "-":
        return a - b, va - vb, max(da, db)
    if op == "*":
        return a * b, va * vb, da + db
    if db > 0:
        return a / b, None if va is None else va, 99
    try:
        return a / b, va / vb, da
    except ZeroDivisionError:
        raise Div0()


def h_lin(ctx, depth, kinds, ops):
    t, s = ctx.choose("t", 2) + 1, ctx.choose("s", 2)
    points, params = {}, {}

    def pt(k):
        if k not in points:
            points[k] = ctx.real("v" + "_".join(map(str, k)), -100, 100)
        return points[k]

    def pv(k):
        if k not in params:
            params[k] = ctx.real("p" + "_".join(map(str, k)), -100, 100)
        return params[k]

    try:
        e, want, degree = build(ctx, depth, kinds, ops, t, s, pt, pv)
    except Div0:
        ctx.assume(False)
    for again in range(2):  # the expression can be linearised again
        try:
            lin = linearize_expression(e, t, s, Getter(params))
        except ValueError:
            ctx.cover("rejected")
            ctx.check(degree > 1, "a linear expression was rejected")
            return
        except ZeroDivisionError:
            ctx.fail("division by zero raised without a zero divisor")
        if degree == 99:
            ctx.fail("division by an expression with variables was accepted")
        got = lin.constant
        for term in lin.terms.values():
            k = (term.component_id, term.variable_name, term.time_index, term.scenario_index)
            if k not in points:
                ctx.fail(f"unknown variable {k} in the linear expression")
            got = got + term.coefficient * points[k]
        ctx.check_close(got, want, "value of the linear expression")
    ctx.cover("accepted")


def h_sum(ctx, n, kinds):
    """Sums of many terms on the same variables: coefficients add up."""
    t, s = 1, 0
    points, params = {}, {}

    def pt(k):
        if k not in points:
            points[k] = ctx.real("v" + "_".join(map(str, k)), -100, 100)
        return points[k]

    def pv(k):
        if k not in params:
            params[k] = ctx.real("p" + "_".join(map(str, k)), -100, 100)
        return params[k]

    total, want = None, 0
    for i in range(ctx.choose("n", n) + 1):
        a, v, _ = leaf(ctx, kinds, t, s, pt, pv)
        c = ctx.real("c", -10, 10)
        form = ctx.pick("form", ["c*a", "a/c", "-a"])
        if form == "c*a":
            a, v = c * a, c * v
        elif form == "a/c":
            ctx.assume(c > 0.001)
            a, v = a / c, v / c
        else:
            a, v = -a, -v
        total = a if total is None else total + a
        want = want + v
    lin = linearize_expression(total, t, s, Getter(params))
    got = lin.constant
    for term in lin.terms.values():
        got = got + term.coefficient * points[(term.component_id, term.variable_name, term.time_index, term.scenario_index)]
    ctx.check_close(got, want, "value of the linear expression")
    ctx.cover("end")


HARNESSES = [
    Harness(
        "expressions",
        h_lin,
        "expression trees of the given depth over + - * / and negation, leaves among variables of different components, times and "
        "scenarios, parameters and literals; symbolic parameter values, coefficients and evaluation point; linearised twice",
        quick=dict(depth=2, kinds=["x", "z", "p", "lit"], ops=["-", "*", "/", "neg"]),
        thorough=dict(depth=2, kinds=["x", "z", "y", "p", "q", "lit"], ops=["+", "-", "*", "/", "neg"]),
        covers=["accepted", "rejected"],
    ),
    Harness(
        "leaves",
        h_lin,
        "as expressions, depth 1, every kind of leaf",
        quick=dict(depth=1, kinds=LEAVES, ops=["+", "-", "*", "/", "neg"]),
        covers=["accepted", "rejected"],
    ),
    Harness(
        "sums",
        h_sum,
        "sums of up to n scaled leaves, repeated variables included",
        quick=dict(n=3, kinds=["x", "x1", "y", "p"]),
        thorough=dict(n=4, kinds=["x", "x1", "y", "p"]),
        covers=["end"],
    ),
]
