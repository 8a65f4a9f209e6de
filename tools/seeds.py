"""Descriptions of the planted bugs (see mkseeds.py). Not read by any check."""

HELPER = '''
"""Small studies built and read through the public interface."""
import pandas as pd
from andromede.expression import literal, param, var
from andromede.expression.expression import port_field
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model import *
from andromede.model import Constraint, ModelPort, PortField, PortType, ProblemContext, ValueType, Variable, model
from andromede.model.parameter import Parameter, float_parameter
from andromede.model.port import port_field_def
from andromede.model.variable import float_variable, int_variable
from andromede.simulation import TimeBlock, build_problem
from andromede.study import *
from andromede.study import (ConstantData, DataBase, Network, Node, PortRef, ScenarioIndex, ScenarioSeriesData, TimeIndex,
                             TimeScenarioSeriesData, TimeSeriesData, create_component)

CONST, TIME, SCEN, BOTH = (IndexingStructure(*b) for b in ((False, False), (True, False), (False, True), (True, True)))


def rows(problem):
    """Constraints: list of (lb, ub, {variable: coefficient})."""
    s = problem.solver
    return [(c.lb(), c.ub(), {v.name(): c.GetCoefficient(v) for v in s.variables() if c.GetCoefficient(v)}) for c in s.constraints()]


def objective(problem):
    o = problem.solver.Objective()
    return {v.name(): o.GetCoefficient(v) for v in problem.solver.variables() if o.GetCoefficient(v)}, o.offset()


def study(models, data=None, links=()):
    """models: id -> model; data: (id, parameter) -> data or number."""
    net = Network("n")
    comps = {}
    for i, m in models.items():
        comps[i] = create_component(model=m, id=i)
        net.add_component(comps[i])
    for c1, p1, c2, p2 in links:
        net.connect(PortRef(comps[c1], p1), PortRef(comps[c2], p2))
    db = DataBase()
    for (c, p), v in (data or {}).items():
        db.add_data(c, p, ConstantData(v) if isinstance(v, (int, float)) else v)
    return net, db


def build(models, data=None, links=(), timesteps=(0,), scenarios=1, **kw):
    net, db = study(models, data, links)
    return build_problem(net, db, TimeBlock(1, list(timesteps)), scenarios, **kw)
'''

SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


seed(
    "add-in-place", "C01",
    [("expression/expression.py", """        lhs = self
        operands = []
        rhs = _wrap_in_node(rhs)
        operands.extend(lhs.operands if isinstance(lhs, AdditionNode) else [lhs])
        operands.extend(rhs.operands if isinstance(rhs, AdditionNode) else [rhs])
        return AdditionNode(operands)
""", """        lhs = self
        rhs = _wrap_in_node(rhs)
        operands = lhs.operands if isinstance(lhs, AdditionNode) else [lhs]
        operands.extend(rhs.operands if isinstance(rhs, AdditionNode) else [rhs])
        return AdditionNode(operands)
""")],
    "a sum used twice to build other sums",
    "adding to a sum modifies that sum: expressions it was used in change meaning",
    """
from andromede.expression import EvaluationContext, EvaluationVisitor, literal, var, visit
x, y = var("x"), var("y")
s = x + y
a = s + 10
b = s + 100
ctx = EvaluationContext({"x": 1.0, "y": 2.0}, {})
v = [visit(e, EvaluationVisitor(ctx)) for e in (s, a, b)]
assert v == [3.0, 13.0, 103.0], v
""")
seed(
    "sum-single", "C01",
    [("expression/expression.py", """    if len(expressions) == 1:
        return expressions[0]
    return AdditionNode([e for e in expressions])""", """    if len(expressions) == 1:
        return expressions[0]
    return AdditionNode(list(dict.fromkeys(expressions)))""")],
    "the same expression object several times in a sum",
    "sum of expressions drops repeated operands: sum_expressions([x, x]) is x",
    """
from andromede.expression import EvaluationContext, EvaluationVisitor, var, visit
from andromede.expression.expression import sum_expressions
x, y = var("x"), var("y")
v = visit(sum_expressions([x, y, x]), EvaluationVisitor(EvaluationContext({"x": 1.0, "y": 10.0}, {})))
assert v == 12.0, v
""")
seed(
    "shift-sign", "C02",
    [("expression/parsing/parse_expression.py", """        left = ctx.shift_expr().accept(self)  # type: ignore
        right = ctx.right_expr().accept(self)  # type: ignore
        op = ctx.op.text  # type: ignore
        if op == "+":
            return left + right
""", """        left = ctx.shift_expr().accept(self)  # type: ignore
        right = ctx.right_expr().accept(self)  # type: ignore
        op = ctx.op.text  # type: ignore
        if isinstance(right, AdditionNode):
            # parentheses are not needed
            return sum_expressions([left, *right.operands])
        if op == "+":
            return left + right
"""), ("expression/parsing/parse_expression.py", "    Comparator,\n", "    AdditionNode,\n    Comparator,\n    sum_expressions,\n")],
    "a subtracted parenthesised sum in a time shift: x[t + a - (b + c)]",
    "the sign in front of a parenthesised sum of a time shift is ignored",
    """
from andromede.expression import EvaluationContext, EvaluationVisitor, visit
from andromede.expression.parsing.parse_expression import ModelIdentifiers, parse_expression
e = parse_expression("x[t + a - (b + c)]", ModelIdentifiers({"x"}, {"a", "b", "c"}))
v = visit(e.time_shift, EvaluationVisitor(EvaluationContext({}, {"a": 5.0, "b": 2.0, "c": 1.0})))
assert v == 2.0, v
""")
seed(
    "trailing-text", "C03",
    [("expression/parsing/parse_expression.py", "visit(parser.fullexpr())", "visit(parser.expr())")],
    "text after a complete expression",
    "what follows a complete expression is silently ignored",
    """
from andromede.expression.parsing.parse_expression import AntaresParseException, ModelIdentifiers, parse_expression
try:
    parse_expression("x + 2 )", ModelIdentifiers({"x"}, set()))
except AntaresParseException:
    pass
else:
    raise SystemExit("accepted")
""")
seed(
    "divide-constant", "C04",
    [("simulation/linear_expression.py", """        if rhs.terms:
            raise ValueError("Cannot divide by a non constant expression")
""", """        if self.terms and rhs.terms:
            raise ValueError("Cannot divide by a non constant expression")
""")],
    "a constant divided by a linear expression with a constant part",
    "dividing a constant by a non constant expression is accepted and ignores its terms",
    """
from andromede.simulation.linear_expression import LinearExpression, Term
d = LinearExpression([Term(1, "c", "x", 0, 0)], 4)
try:
    r = LinearExpression([], 8) / d
except ValueError:
    pass
else:
    raise SystemExit(f"accepted: {r}")
""")
seed(
    "negative-zero-terms", "C04",
    [("simulation/linear_expression.py", """            if is_close_abs(term.coefficient, 0, EPS):
                del self.terms[term_key]""", """            if term.coefficient < EPS and -term.coefficient < 1.0e-3:
                del self.terms[term_key]""")],
    "a small negative coefficient (between -1e-3 and 0) after an addition",
    "small negative coefficients are dropped from sums",
    """
from andromede.simulation.linear_expression import LinearExpression, Term
a = LinearExpression([Term(-0.0005, "c", "x", 0, 0)], 0) + LinearExpression([], 1)
assert len(a.terms) == 1, a
""")
seed(
    "zero-multiplier", "C05",
    [("simulation/linearize.py", """        actual_expr.constant *= multiplier
        for t in actual_expr.terms:""", """        if multiplier == 0:
            return LinearExpressionData([], actual_expr.constant)
        actual_expr.constant *= multiplier
        for t in actual_expr.terms:""")],
    "a parameter equal to 0 multiplying an expression with a constant part",
    "0 * (x + 5) linearizes to 5",
    """
from helper import *
m = model(id="m", parameters=[float_parameter("p", CONST)], variables=[float_variable("x", structure=BOTH)],
          constraints=[Constraint("c", param("p") * (var("x") + 5) + var("x") <= literal(10))])
r = rows(build({"G": m}, {("G", "p"): 0}))
assert r[0][1] == 10, r
""")
seed(
    "window-clip", "C06",
    [("expression/operators_expansion.py", """        from_shift = self.evaluator(node.from_time)
        to_shift = self.evaluator(node.to_time)
""", """        to_shift = self.evaluator(node.to_time)
        # a window cannot be longer than the block
        from_shift = max(
            self.evaluator(node.from_time), to_shift - self.timesteps_count + 1
        )
""")],
    "a window sum over more timesteps than the block has",
    "the cyclic window is truncated to the length of the block",
    """
from helper import *
m = model(id="m", variables=[float_variable("x", structure=BOTH)],
          constraints=[Constraint("c", var("x").time_sum(-2, 0) <= literal(10))])
r = rows(build({"G": m}, timesteps=[0, 1]))
assert r[0][2] == {"G_x_t0": 2.0, "G_x_t1": 1.0}, r
""")
seed(
    "expec-constant", "C06",
    [("expression/operators_expansion.py", """        return sum_expressions(nodes) / self.scenarios_count
""", """        if not any(isinstance(o, ProblemVariableNode) for o in [operand]) and isinstance(
            operand, ProblemParameterNode
        ):
            return nodes[0]
        return sum_expressions(nodes) / self.scenarios_count
""")],
    "the expectation of a parameter alone, scenario dependent, with several scenarios",
    "the expectation of a parameter is its value in the first scenario",
    """
from helper import *
m = model(id="m", parameters=[float_parameter("p", SCEN)], variables=[float_variable("x", structure=CONST)],
          constraints=[Constraint("c", param("p").expec() * var("x") <= literal(10))])
db = ScenarioSeriesData({ScenarioIndex(0): 2.0, ScenarioIndex(1): 4.0})
r = rows(build({"G": m}, {("G", "p"): db}, scenarios=2))
assert r[0][2] == {"G_x": 3.0}, r
""")
seed(
    "degree-of-sums", "C07",
    [("expression/degree.py", """    def all_time_sum(self, node: AllTimeSumNode) -> int:
        return visit(node.operand, self)
""", """    def all_time_sum(self, node: AllTimeSumNode) -> int:
        # a sum of terms is linear
        return min(1, visit(node.operand, self))
""")],
    "a non linear expression under a sum over time",
    "products of variables are declared linear under sum()",
    """
from andromede.expression import var
from andromede.expression.degree import is_linear
assert not is_linear((var("x") * var("y")).time_sum())
""")
seed(
    "combine-early-exit", "C08",
    [("expression/indexing.py", """        for o in operands[1:]:
            res = res | visit(o, self)
            if res.is_time_scenario_varying():
                return res
""", """        for o in operands[1:]:
            res = res | visit(o, self)
            if res.is_time_varying() and len(operands) > 3:
                return res
""")],
    "a sum of at least four operands where only a late one depends on the scenario",
    "the scenario dependency of late operands is missed",
    """
from helper import *
V = [float_variable(n, structure=s) for n, s in (("a", CONST), ("b", TIME), ("c", CONST), ("d", SCEN))]
m = model(id="m", variables=V, constraints=[Constraint("c", var("a") + var("b") + var("c") + var("d") <= literal(10))])
r = rows(build({"G": m}, timesteps=[0, 1], scenarios=2))
assert len(r) == 4, r
""")
seed(
    "bounds-per-timestep", "C09",
    [("simulation/optimization.py", """                for t, s in itertools.product(time_indices, scenario_indices):
                    lower_bound = -self.solver.infinity()
                    upper_bound = self.solver.infinity()
""", """                upper_bounds: Dict[Optional[int], float] = {}
                for t, s in itertools.product(time_indices, scenario_indices):
                    lower_bound = -self.solver.infinity()
                    upper_bound = self.solver.infinity()
"""), ("simulation/optimization.py", """                        upper_bound = _compute_expression_value(
                            instantiated_ub_expr, self.context, t, s
                        )

                    solver""", """                        if t not in upper_bounds:
                            upper_bounds[t] = _compute_expression_value(
                                instantiated_ub_expr, self.context, t, s
                            )
                        upper_bound = upper_bounds[t]

                    solver""")],
    "an upper bound that differs between two scenarios",
    "upper bounds of all scenarios are those of the first scenario",
    """
from helper import *
m = model(id="m", parameters=[float_parameter("p", SCEN)], variables=[float_variable("x", upper_bound=param("p"), structure=BOTH)])
p = build({"G": m}, {("G", "p"): ScenarioSeriesData({ScenarioIndex(0): 2.0, ScenarioIndex(1): 4.0})}, scenarios=2)
u = [p.context.get_component_variable(0, s, "G", "x").ub() for s in (0, 1)]
assert u == [2.0, 4.0], u
""")
seed(
    "wrapped-terms", "C10",
    [("simulation/optimization.py", """        coefficient = term.coefficient + solver_constraint.GetCoefficient(solver_var)
        solver_constraint.SetCoefficient(solver_var, coefficient)
""", """        solver_constraint.SetCoefficient(solver_var, term.coefficient)
""")],
    "two terms of a constraint that are the same variable once timesteps wrap around the block",
    "only the last of the terms on the same variable is kept",
    """
from helper import *
m = model(id="m", variables=[float_variable("x", structure=BOTH)],
          constraints=[Constraint("c", 3 * var("x") - var("x").shift(2) <= literal(10))])
r = rows(build({"G": m}, timesteps=[0, 1]))
assert r[0][2] == {"G_x_t0": 2.0}, r
""")
seed(
    "objective-overwrite", "C11",
    [("simulation/optimization.py", """        obj.SetCoefficient(
            solver_var,
            obj.GetCoefficient(solver_var) + term.coefficient,
        )
""", """        obj.SetCoefficient(solver_var, term.coefficient)
""")],
    "one variable in both the operational and the investment objective of a model",
    "the second contribution replaces the first one",
    """
from helper import *
m = model(id="m", variables=[float_variable("x", structure=CONST)],
          objective_operational_contribution=2 * var("x"), objective_investment_contribution=5 * var("x"))
o = objective(build({"G": m}))
assert o[0] == {"G_x": 7.0}, o
""")
seed(
    "objective-offset", "C11",
    [("simulation/optimization.py", """    obj.SetOffset(linear_expr.constant + obj.offset())
""", """    if linear_expr.constant:
        obj.SetOffset(linear_expr.constant)
""")],
    "two components with a constant part in their objectives",
    "only the last constant part counts in the objective",
    """
from helper import *
m = model(id="m", parameters=[float_parameter("p", CONST)], variables=[float_variable("x", structure=CONST)],
          objective_operational_contribution=var("x") + param("p"))
o = objective(build({"G": m, "H": m}, {("G", "p"): 3, ("H", "p"): 4}))
assert o[1] == 7.0, o
""")
seed(
    "parallel-connections", "C12",
    [("study/network.py", """        ports_connection = PortsConnection(port1, port2)
        self._connections.append(ports_connection)
""", """        ports_connection = PortsConnection(port1, port2)
        if any(
            {c.port1.component.id, c.port2.component.id}
            == {port1.component.id, port2.component.id}
            and c.port1.port_id == port1.port_id
            for c in self._connections
        ):
            return
        self._connections.append(ports_connection)
""")],
    "two connections between the same components through different ports of the second one",
    "the second connection is dropped",
    """
from helper import *
T = PortType("flow", [PortField("f")])
node = model(id="node", ports=[ModelPort(T, "p")], binding_constraints=[Constraint("b", port_field("p", "f").sum_connections() == literal(0))])
gen = model(id="gen", variables=[float_variable("x", structure=BOTH), float_variable("y", structure=BOTH)], ports=[ModelPort(T, "p"), ModelPort(T, "q")],
            port_fields_definitions=[port_field_def("p", "f", var("x")), port_field_def("q", "f", -var("y"))])
r = rows(build({"N": node, "G": gen}, links=[("N", "p", "G", "p"), ("N", "p", "G", "q")]))
assert r[0][2] == {"G_x": 1.0, "G_y": -1.0}, r
""")
seed(
    "contiguous-block", "C13",
    [("simulation/optimization.py", """        return self._block.timesteps[self.get_actual_block_timestep(block_timestep)]
""", """        return self._block.timesteps[0] + self.get_actual_block_timestep(block_timestep)
""")],
    "a block whose timesteps are not consecutive",
    "data of the wrong timesteps is used",
    """
from helper import *
m = model(id="m", parameters=[float_parameter("p", TIME)], variables=[float_variable("x", structure=BOTH)],
          constraints=[Constraint("c", var("x") <= param("p"))])
d = TimeSeriesData({TimeIndex(t): 10.0 + t for t in range(8)})
r = rows(build({"G": m}, {("G", "p"): d}, timesteps=[1, 4, 6]))
assert [x[1] for x in r] == [11.0, 14.0, 16.0], r
""")
seed(
    "null-weight", "C14",
    [("simulation/strategy.py", """        return literal(self._prob) * expr
""", """        return literal(self._prob) * expr if self._prob else expr
""")],
    "a probability equal to 0",
    "an objective weighted by 0 counts fully",
    """
from helper import *
from andromede.simulation.strategy import ExpectedValue
m = model(id="m", variables=[float_variable("x", structure=CONST)], objective_operational_contribution=2 * var("x"))
o = objective(build({"G": m}, risk_strategy=ExpectedValue(0.0)))
assert o == ({}, 0.0), o
""")
seed(
    "merged-investment-only", "C14",
    [("simulation/strategy.py", """        yield model.objective_operational_contribution
        yield model.objective_investment_contribution
""", """        yield model.objective_operational_contribution or model.objective_investment_contribution
        if model.objective_operational_contribution and any(
            v.context != ProblemContext.OPERATIONAL for v in model.variables.values()
        ):
            yield model.objective_investment_contribution
""")],
    "a model with both objectives and only operational variables, in a merged problem",
    "its investment contribution is dropped",
    """
from helper import *
m = model(id="m", variables=[float_variable("x", structure=CONST), float_variable("y", structure=CONST)],
          objective_operational_contribution=2 * var("x"), objective_investment_contribution=5 * var("y"))
o = objective(build({"G": m}))
assert o[0] == {"G_x": 2.0, "G_y": 5.0}, o
""")
seed(
    "tree-data-any", "C15",
    [("study/data.py", """        return all(
            node_data.check_requirement(time, scenario)
            for node_data in self.data.values()
        )
""", """        return any(
            node_data.check_requirement(time, scenario)
            for node_data in self.data.values()
        )
""")],
    "tree data where one node has constant data and another time dependent data for a constant parameter",
    "data that does not meet the requirement of the model is accepted",
    """
from andromede.study.data import ConstantData, TimeIndex, TimeSeriesData, TreeData
d = TreeData({"a": ConstantData(1), "b": TimeSeriesData({TimeIndex(0): 1.0})})
assert not d.check_requirement(False, False)
""")
seed(
    "series-by-position", "C15",
    [("study/data.py", """    df_index = ts_dataframe.index.astype(int)  # Only for mypy
    return {
        TimeIndex(index): float(value)
        for index, value in zip(df_index, ts_dataframe.iloc[:, 0].values)
    }
""", """    return {
        TimeIndex(index): float(value)
        for index, value in enumerate(ts_dataframe.iloc[:, 0].dropna().values)
    }
""")],
    "a table whose index does not start at 0 or is not sorted",
    "values are attributed to their position instead of their timestep",
    """
import pandas as pd
from andromede.study.data import TimeIndex, dataframe_to_time_series
s = dataframe_to_time_series(pd.DataFrame([1.0, 2.0], index=[3, 1]))
assert s == {TimeIndex(3): 1.0, TimeIndex(1): 2.0}, s
""")
seed(
    "equality-prefix", "C16",
    [("expression/equality.py", """        return len(left_ops) == len(right_ops) and all(
""", """        return len(left_ops) <= len(right_ops) and all(
""")],
    "two sums where one is a prefix of the other",
    "a sum is equal to a longer one",
    """
from andromede.expression import var
from andromede.expression.equality import expressions_equal
x, y, z = var("x"), var("y"), var("z")
assert not expressions_equal(x + y, x + y + z)
""")
seed(
    "copy-division", "C16",
    [("expression/print.py", """            if isinstance(o, NegationNode):
                res += f" - {visit(o.operand, self)}"
""", """            if isinstance(o, NegationNode):
                res += f" - {visit(o.operand, self).removeprefix('(').removesuffix(')')}"
""")],
    "the text of a sum with a subtracted compound operand",
    "printed parentheses of subtracted operands are lost: x - (y + z) prints as x - y + z",
    """
from andromede.expression import var
from andromede.expression.expression import AdditionNode, NegationNode
from andromede.expression.print import print_expr
x, y, z = var("x"), var("y"), var("z")
t = print_expr(AdditionNode([x, NegationNode(y + z)]))
assert eval(t, {"x": 1, "y": 2, "z": 4}) == -5, t
""")
seed(
    "asymmetric-closeness", "C17",
    [("simulation/output_values.py", """                    math.isclose(
                        self._value[key],
                        other._value[key],
                        rel_tol=rel_tol,
                        abs_tol=abs_tol,
                    )
                    for key in self._value
""", """                    abs(self._value[key] - other._value[key])
                    <= max(rel_tol * abs(self._value[key]), abs_tol)
                    for key in self._value
""")],
    "two values whose difference is between both relative tolerances",
    "closeness of outputs is not symmetric",
    """
from andromede.simulation.output_values import OutputValues
a, b = OutputValues(), OutputValues()
a.component("c").var("x").value = 9.0
b.component("c").var("x").value = 10.0
assert a.is_close(b, rel_tol=0.1) and b.is_close(a, rel_tol=0.1)
""")
seed(
    "ignored-component", "C17",
    [("simulation/output_values.py", """    elif (rhs_only_keys := rhs_keys - lhs_keys) and any(
        not rhs[key].ignore for key in rhs_only_keys
    ):
""", """    elif (rhs_only_keys := rhs_keys - lhs_keys) and not any(
        rhs[key].ignore for key in rhs_only_keys
    ):
""")],
    "two variables only on one side, one of them ignored",
    "outputs with an additional variable compare equal when another one is ignored",
    """
from andromede.simulation.output_values import OutputValues
a, b = OutputValues(), OutputValues()
a.component("c").var("x").value = 1.0
b.component("c").var("x").value = 1.0
b.component("c").var("y").value = 2.0
b.component("c").var("z").value = 2.0
b.component("c").var("z").ignore = True
assert a != b
""")
seed(
    "coupling-names", "C18",
    [("simulation/decision_tree.py", """            f"{prefix_par}_{prefix_chd}_{len(self.coupling_info.constraints)}"
""", """            f"{prefix_par}_{prefix_chd}"
""")],
    "two coupling constraints between the same pair of components",
    "the second coupling constraint replaces the first one",
    """
from helper import *
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
V = [float_variable(n, structure=CONST, context=ProblemContext.COUPLING) for n in "abcd"]
net, _ = study({"G": model(id="m", variables=V)})
cfg = InterDecisionTimeScenarioConfig([TimeBlock(0, [0])], 1)
root = DecisionTreeNode("root", cfg, net)
child = DecisionTreeNode("child", cfg, net, parent=root)
g = net.get_component("G")
child.define_coupling_constraint(g, "a", g, "a", "b")
child.define_coupling_constraint(g, "c", g, "c", "d")
assert len(child.coupling_info.constraints) == 2
""")
seed(
    "probability-check-first-level", "C18",
    [("simulation/decision_tree.py", """        return all(child.is_leaves_prob_sum_one() for child in self.children)
""", """        return any(child.is_leaves_prob_sum_one() for child in self.children)
""")],
    "a tree with two subtrees, one of which has wrong probabilities",
    "trees with wrong probabilities in one branch are accepted",
    """
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
from andromede.study import Network
cfg = InterDecisionTimeScenarioConfig([], 1)
N = lambda i, **k: DecisionTreeNode(i, cfg, Network("n"), **k)
r = N("r")
a, b = N("a", parent=r, prob=0.5), N("b", parent=r, prob=0.5)
N("c", parent=a, prob=0.25)
N("d", parent=b, prob=1.0)
assert not r.is_leaves_prob_sum_one()
""")
BENDERS = """
from helper import *
from andromede.simulation.benders_decomposed import build_benders_decomposed_problem
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
"""
seed(
    "negative-costs", "C19",
    [("simulation/optimization.py", """            if obj_coeff != 0:
                root_objective.SetCoefficient(root_var, obj_coeff)
""", """            if obj_coeff > 0:
                root_objective.SetCoefficient(root_var, obj_coeff)
""")],
    "a negative investment cost (a subsidy) in a tree of several nodes",
    "negative costs are dropped from the merged master problem",
    BENDERS + """
m = model(id="m", variables=[float_variable("a", lower_bound=literal(0), upper_bound=literal(9), structure=CONST, context=ProblemContext.COUPLING)],
          objective_investment_contribution=-2 * var("a"))
net, db = study({"G": m})
cfg = InterDecisionTimeScenarioConfig([TimeBlock(0, [0])], 1)
root = DecisionTreeNode("root", cfg, net)
DecisionTreeNode("child", cfg, net, parent=root)
o = objective(build_benders_decomposed_problem(root, db).master)
assert o[0] == {"root_G_a": -2.0, "child_G_a": -2.0}, o
""")
seed(
    "coupling-bounds", "C19",
    [("simulation/optimization.py", """                root_var.SetLb(var.lb())
                root_var.SetUb(var.ub())
""", """                root_var.SetUb(var.ub())
""")],
    "a coupled variable whose lower bound is not 0",
    "the lower bound of coupled variables is lost in the merged master problem",
    BENDERS + """
V = [float_variable(n, lower_bound=literal(3), upper_bound=literal(9), structure=CONST, context=ProblemContext.COUPLING) for n in "ab"]
net, db = study({"G": model(id="m", variables=V)})
cfg = InterDecisionTimeScenarioConfig([TimeBlock(0, [0])], 1)
root = DecisionTreeNode("root", cfg, net)
child = DecisionTreeNode("child", cfg, net, parent=root)
g = net.get_component("G")
child.define_coupling_constraint(g, "a", g, "a", "b")
p = build_benders_decomposed_problem(root, db)
l = {v.name(): v.lb() for v in p.master.solver.variables()}
assert set(l.values()) == {3.0}, l
""")
seed(
    "candidates-in-objective", "C20",
    [("simulation/benders_decomposed.py", """            ] = solver_var_info.column_id
            candidates.add(solver_var_info.name)
""", """            ] = solver_var_info.column_id
            if solver_var_info.is_in_objective or len(self.subproblems) < 2:
                candidates.add(solver_var_info.name)
""")],
    "a master variable without cost and several sub-problems",
    "candidates without cost are not linked to the sub-problems",
    BENDERS + """
m = model(id="m", variables=[float_variable("a", lower_bound=literal(0), structure=CONST, context=ProblemContext.COUPLING), float_variable("x", structure=BOTH)],
          constraints=[Constraint("c", var("x") <= var("a"))])
net, db = study({"G": m})
root = DecisionTreeNode("", InterDecisionTimeScenarioConfig([TimeBlock(0, [0]), TimeBlock(1, [1])], 1), net)
s = build_benders_decomposed_problem(root, db).export_structure()
assert len(s.splitlines()) == 3, s
""")
seed(
    "same-port-twice", "C21",
    [("model/resolve_library.py", """    if current_lib.port_types.keys() & port_types_dict.keys():
        raise""", """    if any(
        current_lib.port_types[k].id == port_types_dict[k].id
        and len(current_lib.port_types[k].fields) != len(port_types_dict[k].fields)
        for k in current_lib.port_types.keys() & port_types_dict.keys()
    ):
        raise""")],
    "a library that defines again a port type of its dependency, with the same number of fields",
    "the second definition of a port type is accepted",
    """
import io
from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
A = "library:\\n  id: a\\n  port-types:\\n    - id: flow\\n      fields:\\n        - id: f\\n"
B = "library:\\n  id: b\\n  dependencies: [a]\\n  port-types:\\n    - id: flow\\n      fields:\\n        - id: g\\n"
try:
    resolve_library([parse_yaml_library(io.StringIO(t)) for t in (A, B)])
except Exception:
    pass
else:
    raise SystemExit("accepted")
""")
seed(
    "scenario-only-variable", "C22",
    [("model/resolve_library.py", """        structure=IndexingStructure(var.time_dependent, var.scenario_dependent),
        lower""", """        structure=IndexingStructure(
            var.time_dependent, var.time_dependent and var.scenario_dependent
        ),
        lower""")],
    "a variable of a model file that depends on scenarios and not on time",
    "the variable is shared by all scenarios",
    """
import io
from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
t = "library:\\n  id: a\\n  models:\\n    - id: m\\n      variables:\\n        - id: x\\n          time-dependent: false\\n          scenario-dependent: true\\n"
s = resolve_library([parse_yaml_library(io.StringIO(t))])["a"].models["m"].variables["x"].structure
assert (s.time, s.scenario) == (False, True), s
""")
seed(
    "first-library", "C23",
    [("study/resolve_components.py", """    model = libraries[lib_id].models[model_id]
""", """    all_models = {m.id: m for lib in libraries.values() for m in lib.models.values()}
    model = libraries[lib_id].models.get(model_id) and all_models[model_id]
""")],
    "two libraries with a model of the same name",
    "a component may get the model of another library",
    """
import io
from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import resolve_system
t = "library:\\n  id: %s\\n  models:\\n    - id: m\\n      variables:\\n        - id: %s\\n"
libs = resolve_library([parse_yaml_library(io.StringIO(t % a)) for a in (("a", "x"), ("b", "y"))])
s = resolve_system(parse_yaml_components(io.StringIO("system:\\n  components:\\n    - id: C\\n      model: a.m\\n    - id: D\\n      model: b.m\\n")), libs)
v = [list(s.components[c].model.variables) for c in "CD"]
assert v == [["x"], ["y"]], v
""")
seed(
    "shared-connections", "C23",
    [("study/network.py", """        for component in self.components:
            replica.add_component(component.replicate())

        for connection in self.connections:
            replica._connections.append(connection.replicate())
""", """        for component in self.components:
            replica.add_component(component.replicate())

        replica._connections = self._connections
""")],
    "a connection added to a copy of a network",
    "a copy shares the connections of the original network",
    """
from helper import *
T = PortType("flow", [PortField("f")])
node = model(id="node", ports=[ModelPort(T, "p")])
gen = model(id="gen", variables=[float_variable("x", structure=BOTH)], ports=[ModelPort(T, "p")], port_fields_definitions=[port_field_def("p", "f", var("x"))])
net, _ = study({"N": node, "G": gen})
copy = net.replicate()
copy.connect(PortRef(copy.get_component("N"), "p"), PortRef(copy.get_component("G"), "p"))
assert len(list(net.connections)) == 0
""")
seed(
    "scenario-only-groups", "C24",
    [("study/resolve_components.py", """            return ScenarioSeriesData(
                dataframe_to_scenario_series(ts_data), scenarization
            )
""", """            return ScenarioSeriesData(dataframe_to_scenario_series(ts_data))
""")],
    "a parameter that depends on scenarios and not on time, in a scenario group",
    "the scenario group of such parameters is ignored",
    """
import io, os, shutil, tempfile
from pathlib import Path
import pandas as pd
from andromede.study.parsing import parse_yaml_components
from andromede.study.resolve_components import build_scenarized_data_base
d = Path(tempfile.mkdtemp())
try:
    (d / "s.txt").write_text("1 2 3\\n")
    s = parse_yaml_components(io.StringIO('''system:
  components:
    - id: C
      model: a.m
      scenario-group: g
      parameters:
        - id: p
          scenario-dependent: true
          value: s
'''))
    db = build_scenarized_data_base(s, pd.DataFrame({"name": ["g", "g"], "year": [0, 1], "scenario": [2, 0]}), d)
    v = [db.get_data("C", "p").get_value(None, y) for y in (0, 1)]
    assert v == [3.0, 1.0], v
finally:
    shutil.rmtree(d)
""")
THERMAL = """
import shutil, tempfile
from pathlib import Path
from types import SimpleNamespace
import pandas as pd
from andromede.input_converter.src.data_preprocessing.thermal import ThermalDataPreprocessing
class T:
    area_id, id, name = "fr", "gaz", "gaz"
    properties = SimpleNamespace(unit_count=2, nominal_capacity=10.0, enabled=True)
    def get_prepro_modulation_matrix(self): return pd.DataFrame([[1, 1, 1, 0.5]] * len(SERIES))
    def get_series_matrix(self): return pd.DataFrame(SERIES)
def get(what, **k):
    d = Path(tempfile.mkdtemp())
    try:
        (d / "input/thermal/series/fr/gaz").mkdir(parents=True)
        p = ThermalDataPreprocessing(T(), d).generate_component_parameter(what, **k)
        return [[float(x) for x in l.split()] for l in Path(p.value + ".txt").read_text().splitlines()]
    finally:
        shutil.rmtree(d)
"""
seed(
    "units-above-count", "C25",
    [("input_converter/src/data_preprocessing/thermal.py", """            np.ceil(series_data / nominal_capacity),
        )
""", """            np.ceil(series_data / nominal_capacity).clip(
                upper=self.thermal.properties.unit_count
            ),
        )
""")],
    "an available power larger than the number of units times the nominal capacity",
    "the maximum number of units does not allow the available power",
    THERMAL + """
SERIES = [[25.0], [10.0]]
v = get("nb_units_max")
assert v == [[3.0], [1.0]], v
""")
seed(
    "thermal-same-name", "C26",
    [("input_converter/src/converter.py", """                if f"{area.id}.{thermal.id}" in thermals_to_exclude:
                    continue
""", """                if thermal.id in [t.split(".")[-1] for t in thermals_to_exclude]:
                    continue
""")],
    "a thermal cluster whose name is that of the battery cluster of another area",
    "clusters of other areas are dropped from the converted study",
    """
import logging, shutil, tempfile
from pathlib import Path
from types import MappingProxyType, SimpleNamespace
import pandas as pd
from antares.craft.model.study import Study
from andromede.input_converter.src.converter import AntaresStudyConverter
d = Path(tempfile.mkdtemp()).resolve()
(d / "input/thermal/series/fr/de_batteries_inj").mkdir(parents=True)
class Th:
    area_id, id, name = "fr", "de_batteries_inj", "x"
    properties = SimpleNamespace(unit_count=2, nominal_capacity=10.0, enabled=True, min_stable_power=1, efficiency=1, marginal_cost=1, fixed_cost=1,
                                 startup_cost=1, min_up_time=1, min_down_time=1, market_bid_cost=1, spread_cost=1)
    def get_prepro_modulation_matrix(self): return pd.DataFrame([[1, 1, 1, 0.5]])
    def get_series_matrix(self): return pd.DataFrame([[20.0]])
def area(i, th):
    return SimpleNamespace(id=i, name=i, properties=SimpleNamespace(energy_cost_unsupplied=1, energy_cost_spilled=1), get_thermals=lambda: th,
                           get_renewables=lambda: {}, get_st_storages=lambda: {})
class S(Study):
    def __init__(self): pass
    service = SimpleNamespace(config=SimpleNamespace(study_path=d))
    def get_areas(self): return MappingProxyType({"fr": area("fr", {"t": Th()}), "de": area("de", {})})
    def get_links(self): return {}
    def get_binding_constraints(self): return {}
try:
    s = AntaresStudyConverter(S(), logging.getLogger("x")).convert_study_to_input_study()
    assert [c.id for c in s.components] == ["de_batteries_inj"], s.components
finally:
    shutil.rmtree(d)
""")

PYPSA = '''
"""A PyPSA network reduced to its tables."""
import logging
import sys
import types
from math import inf

import pandas as pd


class Network:
    def __init__(self, name):
        self.name = name
        self.investment_periods = pd.Index([])
        self.carriers = pd.DataFrame({"co2_emissions": [2.0]}, index=["gas"])

    def add(self, cls, name, co2_emissions=0.0, **kw):
        self.carriers.loc[name, "co2_emissions"] = co2_emissions


m = types.ModuleType("pypsa")
m.Network = Network
sys.modules["pypsa"] = m
from andromede.pypsa_converter.pypsa_converter import PyPSAStudyConverter

COMMON = dict(p_nom=10.0, p_nom_min=0.0, p_nom_max=inf, p_nom_extendable=False, p_min_pu=0.0, p_max_pu=1.0, marginal_cost=3.0, marginal_cost_quadratic=0.0,
              capital_cost=7.0, efficiency=1.0, active=True, carrier="", sign=1.0, bus="N")
TABLES = dict(
    generators=dict(COMMON, e_sum_min=-inf, e_sum_max=inf, committable=False),
    loads=dict(p_set=1.0, q_set=0.0, sign=-1.0, active=True, bus="N"),
    buses=dict(v_nom=1.0, x=0.0, y=0.0, v_mag_pu_set=1.0, v_mag_pu_min=0.0, v_mag_pu_max=inf),
    links=dict(COMMON, bus0="N", bus1="M"),
    storage_units=dict(COMMON, efficiency_store=1.0, efficiency_dispatch=1.0, standing_loss=0.0, max_hours=1.0, marginal_cost_storage=0.0, spill_cost=0.0,
                       inflow=0.0, cyclic_state_of_charge=True),
    stores=dict(COMMON, e_nom=10.0, e_nom_min=0.0, e_nom_max=inf, e_nom_extendable=False, e_min_pu=0.0, e_max_pu=1.0, standing_loss=0.0,
                marginal_cost_storage=0.0, e_cyclic=True),
)


def network(objects, series=None, T=2):
    """objects: kind -> name -> attributes; series: (kind, attribute, name) -> values."""
    n = Network("Demo")
    n.snapshot_weightings = pd.DataFrame({"objective": [1.0] * T})
    n.global_constraints = pd.DataFrame({"type": [], "carrier_attribute": [], "sense": [], "constant": []})
    for kind, default in TABLES.items():
        objs = objects.get(kind, {})
        df = pd.DataFrame([dict(default, **a) for a in objs.values()], index=list(objs), columns=list(default))
        df.index = df.index.astype(object)
        setattr(n, kind, df)
        t = {}
        for (k, attr, name), v in (series or {}).items():
            if k == kind:
                t.setdefault(attr, pd.DataFrame(index=range(T)))[name] = v
        setattr(n, kind + "_t", t)
    return n


def convert(n, d):
    s = PyPSAStudyConverter(n, logging.getLogger("x"), d, d).to_gems_study()
    return s, {c.id: {p.id: p for p in c.parameters} for c in s.components}
'''

seed(
    "pypsa-series-names", "C29",
    [("pypsa_converter/pypsa_converter.py", """                timeseries_name = self.system_name + "_" + component + "_" + param
""", """                timeseries_name = self.system_name + "_" + component
                if len(time_dependent_params) > 1 and param in ("p_set", "q_set"):
                    timeseries_name += "_" + param
""")],
    "an object other than a load with two attributes given by series",
    "the series of one attribute overwrites that of the other",
    """
import tempfile
from pathlib import Path
from pypsa_helper import convert, network
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    s, c = convert(network({"buses": {"N": {}}, "generators": {"g": {}}}, {("generators", "p_max_pu", "g"): [0.25, 0.5], ("generators", "marginal_cost", "g"): [8.0, 9.0]}), d)
    for p, v in (("p_max_pu", [0.25, 0.5]), ("marginal_cost", [8.0, 9.0])):
        got = [float(x) for x in (d / (c["g_generator"][p].value + ".txt")).read_text().split()]
        assert got == v, (p, got)
""",
)
seed(
    "pypsa-fixed-capacity", "C29",
    [("pypsa_converter/pypsa_converter.py", """        for field in [capa_str + "_min", capa_str + "_max"]:
            df.loc[df[capa_str + "_extendable"] == False, field] = df[capa_str]
""", """        for field in [capa_str + "_min", capa_str + "_max"]:
            if not df[capa_str + "_extendable"].any():
                df[field] = df[capa_str]
""")],
    "a network with both extendable and fixed objects of one kind",
    "the capacity of the fixed ones is free",
    """
import tempfile
from pathlib import Path
from pypsa_helper import convert, network
with tempfile.TemporaryDirectory() as d:
    s, c = convert(network({"buses": {"N": {}}, "generators": {"g": {}, "h": dict(p_nom_extendable=True, p_nom_max=50.0)}}), Path(d))
    assert c["g_generator"]["p_nom_min"].value == 10 and c["g_generator"]["p_nom_max"].value == 10, c["g_generator"]
    assert c["h_generator"]["p_nom_min"].value == 0 and c["h_generator"]["p_nom_max"].value == 50, c["h_generator"]
""",
)
seed(
    "same-file-name", "C27",
    [("main/main.py", """    for path in yaml_lib_paths:
        with path.open("r") as file:
""", """    for path in {path.name: path for path in yaml_lib_paths}.values():
        with path.open("r") as file:
""")],
    "library files of the same name in two directories",
    "only one of them is loaded, silently when the study uses models of that one only",
    """
import tempfile
from pathlib import Path
from andromede.main.main import input_libs
with tempfile.TemporaryDirectory() as d:
    paths = []
    for i in "ab":
        p = Path(d) / i / "lib.yml"
        p.parent.mkdir()
        p.write_text(f"library:\\n  id: {i}\\n  port-types: []\\n  models:\\n    - id: m{i}\\n")
        paths.append(p)
    libs = input_libs(paths)
    assert sorted(libs) == ["a", "b"], sorted(libs)
""",
)
seed(
    "directory-after-failure", "C30",
    [("simulation/runner.py", """        os.chdir(self.current_dir)

        return res.returncode
""", """        if res.returncode == 0:
            os.chdir(self.current_dir)

        return res.returncode
""")],
    "a run of the external solver that fails",
    "the working directory is not restored",
    """
import os, sys, tempfile
from pathlib import Path
from andromede.simulation.runner import CommandRunner
old = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    d = os.path.realpath(d)
    os.chdir(d)
    try:
        (Path(d) / "work").mkdir()
        (Path(d) / "bin").mkdir()
        f = Path(d) / "bin" / "tool"
        f.write_text("#!/bin/sh\\nexit 3\\n")
        f.chmod(0o755)
        assert CommandRunner(Path("bin/tool"), [], Path("work")).run() == 3
        assert os.getcwd() == d, os.getcwd()
    finally:
        os.chdir(old)
""",
)
seed(
    "comment-in-text", "C03",
    [("expression/parsing/parse_expression.py", """        input = InputStream(expression)
""", """        input = InputStream(expression.partition("#")[0])
""")],
    "a text with a stray # after an expression",
    "what follows is ignored instead of being rejected",
    """
from andromede.expression.parsing.parse_expression import AntaresParseException, ModelIdentifiers, parse_expression
ids = ModelIdentifiers(variables={"x"}, parameters={"p"})
parse_expression("x + p", ids)
try:
    parse_expression("x #+ p", ids)
except AntaresParseException:
    pass
else:
    raise SystemExit("accepted")
""",
)
seed(
    "unused-libraries", "C21",
    [("model/resolve_library.py", """        if next_lib_id in treated_lib_ids:
            continue
        else:
""", """        if next_lib_id in treated_lib_ids:
            break
        else:
""")],
    "three libraries, the last one depending on the second",
    "the first library is not resolved",
    """
import io
from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
def lib(id, deps=()):
    return parse_yaml_library(io.StringIO(f"library:\\n  id: {id}\\n  dependencies: [{', '.join(deps)}]\\n  port-types: []\\n  models:\\n    - id: m\\n"))
r = resolve_library([lib("c"), lib("a"), lib("b", ["a"])])
assert sorted(r) == ["a", "b", "c"], sorted(r)
""",
)
seed(
    "rounded-units", "C25",
    [("input_converter/src/data_preprocessing/thermal.py", """        return pd.DataFrame(
            np.ceil(series_data / nominal_capacity),
        )
""", """        return pd.DataFrame(
            np.ceil((series_data / nominal_capacity).round(2)),
        )
""")],
    "an available power slightly above a multiple of the nominal capacity",
    "one unit is missing",
    """
import tempfile
from pathlib import Path
from types import SimpleNamespace
import pandas as pd
from andromede.input_converter.src.data_preprocessing.thermal import ThermalDataPreprocessing
class T:
    area_id, id = "fr", "gaz"
    properties = SimpleNamespace(unit_count=3, nominal_capacity=100.0)
    def get_prepro_modulation_matrix(self):
        return pd.DataFrame([[1.0, 1.0, 1.0, 0.0]] * 2)
    def get_series_matrix(self):
        return pd.DataFrame([[100.25], [200.0]])
with tempfile.TemporaryDirectory() as d:
    (Path(d) / "input/thermal/series/fr/gaz").mkdir(parents=True)
    p = ThermalDataPreprocessing(T(), Path(d)).generate_component_parameter("nb_units_max")
    got = [float(x) for x in Path(p.value + ".txt").read_text().split()]
    assert got == [2, 2], got
""",
)
seed(
    "replica-context", "C31",
    [("model/constraint.py", """        return replace(self, **changes)
""", """        return Constraint(
            name=changes.get("name", self.name),
            expression=changes.get("expression", self.expression),
            lower_bound=changes.get("lower_bound", self.lower_bound),
            upper_bound=changes.get("upper_bound", self.upper_bound),
        )
""")],
    "a constraint of the investment phase replicated",
    "the replica belongs to the operational phase",
    """
from helper import *
c = Constraint("c", var("x") <= literal(3), context=ProblemContext.INVESTMENT)
assert c.replicate(name="d").context == ProblemContext.INVESTMENT
assert c.replicate(context=ProblemContext.COUPLING).context == ProblemContext.COUPLING
""",
)
seed(
    "comparison-inside", "C32",
    [("simulation/linearize.py", """    def comparison(self, node: ComparisonNode) -> LinearExpressionData:
        raise ValueError("Linear expression cannot contain a comparison operator.")
""", """    def comparison(self, node: ComparisonNode) -> LinearExpressionData:
        # moved to the left hand side
        return self.addition(AdditionNode([node.left, NegationNode(node.right)]))
""")],
    "a comparison inside a constraint expression",
    "the comparison is taken for a difference",
    """
from helper import *
m = model("m", variables=[float_variable("x", structure=CONST), float_variable("y", structure=CONST)],
          constraints=[Constraint("c", 2 * (var("x") <= var("y")), upper_bound=literal(3))])
try:
    build({"A": m})
except Exception:
    pass
else:
    raise SystemExit("a comparison inside an expression was given a meaning")
""",
)
seed(
    "index-zero", "C02",
    [("expression/parsing/parse_expression.py", """        expr = ctx.expr(0).accept(self)  # type: ignore
        eval_time = ctx.expr(1).accept(self)  # type: ignore
        return expr.eval(eval_time)
""", """        expr = ctx.expr(0).accept(self)  # type: ignore
        eval_time = ctx.expr(1).accept(self)  # type: ignore
        # specifics for (x + y)[0] ...
        if expressions_equal(eval_time, literal(0)):
            return expr
        return expr.eval(eval_time)
""")],
    "an expression in parentheses taken at the first timestep",
    "(x + y)[0] means (x + y)[t]",
    """
from andromede.expression import param, var
from andromede.expression.equality import expressions_equal
from andromede.expression.parsing.parse_expression import ModelIdentifiers, parse_expression
e = parse_expression("(x + p)[0]", ModelIdentifiers({"x"}, {"p"}))
assert expressions_equal(e, (var("x") + param("p")).eval(0)), e
""",
)
seed(
    "blocks-of-the-root", "C19",
    [("simulation/benders_decomposed.py", """                    block,
                    tree_node.config.scenarios,
                    problem_name""", """                    block,
                    decision_tree_root.config.scenarios,
                    problem_name""")],
    "a tree whose nodes have different numbers of scenarios",
    "the subproblems of a node use the number of scenarios of the root",
    """
from helper import *
from andromede.simulation import BendersDecomposedProblem, build_benders_decomposed_problem
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
m = model("m", variables=[float_variable("x", lower_bound=literal(0), structure=BOTH)],
          objective_operational_contribution=var("x").time_sum().expec())
net, db = study({"A": m})
def cfg(s):
    return InterDecisionTimeScenarioConfig([TimeBlock(0, [0, 1])], s)
root = DecisionTreeNode("root", cfg(1), net)
child = DecisionTreeNode("child", cfg(3), net, parent=root)
d = build_benders_decomposed_problem(root, db)
sizes = [len(p.solver.variables()) for p in d.subproblems]
assert sizes == [2, 6], sizes
""",
)
seed(
    "equal-when-absent", "C33",
    [("expression/equality.py", """    if lhs is None and rhs is None:
        return True
    elif lhs is None or rhs is None:
        return False
    else:
""", """    if lhs is None or rhs is None:
        return True
    else:
""")],
    "two variables, one of which has a bound",
    "a variable with a bound equals the same variable without",
    """
from helper import *
assert float_variable("x") == float_variable("x")
assert float_variable("x") != float_variable("x", upper_bound=literal(3))
""",
)
seed(
    "constraint-lower-bound", "C33",
    [("model/constraint.py", """            and expressions_equal_if_present(self.lower_bound, other.lower_bound)
            and""", """            and""")],
    "two constraints that differ by their lower bounds",
    "they compare equal",
    """
from helper import *
assert Constraint("c", var("x"), lower_bound=literal(1)) != Constraint("c", var("x"), lower_bound=literal(2))
""",
)
