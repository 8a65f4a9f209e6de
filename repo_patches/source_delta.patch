From e2fe51bf34ea04a5f584e18d1bdddd936c6ff8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:54 +0000
Subject: [PATCH 01/35] fix: number minus expression built an addition instead
 of a subtraction

---
 src/andromede/expression/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/expression/expression.py b/src/andromede/expression/expression.py
index ec91591..9043c77 100644
--- a/src/andromede/expression/expression.py
+++ b/src/andromede/expression/expression.py
@@ -62,7 +62,7 @@ class ExpressionNode:
 
     def __rsub__(self, lhs: Any) -> "ExpressionNode":
         lhs = _wrap_in_node(lhs)
-        return lhs + self
+        return lhs - self
 
     def __mul__(self, rhs: Any) -> "ExpressionNode":
         return _apply_if_node(rhs, lambda x: MultiplicationNode(self, x))
-- 
2.43.0


From 9767056c8b6475e20679749a8e9c905d451267bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 02/35] fix: multiplying a constant linear expression by a
 linear expression modified the right operand

---
 src/andromede/simulation/linear_expression.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/andromede/simulation/linear_expression.py b/src/andromede/simulation/linear_expression.py
index 4421761..5b93332 100644
--- a/src/andromede/simulation/linear_expression.py
+++ b/src/andromede/simulation/linear_expression.py
@@ -378,16 +378,17 @@ class LinearExpression:
             elif is_close_abs(const_expr.constant, 1, EPS):
                 _copy_expression(left_expr, self)
             else:
-                left_expr.constant *= const_expr.constant
-                for term_key, term in left_expr.terms.items():
-                    left_expr.terms[term_key] = Term(
-                        term.coefficient * const_expr.constant,
+                multiplier = const_expr.constant
+                _copy_expression(left_expr, self)
+                self.constant *= multiplier
+                for term_key, term in self.terms.items():
+                    self.terms[term_key] = Term(
+                        term.coefficient * multiplier,
                         term.component_id,
                         term.variable_name,
                         term.time_index,
                         term.scenario_index,
                     )
-                _copy_expression(left_expr, self)
         return self
 
     def __mul__(self, rhs: "LinearExpression") -> "LinearExpression":
@@ -434,5 +435,5 @@ class LinearExpression:
 
 
 def _copy_expression(src: LinearExpression, dst: LinearExpression) -> None:
-    dst.terms = src.terms
+    dst.terms = src.terms.copy()
     dst.constant = src.constant
-- 
2.43.0


From d8205f63b0651848ff43e54163a22ad67ef49d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 03/35] fix: time and scenario dependency of constraint bounds
 was ignored when instantiating constraints

---
 src/andromede/simulation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0a4eba0..2c9a5c7 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -423,8 +423,8 @@ def _compute_indexing(
 ) -> IndexingStructure:
     return (
         context.compute_indexing(constraint.expression)
-        or context.compute_indexing(constraint.lower_bound)
-        or context.compute_indexing(constraint.upper_bound)
+        | context.compute_indexing(constraint.lower_bound)
+        | context.compute_indexing(constraint.upper_bound)
     )
 
 
-- 
2.43.0


From ef89b22553a4e163b1d1016486f2b73f404481aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 04/35] fix: an outer expectation overrode the scenarios of an
 inner one

---
 src/andromede/expression/operators_expansion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/operators_expansion.py b/src/andromede/expression/operators_expansion.py
index 13e2d40..51f29b1 100644
--- a/src/andromede/expression/operators_expansion.py
+++ b/src/andromede/expression/operators_expansion.py
@@ -226,12 +226,12 @@ class ApplyScenario(CopyVisitor):
     scenario: int
 
     def pb_parameter(self, node: ProblemParameterNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
     def pb_variable(self, node: ProblemVariableNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
-- 
2.43.0


From 17ea3601fc970b70e4f8d7b0acdd9af9e9cc9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 05/35] fix: get_or_add replaced existing values that are falsy

---
 src/andromede/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/andromede/utils.py b/src/andromede/utils.py
index 7b5d0a9..253a17b 100644
--- a/src/andromede/utils.py
+++ b/src/andromede/utils.py
@@ -40,11 +40,9 @@ def get_or_add(dictionary: Dict[K, V], key: K, default_factory: Supplier[V]) ->
 
     Factory is only called if value is absent.
     """
-    value = dictionary.get(key)
-    if not value:
-        value = default_factory()
-        dictionary[key] = value
-    return value
+    if key not in dictionary:
+        dictionary[key] = default_factory()
+    return dictionary[key]
 
 
 def serialize(filename: str, message: str, path: pathlib.Path) -> None:
-- 
2.43.0


From 4a4bf5efc2e372557b4775e351c22d9c472d49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 06/35] fix: data of nodes was not checked against the
 requirements of their models

---
 src/andromede/study/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index f89537c..b1eb983 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -257,7 +257,7 @@ class DataBase:
             raise KeyError(f"Index {index} not found.")
 
     def requirements_consistency(self, network: Network) -> None:
-        for component in network.components:
+        for component in network.all_components:
             for param in component.model.parameters.values():
                 data_structure = self.get_data(component.id, param.name)
 
-- 
2.43.0


From 4b62a1f76a51f7f803ce821e15d916b14b39fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 07/35] fix: setting expected values of a variable kept values
 of the previous setting

---
 src/andromede/simulation/output_values.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/output_values.py b/src/andromede/simulation/output_values.py
index c832148..6cd2cd4 100644
--- a/src/andromede/simulation/output_values.py
+++ b/src/andromede/simulation/output_values.py
@@ -101,6 +101,7 @@ class OutputValues:
         @value.setter
         def value(self, values: Union[float, List[float], List[List[float]]]) -> None:
             size_s, size_t = 1, 1
+            self._value.clear()
 
             if isinstance(values, list):
                 size_s = len(values)
-- 
2.43.0


From 70f924265cd0eecc843c6c7d5bae9889b2529a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 08/35] fix: a library could not declare a dependency to a
 preloaded library

---
 src/andromede/model/resolve_library.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 10f3285..da6f764 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -64,6 +64,9 @@ def resolve_library(
         dict((l.id, l) for l in preloaded_libs) if preloaded_libs else {}
     )
 
+    # Port types of preloaded libs are made available to all libs
+    preloaded_lib_ids = set(output_lib_dict) - set(yaml_lib_dict)
+
     remaining_lib_ids: List[str] = list(yaml_lib_dict)
     treated_lib_ids: Set[str] = set()
     import_stack: List[str] = []
@@ -86,7 +89,9 @@ def resolve_library(
                 output_lib_dict, treated_lib_ids, cur_yaml_lib, current_lib
             )
 
-            remaining_dependencies = set(cur_yaml_lib.dependencies) - treated_lib_ids
+            remaining_dependencies = (
+                set(cur_yaml_lib.dependencies) - treated_lib_ids - preloaded_lib_ids
+            )
 
             if remaining_dependencies:
                 _add_dependencies_to_stack(import_stack, remaining_dependencies)
-- 
2.43.0


From 2d3500b6bb80036a69031112f70cc9d409a64ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:32 +0000
Subject: [PATCH 09/35] fix: scenarized database ignored nodes and leaked the
 scenario group of a parameter to the next ones

---
 src/andromede/study/resolve_components.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index e9f5291..019fdf5 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -215,13 +215,14 @@ def build_scenarized_data_base(
     database = DataBase()
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
-    for comp in input_comp.components:
-        scenarization = None
+    for comp in input_comp.components + input_comp.nodes:
+        comp_scenarization = None
         if comp.scenario_group:
-            scenarization = scenarizations[comp.scenario_group]
+            comp_scenarization = scenarizations[comp.scenario_group]
 
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
+            scenarization = comp_scenarization
             if param.scenario_group:
                 scenarization = scenarizations[param.scenario_group]
             param_value = _build_data(
-- 
2.43.0


From be76c620dc13f960e29ee62af2c98eb418f9f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:32 +0000
Subject: [PATCH 10/35] fix: time shift or evaluation of a parenthesized
 expression was parsed to nothing

---
 .../expression/parsing/parse_expression.py    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 1dc3c3e..b720034 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -147,6 +147,25 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
             return shifted_expr
         return shifted_expr.shift(time_shift)
 
+    # Visit a parse tree produced by ExprParser#timeIndexExpr.
+    def visitTimeIndexExpr(
+        self, ctx: ExprParser.TimeIndexExprContext
+    ) -> ExpressionNode:
+        expr = ctx.expr(0).accept(self)  # type: ignore
+        eval_time = ctx.expr(1).accept(self)  # type: ignore
+        return expr.eval(eval_time)
+
+    # Visit a parse tree produced by ExprParser#timeShiftExpr.
+    def visitTimeShiftExpr(
+        self, ctx: ExprParser.TimeShiftExprContext
+    ) -> ExpressionNode:
+        shifted_expr = ctx.expr().accept(self)  # type: ignore
+        time_shift = ctx.shift().accept(self)  # type: ignore
+        # specifics for (x + y)[t] ...
+        if expressions_equal(time_shift, literal(0)):
+            return shifted_expr
+        return shifted_expr.shift(time_shift)
+
     def visitTimeSum(self, ctx: ExprParser.TimeSumContext) -> ExpressionNode:
         shifted_expr = ctx.expr().accept(self)  # type: ignore
         from_shift = ctx.from_.accept(self)  # type: ignore
-- 
2.43.0


From 7802a3faf2b9e7fb913b9569446b3e6d59fcab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:32 +0000
Subject: [PATCH 11/35] fix: multiplications and divisions in a time shift were
 applied from right to left

---
 .../expression/parsing/parse_expression.py      | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index b720034..2c10bee 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -206,8 +206,21 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
     # Visit a parse tree produced by ExprParser#shiftMuldiv.
     def visitShiftMuldiv(self, ctx: ExprParser.ShiftMuldivContext) -> ExpressionNode:
         left = ctx.shift_expr().accept(self)  # type: ignore
-        right = ctx.right_expr().accept(self)  # type: ignore
-        op = ctx.op.text  # type: ignore
+        return self._apply_right_muldiv(left, ctx.op.text, ctx.right_expr())  # type: ignore
+
+    def _apply_right_muldiv(
+        self, left: ExpressionNode, op: str, right_ctx: ExprParser.Right_exprContext
+    ) -> ExpressionNode:
+        """
+        The grammar groups the right operands together (t + a / (b / c)),
+        whereas operators must be applied from left to right (t + (a / b) / c).
+        """
+        if isinstance(right_ctx, ExprParser.RightMuldivContext):
+            left = self._apply_right_muldiv(left, op, right_ctx.right_expr(0))
+            return self._apply_right_muldiv(
+                left, right_ctx.op.text, right_ctx.right_expr(1)  # type: ignore
+            )
+        right = right_ctx.accept(self)
         if op == "*":
             return left * right
         elif op == "/":
-- 
2.43.0


From 1bca54298e7a996089afc6523ab238eb7dc8804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:44 +0000
Subject: [PATCH 12/35] fix: invalid characters of an expression were silently
 ignored

---
 .../expression/parsing/parse_expression.py    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 2c10bee..fce2a79 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -10,9 +10,11 @@
 #
 # This file is part of the Antares project.
 from dataclasses import dataclass
-from typing import Set
+from typing import Any, Set
 
 from antlr4 import CommonTokenStream, InputStream
+from antlr4.error.Errors import ParseCancellationException
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.error.ErrorStrategy import BailErrorStrategy
 
 from andromede.expression import ExpressionNode, literal, param, var
@@ -274,6 +276,23 @@ class AntaresParseException(Exception):
     pass
 
 
+class _BailErrorListener(ErrorListener):
+    """
+    By default, the lexer only logs invalid characters and skips them.
+    """
+
+    def syntaxError(
+        self,
+        recognizer: Any,
+        offendingSymbol: Any,
+        line: int,
+        column: int,
+        msg: str,
+        e: Any,
+    ) -> None:
+        raise ParseCancellationException(f"line {line}:{column} {msg}")
+
+
 def parse_expression(expression: str, identifiers: ModelIdentifiers) -> ExpressionNode:
     """
     Parses a string expression to create the corresponding AST representation.
@@ -281,6 +300,8 @@ def parse_expression(expression: str, identifiers: ModelIdentifiers) -> Expressi
     try:
         input = InputStream(expression)
         lexer = ExprLexer(input)
+        lexer.removeErrorListeners()
+        lexer.addErrorListener(_BailErrorListener())
         stream = CommonTokenStream(lexer)
         parser = ExprParser(stream)
         parser._errHandler = BailErrorStrategy()
-- 
2.43.0


From acdd3dab214271fd6025e5a9b4cef0fb31884d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:04 +0000
Subject: [PATCH 13/35] fix: a decision tree node with an invalid probability
 was attached to its parent before being rejected

---
 src/andromede/simulation/decision_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 9c1ffb1..f1406c7 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -63,11 +63,11 @@ class DecisionTreeNode(NodeMixin):
         self.network = network
         self.coupling_network = coupling_network
         self.coupling_info = coupling_info
-        self.parent = parent
 
         if prob < 0 or 1 < prob:
             raise ValueError("Probability must be a value in the range [0, 1]")
 
+        self.parent = parent
         self.prob = prob * (parent.prob if parent is not None else 1)
         if children:
             self.children = children
-- 
2.43.0


From ffc890c7a55989b17c31644deddca6a92de77429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:04 +0000
Subject: [PATCH 14/35] fix: probabilities of the nodes given as children of a
 decision tree node ignored the probability of their parent

---
 src/andromede/simulation/decision_tree.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index f1406c7..0ac4b74 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -42,7 +42,6 @@ class DecisionTreeNode(NodeMixin):
     id: str
     config: InterDecisionTimeScenarioConfig
     network: Network
-    prob: float
 
     coupling_network: Network
     coupling_info: CouplingInfo
@@ -68,10 +67,18 @@ class DecisionTreeNode(NodeMixin):
             raise ValueError("Probability must be a value in the range [0, 1]")
 
         self.parent = parent
-        self.prob = prob * (parent.prob if parent is not None else 1)
+        self._conditional_prob = prob
         if children:
             self.children = children
 
+    @property
+    def prob(self) -> float:
+        """
+        Probability of the node, from the root of the tree.
+        """
+        parent_prob = self.parent.prob if self.parent is not None else 1
+        return self._conditional_prob * parent_prob
+
     def traverse(
         self, depth: Optional[int] = None
     ) -> Generator["DecisionTreeNode", None, None]:
@@ -81,9 +88,9 @@ class DecisionTreeNode(NodeMixin):
         if not self.children:
             return True
 
-        # Since we multiply the child's prob by the parent's prob
-        # in the constructor, the sum of the children prob should
-        # equal 1 * parent.prob if the values were set correctly
+        # Since we multiply the child's prob by the parent's prob,
+        # the sum of the children prob should equal 1 * parent.prob
+        # if the values were set correctly
         if not math.isclose(self.prob, sum(child.prob for child in self.children)):
             return False
 
-- 
2.43.0


From 7ac1b849248e1d536da074dad2fd5146d4c9545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 15/35] fix: coupling constraints were shared by all decision
 trees

---
 src/andromede/simulation/decision_tree.py | 50 +++++++++--------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 0ac4b74..f315cf5 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -54,14 +54,18 @@ class DecisionTreeNode(NodeMixin):
         parent: Optional["DecisionTreeNode"] = None,
         children: Optional[Iterable["DecisionTreeNode"]] = None,
         prob: float = 1.0,
-        coupling_network: Network = Network("_Coupler"),
-        coupling_info: CouplingInfo = CouplingInfo(),
+        coupling_network: Optional[Network] = None,
+        coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
         self.id = id
         self.config = config
         self.network = network
-        self.coupling_network = coupling_network
-        self.coupling_info = coupling_info
+        self.coupling_network = (
+            coupling_network if coupling_network is not None else Network("_Coupler")
+        )
+        self.coupling_info = (
+            coupling_info if coupling_info is not None else CouplingInfo()
+        )
 
         if prob < 0 or 1 < prob:
             raise ValueError("Probability must be a value in the range [0, 1]")
@@ -159,47 +163,33 @@ class DecisionTreeNode(NodeMixin):
         )
 
     def _add_coupling_constraints(self) -> None:
-        variables: List[Variable] = []
-        constraints: List[Constraint] = []
+        variables: Dict[str, Variable] = {}
+        constraints: Dict[str, Constraint] = {}
 
-        """
-        Here and below, we use (and mostly abuse!) of the fact that
-        both coupling_network and coupling_info attributes are initialized,
-        or bounded, at the function definition since they are default arguments!
-        It allows us to not iterate over the tree, since all nodes share the same
-        coupling_network and coupling_info objects.
-
-        However, IT IS BAD DESIGN!
-        But for now it will suffice since the inner workings will change once
-        Thomas has changed the AST instantiation
-        TODO Update this once the new AST is merged
-        """
-        for var_name in self.coupling_info.variables:
-            variables.append(
+        # Each node holds the coupling constraints with its parent
+        for node in self.traverse():
+            for var_name in node.coupling_info.variables:
                 # TODO For now, unbounded positive float variable
-                float_variable(
+                variables[var_name] = float_variable(
                     var_name,
                     lower_bound=literal(0),
                     structure=IndexingStructure(False, False),
                     context=ProblemContext.INVESTMENT,
-                ),
-            )
+                )
 
-        for cst_name, expr in self.coupling_info.constraints.items():
-            constraints.append(
-                Constraint(
+            for cst_name, expr in node.coupling_info.constraints.items():
+                constraints[cst_name] = Constraint(
                     name=cst_name,
                     expression=expr,
                     context=ProblemContext.INVESTMENT,
-                ),
-            )
+                )
 
         self.coupling_network.add_component(
             create_component(
                 model(
                     id="",
-                    variables=variables,
-                    constraints=constraints,
+                    variables=list(variables.values()),
+                    constraints=list(constraints.values()),
                 ),
                 id="coupling",
             )
-- 
2.43.0


From fa5e4a4a355a516d8d28134b00b467fcfe5f81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:47 +0000
Subject: [PATCH 16/35] fix: merging master problems turned integer variables
 into continuous ones

---
 src/andromede/simulation/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 2c9a5c7..7e6bf16 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -815,7 +815,9 @@ def fusion_problems(
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
             if var.name() not in root_vars:
-                root_var = root_master.solver.NumVar(var.lb(), var.ub(), var.name())
+                root_var = root_master.solver.Var(
+                    var.lb(), var.ub(), var.integer(), var.name()
+                )
                 root_master.context._solver_variables[var.name()] = SolverVariableInfo(
                     var.name(),
                     len(root_master.context._solver_variables),
@@ -825,6 +827,7 @@ def fusion_problems(
                 root_var = root_vars[var.name()]
                 root_var.SetLb(var.lb())
                 root_var.SetUb(var.ub())
+                root_var.SetInteger(var.integer())
                 root_master.context._solver_variables[
                     var.name()
                 ].is_in_objective = context._solver_variables[
-- 
2.43.0


From c3d5774bb95b6af73c0a1c974578bdadd850f12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:47 +0000
Subject: [PATCH 17/35] fix: merging master problems dropped the constant part
 of their objectives

---
 src/andromede/simulation/optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 7e6bf16..064ec26 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -810,6 +810,7 @@ def fusion_problems(
     for master in masters:
         context = master.context
         objective = master.solver.Objective()
+        root_objective.SetOffset(root_objective.offset() + objective.offset())
 
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
-- 
2.43.0


From acaec650c4b19b409290a010af71e4aa86949a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:47 +0000
Subject: [PATCH 18/35] fix: merging master problems dropped constraints with
 the same name or without variables

---
 src/andromede/simulation/optimization.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 064ec26..07b9c85 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -799,7 +799,6 @@ def fusion_problems(
     root_master.name = "master"
 
     root_vars: Dict[str, lp.Variable] = dict()
-    root_constraints: Dict[str, lp.Constraint] = dict()
     root_objective = root_master.solver.Objective()
 
     # We stock the coupler's variables to check for
@@ -812,6 +811,14 @@ def fusion_problems(
         objective = master.solver.Objective()
         root_objective.SetOffset(root_objective.offset() + objective.offset())
 
+        # Constraints are identified by their index, names may not be unique
+        root_constraints: Dict[int, lp.Constraint] = {
+            cstr.index(): root_master.solver.Constraint(
+                cstr.Lb(), cstr.Ub(), f"{master.name}_{cstr.name()}"
+            )
+            for cstr in master.solver.constraints()
+        }
+
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
@@ -837,15 +844,8 @@ def fusion_problems(
 
             for cstr in master.solver.constraints():
                 coeff = cstr.GetCoefficient(var)
-                # If variable present in constraint, we add the constraint to root
                 if coeff != 0:
-                    key = f"{master.name}_{cstr.name()}"
-                    if key not in root_constraints:
-                        root_constraints[key] = root_master.solver.Constraint(
-                            cstr.Lb(), cstr.Ub(), key
-                        )
-                    root_cstr = root_constraints[key]
-                    root_cstr.SetCoefficient(root_var, coeff)
+                    root_constraints[cstr.index()].SetCoefficient(root_var, coeff)
 
             obj_coeff = objective.GetCoefficient(var)
             if obj_coeff != 0:
-- 
2.43.0


From 33e80095b7b6acfd2acf60fbe0db1d67b8b6c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:47 +0000
Subject: [PATCH 19/35] fix: coupling constraints were dropped when there is
 only one master problem

---
 src/andromede/simulation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 07b9c85..4aecee5 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -791,7 +791,7 @@ def build_problem(
 def fusion_problems(
     masters: List[OptimizationProblem], coupler: OptimizationProblem
 ) -> OptimizationProblem:
-    if len(masters) == 1:
+    if len(masters) == 1 and coupler.solver.NumConstraints() == 0:
         # Nothing to fusion. Just past down the master
         return masters[0]
 
-- 
2.43.0


From 6339ed3d6fa762e76031494ed6038063bc42e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:32 +0000
Subject: [PATCH 20/35] fix: keep the columns of the Benders structure file
 separate for long names

---
 src/andromede/simulation/benders_decomposed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 69af497..216de29 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -107,7 +107,7 @@ class BendersDecomposedProblem:
         structure_str = ""
         for problem_name, candidate_to_index in problem_to_candidates.items():
             for candidate, index in candidate_to_index.items():
-                structure_str += f"{problem_name:>50}{candidate:>50}{index:>10}\n"
+                structure_str += f"{problem_name:>50} {candidate:>49} {index:>9}\n"
 
         return structure_str
 
-- 
2.43.0


From e2265277a94b2d044c4ec53a301ae2dea36b814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:32 +0000
Subject: [PATCH 21/35] fix: variation of the number of units at the first
 timestep ignored the end of its period

---
 .../input_converter/src/data_preprocessing/thermal.py         | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index d2be8aa..38e6e5f 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -79,9 +79,7 @@ class ThermalDataPreprocessing:
             indices // period
         ) * period
 
-        previous_indices = np.where(
-            indices == 0, 0, np.minimum(previous_indices, max_valid_index)
-        )
+        previous_indices = np.minimum(previous_indices, max_valid_index)
         variation = pd.DataFrame()
         if direction == Direction.BACKWARD:
             variation = nb_units_max.reset_index(drop=True) - nb_units_max.iloc[
-- 
2.43.0


From f48df1ad6217725fc225b07e90caa16d9b111885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:35 +0000
Subject: [PATCH 22/35] fix: default period of the preprocessed thermal
 parameters was zero

---
 src/andromede/input_converter/src/data_preprocessing/thermal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index 38e6e5f..693e9e8 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -101,7 +101,7 @@ class ThermalDataPreprocessing:
         return self.series_path / Path(f"{component_id}").with_suffix(suffix)
 
     def generate_component_parameter(
-        self, parameter_id: str, period: int = 0
+        self, parameter_id: str, period: int = DEFAULT_PERIOD
     ) -> InputComponentParameter:
         if parameter_id not in self._prepro_parameter_functions:
             raise ValueError(f"Unsupported parameter_id: {parameter_id}")
-- 
2.43.0


From 7dc442dcc2b7c117122a974ee7e2d6cac7fd26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:58 +0000
Subject: [PATCH 23/35] fix: minimum power of a thermal cluster mixed the
 scenarios of its series

---
 .../input_converter/src/data_preprocessing/thermal.py        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index 693e9e8..57a0640 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -49,10 +49,9 @@ class ThermalDataPreprocessing:
         nominal_capacity: float = self.thermal.properties.nominal_capacity
         scaled_modulation: pd.Series = modulation_data * nominal_capacity * unit_count
         #  min(min_gen_modulation * unit_count * nominal_capacity, p_max_cluster)
-        min_values: pd.Series = pd.concat([scaled_modulation, series_data], axis=1).min(
-            axis=1
+        return series_data.apply(
+            lambda p_max_cluster: np.minimum(scaled_modulation, p_max_cluster)
         )
-        return min_values.to_frame(name="p_min_cluster")
 
     def _compute_nb_units_min(self) -> pd.DataFrame:
         p_min_cluster: pd.DataFrame = self._compute_p_min_cluster()
-- 
2.43.0


From a8e20ab73003132af7bcdd6c1bddb1a15c366d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:18 +0000
Subject: [PATCH 24/35] fix: batteries following an area without battery were
 dropped from converted studies

---
 src/andromede/input_converter/src/converter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/andromede/input_converter/src/converter.py b/src/andromede/input_converter/src/converter.py
index 5a9ca67..317c5b5 100644
--- a/src/andromede/input_converter/src/converter.py
+++ b/src/andromede/input_converter/src/converter.py
@@ -615,8 +615,8 @@ class AntaresStudyConverter:
         self.logger.info("Converting binding constraints to component list...")
 
         bc_data = read_yaml_file(BC_CONFIG_PATH).get("template")
-        try:
-            for area in valid_areas.values():
+        for area in valid_areas.values():
+            try:
                 data_with_area: dict = self._match_area_pattern(bc_data, area.id)
                 bcp = BindingConstraintsPreprocessing(self.study)
 
@@ -647,8 +647,9 @@ class AntaresStudyConverter:
                         port2="balance_port",
                     )
                 )
-        except (KeyError, FileNotFoundError) as e:
-            return components, connections
+            except (KeyError, FileNotFoundError):
+                # The objects modelling a battery are not defined for this area
+                continue
 
         return components, connections
 
-- 
2.43.0


From e1ceb80f295647fa36ddf0743a033b365545b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 25/35] fix: dispatch of a PyPSA storage unit was not bounded
 by its nominal power

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index 1909a1a..aa09f12 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -376,7 +376,7 @@ library:
         - id: p_store_upper
           expression: p_store <= p_max_pu * p_nom
         - id: p_dispatch_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
           expression: state_of_charge <= max_hours * p_nom
         - id: state_of_charge_balance
-- 
2.43.0


From 1800177a2788e83e5fc80145660c1238745f3a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:29 +0000
Subject: [PATCH 26/35] fix: a decomposed run following a merged one was read
 as a merged solution

---
 src/andromede/simulation/benders_decomposed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 216de29..9c9a6b2 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -202,10 +202,10 @@ class BendersDecomposedProblem:
             solver_name=solver_name, log_level=log_level, is_debug=show_debug
         )
 
+        self.is_merged = should_merge
         if not should_merge:
             return_code = BendersRunner(self.emplacement).run()
         else:
-            self.is_merged = True
             return_code = MergeMPSRunner(self.emplacement).run()
 
         if return_code == 0:
-- 
2.43.0


From c0cd7e6bb583204da2fbf191f063b77184ff5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:29 +0000
Subject: [PATCH 27/35] fix: inactive storage units and stores of a PyPSA
 network were converted as active

---
 src/andromede/pypsa_converter/pypsa_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 4e97462..5bfa718 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -112,7 +112,7 @@ class PyPSAStudyConverter:
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
         ### PyPSA components : Storage Units
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
         if not (all((self.pypsa_network.storage_units["sign"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with sign = 1")
@@ -125,7 +125,7 @@ class PyPSAStudyConverter:
         ):
             raise ValueError(f"Converter supports only Storage Units with linear cost")
         ### PyPSA components : Stores
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.stores["active"] == 1))):
             raise ValueError(f"Converter supports only Stores with active = 1")
         if not (all((self.pypsa_network.stores["sign"] == 1))):
             raise ValueError(f"Converter supports only Stores with sign = 1")
-- 
2.43.0


From 23d529b398f13f7aacb4e6699268f75c32e06785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:29 +0000
Subject: [PATCH 28/35] fix: a link of a PyPSA network named like a bus had the
 same component id

---
 src/andromede/pypsa_converter/pypsa_converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 5bfa718..7667f27 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -182,6 +182,12 @@ class PyPSAStudyConverter:
         for key, val in self.pypsa_network.stores_t.items():
             val.columns = val.columns + "_store"
 
+        self.pypsa_network.links.index = (
+            self.pypsa_network.links.index.astype(str) + "_link"
+        )
+        for key, val in self.pypsa_network.links_t.items():
+            val.columns = val.columns + "_link"
+
     def _preprocess_pypsa_components(self, component_type: str, capa_str: str) -> None:
         ### Handling PyPSA objects without carriers
         df = getattr(self.pypsa_network, component_type)
-- 
2.43.0


From 8a447679ddad659852392596cd21c9667cde8013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:02 +0000
Subject: [PATCH 29/35] fix: of two constraints, variables, parameters or port
 field definitions of a model with the same name one was silently dropped

---
 src/andromede/model/model.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/andromede/model/model.py b/src/andromede/model/model.py
index 741a4fb..5f5e6c1 100644
--- a/src/andromede/model/model.py
+++ b/src/andromede/model/model.py
@@ -17,7 +17,7 @@ defining parameters, variables, and equations.
 """
 import itertools
 from dataclasses import dataclass, field, replace
-from typing import Any, Dict, Iterable, Optional
+from typing import Any, Callable, Dict, Iterable, Optional, TypeVar
 
 from andromede.expression import ExpressionNode
 from andromede.expression.degree import is_linear
@@ -143,6 +143,19 @@ class Model:
         return replace(self, **changes)
 
 
+T = TypeVar("T")
+K = TypeVar("K")
+
+
+def _unique(items: Optional[Iterable[T]], key: Callable[[T], K]) -> Dict[K, T]:
+    res: Dict[K, T] = {}
+    for item in items or []:
+        if key(item) in res:
+            raise ValueError(f"Defined twice inside the model: {key(item)}")
+        res[key(item)] = item
+    return res
+
+
 def model(
     id: str,
     constraints: Optional[Iterable[Constraint]] = None,
@@ -170,17 +183,15 @@ def model(
                 )
     return Model(
         id=id,
-        constraints={c.name: c for c in constraints} if constraints else {},
-        binding_constraints={c.name: c for c in binding_constraints}
-        if binding_constraints
-        else {},
-        parameters={p.name: p for p in parameters} if parameters else {},
-        variables={v.name: v for v in variables} if variables else {},
+        constraints=_unique(constraints, lambda c: c.name),
+        binding_constraints=_unique(binding_constraints, lambda c: c.name),
+        parameters=_unique(parameters, lambda p: p.name),
+        variables=_unique(variables, lambda v: v.name),
         objective_operational_contribution=objective_operational_contribution,
         objective_investment_contribution=objective_investment_contribution,
         inter_block_dyn=inter_block_dyn,
         ports=existing_port_names,
-        port_fields_definitions={d.port_field: d for d in port_fields_definitions}
-        if port_fields_definitions
-        else {},
+        port_fields_definitions=_unique(
+            port_fields_definitions, lambda d: d.port_field
+        ),
     )
-- 
2.43.0


From 2ec3a6367fdaa7401475432d6ebb4676acec5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:02 +0000
Subject: [PATCH 30/35] fix: of two components or nodes of a system with the
 same id one was silently dropped

---
 src/andromede/study/resolve_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index 019fdf5..52a9164 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -9,6 +9,7 @@
 # SPDX-License-Identifier: MPL-2.0
 #
 # This file is part of the Antares project.
+from collections import Counter
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Dict, Iterable, List, Optional, Union
@@ -68,6 +69,10 @@ def resolve_system(input_system: InputSystem, libraries: dict[str, Library]) ->
     ]
     nodes = [_resolve_component(libraries, n) for n in input_system.nodes]
     all_components: List[Component] = components_list + nodes
+    count = Counter(c.id for c in all_components)
+    duplicates = sorted(i for i, n in count.items() if n > 1)
+    if duplicates:
+        raise ValueError(f"Several components or nodes have the same id: {duplicates}")
     connections = []
     for cnx in input_system.connections:
         resolved_cnx = _resolve_connections(cnx, all_components)
-- 
2.43.0


From 2b66879926ba0392f58c2ae92887b7e1a5828301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 31/35] fix: the output path given to the input converter
 command was ignored

---
 src/andromede/input_converter/src/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/main.py b/src/andromede/input_converter/src/main.py
index 684c748..c8c9e5d 100644
--- a/src/andromede/input_converter/src/main.py
+++ b/src/andromede/input_converter/src/main.py
@@ -153,7 +153,10 @@ if __name__ == "__main__":
     if args.output_path:
         config_parser.set("study", "output_path", str(args.output_path))
 
+    output_path = config_parser["study"].get("output_path")
     converter = AntaresStudyConverter(
-        study_input=Path(config_parser["study"].get("study_path")), logger=logger
+        study_input=Path(config_parser["study"].get("study_path")),
+        logger=logger,
+        output_path=Path(output_path) / "output.yaml" if output_path else None,
     )
     converter.process_all()
-- 
2.43.0


From cd86bdb2aa0b6717312c4c591a91f2729035ac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 32/35] fix: variables and constraints of different problem
 contexts were equal

---
 src/andromede/model/constraint.py | 1 +
 src/andromede/model/variable.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/andromede/model/constraint.py b/src/andromede/model/constraint.py
index caa3da5..4b66175 100644
--- a/src/andromede/model/constraint.py
+++ b/src/andromede/model/constraint.py
@@ -91,4 +91,5 @@ class Constraint:
             and expressions_equal(self.expression, other.expression)
             and expressions_equal_if_present(self.lower_bound, other.lower_bound)
             and expressions_equal_if_present(self.upper_bound, other.upper_bound)
+            and self.context == other.context
         )
diff --git a/src/andromede/model/variable.py b/src/andromede/model/variable.py
index a28a7b2..687adf2 100644
--- a/src/andromede/model/variable.py
+++ b/src/andromede/model/variable.py
@@ -51,6 +51,7 @@ class Variable:
             and expressions_equal_if_present(self.lower_bound, other.lower_bound)
             and expressions_equal_if_present(self.upper_bound, other.upper_bound)
             and self.structure == other.structure
+            and self.context == other.context
         )
 
 
-- 
2.43.0


From 88a795cf60dd620c756bcca5c62609023340479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 33/35] fix: comparing port field definitions and models
 ignored their expressions

---
 src/andromede/model/model.py | 24 ++++++++++++++++++++++++
 src/andromede/model/port.py  |  9 +++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/andromede/model/model.py b/src/andromede/model/model.py
index 5f5e6c1..0f3e55f 100644
--- a/src/andromede/model/model.py
+++ b/src/andromede/model/model.py
@@ -21,6 +21,7 @@ from typing import Any, Callable, Dict, Iterable, Optional, TypeVar
 
 from andromede.expression import ExpressionNode
 from andromede.expression.degree import is_linear
+from andromede.expression.equality import expressions_equal_if_present
 from andromede.expression.indexing import IndexingStructureProvider, compute_indexation
 from andromede.expression.indexing_structure import IndexingStructure
 from andromede.model.constraint import Constraint
@@ -138,6 +139,29 @@ class Model:
             self.binding_constraints.values(), self.constraints.values()
         )
 
+    def __eq__(self, other: Any) -> bool:
+        # The == operator of expressions builds a comparison node
+        if not isinstance(other, Model):
+            return False
+        return (
+            self.id == other.id
+            and self.constraints == other.constraints
+            and self.binding_constraints == other.binding_constraints
+            and self.inter_block_dyn == other.inter_block_dyn
+            and self.parameters == other.parameters
+            and self.variables == other.variables
+            and expressions_equal_if_present(
+                self.objective_operational_contribution,
+                other.objective_operational_contribution,
+            )
+            and expressions_equal_if_present(
+                self.objective_investment_contribution,
+                other.objective_investment_contribution,
+            )
+            and self.ports == other.ports
+            and self.port_fields_definitions == other.port_fields_definitions
+        )
+
     def replicate(self, /, **changes: Any) -> "Model":
         # Shallow copy
         return replace(self, **changes)
diff --git a/src/andromede/model/port.py b/src/andromede/model/port.py
index cf1951f..fa461ec 100644
--- a/src/andromede/model/port.py
+++ b/src/andromede/model/port.py
@@ -25,6 +25,7 @@ from andromede.expression import (
     ParameterNode,
     VariableNode,
 )
+from andromede.expression.equality import expressions_equal
 from andromede.expression.expression import (
     AllTimeSumNode,
     BinaryOperatorNode,
@@ -85,6 +86,14 @@ class PortFieldDefinition:
     def replicate(self, /, **changes: Any) -> "PortFieldDefinition":
         return replace(self, **changes)
 
+    def __eq__(self, other: Any) -> bool:
+        # The == operator of expressions builds a comparison node
+        if not isinstance(other, PortFieldDefinition):
+            return False
+        return self.port_field == other.port_field and expressions_equal(
+            self.definition, other.definition
+        )
+
 
 def port_field_def(
     port_name: str, field_name: str, definition: ExpressionNode
-- 
2.43.0


From 8860a83a7c4b56b7c0ca31d00c6b391e10053730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 34/35] fix: missing values of a time series file were read as
 NaN

---
 src/andromede/study/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index b1eb983..f89c67c 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -139,13 +139,17 @@ def load_ts_from_txt(
         timeseries_with_extension = timeseries_name + ".txt"
         ts_path = path_to_file / timeseries_with_extension
     try:
-        return pd.read_csv(ts_path, header=None, sep=r"\s+")
+        ts_data = pd.read_csv(ts_path, header=None, sep=r"\s+")
 
     except FileNotFoundError:
         raise FileNotFoundError(f"File '{timeseries_name}' does not exist")
     except Exception:
         raise Exception(f"An error has arrived when processing '{ts_path}'")
 
+    if ts_data.isna().any(axis=None):
+        raise ValueError(f"Some values are missing in '{ts_path}'")
+    return ts_data
+
 
 def dataframe_to_time_series(ts_dataframe: pd.DataFrame) -> Dict[TimeIndex, float]:
     if ts_dataframe.shape[1] != 1:
-- 
2.43.0


From e9d35ca7ddbb72a68a9e7d1cf4c936cf81ad2861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:34 +0000
Subject: [PATCH 35/35] fix: of two port types of a library with the same id
 one was silently dropped

---
 src/andromede/model/resolve_library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index da6f764..fec960d 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -131,6 +131,8 @@ def _resolve_lib(
 ) -> None:
     port_types = [_convert_port_type(p) for p in cur_yaml_lib.port_types]
     port_types_dict = dict((p.id, p) for p in port_types)
+    if len(port_types_dict) < len(port_types):
+        raise Exception(f"A port type of library {cur_yaml_lib.id} is defined twice.")
 
     if current_lib.port_types.keys() & port_types_dict.keys():
         raise Exception(
-- 
2.43.0

