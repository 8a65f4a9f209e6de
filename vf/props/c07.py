"""C07: classification of expressions (constant / linear) and the rules that rest on it."""
from andromede.expression import EvaluationContext, evaluate, literal, param, var
from andromede.expression.degree import compute_degree, is_constant, is_linear
from andromede.expression.expression import CurrentScenarioIndex, TimeShift, comp_param, comp_var, problem_param, problem_var
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model import Constraint, ProblemContext, ValueType, Variable, model
from andromede.model.parameter import Parameter

from vf.gen import STRUCTS
from vf.harness import Harness
from vf.props.c02 import ref_value
from vf.spec import to_node


def tree(ctx, depth, leaves, ops):
    op = ctx.pick("op", ["leaf"] + ops) if depth else "leaf"
    if op == "leaf":
        l = ctx.pick("leaf", leaves)
        return ("lit", ctx.real("lit", 1, 10)) if l == "lit" else l
    a = tree(ctx, depth - 1, leaves, ops)
    if op in ("neg", "shift", "eval", "tsum", "sumall", "expec"):
        return {"shift": ("shift", a, 1), "eval": ("eval", a, 0), "tsum": ("tsum", a, 0, 1)}.get(op, (op, a))
    return (op, a, tree(ctx, depth - 1, leaves, ops))


def degree(a):
    """Syntactic degree; None when a divisor has variables."""
    op = a[0]
    if op in ("var", "pf", "pfsum"):
        return 1
    if op in ("lit", "par"):
        return 0
    if op in ("neg", "shift", "eval", "tsum", "sumall", "expec"):
        return degree(a[1])
    if op == "variance":
        return None if degree(a[1]) is None else 2 * degree(a[1])
    l, r = degree(a[1]), degree(a[2])
    if l is None or r is None:
        return None
    if op in "+-":
        return max(l, r)
    if op == "*":
        return l + r
    return l if r == 0 else None


def polynomial(p, par):
    """Coefficients by (exponent of x, exponent of y); divisors have no variables."""
    op = p[0]
    if op == "var":
        return {(1, 0): 1} if p[1] == "x" else {(0, 1): 1}
    if op in ("lit", "par"):
        return {(0, 0): p[1] if op == "lit" else par}
    if op == "neg":
        return {k: -v for k, v in polynomial(p[1], par).items()}
    l = polynomial(p[1], par)
    r = polynomial(p[2], par)
    if op == "/":
        return {k: v / r[(0, 0)] for k, v in l.items()}
    res = dict(l) if op in "+-" else {}
    if op == "*":
        for a, x in l.items():
            for b, y in r.items():
                k = (a[0] + b[0], a[1] + b[1])
                res[k] = res.get(k, 0) + x * y
    else:
        for k, v in r.items():
            res[k] = res.get(k, 0) + (v if op == "+" else -v)
    return res


def plain(a):
    """The arithmetic of the expression: time and scenario operators are linear maps, here the identity."""
    if a[0] in ("shift", "eval", "tsum", "sumall", "expec"):
        return plain(a[1])
    if a[0] in ("lit", "var", "par"):
        return a
    if a[0] in ("pf", "pfsum"):  # stands for variables of the connected components
        return ("var", "y")
    return (a[0],) + tuple(plain(b) for b in a[1:])


def h_degree(ctx, depth, leaves, ops):
    a = tree(ctx, depth, leaves, ops)
    e = to_node(a)
    d = degree(a)
    try:
        const, lin = is_constant(e), is_linear(e)
    except ValueError:
        ctx.check(d is None, "an expression without division by variables was refused")
        ctx.cover("refused")
        return
    ctx.check(d is not None, "division by an expression with variables was accepted")
    # completeness on the syntactic forms
    if d == 0:
        ctx.check(const, "an expression without variables is not constant")
        ctx.cover("constant")
    if d <= 1:
        ctx.check(lin, "a linear combination of variables is not linear")
    deg = compute_degree(e)
    ctx.check(deg <= d, "degree too large")
    ctx.check(lin == (deg <= 1) and const == (deg == 0), f"degree {deg}, constant: {const}, linear: {lin}")
    # soundness on values
    p = plain(a)
    par = ctx.real("p", 1, 10)
    u = {n: ctx.real("u" + n, 1, 10) for n in ("x", "y")}
    v = {n: ctx.real("v" + n, 1, 10) for n in ("x", "y")}
    half = {n: (u[n] + v[n]) / 2 for n in u}
    try:
        fu, fv, fh = (ref_value(p, {**w, "p": par}) for w in (u, v, half))
        for mono, c in polynomial(p, par).items():
            if sum(mono) > deg:
                ctx.check_close(c, 0, f"degree {deg} but the term x^{mono[0]} y^{mono[1]} is there")
                ctx.cover("cancelled")
    except ZeroDivisionError:
        ctx.assume(False)
    if const:
        ctx.check_close(fu, fv, "an expression declared constant depends on variables")
    if lin:
        ctx.check_close(fu + fv, 2 * fh, "an expression declared linear is not")
        ctx.cover("linear")
    else:
        ctx.cover("nonlinear")


def instance(a, kind):
    """The expression with the variables and parameters of a component, or of a problem."""
    op = a[0]
    if op == "lit":
        return literal(a[1])
    if op in ("var", "par"):
        if kind == "component":
            return (comp_var if op == "var" else comp_param)("C", a[1])
        return (problem_var if op == "var" else problem_param)("C", a[1], TimeShift(0), CurrentScenarioIndex())
    l = instance(a[1], kind)
    if op == "neg":
        return -l
    if op == "shift":
        return l.shift(a[2])
    if op == "sumall":
        return l.time_sum()
    r = instance(a[2], kind)
    return l + r if op == "+" else l - r if op == "-" else l * r if op == "*" else l / r


def h_instances(ctx, depth, leaves, ops):
    """The degree does not depend on whether the expression is that of a model, a component or a problem."""
    a = tree(ctx, depth, leaves, ops)
    d = degree(a)
    kind = ctx.pick("kind", ["component", "problem"])
    res = []
    for e in (to_node(a), instance(a, kind)):
        try:
            res.append((compute_degree(e), bool(is_constant(e)), bool(is_linear(e))))
        except ValueError:
            res.append(None)
    ctx.check(res[0] == res[1], f"{a}: {res[0]} in a model, {res[1]} for a {kind}")
    if d is not None:
        ctx.check(res[1] is not None and res[1][0] <= d, f"{a}: degree {res[1]}")
    ctx.cover("refused" if res[1] is None else f"degree{min(res[1][0], 2)}")


def _refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def h_bounds(ctx, depth, leaves, ops):
    """Bounds with variables are refused, others accepted."""
    a = tree(ctx, depth, leaves, ops)
    e = to_node(a)
    d = degree(a)
    ctx.assume(d is not None)
    where = ctx.pick("where", ["var_lb", "var_ub", "cst_lb", "cst_ub"])
    if where.startswith("var"):
        f = lambda: Variable(
            "v",
            ctx.pick("type", [ValueType.CONTINUOUS, ValueType.INTEGER]),
            e if where == "var_lb" else None,
            e if where == "var_ub" else None,
            IndexingStructure(True, True),
            ProblemContext.OPERATIONAL,
        )
    elif where == "cst_lb":
        f = lambda: Constraint("c", var("x"), lower_bound=e)
    else:
        f = lambda: Constraint("c", var("x"), upper_bound=e)
    r = _refused(f)
    if d == 0:
        ctx.check(not r, f"{where}: a bound without variables was refused")
        ctx.cover("accepted")
    else:
        p = plain(a)
        env = {"p": ctx.real("p", 1, 10)}
        if not r:  # the variables must cancel out
            u = ref_value(p, {**env, "x": ctx.real("ux", 1, 10), "y": ctx.real("uy", 1, 10)})
            v = ref_value(p, {**env, "x": ctx.real("vx", 1, 10), "y": ctx.real("vy", 1, 10)})
            ctx.check_close(u, v, f"{where}: a bound with variables was accepted")
        ctx.cover("refused")


INF = float("inf")


def h_infinite(ctx):
    """A constraint that no value satisfies because a bound is infinite on the wrong side is refused."""

    def bound(name, default):
        kind = ctx.pick(name, ["omitted", "-inf", "+inf", "number", "parameter", "scaled"])
        if kind == "omitted":
            return default, {}
        k = {"-inf": -INF, "+inf": INF, "number": ctx.real(name + "_k", -10, 10)}.get(kind)
        e = literal(k) if k is not None else param("p") if kind == "parameter" else 2 * param("p")
        return kind, {"lower_bound" if name == "lb" else "upper_bound": e}

    lo, a = bound("lb", "-inf")
    up, b = bound("ub", "+inf")
    e = to_node(ctx.pick("e", [("var", "x"), ("-", ("var", "x"), ("par", "p")), ("shift", ("var", "x"), 1)]))
    r = _refused(lambda: Constraint("c", e, **a, **b))
    wrong = lo == "+inf" or up == "-inf"
    ctx.check(r == wrong, f"bounds {lo} and {up}: {'refused' if r else 'accepted'}")
    ctx.cover("refused" if r else "accepted")


def h_comparison(ctx):
    """A comparison that also has bounds is refused, alone it is accepted."""
    left, right = ctx.pick("sides", [("x", 2), ("x", "p"), ("p", "x")])
    node = lambda v: literal(v) if v == 2 else (var if v == "x" else param)(v)
    op = ctx.pick("op", ["<=", ">=", "=="])
    l, r = node(left), node(right)
    e = l <= r if op == "<=" else l >= r if op == ">=" else l == r
    kw = {}
    for b in ("lower_bound", "upper_bound"):
        v = ctx.pick(b, ["omitted", "number", "parameter"])
        if v != "omitted":
            kw[b] = literal(ctx.real(b, -10, 10)) if v == "number" else param("p")
    r = _refused(lambda: Constraint("c", e, **kw))
    ctx.check(r == bool(kw), f"a comparison with {sorted(kw)} was {'refused' if r else 'accepted'}")
    ctx.cover("refused" if r else "accepted")


def h_objective(ctx, depth, leaves, ops):
    """Objective contributions must be linear and scalar."""
    a = tree(ctx, depth, leaves, ops)
    sx = ctx.pick("sx", STRUCTS)
    sp = ctx.pick("sp", STRUCTS[:2] + STRUCTS[3:])
    d = degree(a)
    ctx.assume(d is not None)
    wrap = ctx.pick("wrap", ["", "sumall", "expec", "both", "variance"])
    if wrap == "variance":
        ctx.assume(d >= 1)
    if wrap == "sumall":
        a = ("sumall", a)
    elif wrap == "expec":
        a = ("expec", a)
    elif wrap == "both":
        a = ("expec", ("sumall", a))
    which = ctx.pick("which", ["objective_operational_contribution", "objective_investment_contribution"])
    st = structure(a, {"x": sx, "y": (False, False), "p": sp})
    node = to_node(a)
    if wrap == "variance":
        node = node.variance()
    contributions = {which: node}
    if ctx.flag("other"):  # the other contribution is there and valid
        other = {"objective_operational_contribution", "objective_investment_contribution"} - {which}
        contributions[other.pop()] = 2 * var("y")
    r = _refused(
        lambda: model(
            "m",
            parameters=[Parameter("p", ValueType.CONTINUOUS, IndexingStructure(*sp))],
            variables=[
                Variable(n, ValueType.CONTINUOUS, None, None, IndexingStructure(*s), ProblemContext.OPERATIONAL)
                for n, s in (("x", sx), ("y", (False, False)))
            ],
            **contributions,
        )
    )
    if wrap == "variance":
        ctx.check(r, "a variance of variables was accepted as a linear objective")
        ctx.cover("refused_degree")
    elif d <= 1 and st == (False, False):
        ctx.check(not r, "a linear scalar objective was refused")
        ctx.cover("accepted")
    elif st != (False, False):
        ctx.check(r, "an objective that depends on time or scenario was accepted")
        ctx.cover("refused_structure")
    elif r:
        ctx.cover("refused_degree")
    else:
        _affine(ctx, plain(a))


def _affine(ctx, p):
    par = ctx.real("p", 1, 10)
    u = {n: ctx.real("u" + n, 1, 10) for n in ("x", "y")}
    v = {n: ctx.real("v" + n, 1, 10) for n in ("x", "y")}
    half = {n: (u[n] + v[n]) / 2 for n in u}
    try:
        fu, fv, fh = (ref_value(p, {**w, "p": par}) for w in (u, v, half))
    except ZeroDivisionError:
        return
    ctx.check_close(fu + fv, 2 * fh, "a non linear objective was accepted")


def structure(a, st):
    op = a[0]
    if op in ("var", "par"):
        return st[a[1]]
    if op == "lit":
        return (False, False)
    if op in ("eval", "sumall"):
        return (False, structure(a[1], st)[1])
    if op == "expec":
        return (structure(a[1], st)[0], False)
    if op in ("neg", "shift", "tsum"):
        return structure(a[1], st)
    l, r = structure(a[1], st), structure(a[2], st)
    return (l[0] or r[0], l[1] or r[1])


X, Y, P = ("var", "x"), ("var", "y"), ("par", "p")
F, FS = ("pf", "q", "f"), ("pfsum", "q", "f")
HARNESSES = [
    Harness(
        "degree",
        h_degree,
        "expression trees of the given depth over + - * / and negation; variables x, y, a parameter, a literal; symbolic values",
        quick=dict(depth=2, leaves=[X, Y, P, "lit"], ops=["+", "-", "*", "/", "neg"]),
        thorough=dict(depth=2, leaves=[X, Y, P, "lit"], ops=["+", "-", "*", "/", "neg", "shift", "sumall"]),
        covers=["constant", "linear", "nonlinear", "refused"],
    ),
    Harness(
        "operators",
        h_degree,
        "as degree, with time and scenario operators (linear maps), port fields and their sums",
        quick=dict(depth=2, leaves=[X, P, F, FS], ops=["*", "/", "shift", "eval", "tsum", "sumall", "expec"]),
        thorough=dict(depth=2, leaves=[X, Y, P, F, FS], ops=["+", "*", "/", "shift", "eval", "tsum", "sumall", "expec"]),
        covers=["constant", "linear", "nonlinear", "refused"],
    ),
    Harness(
        "instances",
        h_instances,
        "trees of the given depth with the variables and parameters of a component or of a problem, symbolic literals",
        quick=dict(depth=2, leaves=[X, P, "lit"], ops=["+", "*", "/", "neg"]),
        thorough=dict(ops=["+", "-", "*", "/", "neg", "shift", "sumall"]),
        covers=["degree0", "degree1", "degree2", "refused"],
    ),
    Harness(
        "bounds",
        h_bounds,
        "bounds of variables and constraints that are trees of the given depth",
        quick=dict(depth=2, leaves=[X, P, "lit", F, FS], ops=["+", "*", "neg", "shift", "sumall"]),
        thorough=dict(depth=2, leaves=[X, Y, P, "lit", F, FS], ops=["+", "-", "*", "/", "neg", "shift", "eval", "sumall", "expec"]),
        covers=["accepted", "refused"],
    ),
    Harness("infinite", h_infinite, "constraints with each bound omitted, infinite on either side, a symbolic number or a parameter", covers=["accepted", "refused"]),
    Harness("comparisons", h_comparison, "comparisons with each bound omitted, a symbolic number or a parameter", covers=["accepted", "refused"]),
    Harness(
        "objectives",
        h_objective,
        "objective contributions that are trees of the given depth under sums over time, expectations and variances, every structure of "
        "the variable and the parameter, with and without a valid contribution to the other objective",
        quick=dict(depth=2, leaves=[X, P], ops=["+", "*", "shift"]),
        thorough=dict(depth=2, leaves=[X, Y, P, "lit"], ops=["+", "-", "*", "/", "shift", "eval", "sumall", "expec"]),
        covers=["accepted", "refused_structure", "refused_degree"],
    ),
]
