"""C01: expressions built with operators have their arithmetic meaning."""
from andromede.expression import (
    EvaluationContext,
    ExpressionNode,
    evaluate,
    literal,
    param,
    sum_expressions,
    var,
)

from vf.harness import Harness

OPS = ["+", "-", "*", "/"]


def apply(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    return a / b


def h_chain(ctx, steps, others, ops="+-*/"):
    """
    Chains of operators; every intermediate expression is re-evaluated at the
    end (building an expression must not change the ones it was built from).
    """
    vx, vp, vl = ctx.real("x"), ctx.real("p"), ctx.real("lit")
    leaves = {
        "x": (var("x"), vx),
        "p": (param("p"), vp),
        "lit": (literal(vl), vl),
    }
    env = EvaluationContext(variables={"x": vx}, parameters={"p": vp})
    first = ctx.pick("first", ["x", "p", "lit"])
    built = [leaves[first]]
    for i in range(steps):
        cur, cv = built[-1]
        form = ctx.pick("form", ["neg"] + [o + side for o in ops for side in "lr"])
        if form == "neg":
            built.append((-cur, None if cv is None else -cv))
            continue
        op, side = form[0], form[1]
        kind = ctx.pick("other", others)
        if kind == "num":
            v = ctx.real("k")
            o = v
        elif kind == "int":
            v = ctx.int("ki", -50, 50)
            o = v
        elif kind == "old":
            o, v = built[max(0, len(built) - 2)]
        elif kind == "same":
            o, v = cur, cv
        else:
            o, v = leaves[kind]
        e = apply(op, cur, o) if side == "l" else apply(op, o, cur)
        if not isinstance(e, ExpressionNode):
            ctx.fail(f"operator {form} on {kind} did not build an expression: {e!r}")
        if v is None or cv is None:
            built.append((e, None))
            continue
        try:
            r = apply(op, cv, v) if side == "l" else apply(op, v, cv)
        except ZeroDivisionError:
            r = None
        built.append((e, r))
    for i, (e, v) in enumerate(built):
        if v is None:
            try:
                evaluate(e, env)
            except ZeroDivisionError:
                ctx.cover("zerodiv")
                continue
            ctx.fail(f"step {i}: division by zero evaluated to a value")
        else:
            ctx.check_close(evaluate(e, env), v, f"value of the expression of step {i}")
    ctx.cover("end")


def h_sum(ctx, n):
    """sum_expressions, sums of sums, Python's sum()."""
    k = ctx.choose("count", n + 1)
    vals, exprs = {}, []
    total = 0
    for i in range(k):
        kind = ctx.pick("kind", ["var", "lit", "sum", "negsum"])
        v = ctx.real("v")
        name = f"v{i}"
        vals[name] = v
        if kind == "var":
            exprs.append(var(name))
            total = total + v
        elif kind == "lit":
            exprs.append(literal(v))
            total = total + v
        elif kind == "sum":
            w = ctx.real("w")
            exprs.append(var(name) + w)
            total = total + v + w
        else:
            w = ctx.real("w")
            exprs.append(-(var(name) - w))
            total = total - v + w
    env = EvaluationContext(variables=vals)
    singles = [evaluate(e, env) for e in exprs]
    s = sum_expressions(exprs)
    ctx.check_close(evaluate(s, env), total, "sum_expressions")
    if exprs:
        ctx.check_close(evaluate(sum(exprs), env), total, "sum() of expressions")
        ctx.check_close(evaluate(s + s, env), 2 * total, "sum added to itself")
        ctx.check_close(evaluate(s, env), total, "sum_expressions after reuse")
    for e, v in zip(exprs, singles):
        ctx.check_close(evaluate(e, env), v, "operand changed by a sum")
    ctx.cover("end")


def h_wide(ctx, sizes):
    """Sums and differences of long sums."""
    n, k = ctx.pick("sizes", sizes)
    op = ctx.pick("op", ["+", "-", "neg", "*", "/"])
    xs, ys = [ctx.real(f"x{i}", -100, 100) for i in range(n)], [ctx.real(f"y{i}", 1, 100) for i in range(k)]

    def build(name, vs):
        e = var(f"{name}0")
        for i in range(1, len(vs)):
            e = e + var(f"{name}{i}") if i % 2 else e - var(f"{name}{i}")
        return e, sum(v if i % 2 or not i else -v for i, v in enumerate(vs))

    (a, va), (b, vb) = build("x", xs), build("y", ys)
    env = EvaluationContext(variables={**{f"x{i}": v for i, v in enumerate(xs)}, **{f"y{i}": v for i, v in enumerate(ys)}})
    if op == "neg":
        e, want = -(a + b), -(va + vb)
    elif op in "*/":
        q = ctx.nonzero("q", 1, 100)
        e, want = apply(op, a - b, q), apply(op, va - vb, q)
    else:
        e, want = apply(op, a, b), apply(op, va, vb)
    ctx.check_close(evaluate(e, env), want, f"sums of {n} and {k} terms")
    ctx.check_close(evaluate(a, env), va, "first sum, after its use")
    ctx.check_close(evaluate(b, env), vb, "second sum, after its use")
    ctx.cover("end")


HARNESSES = [
    Harness(
        "chain",
        h_chain,
        "chains of at most `steps` operators (+,-,*,/ on either side, negation) over a variable, "
        "a parameter, a literal, Python numbers and earlier results; all values in [-1000,1000]",
        quick=dict(steps=3, others=["num", "x", "old"]),
        thorough=dict(steps=4, others=["num", "old"]),
        covers=["end", "zerodiv"],
    ),
    Harness(
        "pairs",
        h_chain,
        "as chain, two operators, every kind of operand (ints too, an expression with itself)",
        quick=dict(steps=2, others=["num", "int", "x", "p", "lit", "old", "same"]),
        thorough=dict(steps=3, others=["num", "int", "x", "p", "lit", "old", "same"], ops="+-*"),
        covers=["end"],
    ),
    Harness(
        "sums",
        h_sum,
        "sums of up to n expressions (variables, literals, nested sums)",
        quick=dict(n=3),
        thorough=dict(n=5),
        covers=["end"],
    ),
    Harness(
        "wide",
        h_wide,
        "sums, differences, negations, products and quotients of sums of n and k terms, symbolic values",
        quick=dict(sizes=[(1, 12), (12, 1), (9, 12), (26, 26)]),
        thorough=dict(sizes=[(1, 12), (12, 1), (9, 12), (26, 26), (120, 110)]),
        covers=["end"],
    ),
]
