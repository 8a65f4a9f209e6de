"""C04: algebra of instantiated linear expressions."""
from andromede.simulation.linear_expression import LinearExpression, Term

from vf.harness import Harness
from vf.sym import and_, or_

KEYS = [("A", "x", 0, 0), ("A", "x", 1, 0), ("B", "x", None, 0), ("A", "y", 0, None)]


class Ref:
    """coefficients and constant"""

    def __init__(self, c, k):
        self.c, self.k = dict(c), k

    def op(self, o, f):
        return Ref({k: f(self.c.get(k, 0), o.c.get(k, 0)) for k in {**self.c, **o.c}}, f(self.k, o.k))

    def each(self, f):
        return Ref({k: f(v) for k, v in self.c.items()}, f(self.k))


def same(ctx, e, r, msg):
    """The expression e has the coefficients and the constant of r."""
    ctx.check_close(e.constant, r.k, msg + ": constant")
    got = {}
    for t in e.terms.values():
        k = (t.component_id, t.variable_name, t.time_index, t.scenario_index)
        if k in got or k not in KEYS:
            ctx.fail(f"{msg}: term {k}")
        got[k] = t.coefficient
    for k in KEYS:
        if k in got or k in r.c:
            ctx.check_close(got.get(k, 0), r.c.get(k, 0), f"{msg}: coefficient of {k}")


def make(ctx, tag, shapes, lo, as_dict=False):
    shape = ctx.pick("shape", shapes)
    cst = ctx.real(f"k_{tag}", lo, 100)
    coef = {KEYS[i]: ctx.real(f"c_{tag}_{i}", lo, 100) for i in shape}
    terms = [Term(v, *k) for k, v in coef.items()]
    if as_dict:
        # the keys the code gives to terms
        terms = {k: t for t in terms for k in LinearExpression([Term(1.0, t.component_id, t.variable_name, t.time_index, t.scenario_index)]).terms}
    return LinearExpression(terms, cst), Ref(coef, cst)


def clear(ctx, rs):
    """Coefficients are zero or not nearly zero (the code drops those below 1e-16)."""
    ctx.assume(and_(*[or_(v == 0, v >= 1e-3, v <= -1e-3) for r in rs for v in list(r.c.values()) + [r.k]]))


def h_ops(ctx, steps, shapes, lo, ops, size=2):
    """Histories of operations on a pool of expressions; none changes another."""
    pool = [make(ctx, "a", shapes, lo), make(ctx, "b", shapes, lo, as_dict=True)]
    if size > 2:
        pool.append(make(ctx, "c", shapes, lo))
    for i in range(steps):
        clear(ctx, [r for _, r in pool])
        op = ctx.pick("op", ops)
        a = ctx.choose("l", len(pool)) if size == 2 else 0
        x, rx = pool[a]
        if op == "neg":
            pool.append((-x, rx.each(lambda v: -v)))
        else:
            b = ctx.choose("r", len(pool))
            y, ry = pool[b]
            kind = op[0]
            if kind in "*/" and y.terms and (kind == "/" or x.terms):
                try:
                    x * y if kind == "*" else x / y
                except ValueError:
                    ctx.cover("nonlinear")
                    return
                ctx.fail(f"{op} by a non constant expression was accepted")
            if kind == "/":
                if y.constant == 0:
                    try:
                        x / y
                    except ZeroDivisionError:
                        ctx.cover("zerodiv")
                        return
                    ctx.fail("division by zero was accepted")
                k = ry.k
                want = rx.each(lambda v: v / k)
            elif kind == "*":
                k, m = (ry.k, rx) if not y.terms else (rx.k, ry)
                want = m.each(lambda v: v * k)
            else:
                want = rx.op(ry, (lambda u, v: u + v) if kind == "+" else (lambda u, v: u - v))
            if op == "+":
                r = x + y
            elif op == "-":
                r = x - y
            elif op == "*":
                r = x * y
            elif op == "/":
                r = x / y
            elif op == "+=":
                x += y
                r = x
            elif op == "-=":
                x -= y
                r = x
            elif op == "*=":
                x *= y
                r = x
            else:
                x /= y
                r = x
            if op.endswith("="):
                pool[a] = (r, want)
            else:
                pool.append((r, want))
    for j, (e, r) in enumerate(pool):
        same(ctx, e, r, f"after {op}: expression {j}")
    ctx.cover("end")


def h_equal(ctx, shapes):
    """Equality: same coefficients and constant <=> equal; is_zero."""
    a, ra = make(ctx, "a", shapes, -100)
    b, rb = make(ctx, "b", shapes, -100, as_dict=ctx.flag("dict"))
    if a == b:
        same(ctx, a, rb, "equal expressions")
        ctx.cover("equal")
    else:
        eq = all(ra.c.get(k, 0) == rb.c.get(k, 0) for k in KEYS) and ra.k == rb.k
        ctx.check(not eq, "same coefficients, declared different")
        ctx.cover("different")
    if a.is_zero():
        same(ctx, a, Ref({}, 0), "is_zero expression")
        ctx.cover("zero")
    ctx.check((a - a).is_zero(), "a - a is not zero")
    same(ctx, (a + b) - b, ra, "(a + b) - b")


SH = [(), (0,), (0, 1), (2, 0, 3)]

HARNESSES = [
    Harness(
        "histories",
        h_ops,
        "two expressions of up to 3 terms among 4 variables (symbolic coefficients, including 0 and 1, and constants), "
        "`steps` operators (+ - * / neg and in-place forms) between any two expressions of the history; all coefficients "
        "of all expressions are compared at the end",
        quick=dict(steps=2, shapes=[(), (0,)], lo=0, ops=["+", "-", "*", "/", "neg", "+=", "-=", "*=", "/="]),
        thorough=dict(steps=2, shapes=[(), (0, 1), (2, 0)], lo=-100),
        covers=["end", "nonlinear", "zerodiv"],
    ),
    Harness(
        "in_place",
        h_ops,
        "`steps` in-place operators on one expression, the other operand being any of three expressions; all three are compared at the end",
        quick=dict(steps=2, size=3, shapes=[(), (0,)], lo=0, ops=["+=", "-=", "*=", "/="]),
        thorough=dict(shapes=[(), (0, 1), (2, 0)], lo=-100),
        covers=["end", "nonlinear", "zerodiv"],
    ),
    Harness(
        "pairs",
        h_ops,
        "as histories, one operator, all shapes and signs",
        quick=dict(steps=1, shapes=SH, lo=-100, ops=["+", "-", "*", "/", "neg", "+=", "-=", "*=", "/="]),
        covers=["end", "nonlinear", "zerodiv"],
    ),
    Harness(
        "equality",
        h_equal,
        "all pairs of expressions of up to 3 terms, symbolic coefficients",
        quick=dict(shapes=[(), (0,), (0, 1)]),
        thorough=dict(shapes=SH),
        covers=["equal", "different", "zero"],
    ),
]
