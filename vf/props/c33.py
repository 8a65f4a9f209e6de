"""C33: declarations, models and components compare equal exactly when they describe the same thing."""
from andromede.expression import literal, param, var
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model import Constraint, ModelPort, PortField, PortType, ProblemContext, ValueType, Variable, model
from andromede.model.parameter import Parameter
from andromede.model.port import PortFieldDefinition, PortFieldId
from andromede.study import Node, PortRef, create_component

from vf import symstr
from vf.harness import Harness

prepare_symbolic = symstr.install_numbers

STRUCTS = {f"{t}{s}": (lambda t=t, s=s: IndexingStructure(t, s)) for t in (True, False) for s in (True, False)}
CONTEXTS = {c.name: (lambda c=c: c) for c in ProblemContext}
TYPES = {t.name: (lambda t=t: t) for t in ValueType}


class Values:
    """Symbolic literals: a and b may or may not be equal."""

    def __init__(self, ctx):
        self.a, self.b = ctx.real("a", -9, 9), ctx.real("b", -9, 9)


def bounds(v):
    return {
        "none": lambda: None,
        "a": lambda: literal(v.a),
        "b": lambda: literal(v.b),
        "p": lambda: param("p"),
        "q": lambda: param("q"),
        "a*p": lambda: literal(v.a) * param("p"),
        "b*p": lambda: literal(v.b) * param("p"),
        "-p": lambda: -param("p"),
    }


def names(*n):
    return {k: (lambda k=k: k) for k in n}


def variable(v):
    return dict(name=names("x", "y"), data_type=TYPES, lower_bound=bounds(v), upper_bound=bounds(v), structure=STRUCTS, context=CONTEXTS), Variable


def parameter(v):
    return dict(name=names("p", "q"), type=TYPES, structure=STRUCTS), Parameter


def constraint(v):
    x = {
        "x - p": lambda: var("x") - param("p"),
        "x + p": lambda: var("x") + param("p"),
        "a * x": lambda: literal(v.a) * var("x"),
        "b * x": lambda: literal(v.b) * var("x"),
        "x <= a": lambda: var("x") <= literal(v.a),
        "x >= a": lambda: var("x") >= literal(v.a),
        "x >= b": lambda: var("x") >= literal(v.b),
        "x == a": lambda: var("x") == literal(v.a),
    }
    b = {k: f for k, f in bounds(v).items() if k != "none"}
    low = {"none": lambda: literal(-float("inf")), **b}
    up = {"none": lambda: literal(float("inf")), **b}
    return dict(name=names("c", "d"), expression=x, lower_bound=low, upper_bound=up, context=CONTEXTS), Constraint


def port_type(v):
    f = {"f": lambda: [PortField("f")], "g": lambda: [PortField("g")], "fg": lambda: [PortField("f"), PortField("g")]}
    return dict(id=names("t", "u"), fields=f), PortType


def model_port(v):
    t = {
        "t": lambda: PortType("t", [PortField("f")]),
        "u": lambda: PortType("u", [PortField("f")]),
        "tg": lambda: PortType("t", [PortField("g")]),
    }
    return dict(port_type=t, port_name=names("q", "r")), ModelPort


DEFS = {
    "x": lambda v: var("x"),
    "y": lambda v: var("y"),
    "p": lambda v: param("p"),
    "-x": lambda v: -var("x"),
    "a*x": lambda v: literal(v.a) * var("x"),
    "b*x": lambda v: literal(v.b) * var("x"),
    "x[t-1]": lambda v: var("x").shift(-1),
}


def definition(v):
    f = {f"{p}.{n}": (lambda p=p, n=n: PortFieldId(p, n)) for p in "qr" for n in "fg"}
    return dict(port_field=f, definition={k: (lambda d=d: d(v)) for k, d in DEFS.items()}), PortFieldDefinition


def a_model(v):
    T = IndexingStructure(True, True)
    C = IndexingStructure(False, False)

    def vs(ub, ctx=ProblemContext.OPERATIONAL):
        return [Variable("x", ValueType.CONTINUOUS, literal(0), ub, T, ctx), Variable("y", ValueType.INTEGER, None, None, C, ProblemContext.COUPLING)]

    def cs(lit, ctx=ProblemContext.OPERATIONAL):
        return [Constraint("c", var("x") <= literal(lit) * var("y"), context=ctx), Constraint("d", var("y"), literal(-3), literal(3))]

    ports = [ModelPort(PortType("t", [PortField("f"), PortField("g")]), n) for n in "qr"]

    def defs(**kw):
        return [PortFieldDefinition(PortFieldId(k[0], k[1]), e) for k, e in kw.items()]

    objs = {
        "none": lambda: None,
        "a*y": lambda: literal(v.a) * var("y"),
        "b*y": lambda: literal(v.b) * var("y"),
        "sum x": lambda: var("x").time_sum().expec(),
        "sum a*x": lambda: (literal(v.a) * var("x")).time_sum().expec(),
    }
    constraints = {
        "none": lambda: [],
        "a": lambda: cs(v.a),
        "a ": lambda: cs(v.a)[::-1],  # the order of the declarations has no meaning
        "b": lambda: cs(v.b),
        "one": lambda: cs(v.a)[:1],
        "context": lambda: cs(v.a, ProblemContext.COUPLING),
    }
    return (
        dict(
            id=names("m", "n"),
            inter_block_dyn={"no": lambda: False, "yes": lambda: True},
            variables={
                "a": lambda: vs(literal(v.a)),
                "a ": lambda: vs(literal(v.a))[::-1],
                "b": lambda: vs(literal(v.b)),
                "none": lambda: vs(None),
                "context": lambda: vs(literal(v.a), ProblemContext.INVESTMENT),
                "three": lambda: vs(literal(v.a)) + [Variable("z", ValueType.BOOLEAN, literal(0), literal(1), C, ProblemContext.OPERATIONAL)],
            },
            parameters={
                "none": lambda: [],
                "p": lambda: [Parameter("p", ValueType.CONTINUOUS, T)],
                "p const": lambda: [Parameter("p", ValueType.CONTINUOUS, C)],
                "p int": lambda: [Parameter("p", ValueType.INTEGER, T)],
            },
            constraints=constraints,
            binding_constraints=constraints,
            objective_operational_contribution=objs,
            objective_investment_contribution=objs,
            ports={"qr": lambda: ports, "rq": lambda: ports[::-1], "other types": lambda: [ModelPort(PortType("t2", [PortField("f"), PortField("g")]), n) for n in "qr"], "qru": lambda: ports + [ModelPort(PortType("u", [PortField("f")]), "s")]},
            port_fields_definitions={
                "none": lambda: [],
                "x": lambda: defs(qf=var("x")),
                "-x": lambda: defs(qf=-var("x")),
                "x on r": lambda: defs(rf=var("x")),
                "a*x": lambda: defs(qf=literal(v.a) * var("x")),
                "b*x": lambda: defs(qf=literal(v.b) * var("x")),
                "two": lambda: defs(qf=var("x"), qg=var("y")),
            },
        ),
        model,
    )


def component(v):
    fields, build = a_model(v)
    base = {n: o[list(o)[0]] for n, o in fields.items()}

    def mk(**kw):
        return lambda: build(**{n: f() for n, f in {**base, **kw}.items()})

    objs = fields["objective_operational_contribution"]
    return (
        dict(
            id=names("A", "B"),
            model={
                "m": mk(),
                "n": mk(id=lambda: "n"),
                "a*y": mk(objective_operational_contribution=objs["a*y"]),
                "b*y": mk(objective_operational_contribution=objs["b*y"]),
            },
            kind=names("component", "node"),
        ),
        lambda id, model, kind: create_component(model=model, id=id) if kind == "component" else Node(model=model, id=id),
    )


KINDS = dict(variable=variable, parameter=parameter, constraint=constraint, **{"port type": port_type, "model port": model_port, "definition": definition, "model": a_model, "component": component})
SAME = {"rq": "qr", "a ": "a"}


SWAP = {"a": "b", "a*p": "b*p", "a * x": "b * x", "x >= a": "x >= b", "a*x": "b*x", "a*y": "b*y"}


def _pair(k1, k2):
    return (k1, k2) if SWAP.get(k1) == k2 else (k2, k1) if SWAP.get(k2) == k1 else None


def expected(c1, c2):
    """True, False, or None when they are equal exactly for a = b."""
    res = True
    for n in c1:
        k1, k2 = SAME.get(c1[n], c1[n]), SAME.get(c2[n], c2[n])
        if k1 == k2:
            continue
        if _pair(k1, k2) is None:
            return False
        res = None
    return res


def build(kind, v, choice):
    fields, make = KINDS[kind](v)
    return make(**{n: fields[n][k]() for n, k in choice.items()})


def h_pairs(ctx, kinds, differences, base=0):
    """Two declarations that agree on all but some attributes."""
    kind = ctx.pick("kind", kinds)
    v = Values(ctx)
    fields, _ = KINDS[kind](v)
    c1 = {n: list(o)[base % len(o)] for n, o in fields.items()}
    if kind == "constraint" and ctx.flag("bounded"):
        c1["lower_bound"] = "a"
    todo = list(fields)
    for _ in range(differences):
        i = ctx.choose("attribute", len(todo) + 1)
        if i == len(todo):
            break
        n = todo[i]
        todo = todo[i + 1 :]
        c1[n] = ctx.pick("left", list(fields[n]))
        if not todo:
            break
    c2 = dict(c1)
    todo = list(fields)
    for _ in range(differences):
        i = ctx.choose("other", len(todo) + 1)
        if i == len(todo):
            break
        n = todo[i]
        todo = todo[i + 1 :]
        c2[n] = ctx.pick("right", list(fields[n]))
        if not todo:
            break
    for c in (c1, c2):
        # bounds and a comparison are refused (C10)
        ctx.assume(kind != "constraint" or c["expression"][2:3] not in "<>=" or (c["lower_bound"], c["upper_bound"]) == ("none", "none"))
    left, right = build(kind, v, c1), build(kind, v, c2)
    want = expected(c1, c2)
    text = f"{kind} {c1} and { {n: k for n, k in c2.items() if k != c1[n]} }"

    def verdict(got, what):
        if want is None:
            ctx.check(v.a == v.b if got else v.a != v.b, f"{text}: {what} is {got} for a={v.a!r}, b={v.b!r}")
        else:
            ctx.check(got == want, f"{text}: {what} is {got}")
        ctx.cover("equal" if got else "different")

    verdict(bool(left == right), "equal")
    verdict(bool(right == left), "equal (other order)")
    verdict(not bool(left != right), "not (not equal)")
    for other in (None, "x", 3):
        ctx.check(not left == other, f"{kind} equal to {other!r}")
    if kind == "component":
        verdict(bool(PortRef(left, "q") == PortRef(right, "q")), "equal (references to their ports)")


HARNESSES = [
    Harness(
        "declarations",
        h_pairs,
        "variables, parameters, constraints, port types, ports and port definitions; one attribute of each of the two set to any of its options, symbolic literals",
        quick=dict(kinds=["variable", "parameter", "constraint", "port type", "model port", "definition"], differences=1),
        thorough=dict(kinds=["variable", "parameter", "constraint", "port type", "model port", "definition"], differences=2),
        covers=["equal", "different"],
    ),
    Harness(
        "models",
        h_pairs,
        "models and components; one attribute of each of the two set to any of its options, symbolic literals",
        quick=dict(kinds=["model", "component"], differences=1, base=0),
        thorough=dict(kinds=["model", "component"], differences=1, base=1),
        covers=["equal", "different"],
    ),
]
