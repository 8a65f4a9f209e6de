"""C22: model files."""
import io

from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import build_problem

from vf import lpstub, spec, text
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import C, MSpec, Study, V

prepare_symbolic = lpstub.install
X, Y, P, Q = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "q")
L = lambda v: ("lit", float(v))


def _resolve(models, ports=(), **kw):
    lib = parse_yaml_library(io.StringIO(text.library_yaml("lib", models, ports, **kw)))
    return resolve_library([lib])["lib"]


def _check(ctx, st, nt, ns, ports=(), **kw):
    """The problem built from the resolved file is the problem the file describes."""
    ms = {id(m): m for m in st.comps.values()}
    lib = _resolve(list(ms.values()), ports, **kw)
    models = {i: lib.models[m.id] for i, m in ms.items()}
    problem = build_problem(st.network(models), st.database(), spec.block(range(nt)), ns)
    spec.check_problem(ctx, problem, spec.expected(st, list(range(nt)), ns))


def data(ctx, comps, nt, ns):
    return {(c, p): spec.data_for(ctx, c + p, s, nt, ns, spec.NZ, 1000) for c, m in comps.items() for p, s in m.params.items()}


EXPRS = [
    X,
    ("*", P, X),
    ("-", ("*", P, X), ("/", Y, Q)),
    ("-", X, ("-", Y, P)),
    ("-", X, ("*", Q, ("+", Y, ("neg", P)))),
    ("-", X, ("shift", X, -1)),
    ("tsum", ("*", P, X), -1, 0),
    ("-", ("sumall", ("*", P, X)), ("*", Y, Q)),
    ("+", ("eval", X, 1), ("*", L(2.5), Y)),
    ("expec", ("-", X, ("*", L(3), Y))),
    ("shift", ("+", ("*", P, X), Y), 2),
]


def h_expressions(ctx, exprs, T, S):
    """Constraints and objective of a file."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    e = ctx.pick("e", exprs)
    sx = (True, True) if e[0] not in ("+", "expec") else ctx.pick("sx", [(True, True), (True, False)])
    form = ctx.pick("form", ["<=", ">=", "=", "bounds", "lb", "ub"])
    c = C("c", e, form, ("+", Q, ("*", L(2), Y)) if ctx.flag("rhsvar") else Q) if form in ("<=", ">=", "=") else C(
        "c", e, lb=("-", P, L(7)) if form != "ub" else None, ub=("*", P, Q) if form != "lb" else None
    )
    m = MSpec("m", params={"p": (True, False), "q": (False, True)}, vars={"x": V(sx), "y": V((False, False))}, obj=("expec", ("sumall", ("+", ("*", P, X), Q))))
    (m.binding if ctx.flag("binding") else m.constraints).append(c)
    st = Study({"G": m})
    st.values = data(ctx, st.comps, nt, ns)
    _check(ctx, st, nt, ns, explicit=ctx.flag("explicit"), full=ctx.flag("full"))
    ctx.cover("end")


def h_declarations(ctx, T, S):
    """Parameters and variables: dependencies, types, bounds, defaults."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    sx, sp = ctx.pick("sx", STRUCTS), ctx.pick("sp", STRUCTS)
    inside = (not sp[0] or sx[0]) and (not sp[1] or sx[1])
    bounds = [None, L(0), L(2.5), L(-3), Q] + ([P, ("*", L(2), P)] if inside else [])
    m = MSpec(
        "m",
        params={"p": sp, "q": (False, False)},
        vars={
            "x": V(sx, ctx.pick("lb", [None, L(0), L(-3)]), None, ctx.pick("type", ["float", "int"])),
            "y": V(sx, None, ctx.pick("ub", bounds)),
            "z": V((False, False)),
        },
        constraints=[C("c", ("-", ("*", P, X), Y), "<=", Q)],
    )
    st = Study({"G": m})
    st.values = data(ctx, st.comps, nt, ns)
    _check(ctx, st, nt, ns, explicit=ctx.flag("explicit"))
    ctx.cover("end")


def h_ports(ctx, T, S):
    """Ports, definitions, sums of connections and several models in one file."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    port = ("flow", ["f", "g"])
    gd = ctx.flag("g_by_gen")
    gen = MSpec("gen", params={"p": (True, False)}, vars={"x": V((True, True))}, ports={"port": port, "spare": port}, defs={("port", "f"): ("*", P, X)})
    node = MSpec("node", params={"q": (False, False)}, vars={"y": V((False, False))}, ports={"port": port})
    (gen.defs if gd else node.defs)[("port", "g")] = ("-", X, P) if gd else ("*", Q, Y)
    node.binding = [C("b", ("pfsum", "port", "f"), "=", ("+", Y, ("pfsum", "port", "g")))]
    gen.constraints = [C("c", ("pf", "port", "g"), "<=", X)]
    comps = {"N": node, "A": gen, "B": gen}
    st = Study(comps, ("N",), [("A", "port", "N", "port"), ("N", "port", "B", "port")])
    st.values = data(ctx, comps, nt, ns)
    _check(ctx, st, nt, ns, [port], explicit=ctx.flag("explicit"), full=ctx.flag("full"))
    ctx.cover("end")


def h_invalid(ctx):
    """Files that do not make sense are refused."""
    good = """library:
  id: lib
  port-types:
    - id: flow
      fields:
        - id: h
        - id: f
  models:
    - id: m
      parameters:
        - id: p
      variables:
        - id: x
          lower-bound: 0
          upper-bound: p
      ports:
        - id: port
          type: flow
      port-field-definitions:
        - port: port
          field: f
          definition: p * x
      constraints:
        - id: c
          expression: x <= p
        - id: d
          expression: x
          upper-bound: p
      objective: expec(sum(p * x))
"""
    changes = [
        ("", ""),
        ("upper-bound: p\n      ports", "upper-bound: nothing\n      ports"),
        ("upper-bound: p\n      ports", "upper-bound: x\n      ports"),
        ("expression: x <= p", "expression: x <= nothing"),
        ("expression: x <= p", "expression: x <= p)"),
        ("expression: x <= p", "expresion: x <= p"),
        ("          expression: x <= p\n", ""),
        ("expression: x\n", "expression: x <= 2\n"),
        ("          upper-bound: p\n      objective", "          upper-bound: x\n      objective"),
        ("type: flow", "type: nothing"),
        ("field: f", "field: g"),
        ("port: port", "port: other"),
        ("definition: p * x", "definition: p * port.f"),
        ("definition: p * x", "definition: p * z"),
        ("objective: expec(sum(p * x))", "objective: expec(sum(x * x))"),
        ("objective: expec(sum(p * x))", "objective: sum(p * x)"),
        ("objective: expec(sum(p * x))", "objective: expec(p * x)"),
        ("        - id: p\n", "        - id: p\n          time-dependant: true\n"),
        ("        - id: p\n", "        - id: p\n          time-dependent: sometimes\n"),
        ("lower-bound: 0", "variable-type: strange"),
        ("    - id: m\n", "    - id: m\n      unknown: 3\n"),
        ("library:\n  id: lib", "library:\n  name: lib"),
        ("        - id: d\n", "        - id: c\n"),
        ("      variables:\n", "        - id: p\n          time-dependent: true\n      variables:\n"),
        ("      ports:\n", "        - id: x\n          lower-bound: 1\n      ports:\n"),
        ("      port-field-definitions:\n", "        - id: port\n          type: flow\n      port-field-definitions:\n"),
        ("      constraints:\n", "        - port: port\n          field: f\n          definition: 2 * x\n      constraints:\n"),
    ]
    i = ctx.choose("change", len(changes))
    assert changes[i][0] in good
    # the model may be alone, or next to another one with the same names
    before, after = ctx.pick("others", [(False, False), (True, False), (False, True)])
    head, body = good.split("  models:\n")
    fine = body.replace("id: m\n", "id: fine\n", 1)
    head, m = head.replace(*changes[i], 1), body.replace(*changes[i], 1) if i else body
    t = head + "  models:\n" + (fine if before else "") + m + (fine if after else "")
    try:
        resolve_library([parse_yaml_library(io.StringIO(t))])
        ctx.check(i == 0, f"accepted although changed: {changes[i][1]!r}")
        ctx.cover("accepted")
    except Exception as e:
        ctx.check(i != 0, f"a valid file was refused: {e}")
        ctx.cover("refused")


HARNESSES = [
    Harness(
        "expressions",
        h_expressions,
        "constraints (comparison or bounds, inner or binding) over eleven expressions with every operator, fully or minimally parenthesised, "
        "defaults omitted or explicit, symbolic data",
        quick=dict(exprs=EXPRS, T=[2], S=[2]),
        thorough=dict(T=[1, 2, 3], S=[1, 2]),
        covers=["end"],
    ),
    Harness(
        "declarations",
        h_declarations,
        "parameter and variable of every structure, every type, bounds absent, literal (numeric or text), parameter or expression",
        quick=dict(T=[2], S=[2]),
        thorough=dict(T=[1, 2, 3], S=[1, 2]),
        covers=["end"],
    ),
    Harness("ports", h_ports, "two models with two-field ports, three connected components", quick=dict(T=[2], S=[1, 2]), covers=["end"]),
    Harness("invalid", h_invalid, "one file and 26 invalid variants, the faulty model alone, first or last", covers=["accepted", "refused"]),
]
