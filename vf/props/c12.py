"""C12: ports and connections."""
from andromede.expression import literal, param, var
from andromede.expression.expression import comp_param, comp_var, port_field
from andromede.model import ModelPort, PortField, PortType, model
from andromede.model.port import port_field_def
from andromede.simulation import build_problem
from andromede.study import Network, PortRef, create_component

from vf import lpstub, spec
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import C, MSpec, Study, V

prepare_symbolic = lpstub.install
X, Y, P, Q = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "q")


def _data(ctx, comps, nt, ns):
    return {(i, p): spec.data_for(ctx, i + p, s, nt, ns, spec.NZ, 1000) for i, m in comps.items() for p, s in m.params.items()}


def _check(ctx, st, ts, S):
    problem = build_problem(st.network(), st.database(), spec.block(ts), S)
    P = spec.expected(st, ts, S)
    sv = spec.check_vars(ctx, problem, P)
    spec.check_rows(ctx, P.rows, problem.solver.constraints(), sv)
    return problem


def h_balance(ctx, T, S, maxcomp):
    """A node that sums what is connected to it, any set of connections in any order."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    port = ("flow", ["f"])
    op = ctx.pick("op", ["plain", "shift", "sumall", "expec", "neg", "scaled"])
    agg = ("pfsum", "port", "f")
    e = {
        "plain": agg,
        "shift": ("shift", agg, 1),
        "sumall": ("sumall", agg),
        "expec": ("expec", agg),
        "neg": ("neg", agg),
        "scaled": ("*", ("lit", ctx.real("l", 1, 10)), agg),
    }[op]
    node = MSpec("node", vars={"x": V((op != "sumall", op != "expec"))}, binding=[C("balance", ("-", e, X), "=", ("lit", 0.0))], ports={"port": port})
    gen = MSpec("gen", params={"p": (True, False)}, vars={"x": V((True, True)), "y": V((False, False))}, ports={"port": port},
                defs={("port", "f"): ("+", ("*", P, X), Y)})
    dem = MSpec("dem", params={"p": (True, True)}, ports={"port": port}, defs={("port", "f"): ("neg", P)})
    link = MSpec("link", vars={"x": V((True, True))}, ports={"a": port, "b": port}, defs={("a", "f"): ("neg", X), ("b", "f"): X})
    comps = {"N": node, "M": node}
    links = []
    nodes = ("N", "M")
    kinds = []
    for i in range(maxcomp):
        k = ctx.pick("comp", ["none", "gen", "dem", "link"])
        if k == "none":
            break
        kinds.append(k)
        c = f"C{i}"
        comps[c] = {"gen": gen, "dem": dem, "link": link}[k]
        if k == "link":
            ends = ctx.pick("ends", [("N", "M"), ("M", "N"), ("N", "N")])
            links.append((ends[0], "port", c, "a") if ctx.flag("rev_a") else (c, "a", ends[0], "port"))
            links.append((ends[1], "port", c, "b") if ctx.flag("rev_b") else (c, "b", ends[1], "port"))
        else:
            n = ctx.pick("at", nodes)
            links.append((n, "port", c, "port") if ctx.flag("rev") else (c, "port", n, "port"))
    if len(links) > 1 and ctx.flag("reorder"):
        links = links[::-1]
    st = Study(comps, nodes, links, _data(ctx, comps, nt, ns))
    _check(ctx, st, list(range(nt)), ns)
    ctx.cover(op)


def h_fields(ctx, T, S):
    """Ports with three fields, each defined on one side; uses on the other side and on the defining side."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    sx = ctx.pick("sx", STRUCTS)
    port = ("three", ["f", "g", "h"])
    pn = ctx.pick("portname", ["port", "f", "g"])
    fd, gd = ctx.flag("f_on_a"), ctx.flag("g_on_a")
    use = ctx.pick("use", ["pf", "pfsum"])
    a = MSpec("a", params={"p": (False, False)}, vars={"x": V(sx)}, ports={pn: port})
    b = MSpec("b", params={"p": (True, False)}, vars={"x": V((True, True)), "y": V((False, False))}, ports={"q": port})
    fdef = {"a": ("*", P, X), "b": ("-", X, ("*", P, Y))}
    gdef = {"a": ("+", X, P), "b": ("shift", X, ctx.int("k", -1, 1))}
    (a.defs if fd else b.defs)[(pn if fd else "q", "f")] = fdef["a" if fd else "b"]
    (a.defs if gd else b.defs)[(pn if gd else "q", "g")] = gdef["a" if gd else "b"]
    (a.defs if gd else b.defs)[(pn if gd else "q", "h")] = ("-", ("lit", 4.0), X)
    a.constraints = [C("h", ("-", (use, pn, "h"), X), "=", P), C("c", ("-", ("*", ("lit", 2.0), (use, pn, "f")), (use, pn, "g")), "<=", P)]
    b.constraints = [C("c", ("+", (use, "q", "g"), X), ">=", (use, "q", "f")), C("h", ("+", (use, "q", "h"), Y), "<=", P)]
    comps = {"A": a, "B": b}
    links = [("A", pn, "B", "q") if ctx.flag("dir") else ("B", "q", "A", pn)]
    if use == "pfsum":
        # a second instance connected to the first
        comps["A2"] = a
        links.append(("A2", pn, "B", "q"))
    st = Study(comps, (), links, _data(ctx, comps, nt, ns))
    _check(ctx, st, list(range(nt)), ns)
    ctx.cover("end")


def h_instances(ctx, T, n):
    """Components of one and the same model connected to one another."""
    port = ("flow", ["f", "g"])
    use = ctx.pick("use", ["pfsum", "pf"])
    # f goes from `out` to `inp`, g the other way round
    m = MSpec(
        "m",
        params={"p": (True, False)},
        vars={"x": V((True, True)), "y": V((True, False))},
        ports={"out": port, "inp": port, "src": ("one", ["h"]), "dst": ("one", ["h"])},
        defs={("src", "h"): X, ("out", "f"): ("*", P, X), ("inp", "g"): ("-", Y, ("shift", X, 1))},
        constraints=[C("in", (use, "inp", "f"), "<=", Y), C("out", (use, "out", "g"), ">=", ("*", P, Y))],
    )
    comps = {c: m for c in ("A", "B", "C")[:n]}
    names = list(comps)
    if use == "pf":
        perm = ctx.pick("perm", [names[k:] + names[:k] for k in range(n)] + [names[::-1]])
        pairs = list(zip(names, perm))
    else:
        pairs = [(a, b) for a in names for b in names if ctx.flag(f"c{a}{b}")]
    links = [(b, "inp", a, "out") if ctx.flag("rev") else (a, "out", b, "inp") for a, b in pairs[:3]] + [
        (a, "out", b, "inp") for a, b in pairs[3:]
    ]
    st = Study(comps, (), links, _data(ctx, comps, T, 1))
    _check(ctx, st, list(range(T)), 1)
    # both sides define the field, or neither: refused, also between components of one model
    net = st.network()
    for a in names:
        for b in names:
            for q in ("out", "inp", "src", "dst"):
                k = len(list(net.connections))
                ctx.check(_refused(lambda: net.connect(PortRef(net.get_component(a), q), PortRef(net.get_component(b), q))), f"{a}.{q} was connected to {b}.{q}")
                ctx.check(len(list(net.connections)) == k, "a refused connection was recorded")
    ctx.cover("end")


def _refused(f, *exc):
    try:
        f()
        return False
    except exc or ValueError:
        return True


def h_connect(ctx):
    """Which connections are accepted."""
    has1, has2 = ctx.flag("has1"), ctx.flag("has2")
    t1 = ctx.pick("t1", [("T", ["f"]), ("T", ["f", "g"]), ("U", ["f"])])
    t2 = ctx.pick("t2", [("T", ["f"]), ("T", ["f", "g"]), ("U", ["f"])])
    d1 = [f for f in t1[1] if ctx.flag("d1" + f)] if has1 else []
    d2 = [f for f in t2[1] if ctx.flag("d2" + f)] if has2 else []
    v = ctx.real("v", -10, 10)

    def mk(i, has, t, d):
        return create_component(
            model(
                "m" + i,
                ports=[ModelPort(PortType(t[0], [PortField(f) for f in t[1]]), "p" + i if has else "other")],
                port_fields_definitions=[port_field_def("p" + i, f, literal(v)) for f in d],
            ),
            "c" + i,
        )

    c1, c2 = mk("1", has1, t1, d1), mk("2", has2, t2, d2)
    net = Network("n")
    net.add_component(c1)
    net.add_component(c2)
    ok = has1 and has2 and t1 == t2 and all((f in d1) != (f in d2) for f in t1[1])
    r = _refused(lambda: net.connect(PortRef(c1, "p1"), PortRef(c2, "p2")))
    ctx.check(r == (not ok), f"connection {'refused' if r else 'accepted'}")
    ctx.check(len(list(net.connections)) == (1 if ok else 0), "a refused connection was recorded")
    ctx.cover("ok" if ok else "refused")


def h_single(ctx):
    """A port field used directly must have exactly one definition among its connections; a sum takes any number."""
    n = ctx.choose("n", 4)
    use = ctx.pick("use", ["pf", "pfsum"])
    port = ("flow", ["f"])
    src = MSpec("s", params={"p": (False, False)}, vars={"x": V((True, True))}, ports={"port": port}, defs={("port", "f"): ("*", P, X)})
    dst = MSpec("d", vars={"y": V((True, True))}, ports={"port": port}, constraints=[C("c", (use, "port", "f"), "<=", Y)])
    comps = {"D": dst}
    links = []
    for i in range(n):
        comps[f"S{i}"] = src
        links.append((f"S{i}", "port", "D", "port"))
    st = Study(comps, (), links, _data(ctx, comps, 1, 1))
    if use == "pf" and n != 1:
        r = _refused(lambda: build_problem(st.network(), st.database(), spec.block([0]), 1), ValueError, KeyError)
        ctx.check(r, f"a port field with {n} connections was accepted outside a sum")
        ctx.cover("refused")
    else:
        _check(ctx, st, [0], 1)
        ctx.cover("ok")


def h_definitions(ctx):
    """Which port field definitions are accepted."""
    v = ctx.real("v", -10, 10)
    inner, ok = ctx.pick(
        "inner",
        [
            (var("x"), True),
            (param("p"), True),
            (comp_var("c", "x"), False),
            (comp_param("c", "p"), False),
            (port_field("port", "f"), False),
            (port_field("port", "f").sum_connections(), False),
            (var("x") <= literal(0), False),
        ],
    )
    for _ in range(2):
        w = ctx.pick("wrap", ["none", "neg", "+", "l+", "-", "*", "l*", "/", "shift", "eval", "tsum", "sumall", "expec"])
        if isinstance(inner, type(var("x") <= literal(0))) and w != "none":
            ctx.assume(False)
        inner = {
            "none": lambda e: e,
            "neg": lambda e: -e,
            "+": lambda e: e + literal(v),
            "l+": lambda e: literal(v) + e,
            "-": lambda e: param("p") - e,
            "*": lambda e: e * literal(v),
            "l*": lambda e: literal(v) * e,
            "/": lambda e: e / literal(2),
            "shift": lambda e: e.shift(1),
            "eval": lambda e: e.eval(1),
            "tsum": lambda e: e.time_sum(0, 1),
            "sumall": lambda e: e.time_sum(),
            "expec": lambda e: e.expec(),
        }[w](inner)
    r = _refused(lambda: port_field_def("port", "f", inner))
    ctx.check(r == (not ok), f"port field definition {'refused' if r else 'accepted'}")
    # and the port and the field must exist in the model
    if ok:
        p, f = ctx.pick("where", [("port", "f"), ("port", "g"), ("q", "f")])
        r = _refused(
            lambda: model("m", ports=[ModelPort(PortType("T", [PortField("f")]), "port")], port_fields_definitions=[port_field_def(p, f, inner)])
        )
        ctx.check(r == ((p, f) != ("port", "f")), "definition of a port or field the model does not have")
    ctx.cover("ok" if ok else "refused")


HARNESSES = [
    Harness(
        "balance",
        h_balance,
        "two nodes and up to `maxcomp` generators, demands and links, every way of connecting them (both directions, both orders, "
        "loops), the sum under time/scenario operators",
        quick=dict(T=[2], S=[2], maxcomp=2),
        thorough=dict(T=[1, 2], S=[1, 2], maxcomp=3),
        covers=["plain", "shift", "sumall", "expec", "neg", "scaled"],
    ),
    Harness(
        "fields",
        h_fields,
        "ports with three fields, each field defined on either side, used on both sides directly or in a sum of connections",
        quick=dict(T=[2], S=[1]),
        thorough=dict(T=[1, 2, 3], S=[1, 2]),
        covers=["end"],
    ),
    Harness(
        "instances",
        h_instances,
        "n components of one model connected to one another or to themselves, T timesteps",
        quick=dict(T=2, n=2),
        thorough=dict(n=3),
        covers=["end"],
    ),
    Harness("connections", h_connect, "two ports, present or not, of three types with one or two fields, every set of definitions", covers=["ok", "refused"]),
    Harness("single", h_single, "0 to 3 connections to a port whose field is used directly or summed", covers=["ok", "refused"]),
    Harness("definitions", h_definitions, "seven kinds of leaves under two levels of operators", covers=["ok", "refused"]),
]
