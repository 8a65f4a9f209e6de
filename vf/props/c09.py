"""C09: decision variables of the built problem."""
from andromede.simulation import build_problem

from vf import lpstub, spec
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import MSpec, Study, V
from vf.sym import or_

prepare_symbolic = lpstub.install


def inside(a, b):
    """Structure a is included in structure b."""
    return (not a[0] or b[0]) and (not a[1] or b[1])


def crossed(P):
    """Condition: some variable has a lower bound above its upper bound."""
    return or_(*[lb > ub for lb, ub, _ in P.vars.values() if lb != -spec.INF and ub != spec.INF] or [False])


def build_or_refuse(ctx, st, ts, S, **kw):
    P = spec.expected(st, ts, S)
    try:
        problem = build_problem(st.network(), st.database(), spec.block(ts), S, **kw)
    except ValueError:
        ctx.check(crossed(P), "the problem was refused although no variable has crossing bounds")
        ctx.cover("refused")
        return None, P
    if "solver_id" not in kw and any(v.integer() for v in problem.solver.variables()):
        ctx.check(bool(problem.solver.IsMip()), "the default solver ignores that variables are integer")
    ctx.check(not_any(P), "a variable whose lower bound exceeds its upper bound was accepted")
    return problem, P


def not_any(P):
    from vf.sym import not_

    return not_(crossed(P))


def bound(ctx, kind, name):
    if kind == "none":
        return None
    if kind == "lit":
        return ("lit", ctx.real("lit" + name, -100, 100))
    if kind == "par":
        return ("par", name)
    return ("-", ("*", ("lit", 2.0), ("par", name)), ("neg", ("par", "k")))


def names_distinct(ctx, problem, P):
    sv = spec.solver_vars(problem, P)
    names = {v.name() for v in sv.values()}
    ctx.check(len(names) == len(sv), "two solver variables share a name")


def h_bounds(ctx, T, S, kinds):
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    struct = ctx.pick("struct", STRUCTS)
    typ = ctx.pick("type", ["float", "int", "bool"])
    if typ == "bool":
        m = MSpec("m", vars={"x": V(struct, ("lit", 0.0), ("lit", 1.0), "bool")})
        st = Study({"G": m})
    else:
        sp = ctx.pick("sp", [s for s in STRUCTS if inside(s, struct)])
        lk, uk = ctx.pick("lk", kinds), ctx.pick("uk", kinds)
        if sp != (False, False) and "par" not in (lk, uk) and "expr" not in (lk, uk):
            ctx.assume(False)
        m = MSpec(
            "m",
            params={"l": sp, "u": sp, "k": (False, False)},
            vars={"x": V(struct, bound(ctx, lk, "l"), bound(ctx, uk, "u"), typ)},
        )
        st = Study(
            {"G": m},
            values={
                ("G", "l"): spec.data_for(ctx, "l", sp, nt, ns),
                ("G", "u"): spec.data_for(ctx, "u", sp, nt, ns),
                ("G", "k"): spec.data_for(ctx, "k", (False, False), nt, ns),
            },
        )
    problem, P = build_or_refuse(ctx, st, list(range(nt)), ns)
    if problem:
        spec.check_vars(ctx, problem, P)
        names_distinct(ctx, problem, P)
        ctx.cover("built")


def _full(ctx, name, sp=(True, True)):
    return MSpec(
        name,
        params={"p": sp, "q": (False, False)},
        vars={
            "x": V((True, True), ("par", "q"), None),
            "y": V((True, False), None, ("par", "q"), "int"),
            "z": V((False, True), ("lit", 0.0), ("par", "q")),
            "w": V((False, False), None, None, ctx.pick("wt", ["float", "int"])),
        },
    )


def h_many(ctx, T, S):
    """Several components of several models sharing variable names."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    m = _full(ctx, "m")
    other = MSpec(
        "other",
        params={"q": (True, True)},
        vars={"x": V((False, False), ("lit", -1.0), ("lit", 5.0)), "y": V((True, True), None, ("par", "q"))},
    )
    ids = ctx.pick("ids", [("A", "B", "N"), ("B", "A", "M"), ("A", "AB", "BA"), ("1", "10", "0")])
    comps = {ids[0]: m, ids[1]: m if ctx.flag("same") else other, ids[2]: other}
    nodes = ctx.pick("nodes", [(), (ids[2],), (ids[0], ids[2])])
    values = {}
    for c, mm in comps.items():
        for p, s in mm.params.items():
            values[(c, p)] = spec.data_for(ctx, c + p, s, nt, ns, 0, 1000)
    st = Study(comps, nodes, values=values)
    problem = build_problem(st.network(), st.database(), spec.block(range(nt)), ns)
    P = spec.expected(st, list(range(nt)), ns)
    spec.check_vars(ctx, problem, P)
    names_distinct(ctx, problem, P)
    ctx.cover("end")


def h_long(ctx, sizes):
    """Blocks of more than ten timesteps, more than ten scenarios."""
    nt, ns = ctx.pick("sizes", sizes)
    m = _full(ctx, "m")
    comps = {"A": m, "A1": m, "A10": m}
    st = Study(comps, ("A1",), values={(c, p): spec.data_for(ctx, c + p, s, nt, ns, 0, 1000) for c in comps for p, s in m.params.items()})
    ts = list(range(nt))
    problem = build_problem(st.network(), st.database(), spec.block(ts), ns)
    P = spec.expected(st, ts, ns)
    spec.check_vars(ctx, problem, P)
    names_distinct(ctx, problem, P)
    ctx.cover("end")


def h_history(ctx, N):
    """Successive builds from one network and one database do not influence each other."""
    m = _full(ctx, "m")
    st = Study(
        {"A": m, "B": m},
        ("B",),
        values={(c, p): spec.data_for(ctx, c + p, s, 3, 2, 0, 1000) for c in "AB" for p, s in m.params.items()},
    )
    net, db = st.network(), st.database()
    done = []
    for _ in range(N):
        ts = ctx.pick("ts", [[0], [0, 1], [2, 1], [0, 1, 2]])
        ns = ctx.pick("S", [1, 2])
        done.append((build_problem(net, db, spec.block(ts), ns), ts, ns))
    for problem, ts, ns in done:
        P = spec.expected(st, ts, ns)
        spec.check_vars(ctx, problem, P)
        names_distinct(ctx, problem, P)
    ctx.cover("end")


def h_mismatch(ctx, T, S):
    """A bound whose values depend on the time or the scenario, for a variable that does not."""
    struct = ctx.pick("struct", [s for s in STRUCTS if s != (True, True)])
    sp = ctx.pick("sp", [s for s in STRUCTS if not inside(s, struct)])
    which = ctx.pick("bound", ["lower", "upper"])
    e = ctx.pick("form", [("par", "p"), ("+", ("lit", 1.0), ("neg", ("par", "p"))), ("*", ("par", "k"), ("par", "p"))])
    typ = ctx.pick("type", ["float", "int"])
    m = MSpec("m", params={"p": sp, "k": (False, False)}, vars={"x": V(struct, *((e, None) if which == "lower" else (None, e)), typ)})
    values = {("G", "p"): spec.data_for(ctx, "p", sp, T, S), ("G", "k"): spec.data_for(ctx, "k", (False, False), T, S)}
    st = Study({"G": m}, values=values)
    try:
        build_problem(st.network(), st.database(), spec.block(range(T)), S)
    except (KeyError, ValueError, TypeError):
        ctx.cover("refused")
        return
    ctx.fail(f"a variable of structure {struct} took a bound of structure {sp}")


def known_findings():
    """Names are joined with '_': not repaired (refusing the study or renaming its variables is the maintainers' choice)."""
    out = []
    for what, comps, nt in [
        ("variable 'b_x' of component 'A' and variable 'x' of component 'A_b'", {"A": "b_x", "A_b": "x"}, 1),
        ("variables 'x' (first of two timesteps) and 'x_t0' of component 'A'", {"A": "x"}, 2),
    ]:
        models = {c: MSpec("m" + c, vars={v: V((nt > 1, False))}) for c, v in comps.items()}
        if nt > 1:
            models["A"].vars["x_t0"] = V((False, False))
        st = Study(models)
        try:
            names = [v.name() for v in build_problem(st.network(), st.database(), spec.block(range(nt)), 1, solver_id="GLOP").solver.variables()]
        except ValueError:
            continue  # refused
        if len(set(names)) < len(names):
            out.append(f"{what} have the same name in the solver")
    return out


HARNESSES = [
    Harness(
        "long",
        h_long,
        "three components of one model, blocks of many timesteps, many scenarios",
        quick=dict(sizes=[(26, 1), (2, 13), (12, 11)]),
        thorough=dict(sizes=[(168, 1), (2, 101), (26, 13)]),
        covers=["end"],
    ),
    Harness(
        "bounds",
        h_bounds,
        "one variable of every type and structure, each bound absent, a literal, a parameter or an expression of parameters, "
        "every parameter structure included in the variable's, symbolic values (crossing bounds included)",
        quick=dict(T=[1, 2], S=[1, 2], kinds=["none", "lit", "par", "expr"]),
        thorough=dict(T=[1, 2, 3], S=[1, 2, 3]),
        covers=["built", "refused"],
    ),
    Harness(
        "components",
        h_many,
        "three components or nodes of two models with the same variable names, symbolic data",
        quick=dict(T=[1, 2], S=[1, 2]),
        thorough=dict(T=[1, 2, 3], S=[1, 2, 3]),
        covers=["end"],
    ),
    Harness(
        "successive_builds",
        h_history,
        "N successive builds over blocks of 1 to 3 timesteps and 1 or 2 scenarios from the same network and data",
        quick=dict(N=2),
        thorough=dict(N=3),
        covers=["end"],
    ),
    Harness(
        "mismatched_bounds",
        h_mismatch,
        "one variable with a bound over a parameter given by series in a dimension that the variable does not have",
        quick=dict(T=2, S=2),
        thorough=dict(T=3, S=3),
        covers=["refused"],
    ),
]
