"""C10: constraints of the built problem."""
from andromede.expression import literal, param, var
from andromede.model import Constraint
from andromede.simulation import build_problem

from vf import lpstub, spec
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import C, MSpec, Study, V

prepare_symbolic = lpstub.install
X, Y, P, Q = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "q")


def _check(ctx, st, ts, S):
    problem = build_problem(st.network(), st.database(), spec.block(ts), S)
    P = spec.expected(st, ts, S)
    sv = spec.solver_vars(problem, P)
    spec.check_rows(ctx, P.rows, problem.solver.constraints(), sv)
    return problem, P


def h_forms(ctx, T, S, exprs):
    """Every way of writing one constraint, every structure of its parts."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    sx, sp = ctx.pick("sx", STRUCTS), ctx.pick("sp", STRUCTS)
    e = ctx.pick("e", exprs)
    form = ctx.pick("form", ["<=", ">=", "=", "bounds"])
    if form == "bounds":
        lb = ctx.pick("lb", [None, "lit", Q])
        ub = ctx.pick("ub", [None, "lit", Q])
        lb = ("lit", ctx.real("lb", -100, 100)) if lb == "lit" else lb
        ub = ("lit", ctx.real("ub", -100, 100)) if ub == "lit" else ub
        c = C("c", e, lb=lb, ub=ub)
    else:
        c = C("c", e, form, ctx.pick("rhs", [Q, ("+", X, ("lit", ctx.real("l", -100, 100))), ("-", Y, P)]))
    m = MSpec("m", params={"p": (False, True), "q": sp}, vars={"x": V(sx), "y": V((False, False))})
    (m.binding if ctx.flag("binding") else m.constraints).append(c)
    st = Study(
        {"G": m},
        values={
            ("G", "p"): spec.data_for(ctx, "p", (False, True), nt, ns, spec.NZ, 1000),
            ("G", "q"): spec.data_for(ctx, "q", sp, nt, ns, spec.NZ, 1000),
        },
    )
    _check(ctx, st, list(range(nt)), ns)
    ctx.cover("end")


def h_several(ctx, T, S):
    """Several constraints, several components, the same names everywhere; successive builds."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    names = ctx.pick("names", [("c", "d", "e"), ("c", "cc", "c_c"), ("b", "a", "c"), ("c", "d", "c")])
    a = C(names[0], ("+", X, ("*", P, Y)), "<=", Q)
    b = C(names[1], ("-", X, ("shift", X, ctx.int("k", -2, 2))), lb=("neg", P), ub=("*", ("lit", 2.0), Q))
    c = C(names[2], ("sumall", X), "=", ("*", Q, Y))
    sy = ctx.pick("sy", STRUCTS)
    m = MSpec("m", params={"p": (True, True), "q": (False, True)}, vars={"x": V((True, True)), "y": V(sy)})
    if sy[0]:
        c = C(names[2], ("sumall", ("*", Q, ("+", X, Y))), ">=", Q)
    m.constraints = [a, b]
    m.binding = [c] if ctx.flag("binding") or names[0] == names[2] else []
    other = MSpec("o", params={"p": (False, False)}, vars={"x": V((False, True))}, constraints=[C(names[0], X, ">=", P)])
    comps = {"A": m, "B": m, "N": other}
    values = {(i, p): spec.data_for(ctx, i + p, s, nt, ns, spec.NZ, 1000) for i, mm in comps.items() for p, s in mm.params.items()}
    st = Study(comps, ctx.pick("nodes", [(), ("N",)]), values=values)
    net, db = st.network(), st.database()
    first = build_problem(net, db, spec.block([0]), 1)
    problem = build_problem(net, db, spec.block(range(nt)), ns)
    for pb, ts, s in ((problem, list(range(nt)), ns), (first, [0], 1)):
        PB = spec.expected(st, ts, s)
        spec.check_rows(ctx, PB.rows, pb.solver.constraints(), spec.solver_vars(pb, PB))
        names_ = [k.name() for k in pb.solver.constraints()]
        ctx.check(names[0] == names[2] or len(set(names_)) == len(names_), "two constraints share a name")
    ctx.cover("end")


def h_invalid(ctx):
    """Ill formed constraints are refused when they are declared."""
    inf = float("inf")
    case = ctx.pick("case", ["cmp+lb", "cmp+ub", "lb=+inf", "ub=-inf", "valid", "ok-inf"])
    v = ctx.real("v", -100, 100)
    e = var("x") + param("p")
    kw = {}
    ok = False
    if case.startswith("cmp"):
        o = ctx.pick("o", ["<=", ">=", "=="])
        e = e <= literal(v) if o == "<=" else e >= literal(v) if o == ">=" else e == literal(v)
        kw["lower_bound" if case == "cmp+lb" else "upper_bound"] = literal(ctx.real("b", -100, 100))
    elif case == "lb=+inf":
        kw = {"lower_bound": literal(inf)}
    elif case == "ub=-inf":
        kw = {"upper_bound": literal(-inf)}
    elif case == "valid":
        ok = True
        kw = {"lower_bound": literal(v), "upper_bound": literal(v + ctx.real("w", 0, 10))}
    else:
        ok = True
        kw = {"lower_bound": literal(-inf), "upper_bound": literal(inf)}
    try:
        Constraint("c", e, **kw)
        refused = False
    except ValueError:
        refused = True
    ctx.check(refused == (not ok), f"{case}: {'refused' if refused else 'accepted'}")
    ctx.cover("refused" if refused else "accepted")


EXPRS = [X, ("*", P, X), ("+", X, ("*", Q, Y)), ("-", X, ("/", Y, ("lit", 2.0))), ("-", Y, P), ("-", X, X), ("neg", X)]
HARNESSES = [
    Harness(
        "forms",
        h_forms,
        "one constraint over x, y, p, q: comparison (<=, >=, =) to a parameter or an expression with variables, or lower and "
        "upper bounds (absent, literal, parameter); every structure of the variable and of the right-hand side parameter",
        quick=dict(T=[2], S=[2], exprs=EXPRS[:4]),
        thorough=dict(T=[1, 2, 3], S=[1, 2], exprs=EXPRS),
        covers=["end"],
    ),
    Harness(
        "several",
        h_several,
        "three components, up to seven constraints with clashing names, time operators, two successive builds",
        quick=dict(T=[1, 3], S=[1, 2]),
        thorough=dict(T=[1, 2, 3, 4], S=[1, 2, 3]),
        covers=["end"],
    ),
    Harness("ill_formed", h_invalid, "comparison with explicit bounds, infinite bounds on the wrong side", covers=["refused", "accepted"]),
]
