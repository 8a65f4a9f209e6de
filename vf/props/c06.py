"""C06: time and scenario operators."""
from andromede.simulation import build_problem

from vf import lpstub, spec
from vf.gen import STRUCTS, arith, evaluated, timeop
from vf.harness import Harness
from vf.spec import C, Data, MSpec, Study, V

prepare_symbolic = lpstub.install

OPS = ("none", "shift", "eval", "tsum", "sumall", "expec")


def _build_and_check(ctx, e, rhs, structx, structp, T, S, pdata, kdata, cmp="<=", timesteps=None):
    ts = timesteps or list(range(T))
    m = MSpec(
        "m",
        params={"p": structp, "k": (False, False)},
        vars={"x": V(structx), "y": V((True, True))},
        constraints=[],
    )
    if rhs is None:
        # compared with a variable of the same timestep and scenario, so that rows are told apart
        m.vars["w"] = V(spec.dep(spec.Env(T, S, ts, {"G": m}, {}), "G", e))
        rhs = ("var", "w")
    m.constraints = [C("c", e, cmp, rhs)]
    st = Study({"G": m}, values={("G", "p"): pdata, ("G", "k"): kdata})
    problem = build_problem(st.network(), st.database(), spec.block(ts), S)
    P = spec.expected(st, ts, S)
    sv = spec.check_vars(ctx, problem, P)
    spec.check_rows(ctx, P.rows, problem.solver.constraints(), sv)


def h_ops(ctx, T, S, nest, kmax, ops=OPS, structs=STRUCTS):
    """Up to `nest` nested operators over a product or a sum of leaves."""
    nt, ns = ctx.pick("T", T), ctx.pick("S", S)
    structx = ctx.pick("structx", structs)
    structp = ctx.pick("structp", structs)
    shape = ctx.pick("shape", ["x", "px", "x+p"])
    x, p = ("var", "x"), ("par", "p")
    e = {"x": x, "px": ("*", p, x), "x+p": ("+", x, p)}[shape]
    if shape == "x" and structp != (False, False):
        ctx.assume(False)
    for i in range(nest):
        e = timeop(ctx, e, ops, kmax, ("k",) if i == 0 else ())
    ctx.cover(e[0])
    pdata = spec.data_for(ctx, "p", structp, nt, ns, spec.NZ, 1000)
    k = ctx.intreal("kval", -kmax, kmax)
    _build_and_check(ctx, e, None, structx, structp, nt, ns, pdata, Data("const", k))


def h_mixed(ctx, T, S, kmax):
    """Operator around a sum whose parts carry their own operators."""
    nt, ns = ctx.pick("T", T), ctx.pick("S", S)
    outer = ctx.pick("outer", ["none", "shift", "tsum", "sumall", "expec", "*", "neg"])
    struct = ctx.pick("struct", [(True, True), (True, False), (False, True)])
    x, y, p = ("var", "x"), ("var", "y"), ("par", "p")
    a = timeop(ctx, ("*", p, x), ("none", "shift", "eval", "sumall", "expec"), kmax)
    b = timeop(ctx, ctx.pick("b", [y, p]), ("none", "shift", "tsum", "sumall", "expec"), kmax, wsum=1)
    e = (ctx.pick("pm", "+-"), a, b)
    if outer == "*":
        e = ("*", e, ("par", "k"))
    elif outer == "neg":
        e = ("neg", e)
    else:
        if evaluated(e) and outer in ("shift", "tsum"):
            ctx.assume(False)
        if outer == "shift":
            e = ("shift", e, ctx.int("ko", -1, 1))
        elif outer == "tsum":
            e = ("tsum", e, 0, ctx.int("to", 0, 1))
        elif outer != "none":
            e = (outer, e)
    pdata = spec.data_for(ctx, "p", struct, nt, ns, 1, 1000)
    _build_and_check(ctx, e, y, struct, struct, nt, ns, pdata, Data("const", ctx.real("kk", -10, 10)), "=")
    ctx.cover("end")


def h_long(ctx, sizes):
    """Blocks of more than a day, more than ten scenarios."""
    nt, ns = ctx.pick("sizes", sizes)
    x, p = ("var", "x"), ("par", "p")
    px = ("*", p, x)
    e = ctx.pick(
        "e",
        [
            px,
            ("shift", px, -1),
            ("shift", px, nt - 1),
            ("shift", px, -2 * nt),
            ("eval", px, nt - 1),
            ("tsum", px, -1, 1),
            ("tsum", px, 1 - nt, 0),
            ("sumall", px),
            ("sumall", ("+", px, ("eval", x, 0))),
            ("sumall", ("shift", px, 2)),
            ("expec", px),
            ("expec", ("sumall", px)),
            ("sumall", ("expec", ("+", x, p))),
        ],
    )
    pdata = spec.data_for(ctx, "p", (True, True), nt, ns, 1, 1000)
    _build_and_check(ctx, e, None, (True, True), (True, True), nt, ns, pdata, Data("const", 1.0))
    ctx.cover("end")


def h_windows(ctx, T, S, kmax):
    """Shifts and windows given by expressions over parameters, for components with their own values."""
    nt, ns = ctx.pick("T", T), ctx.pick("S", S)
    x, y, p, k, d = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "k"), ("par", "d")
    a = ctx.pick("a", [x, ("*", p, x), ("+", ("*", p, x), y)])
    one = ("lit", 1.0)
    e = ctx.pick(
        "e",
        [
            ("tsum", a, 0, k),
            ("tsum", a, ("neg", k), 0),
            ("tsum", a, ("-", one, k), 0),
            ("tsum", a, ("+", ("neg", k), one), d),
            ("tsum", a, k, d),
            ("tsum", a, ("-", k, d), ("+", k, d)),
            ("tsum", a, ("-", d, k), d),
            ("shift", a, ("neg", k)),
            ("shift", a, ("-", k, d)),
            ("shift", a, ("+", ("*", ("lit", 2.0), k), one)),
            ("eval", a, ("+", k, one)),
            ("eval", a, ("-", d, k)),
            ("sumall", ("shift", a, k)),
            ("expec", ("tsum", a, ("neg", k), d)),
        ],
    )
    m = MSpec(
        "m",
        params={"p": (True, True), "k": (False, False), "d": (False, False)},
        vars={"x": V((True, True)), "y": V((True, True))},
    )
    m.vars["w"] = V(spec.dep(spec.Env(nt, ns, list(range(nt)), {"G": m}, {}), "G", e))
    m.constraints = [C("c", e, "<=", ("var", "w"))]
    comps = {"G": m, "H": m} if ctx.flag("two") else {"G": m}
    values = {}
    for c in comps:
        values[(c, "p")] = spec.data_for(ctx, c + "p", (True, True), nt, ns, 1, 100)
        values[(c, "k")] = Data("const", ctx.intreal(c + "k", 0, kmax) if c == "G" else 1.0)
        values[(c, "d")] = Data("const", ctx.intreal(c + "d", 0, 1) if c == "G" else 2.0)
    st = Study(comps, values=values)
    ts = list(range(nt))
    problem = build_problem(st.network(), st.database(), spec.block(ts), ns)
    P = spec.expected(st, ts, ns)
    sv = spec.check_vars(ctx, problem, P)
    spec.check_rows(ctx, P.rows, problem.solver.constraints(), sv)
    ctx.cover(e[0])


BOUNDS = (
    "blocks of T timesteps, S scenarios, operand x, p*x or x+p with the given time/scenario "
    "structures of x and p, `nest` nested operators (shift, evaluation, window sum, sum over the block, expectation), "
    "symbolic shifts in [-kmax,kmax] (literal or parameter), window widths -1..2; operators applied on top of an "
    "already evaluated time are excluded (unspecified)"
)
COVERS = ["shift", "eval", "tsum", "sumall", "expec"]
HARNESSES = [
    Harness(
        "operators",
        h_ops,
        BOUNDS,
        quick=dict(T=[1, 3], S=[2], nest=1, kmax=3),
        thorough=dict(T=[1, 2, 3, 5], S=[1, 2, 3], kmax=7),
        covers=COVERS,
    ),
    Harness(
        "windows",
        h_windows,
        "14 shifts, evaluations and windows given by expressions over two parameters with symbolic whole values (0..kmax, 0..1), one or two components",
        quick=dict(T=[3], S=[2], kmax=3),
        thorough=dict(T=[1, 2, 4], S=[1, 2], kmax=5),
        covers=COVERS,
    ),
    Harness(
        "nested",
        h_ops,
        BOUNDS,
        quick=dict(T=[3], S=[2], nest=2, kmax=1, structs=[(True, True), (True, False)]),
        thorough=dict(T=[1, 2, 3], S=[1, 2], kmax=4, structs=STRUCTS),
        covers=COVERS,
    ),
    Harness(
        "larger",
        h_ops,
        BOUNDS + "; larger blocks and more scenarios",
        quick=dict(T=[6], S=[5], nest=1, kmax=8, structs=[(True, True)]),
        thorough=dict(T=[6, 8], S=[4, 5], kmax=10),
        covers=COVERS,
    ),
    Harness(
        "long",
        h_long,
        "13 expressions on blocks and numbers of scenarios of the given sizes, symbolic data",
        quick=dict(sizes=[(26, 1), (2, 13)]),
        thorough=dict(sizes=[(26, 1), (2, 13), (170, 1), (12, 12)]),
        covers=["end"],
    ),
    Harness(
        "mixed",
        h_mixed,
        "sums of two terms that carry their own operators, under an outer operator",
        quick=dict(T=[2], S=[2], kmax=1),
        thorough=dict(T=[2, 3], S=[1, 2], kmax=2),
        covers=["end"],
    ),
]
