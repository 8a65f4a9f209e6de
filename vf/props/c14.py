"""C14: investment / operational split."""
from andromede.model import ProblemContext
from andromede.simulation import build_problem
from andromede.simulation.strategy import (
    ExpectedValue,
    InvestmentProblemStrategy,
    MergedProblemStrategy,
    OperationalProblemStrategy,
    UniformRisk,
)

from vf import lpstub, spec
from vf.harness import Harness
from vf.spec import COUP, INV, OP, C, MSpec, Study, V

prepare_symbolic = lpstub.install
X, Y, Z, P, Q = ("var", "x"), ("var", "y"), ("var", "z"), ("par", "p"), ("par", "q")
STRATEGIES = {"merged": MergedProblemStrategy, "investment": InvestmentProblemStrategy, "operational": OperationalProblemStrategy}
CTXS = [OP, INV, COUP]


def vars_of(a):
    if a[0] == "var":
        return {a[1]}
    return set().union(*[vars_of(x) for x in a[1:] if isinstance(x, tuple)] or [set()])


def _build(ctx, st, ts, S, strat, prob):
    kw = {"build_strategy": STRATEGIES[strat]()}
    if prob is not None:
        kw["risk_strategy"] = ExpectedValue(prob)
    elif ctx.flag("explicit_uniform"):
        kw["risk_strategy"] = UniformRisk()
    problem = build_problem(st.network(), st.database(), spec.block(ts), S, **kw)
    P = spec.expected(st, ts, S, strat, prob)
    spec.check_problem(ctx, problem, P)
    return problem


def h_split(ctx, T, S, two):
    """Contexts of variables and constraints vary freely; only kept ones appear, weights multiply the objective."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    cx = {n: ctx.pick("ctx" + n, CTXS) for n in "xyz"}
    strat = ctx.pick("strat", list(STRATEGIES))
    keep = spec.KEEP[strat]
    cc = ctx.pick("cc", CTXS)
    binding = ctx.flag("binding")
    terms = [Y, Z] if not two else [ctx.pick("t1", [Y, X]), Z]
    e = ("-", ("*", P, terms[0]), terms[1])
    if cc in keep and any(cx[v] not in keep for v in vars_of(e)):
        ctx.assume(False)  # a kept constraint on a variable that is not there: not a valid model
    op, inv = ("expec", ("sumall", ("+", ("*", P, X), Q))), ("+", ("*", Q, Y), ("lit", ctx.nonzero("l", 1, 10)))
    which = ctx.pick("which", ["both", "op", "inv"])
    if strat != "investment" and which != "inv" and cx["x"] not in keep:
        ctx.assume(False)
    if strat != "operational" and which != "op" and cx["y"] not in keep:
        ctx.assume(False)
    m = MSpec(
        "m",
        params={"p": (False, True), "q": (False, False)},
        vars={
            "x": V((True, True), context=cx["x"]),
            "y": V((False, False), ("lit", 0.0), ("par", "q"), context=cx["y"]),
            "z": V((False, True), type="int", context=cx["z"]),
        },
        obj=op if which != "inv" else None,
        inv_obj=inv if which != "op" else None,
    )
    (m.binding if binding else m.constraints).append(C("c", e, "<=", Q, context=cc))
    st = Study({"G": m}, values={("G", p): spec.data_for(ctx, p, s, nt, ns, spec.NZ if p == "p" else 1, 1000) for p, s in m.params.items()})
    prob = ctx.real("prob", 0, 1) if ctx.flag("weighted") else None
    _build(ctx, st, list(range(nt)), ns, strat, prob)
    ctx.cover(strat)


def h_together(ctx, N):
    """The three problems built one after the other from one network, with weights."""
    m = MSpec(
        "m",
        params={"p": (True, False), "q": (False, False)},
        vars={"x": V((True, True), context=OP), "y": V((False, False), context=INV), "z": V((False, False), context=COUP)},
        constraints=[
            C("a", X, "<=", Z, context=OP),
            C("b", ("-", Y, Z), "=", Q, context=INV),
            C("c", Z, lb=("lit", 0.0), ub=Q, context=COUP),
        ],
        obj=("expec", ("sumall", ("*", P, X))),
        inv_obj=("+", ("*", Q, Y), Z),
    )
    st = Study({"A": m, "B": m}, ctx.pick("nodes", [(), ("B",)]), values={(c, p): spec.data_for(ctx, c + p, s, 2, 2, spec.NZ if p == "p" else 1, 1000) for c in "AB" for p, s in m.params.items()})
    net, db = st.network(), st.database()
    done = []
    for i in range(N):
        strat = ctx.pick("strat", list(STRATEGIES))
        prob = ctx.real(f"prob{i}", 0.01, 1)
        kw = {"build_strategy": STRATEGIES[strat](), "risk_strategy": ExpectedValue(prob)}
        tree = ctx.pick("tree", ["", "root"])
        done.append((build_problem(net, db, spec.block([0, 1]), 2, decision_tree_node=tree, **kw), strat, prob))
    for problem, strat, prob in done:
        spec.check_problem(ctx, problem, spec.expected(st, [0, 1], 2, strat, prob))
    ctx.cover("end")


def h_types(ctx):
    """Variables of every type, structure and context, declared in any order."""
    typ, struct, cx = ctx.pick("type", ["float", "int", "bool"]), ctx.pick("struct", [(True, True), (True, False), (False, True), (False, False)]), ctx.pick("ctx", CTXS)
    strat = ctx.pick("strat", list(STRATEGIES))
    v = V(struct, ("lit", 0.0), ("lit", 1.0), typ, cx)
    w = V((False, False), ("neg", Q), Q, ctx.pick("wtype", ["float", "int"]), ctx.pick("wctx", CTXS))
    m = MSpec("m", params={"q": (False, False)}, vars={"v": v, "w": w} if ctx.flag("first") else {"w": w, "v": v})
    m.constraints = [C("c", ("*", Q, ("var", "v")), "<=", Q, context=cx)]
    m.binding = [C("b", ("var", "w"), "=", Q, context=w.context)]
    st = Study({"G": m}, values={("G", "q"): spec.data_for(ctx, "q", (False, False), 2, 2, 1, 100)})
    problem = build_problem(st.network(), st.database(), spec.block([0, 1]), 2, build_strategy=STRATEGIES[strat]())
    spec.check_problem(ctx, problem, spec.expected(st, [0, 1], 2, strat))
    ctx.cover(strat)


HARNESSES = [
    Harness(
        "types",
        h_types,
        "two variables of any type, structure and context, a constraint on each, the three strategies",
        covers=list(STRATEGIES),
    ),
    Harness(
        "split",
        h_split,
        "one component with three variables, one constraint and two contributions; every assignment of contexts, the three "
        "strategies, with and without a probability weight (symbolic in [0,1])",
        quick=dict(T=[2], S=[2], two=False),
        thorough=dict(T=[1, 2], S=[1, 2], two=True),
        covers=list(STRATEGIES),
    ),
    Harness(
        "together",
        h_together,
        "N successive builds with any strategies and symbolic weights, two components, 2 timesteps, 2 scenarios",
        quick=dict(N=2),
        thorough=dict(N=3),
        covers=["end"],
    ),
]
