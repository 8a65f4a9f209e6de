"""C19: investment pathway problems (one master for the whole tree, one subproblem per node and block)."""
from andromede.simulation.benders_decomposed import build_benders_decomposed_problem
from andromede.simulation.optimization import build_problem, fusion_problems
from andromede.simulation.strategy import InvestmentProblemStrategy
from andromede.study import DataBase, Network

from vf import lpstub, spec
from vf.harness import Harness
from vf.spec import INV, C, MSpec, Study, V
from vf.trees import SHAPES, Pathway

prepare_symbolic = lpstub.install


def h_pathway(ctx, shapes, blocks, scenarios, names):
    """Master and subproblems of a whole tree with some couplings; built once or twice."""
    shape = ctx.pick("shape", shapes)
    p = Pathway(
        ctx,
        shape,
        ctx.pick("names", names),
        inv_type=ctx.pick("inv_type", ["float", "int"]),
        blocks=ctx.pick("blocks", blocks),
        scenarios=ctx.pick("scenarios", scenarios),
        second=ctx.flag("second"),
        treedata=ctx.flag("treedata"),
        vary=ctx.flag("vary"),
    )
    root = p.build_tree()
    coup = ctx.pick("coupled", ["none", "root", "all"])
    for i in range(p.n):
        if coup == "all" or (coup == "root" and i == 0):
            p.couple(i)
    db = p.database()
    res = build_benders_decomposed_problem(root, db)
    if ctx.flag("twice"):
        res2 = build_benders_decomposed_problem(root, db)
        p.check_master(res2.master)
        p.check_subproblems(res2.subproblems)
    p.check_master(res.master)
    p.check_subproblems(res.subproblems)
    ctx.cover(shape)


def _master(ctx, i, kind):
    """An investment problem with its own names: constraint names may coincide between masters."""
    y, z, p = ("var", "y"), ("var", "z"), ("par", "p")
    l = ("lit", ctx.real(f"l{i}", -10, 10))
    m = MSpec(
        f"m{i}",
        params={"p": (False, False)},
        vars={
            "y": V((False, False), ("lit", -1.0), p, ctx.pick("type", ["float", "int", "bool"]) if i == 0 else "float", INV),
            "z": V((False, False), None, None, "float", INV),
        },
        constraints=[C("c", ("-", y, ("*", p, z)), "<=", l, context=INV)],
        inv_obj=("+", ("*", ("lit", ctx.nonzero(f"a{i}", 1, 10)), y), ("+", l, ("*", p, z))),
    )
    if kind == "empty_row":
        m.constraints.append(C("d", ("-", y, y), "<=", p, context=INV))
    elif kind == "same_names":
        m.constraints.append(C("d", z, lb=("neg", p), ub=p, context=INV))
        m.binding.append(C("c", ("+", y, z), ">=", l, context=INV))
    elif kind == "no_objective":
        m.inv_obj = None
    return m


def h_fusion(ctx, N, kinds):
    """Merging masters keeps every variable, constraint and objective term of each."""
    masters, exp = [], []
    for i in range(1 + ctx.choose("n", N)):
        m = _master(ctx, i, ctx.pick("kind", kinds))
        comp = f"K{i}"
        st = Study({comp: m}, values={(comp, "p"): spec.data_for(ctx, f"p{i}", (False, False), 1, 1, 1, 100)})
        masters.append(
            build_problem(st.network(), st.database(), spec.block([0]), 0, problem_name=f"m{i}", build_strategy=InvestmentProblemStrategy(), solver_id="GLOP")
        )
        exp.append(spec.expected(st, [0], 1, "investment"))
    # a coupler that shares some of the variables
    shared = [n for n in ("K0_y", "K1_z", "other") if ctx.flag("share" + n)]
    if len(masters) == 1:
        shared = [n for n in shared if not n.startswith("K1")]
    coupler = MSpec("coupler", vars={n: V((False, False), ("lit", 0.0), None, "float", INV) for n in shared})
    if len(shared) > 1:
        coupler.constraints = [C("k", ("-", ("var", shared[0]), ("*", ("lit", ctx.real("a", 1, 9)), ("var", shared[1]))), "=", ("lit", ctx.real("b", -9, 9)), context=INV)]
    cs = Study({"coupling": coupler})
    cp = build_problem(cs.network(), DataBase(), spec.block([0]), 0, problem_name="coupler", build_strategy=InvestmentProblemStrategy(), solver_id="GLOP", use_full_var_name=False)
    res = fusion_problems(masters, cp)
    vars_, rows, obj = {}, [], spec.Lin()
    for P in exp:
        ren = {k: f"{k[0]}_{k[1]}" for k in P.vars}
        vars_.update({ren[k]: b for k, b in P.vars.items()})
        rows += [spec.Row(r.hint, spec.Lin({ren[k]: v for k, v in r.lin.c.items()}), r.lb, r.ub) for r in P.rows]
        obj = obj.plus(spec.Lin({ren[k]: v for k, v in P.obj.c.items()}, P.obj.k))
    if len(shared) > 1:
        c = coupler.constraints[0]
        rows.append(spec.Row("", spec.Lin({shared[0]: 1, shared[1]: -c.expr[2][1][1]}), c.rhs[1], c.rhs[1]))
    extra = {n for n in shared if n not in vars_}
    sv = {v.name(): v for v in res.solver.variables()}
    ctx.check(len(sv) == res.solver.NumVariables(), "two variables share a name")
    ctx.check(set(vars_) <= set(sv) <= set(vars_) | extra, f"variables {sorted(sv)}, expected {sorted(set(vars_) | extra)}")
    if len(shared) > 1:
        ctx.check(extra <= set(sv), "a variable of the coupler was dropped")
    for n, (lb, ub, integer) in vars_.items():
        ctx.check_close(sv[n].lb(), lb, f"lower bound of {n}")
        ctx.check_close(sv[n].ub(), ub, f"upper bound of {n}")
        ctx.check(bool(sv[n].integer()) == integer, f"integrality of {n}")
    spec.check_rows(ctx, rows, res.solver.constraints(), sv)
    o = res.solver.Objective()
    for n, v in sv.items():
        ctx.check_close(o.GetCoefficient(v), obj.c.get(n, 0), f"objective coefficient of {n}")
    ctx.check_close(o.offset(), obj.k, "objective constant")
    ctx.cover(f"masters{len(masters)}")


HARNESSES = [
    Harness(
        "pathway",
        h_pathway,
        "trees of up to 4 nodes, one or two candidates, symbolic data per node and probabilities (the root's too), several blocks and scenarios, the same for all nodes or of each node's own, with "
        "no, root or all couplings, built once or twice",
        quick=dict(shapes=["single", "two", "chain", "long"], blocks=[((0,),), ((0, 1), (2, 3))], scenarios=[2], names=["plain"]),
        thorough=dict(shapes=["single", "one", "two", "chain", "mixed", "long"], blocks=[((0,),), ((0, 1), (2, 3)), ((3,), (1, 0))], scenarios=[1, 2], names=["plain", "prefix"]),
        covers=["single", "two", "chain", "long"],
    ),
    Harness(
        "fusion",
        h_fusion,
        "1 to N masters of four kinds with a coupler sharing some variables, symbolic data",
        quick=dict(N=2, kinds=["plain", "empty_row", "same_names", "no_objective"]),
        thorough=dict(N=3),
        covers=["masters1", "masters2"],
    ),
]
