"""C17: output values."""
from andromede.simulation import OutputValues, build_problem
from andromede.simulation.output_values import BendersSolution

from vf import lpstub, spec
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import MSpec, Study, V
from vf.sym import and_, or_

prepare_symbolic = lpstub.install


def shaped(st, nt, ns, at):
    """Documented shape: c, [s1, s2], [[t1, t2]] or [[t1s1, t2s1], [t1s2, t2s2]]."""
    nt, ns = (nt if st[0] else 1), (ns if st[1] else 1)
    if nt == 1:
        return at(0, 0) if ns == 1 else [at(0, s) for s in range(ns)]
    return [[at(t, s) for t in range(nt)] for s in range(ns)]


def check_shaped(ctx, got, exp, what):
    if isinstance(exp, list):
        ctx.check(isinstance(got, list) and len(got) == len(exp), f"{what}: shape of {got!r}")
        for i, (a, b) in enumerate(zip(got, exp)):
            check_shaped(ctx, a, b, f"{what}[{i}]")
    else:
        ctx.check(not isinstance(got, list), f"{what}: a list where one value is expected")
        ctx.check_close(got, exp, what)


def _solved(ctx, comps, nt, ns, name=""):
    """A solved problem whose variables are all fixed to known values."""
    values, specs = {}, {}
    for c, vars_ in comps.items():
        specs[c] = MSpec("m" + c, params={"d" + v: st for v, st in vars_.items()}, vars={v: V(st, ("par", "d" + v), ("par", "d" + v)) for v, st in vars_.items()})
        for v, st in vars_.items():
            values[(c, "d" + v)] = spec.data_for(ctx, f"{name}{c}{v}", st, nt, ns)
    st = Study(specs, values=values)
    problem = build_problem(st.network(), st.database(), spec.block(range(nt)), ns)
    if problem.solver.Solve() != 0:
        ctx.fail("the problem was not solved")
    return problem, values


def h_read(ctx, T, S):
    """Every value of the solution is reported for its component, variable, timestep and scenario."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    comps = {"A": {"x": ctx.pick("s1", STRUCTS), "y": ctx.pick("s2", STRUCTS)}, "B": {"x": ctx.pick("s3", STRUCTS)}}
    problem, values = _solved(ctx, comps, nt, ns)
    out = OutputValues(problem)
    for c, vs in comps.items():
        for v, st in vs.items():
            d = values[(c, "d" + v)]
            exp = shaped(st, nt, ns, lambda t, s: d.at(t, s))
            check_shaped(ctx, out.component(c).var(v).value, exp, f"{c}.{v}")
    # an expected output that holds the same values is equal to it
    exp = OutputValues()
    for c, vs in comps.items():
        for v, st in vs.items():
            d = values[(c, "d" + v)]
            exp.component(c).var(v).value = shaped(st, nt, ns, lambda t, s: d.at(t, s))
    if nt * ns <= 4:
        ctx.check(exp.is_close(out, rel_tol=1e-6, abs_tol=1e-6) and out.is_close(exp, rel_tol=1e-6, abs_tol=1e-6), "equal outputs are not close")
    ctx.cover("end")


SHAPES = [None, ["s"], ["s", "s"], [["t"]], [["t", "t"]], [["t", "t"], ["t", "t"]], [["t"], ["t"]], [["t", "t", "t"], ["t", "t", "t"]]]


def _values(ctx, shape, name):
    if shape is None:
        return ctx.real(name, -100, 100)
    return [[ctx.real(f"{name}{i}_{j}", -100, 100) for j in range(len(r))] if isinstance(r, list) else ctx.real(f"{name}{i}", -100, 100) for i, r in enumerate(shape)]


def _cells(v):
    """Reference content: {(t, s): value}, sizes."""
    if not isinstance(v, list):
        return {(0, 0): v}
    res = {}
    for s, r in enumerate(v):
        for t, x in enumerate(r if isinstance(r, list) else [r]):
            res[(t, s)] = x
    return res


def h_set(ctx, N):
    """Reading back what was set (the last time), whatever was set before."""
    out = OutputValues()
    var = out.component("c").var("x")
    for i in range(N):
        v = _values(ctx, ctx.pick("shape", SHAPES), f"v{i}")
        var.value = v
    exp = v
    if isinstance(exp, list) and isinstance(exp[0], list) and len(exp[0]) == 1:
        exp = [r[0] for r in exp]  # a single timestep: one value per scenario
    if isinstance(exp, list) and len(exp) == 1 and not isinstance(exp[0], list):
        exp = exp[0]  # [[x]] and [x] are the constant x
    check_shaped(ctx, out.component("c").var("x").value, exp, "value")
    ctx.check(out.component("c").var("x") is var, "a second access gives another variable")
    ctx.cover("end")


def _close(a, b, rel, ab):
    return abs(a - b) <= rel * _max(abs(a), abs(b)) or abs(a - b) <= ab


def _max(a, b):
    return a if a >= b else b


def h_compare(ctx, shapes, tols):
    """Comparison of two variables: equality, closeness, and which pairs are ignored."""
    a, b = OutputValues(), OutputValues()
    va, vb = _values(ctx, ctx.pick("sa", shapes), "a"), _values(ctx, ctx.pick("sb", shapes), "b")
    if ctx.flag("reused"):
        # what was there before does not count
        a.component("c").var("x").value = [[1.0, 2.0, 3.0, 4.0], [5.0, 6.0, 7.0, 8.0], [9.0, 10.0, 11.0, 12.0]]
    a.component("c").var("x").value = va
    b.component("c").var("x").value = vb
    ca, cb = _cells(va), _cells(vb)
    rel, ab = ctx.pick("tol", tols)
    if ab == "sym":
        ab = ctx.real("abs", 0.001, 1)
    if rel == "sym":
        rel = ctx.real("rel", 0.001, 1)
    same_shape = set(ca) == set(cb)
    if (rel, ab) == (0.0, 0.0):
        exp = same_shape and all(ca[k] == cb[k] for k in sorted(ca))
        got = [a == b, b == a, a.component("c") == b.component("c"), a.component("c").var("x") == b.component("c").var("x")]
    else:
        exp = same_shape and all(_close(ca[k], cb[k], rel, ab) for k in sorted(ca))
        kw = dict(rel_tol=rel, abs_tol=ab)
        got = [
            a.is_close(b, **kw),
            b.is_close(a, **kw),
            a.component("c").is_close(b.component("c"), **kw),
            a.component("c").var("x").is_close(b.component("c").var("x"), **kw),
        ]
    for i, g in enumerate(got):
        ctx.check(bool(g) == bool(exp), f"comparison {i} says {bool(g)}, values say {bool(exp)}")
    ctx.cover("same" if exp else "different")


def h_ignore(ctx):
    """Missing and ignored components and variables."""
    outs = []
    content = []
    for o in range(2):
        out, ref = OutputValues(), {}
        for c in ("c", "d"):
            if not ctx.flag(f"{o}{c}"):
                continue
            comp = out.component(c)
            comp.ignore = ctx.flag(f"{o}{c}ign")
            ref[c] = (comp.ignore, {})
            for v in ("x", "y") if c == "c" else ("x",):
                if not ctx.flag(f"{o}{c}{v}"):
                    continue
                val = ctx.pick("val", [1.0, 2.0]) if (o, c, v) == (0, "c", "x") else 1.0
                comp.var(v).value = val
                comp.var(v).ignore = ctx.flag(f"{o}{c}{v}ign") if c == "c" else False
                ref[c][1][v] = (comp.var(v).ignore, val)
        outs.append(out)
        content.append(ref)

    def eq_vars(m, n):
        for k in set(m) | set(n):
            if (k in m and m[k][0]) or (k in n and n[k][0]):
                continue
            if k not in m or k not in n or m[k][1] != n[k][1]:
                return False
        return True

    exp = True
    for c in set(content[0]) | set(content[1]):
        a, b = content[0].get(c), content[1].get(c)
        if (a and a[0]) or (b and b[0]):
            continue
        if a is None or b is None or not eq_vars(a[1], b[1]):
            exp = False
    for got, what in (
        (outs[0] == outs[1], "equality"),
        (outs[1] == outs[0], "reversed equality"),
        (outs[0].is_close(outs[1]), "closeness"),
        (outs[0].is_close(outs[1], rel_tol=0.0, abs_tol=0.5), "closeness within 0.5"),
    ):
        ctx.check(bool(got) == exp, f"{what} says {got}, contents say {exp}")
    ctx.cover("same" if exp else "different")


def h_benders(ctx):
    """Solutions of the decomposition: accessors and comparisons."""

    def mk(n):
        cost = ctx.real("cost" + n, -100, 100)
        vals = {k: ctx.real(n + k, 0, 100) for k in ("p", "q") if ctx.flag(n + "has" + k)}
        sol = {"overall_cost": cost, "values": vals, "investment_cost": ctx.real("inv" + n, 0, 9), "operational_cost": ctx.real("op" + n, 0, 9), "problem_status": "OPTIMAL", "optimality_gap": 0.5, "relative_gap": 0.25, "stopping_criterion": "x"}
        return BendersSolution({"solution": sol, "run_duration": 1.0}), sol

    (a, sa), (b, sb) = mk("a"), mk("b")
    for attr, key in (("overall_cost",) * 2, ("investment_cost",) * 2, ("operational_cost",) * 2, ("candidates", "values"), ("status", "problem_status"), ("absolute_gap", "optimality_gap"), ("relative_gap",) * 2, ("stopping_criterion",) * 2):
        ctx.check(getattr(a, attr) is sa[key] or getattr(a, attr) == sa[key], f"{attr} of a solution")
    same_keys = set(sa["values"]) == set(sb["values"])
    mode = ctx.pick("mode", ["eq", "rel", "abs"])
    if mode == "eq":
        exp = same_keys and bool(sa["overall_cost"] == sb["overall_cost"]) and all(sa["values"][k] == sb["values"][k] for k in sa["values"])
        got = a == b
    else:
        rel, ab = (ctx.real("tol", 0.001, 1), 0.0) if mode == "rel" else (0.0, ctx.real("tol", 0.001, 1))
        cl = lambda x, y: _close(x, y, rel, ab)
        exp = same_keys and bool(cl(sa["overall_cost"], sb["overall_cost"])) and all(cl(sa["values"][k], sb["values"][k]) for k in sa["values"])
        got = a.is_close(b, rel_tol=rel, abs_tol=ab)
    ctx.check(bool(got) == bool(exp), f"{mode}: comparison says {bool(got)}, values say {bool(exp)}")
    ctx.cover("same" if exp else "different")


HARNESSES = [
    Harness(
        "read",
        h_read,
        "solved problems of two components and three variables of any structure, fixed to symbolic values",
        quick=dict(T=[1, 3], S=[1, 2]),
        thorough=dict(T=[1, 2, 3], S=[1, 2, 3]),
        covers=["end"],
    ),
    Harness("set", h_set, "N successive assignments of any documented shape", quick=dict(N=2), thorough=dict(N=3), covers=["end"]),
    Harness(
        "compare",
        h_compare,
        "two variables of any two shapes with symbolic values; exact, relative, absolute tolerances (symbolic)",
        quick=dict(shapes=SHAPES[:5], tols=[(0.0, 0.0), ("sym", 0.0), (0.0, "sym"), (1e-9, 0.0)]),
        thorough=dict(shapes=SHAPES, tols=[(0.0, 0.0), ("sym", 0.0), (0.0, "sym"), (1e-9, 0.0), ("sym", "sym")]),
        covers=["same", "different"],
    ),
    Harness("ignore", h_ignore, "two outputs over two components and three variables, present or not, ignored or not", covers=["same", "different"]),
    Harness("benders", h_benders, "two solutions with up to two candidates, symbolic costs and values", covers=["same", "different"]),
]
