"""C11: objective of the built problem."""
from andromede.simulation import build_problem

from vf import lpstub, spec
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import C, MSpec, Study, V

prepare_symbolic = lpstub.install
X, Y, P, Q = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "q")


def scalar(e, st):
    """Sum over the block and expectation where needed."""
    if st[0]:
        e = ("sumall", e)
    if st[1]:
        e = ("expec", e)
    return e


def _check(ctx, st, ts, S, **kw):
    problem = build_problem(st.network(), st.database(), spec.block(ts), S, **kw)
    PB = spec.expected(st, ts, S)
    sv = spec.check_vars(ctx, problem, PB)
    spec.check_obj(ctx, problem, PB, sv)
    return problem, PB


def join(a, b):
    return (a[0] or b[0], a[1] or b[1])


def h_forms(ctx, T, S):
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    sx, sp = ctx.pick("sx", STRUCTS), ctx.pick("sp", STRUCTS)
    j = join(sx, sp)
    l = ("lit", ctx.nonzero("l", 1, 100))
    kind = ctx.pick("kind", ["px", "x+p", "sum", "shift", "both", "order", "const"])
    inv = None
    if kind == "px":
        o = scalar(("*", P, X), j)
    elif kind == "x+p":
        o = ("+", scalar(("+", X, ("/", P, l)), j), l)
    elif kind == "sum":
        o = ("-", scalar(("*", P, X), j), ("*", l, scalar(X, sx)))
    elif kind == "shift":
        o = scalar(("*", P, ("shift", X, ctx.int("k", -2, 2))), j) if sx[0] else scalar(("*", ("neg", P), X), j)
    elif kind == "both":
        o, inv = scalar(("*", P, X), j), ("+", ("*", Q, Y), scalar(X, sx))
    elif kind == "order":  # expectation first, then the sum over the block
        o = ("*", P, X)
        if j[1]:
            o = ("expec", o)
        if j[0]:
            o = ("sumall", o)
        o = ("+", o, Y)
    else:
        o = ("*", scalar(P, sp), l)
        inv = ("*", scalar(P, sp), ("-", Y, l))
    m = MSpec("m", params={"p": sp, "q": (False, False)}, vars={"x": V(sx), "y": V((False, False))}, obj=o, inv_obj=inv)
    st = Study(
        {"G": m},
        values={("G", "p"): spec.data_for(ctx, "p", sp, nt, ns, spec.NZ, 1000), ("G", "q"): spec.data_for(ctx, "q", (False, False), nt, ns)},
    )
    _check(ctx, st, list(range(nt)), ns)
    ctx.cover(kind)


def h_several(ctx, T, S):
    """The objective is the sum of the contributions of every component and node, for every build."""
    nt, ns = ctx.pick("TS", [(t, s) for t in T for s in S])
    l = ("lit", ctx.real("l", -100, 100))
    m = MSpec(
        "m",
        params={"p": (True, False), "q": (False, False)},
        vars={"x": V((True, True)), "y": V((False, False))},
        obj=scalar(("+", ("*", P, X), Q), (True, True)),
        inv_obj=("+", ("*", Q, Y), l) if ctx.flag("inv") else None,
    )
    m2 = MSpec(
        "m2",
        params={"p": (False, True)},
        vars={"x": V((False, True)), "y": V((True, False))},
        obj=("expec", ("*", X, P)) if ctx.flag("o2") else None,
        inv_obj=("neg", ("sumall", Y)),
        constraints=[C("c", X, "<=", P)],
    )
    comps = {"A": m, "B": m if ctx.flag("same") else m2, "N": m2}
    values = {(i, p): spec.data_for(ctx, i + p, s, nt, ns, -1000 if (i, p) == ("B", "q") else spec.NZ, 1000) for i, mm in comps.items() for p, s in mm.params.items()}
    st = Study(comps, ctx.pick("nodes", [(), ("N",), ("A", "N")]), values=values)
    net, db = st.network(), st.database()
    one = build_problem(net, db, spec.block([0]), 1)
    two = build_problem(net, db, spec.block(range(nt)), ns)
    for pb, ts, s in ((two, list(range(nt)), ns), (one, [0], 1)):
        PB = spec.expected(st, ts, s)
        sv = spec.check_vars(ctx, pb, PB)
        spec.check_obj(ctx, pb, PB, sv)
    ctx.cover("end")


HARNESSES = [
    Harness(
        "forms",
        h_forms,
        "one component; operational and investment contributions over a variable and a parameter of every structure "
        "(products, sums, constants, shifts, sums over the block and expectations in both orders), symbolic data",
        quick=dict(T=[1, 2], S=[1, 2]),
        thorough=dict(T=[1, 2, 3], S=[1, 2, 3]),
        covers=["px", "x+p", "sum", "shift", "both", "order", "const"],
    ),
    Harness(
        "several",
        h_several,
        "three components or nodes of two models, contributions present or absent, two successive builds",
        quick=dict(T=[1, 2], S=[1, 2]),
        thorough=dict(T=[1, 2, 3], S=[1, 2, 3]),
        covers=["end"],
    ),
]
