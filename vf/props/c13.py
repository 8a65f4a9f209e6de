"""C13: time blocks."""
from andromede.expression import var
from andromede.simulation import BlockBorderManagement, TimeBlock, build_problem

from vf import lpstub, spec
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.spec import C, MSpec, Study, V

prepare_symbolic = lpstub.install
X, Y, P, Q = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "q")


def timesteps(ctx, T, N):
    """Any list of T distinct timesteps out of 0..N-1, in any order (chosen symbolically)."""
    res = []
    for i in range(T):
        t = ctx.int(f"ts{i}", 0, N - 1)
        res.append(t)
    for i in range(T):
        for j in range(i):
            ctx.assume(res[i] != res[j])
    return [int(t) for t in res]


def _study(ctx, N, S, kmax, what):
    k = ctx.int("k", -kmax, kmax)
    e, rhs = {
        "shift": (("-", X, ("shift", ("*", P, X), k)), Q),
        "shiftp": (("+", X, ("shift", P, k)), ("*", P, Y)),
        "tsum": (("tsum", ("*", P, X), k, k + 1), ("var", "w")),
        "eval": (("-", X, ("*", ("eval", P, k), Y)), P),
        "evalx": (("-", X, ("*", P, ("eval", X, k))), Q),
        "sumall": (("sumall", ("*", P, X)), Y),
        "bounds": None,
    }.get(what) or (X, None)
    m = MSpec(
        "m",
        params={"p": (True, True), "q": (False, False), "l": (True, False)},
        vars={"x": V((True, True), ("neg", ("par", "l")), ("par", "l")), "y": V((False, False)), "w": V((True, True))},
        constraints=[C("c", e, "<=", rhs) if rhs else C("c", X, lb=("neg", P), ub=P)],
        obj=("expec", ("sumall", ("*", P, X))),
    )
    kind = ctx.pick("pdata", ["const", "ts"])
    return Study(
        {"G": m},
        values={
            ("G", "p"): spec.data_for(ctx, "p", (True, True), N, S, spec.NZ, 1000, kind),
            ("G", "q"): spec.data_for(ctx, "q", (False, False), N, S, 1, 1000),
            ("G", "l"): spec.data_for(ctx, "l", (True, False), N, S, 1, 1000),
        },
    )


WHAT = ["shift", "shiftp", "tsum", "eval", "evalx", "sumall", "bounds"]


def h_block(ctx, T, N, S, kmax):
    """A problem on any block uses the data of the block's timesteps and wraps around inside the block."""
    ns = ctx.pick("S", S)
    nt = ctx.pick("T", T)
    what = ctx.pick("what", WHAT)
    st = _study(ctx, N, ns, kmax, what)
    ts = timesteps(ctx, nt, N)
    problem = build_problem(st.network(), st.database(), TimeBlock(ctx.pick("bid", [1, 7]), ts), ns)
    spec.check_problem(ctx, problem, spec.expected(st, ts, ns))
    ctx.cover(what)


def h_sequence(ctx, L, N):
    """Consecutive blocks of one horizon: each one only sees its own data."""
    st = _study(ctx, N, 1, 1, "shift")
    net, db = st.network(), st.database()
    built = []
    for b in range(N // L):
        ts = list(range(b * L, (b + 1) * L))
        built.append((build_problem(net, db, TimeBlock(b + 1, ts), 1), ts))
    for problem, ts in built:
        spec.check_problem(ctx, problem, spec.expected(st, ts, 1))
    ctx.cover("end")


HARNESSES = [
    Harness(
        "blocks",
        h_block,
        "any block of T distinct timesteps of a horizon of N (symbolic, not necessarily contiguous or sorted), S scenarios, shifts, windows and "
        "evaluations with symbolic offsets in [-kmax,kmax] (beyond the block), on variables and on data",
        quick=dict(T=[1, 2, 3], N=4, S=[1], kmax=2),
        thorough=dict(T=[1, 2, 3, 4], N=5, S=[1, 2], kmax=4),
        covers=WHAT,
    ),
    Harness(
        "sequence",
        h_sequence,
        "horizon of N timesteps cut into consecutive blocks of L, all built from the same network and data",
        quick=dict(L=2, N=4),
        thorough=dict(L=3, N=9),
        covers=["end"],
    ),
]
