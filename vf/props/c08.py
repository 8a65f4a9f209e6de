"""C08: time and scenario dependency of expressions."""
from andromede.expression.context_adder import add_component_context
from andromede.expression.indexing import IndexingStructureProvider, compute_indexation
from andromede.expression.indexing_structure import IndexingStructure

from vf import spec
from vf.gen import STRUCTS
from vf.harness import Harness
from vf.props.c07 import structure, tree
from vf.spec import Env, MSpec, V, to_node


class Provider(IndexingStructureProvider):
    def __init__(self, st, comp):
        self.st, self.comp = st, comp

    def _get(self, name):
        return IndexingStructure(*self.st[name])

    def get_parameter_structure(self, name):
        if self.comp:
            raise AssertionError("component expected")
        return self._get(name)

    get_variable_structure = get_parameter_structure

    def get_component_variable_structure(self, component_id, name):
        if component_id != self.comp:
            raise AssertionError("wrong component")
        return self._get(name)

    get_component_parameter_structure = get_component_variable_structure


def h_index(ctx, depth, leaves, ops, T, S):
    a = tree(ctx, depth, leaves, ops)
    st = {}
    names = {x for x in ("x", "y", "p", "q") if _uses(a, x)}
    for n in ("x", "y", "p", "q"):
        st[n] = ctx.pick("st_" + n, STRUCTS) if n in names else (False, False)
    comp = ctx.pick("comp", ["", "C"])
    e = to_node(a)
    if comp:
        e = add_component_context(comp, e)
    got = compute_indexation(e, Provider(st, comp))
    got = (bool(got.time), bool(got.scenario))
    want = structure(a, st)
    if got != want:
        ctx.fail(f"{a}: structure {got}, expected {want} with {st}")
    # what is declared independent really is, for every data
    m = MSpec("m", params={"p": st["p"], "q": st["q"]}, vars={"x": V(st["x"]), "y": V(st["y"])})
    vals = {("C", n): spec.data_for(ctx, n, st[n], T, S, spec.NZ, 100) for n in ("p", "q") if n in names}
    env = Env(T, S, list(range(T)), {"C": m}, vals)
    try:
        ref = spec.denote(env, "C", a, 0, 0)
        for t in range(1, T) if not got[0] else [0]:
            for s in range(1, S) if not got[1] else [0]:
                if (t, s) == (0, 0):
                    continue
                o = spec.denote(env, "C", a, t, s)
                for k in {**ref.c, **o.c}:
                    ctx.check_close(ref.c.get(k, 0), o.c.get(k, 0), f"declared independent of time/scenario: {k}")
                ctx.check_close(ref.k, o.k, "declared independent of time/scenario: constant")
    except (spec.NonLinear, spec.Unspecified, ZeroDivisionError):
        pass
    ctx.cover(str(got))


def _uses(a, n):
    return (len(a) > 1 and a[0] in ("var", "par") and a[1] == n) or any(isinstance(b, tuple) and _uses(b, n) for b in a[1:])


def h_sums(ctx, n):
    """Sums of many operands: any operand can bring a dependency."""
    k = ctx.choose("n", n) + 1
    kinds = [ctx.pick("s", STRUCTS) for _ in range(k)]
    st = {f"v{i}": s for i, s in enumerate(kinds)}
    form = ctx.pick("form", ["sum", "nested", "mul", "neg"])
    e = None
    for i in range(k):
        v = to_node(("var" if i % 2 else "par", f"v{i}"))
        if form == "neg":
            v = -v
        e = v if e is None else (e * v if form == "mul" else v + (e * 1) if form == "nested" else e + v)
    got = compute_indexation(e, Provider(st, ""))
    want = (any(s[0] for s in kinds), any(s[1] for s in kinds))
    ctx.check((bool(got.time), bool(got.scenario)) == want, f"{form} of {kinds}: {got}")
    got2 = compute_indexation(e, Provider({n: (False, s[1]) for n, s in st.items()}, ""))
    ctx.check((bool(got2.time), bool(got2.scenario)) == (False, want[1]), f"{form} of {kinds}, time removed: {got2}")
    ctx.cover("end")


def h_wide(ctx, n):
    """Sums of many operands, at most two of which are not constant."""
    k = ctx.pick("n", n)
    st = {f"v{i}": (False, False) for i in range(k)}
    for _ in range(2):
        st[f"v{ctx.choose('at', k)}"] = ctx.pick("s", STRUCTS)
    e = to_node(("par", "v0"))
    for i in range(1, k):
        e = e + to_node(("par" if i % 2 else "var", f"v{i}")) if i % 3 else e - to_node(("par", f"v{i}"))
    got = compute_indexation(e, Provider(st, ""))
    want = (any(s[0] for s in st.values()), any(s[1] for s in st.values()))
    ctx.check((bool(got.time), bool(got.scenario)) == want, f"sum of {st}: {got}")
    ctx.cover("end")


def h_pairs(ctx):
    """Every operator on two operands of every kind, comparisons too."""

    def operand(n):
        k = ctx.pick("k" + n, ["lit", "var", "par", "shift", "eval", "tsum", "sumall", "expec", "neg"])
        if k == "lit":
            return to_node(("lit", 2.0)), (False, False)
        s = ctx.pick("s" + n, STRUCTS)
        a = ("par" if k in ("par", "neg", "expec") else "var", n)
        if k not in ("var", "par"):
            a = {"shift": ("shift", a, 1), "eval": ("eval", a, 0), "tsum": ("tsum", a, 0, 1)}.get(k, (k, a))
        st[n] = s
        return to_node(a), structure(a, st)

    st = {}
    (a, sa), (b, sb) = operand("a"), operand("b")
    op = ctx.pick("op", ["+", "-", "*", "/", "<=", ">=", "=="])
    e = {
        "+": lambda: a + b,
        "-": lambda: a - b,
        "*": lambda: a * b,
        "/": lambda: a / b,
        "<=": lambda: a <= b,
        ">=": lambda: a >= b,
        "==": lambda: a == b,
    }[op]()
    comp = ctx.pick("comp", ["", "C"])
    if comp:
        e = add_component_context(comp, e)
    got = compute_indexation(e, Provider(st, comp))
    want = (sa[0] or sb[0], sa[1] or sb[1])
    ctx.check((bool(got.time), bool(got.scenario)) == want, f"{op} of {sa} and {sb}: {got}")
    ctx.cover("end")


def h_structures(ctx):
    """Structures are sets of two dimensions."""
    a, b = ctx.pick("a", STRUCTS), ctx.pick("b", STRUCTS)
    x, y = IndexingStructure(*a), IndexingStructure(*b)
    u = x | y
    ctx.check((bool(u.time), bool(u.scenario)) == (a[0] or b[0], a[1] or b[1]), f"{a} | {b} = {u}")
    for s, z in ((a, x), (b, y), ((a[0] or b[0], a[1] or b[1]), u)):
        for name, want in (
            ("is_time_varying", s[0]),
            ("is_scenario_varying", s[1]),
            ("is_time_scenario_varying", s[0] and s[1]),
            ("is_constant", not s[0] and not s[1]),
        ):
            if hasattr(z, name):
                ctx.check(bool(getattr(z, name)()) == want, f"{name} of {s}")
    ctx.check((x == y) == (a == b), f"equality of {a} and {b}")
    ctx.cover("end")


X, Y, P, Q = ("var", "x"), ("var", "y"), ("par", "p"), ("par", "q")
ALLC = [str(s) for s in STRUCTS]
HARNESSES = [
    Harness(
        "trees",
        h_index,
        "expression trees of the given depth, every structure of every variable and parameter; T timesteps, S scenarios of "
        "symbolic data for the independence check",
        quick=dict(depth=2, leaves=[X, P], ops=["+", "/", "shift", "eval", "tsum", "sumall", "expec", "neg"], T=2, S=2),
        thorough=dict(depth=2, leaves=[X, Y, P], ops=["+", "-", "*", "/", "shift", "eval", "tsum", "sumall", "expec", "neg"], T=3, S=2),
        covers=ALLC,
    ),
    Harness(
        "sums",
        h_sums,
        "sums and products of up to n operands, every structure of each",
        quick=dict(n=4),
        thorough=dict(n=5),
        covers=["end"],
    ),
    Harness(
        "wide",
        h_wide,
        "sums of many operands, any two of which have any structure",
        quick=dict(n=[6, 12]),
        thorough=dict(n=[6, 12, 30]),
        covers=["end"],
    ),
    Harness(
        "pairs",
        h_pairs,
        "every operator and comparison on two operands: a literal, or a variable or parameter of any structure, bare or under an operator",
        covers=["end"],
    ),
    Harness(
        "structures",
        h_structures,
        "every pair of structures",
        covers=["end"],
    ),
]
