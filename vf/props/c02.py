"""C02: the text of an expression has its conventional meaning."""
from andromede.expression import EvaluationContext, evaluate
from andromede.expression.parsing.parse_expression import ModelIdentifiers, parse_expression
from andromede.simulation import build_problem

from vf import lpstub, refparse, spec, symstr
from vf.harness import Harness
from vf.spec import C, Data, MSpec, Study, V

ASSUMPTIONS = ["decimal text is converted to a number by Python's float(); the number is symbolic"]


def prepare_symbolic():
    lpstub.install()
    symstr.install_numbers()


def reader(ctx):
    known = getattr(ctx, "numtexts", None) or {}
    return lambda t: known[t] if t in known else float(t)


def ref_value(a, env):
    op = a[0]
    if op == "lit":
        return a[1]
    if op in ("var", "par"):
        return env[a[1]]
    if op == "neg":
        return -ref_value(a[1], env)
    l, r = ref_value(a[1], env), ref_value(a[2], env)
    return l + r if op == "+" else l - r if op == "-" else l * r if op == "*" else l / r


SPACES = ["", " ", "\n\t "]


def h_infix(ctx, n, ops, nparen, leaves, spaces):
    """operand (op operand)*, signs, parentheses."""
    k = ctx.choose("terms", n) + 1
    names = ["x", "p", "y_1", "T0", "sum_", "t1"][:k]
    env = {}
    toks = []  # one list of tokens per operand
    for i, nm in enumerate(names):
        kind = ctx.pick("leaf", leaves) if i < 2 else "id"
        if kind == "num":
            t, _ = symstr.number(ctx, "num")
        else:
            t = nm
        toks.append([t])
    for nm in ["x", "p", "y_1", "T0", "sum_", "t1"]:
        env[nm] = ctx.nonzero("v_" + nm, 1, 1000)
    opers = [ctx.pick("op", ops) for _ in range(k - 1)]
    neg = ctx.choose("sign", k + 1)  # one signed operand
    if neg:
        toks[neg - 1].insert(0, "-")
    signgroup = ctx.flag("sign_before_group") if nparen else False
    for q in range(nparen):
        a = ctx.choose("open", k)
        b = a + ctx.choose("close", k - a)
        toks[a] = (["-"] if signgroup and q == 0 else []) + ["("] + toks[a]
        toks[b] = toks[b] + [")"]
    sp = ctx.pick("space", spaces)
    flat = list(toks[0])
    for o, t in zip(opers, toks[1:]):
        flat += [o] + t
    text = sp + sp.join(flat) + sp
    try:
        e = refparse.parse(text, {"x", "y_1", "t1"}, {"p", "T0", "sum_"}, reader(ctx))
    except refparse.Bad:
        ctx.assume(False)  # crossed parentheses
    try:
        want = ref_value(e, env)
    except ZeroDivisionError:
        ctx.assume(False)
    node = parse_expression(text, ModelIdentifiers({"x", "y_1", "t1"}, {"p", "T0", "sum_"}))
    ec = EvaluationContext(
        variables={v: env[v] for v in ("x", "y_1", "t1")}, parameters={v: env[v] for v in ("p", "T0", "sum_")}
    )
    ctx.check_close(evaluate(node, ec), want, f"value of {text!r}")
    ctx.cover("end")


def _study(ctx, ast, node, T, S, cmp="<="):
    m = MSpec(
        "m",
        params={"p": (True, False), "k": (False, False), "j": (False, False)},
        vars={"x": V((True, True)), "y": V((True, False)), "z": V((False, False))},
        constraints=[],
    )
    if ast[0] == "cmp":
        m.constraints = [C("c", ("node", node.left, ast[2]), ast[1], ("node", node.right, ast[3]))]
    else:
        # compared with a variable of the same timestep and scenario, so that rows are told apart
        d = spec.dep(spec.Env(T, S, list(range(T)), {"G": m}, {}), "G", ast)
        m.vars["w"] = V(d)
        m.constraints = [C("c", ("node", node, ast), cmp, ("var", "w"))]
    st = Study({"G": m})
    st.values = {
        ("G", "p"): Data("time", [ctx.nonzero(f"p{t}", 1, 100) for t in range(T)]),
        ("G", "k"): Data("const", ctx.intreal("k", 1, 3)),
        ("G", "j"): Data("const", ctx.intreal("j", 2, 2)),
    }
    return st


VARS, PARS = {"x", "y", "z"}, {"p", "k", "j"}


def check_text(ctx, text, T, S):
    ast = refparse.parse(text, VARS, PARS, reader(ctx))
    node = parse_expression(text, ModelIdentifiers(VARS, PARS))
    st = _study(ctx, ast, node, T, S)
    try:
        P = spec.expected(st, list(range(T)), S)
    except (spec.Unspecified, spec.NonLinear, ZeroDivisionError):
        ctx.assume(False)
    problem = build_problem(st.network(), st.database(), spec.block(range(T)), S)
    sv = spec.check_vars(ctx, problem, P)
    spec.check_rows(ctx, P.rows, problem.solver.constraints(), sv, f"{text!r}: constraint")
    ctx.cover("end")


def shift_text(ctx, nterms, atoms):
    """t, t+a, t-a*b/c ...: integer valued shifts."""
    n = ctx.choose("shift_terms", nterms + 1)
    out = ["t"]
    for i in range(n):
        out.append(ctx.pick("sop", ["+", "-"] if i == 0 else ["+", "-", "*", "/"]))
        out.append(ctx.pick("atom", atoms))
    return "".join(out)


def _integral(ctx, a):
    """No fractional intermediate shift (rounding is not specified)."""
    return a


def h_shift(ctx, T, S, nterms, atoms, operands):
    operand = ctx.pick("operand", operands)
    sh = shift_text(ctx, nterms, atoms)
    text = f"{operand}[{sh}]"
    if "/" in sh:
        ast = refparse.parse(text, VARS, PARS)
        env = spec.Env(T, S, list(range(T)), {"G": None}, {})
        if not _whole(ast[2]):
            ctx.assume(False)
    check_text(ctx, text, T, S)


def _whole(a):
    """The literal shift has integer value (parameters have no division)."""
    def val(a):
        if isinstance(a, int):
            return a
        if a[0] == "lit":
            return a[1]
        if a[0] == "par":
            return 2.0 if a[1] == "j" else None
        if a[0] == "neg":
            v = val(a[1])
            return None if v is None else -v
        l, r = val(a[1]), val(a[2])
        if l is None or r is None:
            return None
        return l + r if a[0] == "+" else l - r if a[0] == "-" else l * r if a[0] == "*" else (l / r if r else None)

    v = val(a)
    return v is not None and v == int(v)


def h_forms(ctx, T, S, depth):
    """Nested time and scenario forms around sums and products."""
    inner = ctx.pick("inner", ["x", "p*x", "x - y", "2*(x+p)", "-x + p", "x[t-1] - p", "z + y[1]"])
    text = inner
    for d in range(depth):
        form = ctx.pick(
            "form",
            ["none", "paren", "sum", "expec", "tsum", "shift", "index", "neg", "coef", "minus"],
        )
        if form in ("tsum", "shift", "index") and ("sum(x" in text or "[1]" in text or "sum((" in text or "sum(-" in text):
            ctx.assume(False)
        if form == "paren":
            text = f"({text})"
        elif form == "sum":
            text = f"sum({text})"
        elif form == "expec":
            text = f"expec({text})"
        elif form == "tsum":
            lo = ctx.pick("lo", ["t", "t-1", "t+1", "t - k"])
            hi = ctx.pick("hi", ["t", "t+1", "t + (k-1)"])
            text = f"sum({lo} .. {hi}, {text})"
        elif form == "shift":
            text = f"({text})[t{ctx.pick('by', ['', '-1', '+1', ' + 2', ' + k', '- j + 1'])}]"
        elif form == "index":
            text = f"({text})[{ctx.pick('at', ['0', 'k', 'j-1', '2*k/2'])}]"
        elif form == "neg":
            text = f"-({text})"
        elif form == "coef":
            text = f"p * ({text}) / 2"
        elif form == "minus":
            text = f"z - ({text}) + 1"
    ast = refparse.parse(text, VARS, PARS)
    if _time_on_evaluated(ast):
        ctx.assume(False)
    check_text(ctx, text, T, S)


def _time_on_evaluated(a):
    from vf.gen import evaluated

    if a[0] in ("shift", "eval", "tsum") and evaluated(a[1]):
        return True
    return any(isinstance(x, tuple) and _time_on_evaluated(x) for x in a[1:])


def h_indices(ctx, T, S):
    """A time index directly after an identifier or a parenthesised expression: the absolute timestep of the block."""
    operand = ctx.pick("operand", ["x", "y", "p", "(x)", "(p*x)", "(x + y)"])
    at = ctx.pick("at", ["0", "1", "2", "k", "k-1", "j", "2*1", "3-k", "(k)", "-1", "4/2", "j*1-2", "-k", "-j", "-(k)", "-k+2", "-(k+1)", "k*j", "2-j", "j/1"])
    text = f"{operand}[{at}]"
    text = ctx.pick("around", ["{}", "{} - y", "z + 2*{}", "p*{}"]).format(text)
    check_text(ctx, text, T, S)


def h_compare(ctx, T, S):
    """Comparisons are looser than arithmetic."""
    op = ctx.pick("cmp", ["<=", ">=", "="])
    l = ctx.pick("l", ["x", "x + y", "p*x - 1", "-x", "sum(x)", "x[t-1]", "3", "(x)"])
    r = ctx.pick("r", ["0", "p", "y - p", "2 * y + 1", "-1", "y[t+1] - x", "(y + 1) * k", "sum(t..t+1, y)"])
    check_text(ctx, l + ctx.pick("sp", ["", " "]) + op + r, T, S)


NUMBERS = ["0", "7", "007", "10", "2.5", "0.125", "12.50", "100000", "123456789", "1234567890123456", "98765432.123456", "0.00000000012345", "3.14159265358979", "1000000000000000000000"]


def h_numbers(ctx):
    """Every digit of a number counts."""
    a, b = ctx.pick("a", NUMBERS), ctx.pick("b", NUMBERS)
    x, p = ctx.real("x", -100, 100), ctx.real("p", 1, 100)
    form, f = ctx.pick(
        "form",
        [
            ("{a}*x+{b}", lambda a, b: a * x + b),
            ("-{a} - x * {b}", lambda a, b: -a - x * b),
            ("({a} + x) * p - {b}", lambda a, b: (a + x) * p - b),
            ("x/p*{a}-{b}/p", lambda a, b: x / p * a - b / p),
        ],
    )
    text = form.format(a=a, b=b)
    node = parse_expression(text, ModelIdentifiers({"x"}, {"p"}))
    got = evaluate(node, EvaluationContext(variables={"x": x}, parameters={"p": p}))
    scale = max(float(a), float(b)) or 1.0
    ctx.check_close(got / scale, f(float(a), float(b)) / scale, f"value of {text!r}")
    ctx.cover("end")


def h_ports(ctx, T, S, maxn):
    """Port fields and sums over connections."""
    form = ctx.pick("form", ["sum_connections(q.f)", "2*sum_connections( q.f ) - z", "z - sum_connections(q.g)", "r.f", "z + r.f*k"])
    single = "r." in form
    n = 1 if single else ctx.choose("n", maxn + 1)
    pt = ("pt", ["f", "g"])
    ids = ModelIdentifiers({"z"}, {"k"})
    hub = MSpec("hub", params={"k": (False, False)}, vars={"z": V((True, True))}, ports={"q": pt, "r": pt})
    ast = refparse.parse(form, {"z"}, {"k"})
    hub.constraints = [C("c", ("node", parse_expression(form, ids), ast), "=", ("lit", 0.0))]
    leafm = MSpec("leaf", params={"a": (False, False)}, vars={"u": V((True, True)), "w": V((True, False))}, ports={"o": pt})
    ids2 = ModelIdentifiers({"u", "w"}, {"a"})
    for f, t in (("f", "a*u - w"), ("g", "-(u + a)")):
        leafm.defs[("o", f)] = ("node", parse_expression(t, ids2), refparse.parse(t, {"u", "w"}, {"a"}))
    st = Study({"H": hub}, nodes=("H",))
    st.values[("H", "k")] = Data("const", ctx.real("k", 1, 10))
    for i in range(n):
        st.comps[f"L{i}"] = leafm
        st.values[(f"L{i}", "a")] = Data("const", ctx.real(f"a{i}", 1, 10))
        st.links.append((f"L{i}", "o", "H", "r" if single else "q"))
    P = spec.expected(st, list(range(T)), S)
    problem = build_problem(st.network(), st.database(), spec.block(range(T)), S)
    sv = spec.check_vars(ctx, problem, P)
    spec.check_rows(ctx, P.rows, problem.solver.constraints(), sv, f"{form!r}: constraint")
    ctx.cover("end")


HARNESSES = [
    Harness(
        "infix",
        h_infix,
        "1 to n operands (identifiers, numbers of symbolic value) joined by + - * /, one signed operand, `nparen` "
        "parenthesised ranges (possibly signed), three spacing styles; symbolic values of every operand",
        quick=dict(n=4, ops=["+", "-", "*", "/"], nparen=1, leaves=["id"], spaces=SPACES[:1]),
        thorough=dict(n=5, nparen=1),
        covers=["end"],
    ),
    Harness(
        "infix_forms",
        h_infix,
        "as infix with numbers, nested parentheses and every spacing style, 3 operands",
        quick=dict(n=3, ops=["-", "/", "*"], nparen=2, leaves=["id", "num"], spaces=SPACES[1:]),
        thorough=dict(n=4, nparen=2, spaces=SPACES),
        covers=["end"],
    ),
    Harness(
        "shifts",
        h_shift,
        "x[t ...] with up to nterms signed terms in the shift (numbers, parameters, parentheses; integer valued), block of T timesteps",
        quick=dict(T=5, S=1, nterms=3, atoms=["1", "12", "k", "(k-3)", "(1+j)"], operands=["x"]),
        thorough=dict(nterms=3, atoms=["1", "2", "12", "k", "(k-3)", "j", "(2*j)", "(1+j)", "(-k)"], operands=["x", "(x + p)", "(p*y)"]),
        covers=["end"],
    ),
    Harness(
        "forms",
        h_forms,
        "`depth` nested forms among sum, windowed sum, expectation, shift, evaluation, sign, products over 7 operands",
        quick=dict(T=3, S=2, depth=2),
        thorough=dict(T=4, S=2, depth=2),
        covers=["end"],
    ),
    Harness(
        "indices",
        h_indices,
        "x[n]: 6 operands, 12 forms of the index (literals from -1, parameters, arithmetic), alone or inside an expression",
        quick=dict(T=4, S=1),
        thorough=dict(T=5, S=2),
        covers=["end"],
    ),
    Harness(
        "comparisons",
        h_compare,
        "left and right members among 8 shapes each, three comparators",
        quick=dict(T=2, S=1),
        thorough=dict(T=3, S=2),
        covers=["end"],
    ),
    Harness("numbers", h_numbers, "two numbers among 14 (up to 22 digits) in 4 expressions, symbolic values of the names", covers=["end"]),
    Harness(
        "ports",
        h_ports,
        "port fields and connection sums over up to maxn connections",
        quick=dict(T=2, S=1, maxn=3),
        thorough=dict(T=2, S=2, maxn=4),
        covers=["end"],
    ),
]
