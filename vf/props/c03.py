"""C03: text that is not an expression of the language is rejected; the rest is accepted."""
from andromede.expression import EvaluationContext, ExpressionNode, evaluate
from andromede.expression.parsing.parse_expression import (
    AntaresParseException,
    ModelIdentifiers,
    parse_expression,
)

from vf import refparse, symstr
from vf.harness import Harness
from vf.props.c02 import ref_value

VARS, PARS = {"x", "y"}, {"p"}


def prepare_symbolic():
    symstr.install()
    symstr.install_numbers()


def _arith(a):
    return a[0] in ("lit", "var", "par") or (a[0] in ("neg", "+", "-", "*", "/") and all(_arith(b) for b in a[1:]))


def run(ctx, text, concrete):
    """concrete() gives the text once the code has run."""
    try:
        node = parse_expression(text, ModelIdentifiers(VARS, PARS))
        err = None
    except AntaresParseException as e:
        node, err = None, e
    text = concrete()
    if text is None:  # contains a character outside of ASCII
        ref = None
    else:
        try:
            ref = refparse.parse(text, VARS, PARS)
        except refparse.Unclear:
            ctx.assume(False)
        except refparse.Bad:
            ref = None
    if ref is None:
        if err is None:
            ctx.fail(f"malformed text {text!r} was accepted as {node}")
        ctx.cover("rejected")
        return
    if err is not None:
        ctx.fail(f"valid text {text!r} was rejected: {err}")
    if not isinstance(node, ExpressionNode):
        ctx.fail(f"{text!r} was parsed to {node!r}")
    ctx.cover("accepted")
    if _arith(ref):
        env = {n: ctx.real(n, 1, 100) for n in ("x", "y", "p")}
        try:
            want = ref_value(ref, env)
        except ZeroDivisionError:
            return
        ec = EvaluationContext(variables={"x": env["x"], "y": env["y"]}, parameters={"p": env["p"]})
        ctx.check_close(evaluate(node, ec), want, f"value of {text!r}")


def char(ctx, lo, hi=128):
    """An ASCII code, or any code beyond ASCII (symbolic)."""
    k = ctx.choose("code", hi - lo + (hi == 128))
    if lo + k < 128:
        return lo + k
    return ctx.int("unicode", 128, 0x10FFFF)


BASES = ["x + 2.5*p", "x[t-1]", "sum(t .. t+1, x)", "expec(x)<=y", "(x-y)[0]", "-x"]


def h_chars(ctx, bases, nchars):
    """Arbitrary characters inserted in, or replacing characters of, a text."""
    base = ctx.pick("base", bases)
    items = list(base)
    codes = []
    for q in range(nchars):
        pos = ctx.choose("pos", len(items) + 1)
        c = char(ctx, 1)
        codes.append(c)
        if pos < len(items) and ctx.flag("replace"):
            items[pos] = c
        else:
            items.insert(pos, c)
    text = symstr.mk(ctx, items)

    def concrete():
        out = []
        for it in items:
            if isinstance(it, str):
                out.append(it)
            else:
                if it > 127:
                    return None
                out.append(chr(it))
        return "".join(out)

    run(ctx, text, concrete)


TOKENS = ["x", "p", "2", "u", "t", "+", "*", "(", ")", "[", "]", "..", ",", "sum", "expec", "<=", ".", "sum_connections", "1.5"]


def h_tokens(ctx, n, toks, head=""):
    k = ctx.choose("n", n + 1)
    text = head + " ".join(ctx.pick("tok", toks) for _ in range(k))
    run(ctx, text, lambda: text)


def h_drop(ctx, texts):
    """One token removed from, or duplicated in, a valid text."""
    text = ctx.pick("text", texts)
    toks = [t[1] for t in refparse.tokens(text)]
    i = ctx.choose("at", len(toks))
    what = ctx.pick("what", ["drop", "dup", "swap", "end", "start"])
    if what == "drop":
        toks = toks[:i] + toks[i + 1 :]
    elif what == "dup":
        toks = toks[: i + 1] + toks[i:]
    elif what == "swap" and i + 1 < len(toks):
        toks[i], toks[i + 1] = toks[i + 1], toks[i]
    elif what == "end":
        toks = toks[:i]
    elif what == "start":
        toks = toks[i:]
    text = " ".join(toks)
    run(ctx, text, lambda: text)


def h_names(ctx, length):
    """Identifiers with symbolic characters are known variables, parameters or rejected."""
    n = ctx.choose("len", length) + 1
    codes = [char(ctx, 48, 123) for _ in range(n)]
    form = ctx.pick("form", ["{}", "2*{}", "{}[t-1]", "x + {}", "x[{}]", "{}(x)"])
    pre, post = form.split("{}")
    text = symstr.mk(ctx, [pre] + codes + [post])
    run(ctx, text, lambda: pre + "".join(chr(c) for c in codes) + post)


WORDS = [
    "inf", "nan", "Infinity", "e5", "E5", "_", "_1", "True", "None", "X", "Y", "P", "xx", "x1", "x_", "T", "t1", "xt", "tx",
    "variance", "time_sum", "time_eval", "shift", "eval", "expec", "Expec", "expec1", "expectation", "sum", "Sum", "sum1", "sum_connections", "sum_connection",
    "max", "min", "abs", "neg", "mean", "operand", "name", "value", "sqrt", "1x", "2e", "0x1", "1e3", "1_0", "1j", "x.x", "pi",
]


def h_words(ctx, words):
    """Words that could be mistaken for a name, a number or a function of the language."""
    text = ctx.pick("form", ["{}", "-{}", "{}(x)", "x*{}", "{}[t-1]", "{}[0]", "x[t+{}]", "{}(t .. t+1, x)", "{}()", "x <= {}"]).format(ctx.pick("word", words))
    run(ctx, text, lambda: text)


DROPS = [
    "x + 2 * (y - p)",
    "sum(t - 1 .. t + p, x)",
    "(x + y)[t - p * 2]",
    "(x)[0] - y[t]",
    "expec(x) <= sum(y)",
    "sum_connections(a.b) + a.b",
    "x[t + (p - 1) / 2] * 3",
]

HARNESSES = [
    Harness(
        "characters",
        h_chars,
        "nchars arbitrary Unicode characters inserted in or replacing any character of the base texts",
        quick=dict(bases=BASES, nchars=1),
        thorough=dict(bases=["x+2", "-x", "x[t]"], nchars=2),
        covers=["rejected", "accepted"],
    ),
    Harness(
        "tokens",
        h_tokens,
        "every sequence of at most n tokens of the alphabet",
        quick=dict(n=3, toks=TOKENS),
        thorough=dict(n=4, toks=TOKENS),
        covers=["rejected", "accepted"],
    ),
    Harness(
        "brackets",
        h_tokens,
        "every sequence of at most n tokens after `x [`",
        quick=dict(n=4, toks=["t", "+", "-", "*", "2", "p", "(", ")", "]"], head="x [ "),
        thorough=dict(n=5),
        covers=["rejected", "accepted"],
    ),
    Harness(
        "edits",
        h_drop,
        "one token dropped, duplicated or swapped, or the text cut, in 7 valid texts",
        quick=dict(texts=DROPS),
        covers=["rejected", "accepted"],
    ),
    Harness(
        "words",
        h_words,
        "50 words close to names, numbers or functions, in ten forms",
        quick=dict(words=WORDS),
        covers=["rejected", "accepted"],
    ),
    Harness(
        "names",
        h_names,
        "identifiers of 1 to `length` symbolic characters (code 48 to 122) in six forms",
        quick=dict(length=2),
        thorough=dict(length=3),
        covers=["rejected", "accepted"],
    ),
]
