"""Selector-driven generators of specification expressions."""
from vf.spec import INF

STRUCTS = [(True, True), (True, False), (False, True), (False, False)]


def leaf(ctx, vars_, params, lits=True, tag="leaf"):
    opts = [("var", v) for v in vars_] + [("par", p) for p in params]
    if lits:
        opts.append("lit")
    o = ctx.pick(tag, opts)
    if o == "lit":
        return ("lit", ctx.real("lit", -100, 100))
    return o


def has_var(a):
    if a[0] == "var":
        return True
    if a[0] in ("pf", "pfsum"):
        return True
    return any(isinstance(x, tuple) and has_var(x) for x in a[1:])


def evaluated(a):
    """Contains an already evaluated time (x[0], sum over all timesteps)."""
    if a[0] in ("eval", "sumall"):
        return True
    return any(isinstance(x, tuple) and evaluated(x) for x in a[1:])


def arith(ctx, depth, vars_, params, ops=("+", "-", "*", "/", "neg"), lits=True):
    """Linear arithmetic expressions of bounded depth."""
    if depth == 0:
        return leaf(ctx, vars_, params, lits)
    op = ctx.pick("op", ("leaf",) + tuple(ops))
    if op == "leaf":
        return leaf(ctx, vars_, params, lits)
    a = arith(ctx, depth - 1, vars_, params, ops, lits)
    if op == "neg":
        return ("neg", a)
    if op == "*" and has_var(a):
        b = arith(ctx, depth - 1, (), params, ops, lits)
        return (op, a, b)
    if op == "/":
        b = arith(ctx, 0, (), params, ops, lits)
        return (op, a, b)
    b = arith(ctx, depth - 1, vars_, params, ops, lits)
    return (op, a, b)


def timeop(ctx, a, ops, kmax, param_bounds=(), wsum=2):
    """Wraps a in one time or scenario operator."""
    ops = [o for o in ops if not (evaluated(a) and o in ("shift", "eval", "tsum"))]
    op = ctx.pick("top", ops)
    if op == "none":
        return a
    if op == "shift":
        return ("shift", a, bound(ctx, -kmax, kmax, param_bounds))
    if op == "eval":
        return ("eval", a, bound(ctx, -kmax, kmax, param_bounds))
    if op == "tsum":
        lo = ctx.int("from", -kmax, kmax)
        w = ctx.int("width", -1, wsum)
        return ("tsum", a, lo, lo + w)
    return (op, a)


def bound(ctx, lo, hi, param_bounds):
    if param_bounds and ctx.flag("bound_is_param"):
        return ("par", ctx.pick("bpar", param_bounds))
    return ctx.int("k", lo, hi)
