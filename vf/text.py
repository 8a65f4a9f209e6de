"""Prints the specification's expressions and models in the language of model files."""

PREC = {"+": 1, "-": 1, "*": 2, "/": 2}


def expr(a, full=False):
    return _p(a, 0, full)


def _wrap(s, yes):
    return f"({s})" if yes else s


def _num(v):
    return repr(int(v)) if float(v) == int(v) else repr(float(v))


def _k(k):
    return k if isinstance(k, int) else None


def _shift(k):
    if k == 0:
        return "t+0"
    return f"t+{k}" if k > 0 else f"t-{-k}"


def _p(a, prec, full):
    op = a[0]
    if op == "lit":
        return _wrap(_num(a[1]), a[1] < 0) if a[1] >= 0 else f"(-{_num(-a[1])})"
    if op in ("var", "par"):
        return a[1]
    if op == "neg":
        return f"(-{_p(a[1], 3, full)})"
    if op in PREC:
        q = PREC[op]
        return _wrap(f"{_p(a[1], q, full)} {op} {_p(a[2], q + 1, full)}", full or prec > q)
    if op == "shift":
        return f"{_atom(a[1], full)}[{_shift(a[2])}]"
    if op == "eval":
        return f"{_atom(a[1], full)}[{a[2]}]"
    if op == "tsum":
        return f"sum({_shift(a[2])} .. {_shift(a[3])}, {_p(a[1], 0, full)})"
    if op == "sumall":
        return f"sum({_p(a[1], 0, full)})"
    if op == "expec":
        return f"expec({_p(a[1], 0, full)})"
    if op == "pf":
        return f"{a[1]}.{a[2]}"
    if op == "pfsum":
        return f"sum_connections({a[1]}.{a[2]})"
    raise ValueError(op)


def _atom(a, full):
    return a[1] if a[0] in ("var", "par") else f"({_p(a, 0, full)})"


def q(s):
    return '"' + s + '"'


def model_yaml(m, explicit=True, full=False):
    """YAML of an MSpec; explicit=False leaves out what has its default value."""

    def flags(struct, default):
        out = []
        for n, v, d in (("time-dependent", struct[0], default[0]), ("scenario-dependent", struct[1], default[1])):
            if explicit or v != d:
                out.append(f"          {n}: {'true' if v else 'false'}")
        return out

    out = [f"    - id: {m.id}"]
    if m.params:
        out.append("      parameters:")
        for n, st in m.params.items():
            out += [f"        - id: {n}"] + flags(st, (False, False))
    if m.vars:
        out.append("      variables:")
        for n, v in m.vars.items():
            out += [f"        - id: {n}"] + flags(v.struct, (True, True))
            for k, b in (("lower-bound", v.lb), ("upper-bound", v.ub)):
                if b is not None:
                    t = expr(b, full)
                    out.append(f"          {k}: {t if b[0] == 'lit' and b[1] >= 0 else q(t)}")
            if explicit or v.type != "float":
                out.append(f"          variable-type: {'integer' if v.type == 'int' else 'continuous'}")
    if m.ports:
        out.append("      ports:")
        for n, (tid, _) in m.ports.items():
            out += [f"        - id: {n}", f"          type: {tid}"]
    if m.defs:
        out.append("      port-field-definitions:")
        for (p, f), d in m.defs.items():
            out += [f"        - port: {p}", f"          field: {f}", f"          definition: {q(expr(d, full))}"]
    for key, cs in (("binding-constraints", m.binding), ("constraints", m.constraints)):
        if cs:
            out.append(f"      {key}:")
            for c in cs:
                e = expr(c.expr, full)
                if c.cmp:
                    e += f" {c.cmp} {expr(c.rhs, full)}"
                out += [f"        - id: {c.name}", f"          expression: {q(e)}"]
                for k, b in (("lower-bound", c.lb), ("upper-bound", c.ub)):
                    if b is not None:
                        out.append(f"          {k}: {q(expr(b, full))}")
    if m.obj:
        out.append(f"      objective: {q(expr(m.obj, full))}")
    return "\n".join(out)


def library_yaml(lid, models, ports=(), deps=(), **kw):
    out = ["library:", f"  id: {lid}"]
    if deps:
        out.append("  dependencies: [" + ", ".join(deps) + "]")
    if ports:
        out.append("  port-types:")
        for p, fields in ports:
            out += [f"    - id: {p}", "      fields:"] + [f"        - id: {f}" for f in fields]
    if models:
        out.append("  models:")
        out += [model_yaml(m, **kw) for m in models]
    return "\n".join(out) + "\n"
