"""
Reference semantics (independent of the code under test) of models, networks
and of the optimisation problem they stand for, plus builders that hand the
same description to the real code through its public interfaces.

Expressions of the specification are tuples:
  ("lit", v) ("var", n) ("par", n) ("neg", a) ("+", a, b) ("-", a, b)
  ("*", a, b) ("/", a, b) ("shift", a, k) ("eval", a, k) ("tsum", a, k1, k2)
  ("sumall", a) ("expec", a) ("pf", port, field) ("pfsum", port, field)
where k is a number or a constant expression.
"""
import math
from dataclasses import dataclass, field

import pandas as pd
import z3

from vf import sym

from andromede.expression import literal, param, var
from andromede.expression.expression import port_field
from andromede.expression.indexing_structure import IndexingStructure
from andromede.model import (
    Constraint,
    ModelPort,
    PortField,
    PortType,
    ProblemContext,
    float_parameter,
    float_variable,
    int_variable,
    model,
)
from andromede.model.variable import bool_var
from andromede.model.port import port_field_def
from andromede.simulation import TimeBlock
from andromede.study import (
    ConstantData,
    DataBase,
    Network,
    Node,
    PortRef,
    ScenarioIndex,
    ScenarioSeriesData,
    TimeIndex,
    TimeScenarioSeriesData,
    TimeSeriesData,
    create_component,
)

INF = math.inf


class NonLinear(Exception):
    pass


class Unspecified(Exception):
    pass


# ---------------------------------------------------------------------------
# expressions


def isnum(k):
    return not isinstance(k, tuple)


def to_node(a):
    op = a[0]
    if op == "node":
        return a[1]
    if op == "lit":
        return literal(a[1])
    if op == "var":
        return var(a[1])
    if op == "par":
        return param(a[1])
    if op == "neg":
        return -to_node(a[1])
    if op == "+":
        return to_node(a[1]) + to_node(a[2])
    if op == "-":
        return to_node(a[1]) - to_node(a[2])
    if op == "*":
        return to_node(a[1]) * to_node(a[2])
    if op == "/":
        return to_node(a[1]) / to_node(a[2])
    if op == "shift":
        return to_node(a[1]).shift(_k(a[2]))
    if op == "eval":
        return to_node(a[1]).eval(_k(a[2]))
    if op == "tsum":
        return to_node(a[1]).time_sum(_k(a[2]), _k(a[3]))
    if op == "sumall":
        return to_node(a[1]).time_sum()
    if op == "expec":
        return to_node(a[1]).expec()
    if op == "pf":
        return port_field(a[1], a[2])
    if op == "pfsum":
        return port_field(a[1], a[2]).sum_connections()
    raise ValueError(op)


def _k(k):
    return k if isnum(k) else to_node(k)


class Lin:
    """Linear form: coefficients per variable key, and a constant."""

    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = k

    def scale(self, m):
        return Lin({x: v * m for x, v in self.c.items()}, self.k * m)

    def plus(self, o, sign=1):
        c = dict(self.c)
        for x, v in o.c.items():
            if sign < 0:
                v = -v
            c[x] = c[x] + v if x in c else v
        return Lin(c, self.k + o.k if sign > 0 else self.k - o.k)


@dataclass
class Env:
    T: int  # timesteps of the block
    S: int  # number of scenarios
    timesteps: list  # absolute timesteps of the block
    comps: dict  # component id -> MSpec
    values: dict  # (component, parameter) -> Data
    fields: dict = field(default_factory=dict)  # (comp, port, field) -> [(comp2, ast)]
    tree_node: str = ""


def const(env, comp, a):
    """Value of a time bound: constant expression."""
    if isnum(a):
        return toint(a)
    r = denote(env, comp, a, None, None)
    if r.c:
        raise NonLinear()
    return toint(r.k)


def toint(k):
    if isinstance(k, sym.SymReal):
        return sym.SymInt(z3.simplify(k._floor()))
    return k if isinstance(k, sym.SymInt) else int(k)


def denote(env, comp, a, t, s):
    op = a[0]
    if op == "node":  # an expression of the code under test, and its meaning
        return denote(env, comp, a[2], t, s)
    if op == "lit":
        return Lin(None, a[1])
    if op == "var":
        st = env.comps[comp].vars[a[1]].struct
        if st[0] and t is None:
            raise Unspecified("time dependent variable without a time")
        if st[1] and s is None:
            raise Unspecified("scenario dependent variable without a scenario")
        return Lin({(comp, a[1], t % env.T if st[0] else None, s if st[1] else None): 1})
    if op == "par":
        st = env.comps[comp].params[a[1]]
        d = env.values[(comp, a[1])]
        if st[0] and t is None:
            raise Unspecified("time dependent parameter without a time")
        if st[1] and s is None:
            raise Unspecified("scenario dependent parameter without a scenario")
        return Lin(None, d.at(env.timesteps[t % env.T] if st[0] else None, s if st[1] else None))
    if op == "neg":
        return denote(env, comp, a[1], t, s).scale(-1)
    if op in "+-":
        return denote(env, comp, a[1], t, s).plus(denote(env, comp, a[2], t, s), 1 if op == "+" else -1)
    if op == "*":
        l, r = denote(env, comp, a[1], t, s), denote(env, comp, a[2], t, s)
        if l.c and r.c:
            raise NonLinear()
        return r.scale(l.k) if not l.c else l.scale(r.k)
    if op == "/":
        l, r = denote(env, comp, a[1], t, s), denote(env, comp, a[2], t, s)
        if r.c:
            raise NonLinear()
        return Lin({x: v / r.k for x, v in l.c.items()}, l.k / r.k)
    if op == "shift":
        return denote(env, comp, a[1], t + const(env, comp, a[2]), s)
    if op == "eval":
        return denote(env, comp, a[1], const(env, comp, a[2]), s)
    if op == "tsum":
        res = Lin()
        lo, hi = const(env, comp, a[2]), const(env, comp, a[3])
        k = int(lo)
        while k <= hi:
            res = res.plus(denote(env, comp, a[1], t + k, s))
            k += 1
        return res
    if op == "sumall":
        res = Lin()
        for k in range(env.T):
            res = res.plus(denote(env, comp, a[1], k, s))
        return res
    if op == "expec":
        res = Lin()
        for k in range(env.S):
            res = res.plus(denote(env, comp, a[1], t, k))
        n = env.S
        return Lin({x: v / n for x, v in res.c.items()}, res.k / n)
    if op in ("pf", "pfsum"):
        defs = env.fields.get((comp, a[1], a[2]), [])
        if op == "pf" and len(defs) != 1:
            raise Unspecified("port field without exactly one definition")
        res = Lin()
        for c2, d in defs:
            res = res.plus(denote(env, c2, d, t, s))
        return res
    raise ValueError(op)


def dep(env, comp, a):
    """(depends on time, depends on scenario): exact syntactic dependency."""
    op = a[0]
    if op == "node":
        return dep(env, comp, a[2])
    if op == "lit":
        return (False, False)
    if op == "var":
        return tuple(env.comps[comp].vars[a[1]].struct)
    if op == "par":
        return tuple(env.comps[comp].params[a[1]])
    if op in ("neg", "shift", "tsum"):
        return dep(env, comp, a[1])
    if op in ("+", "-", "*", "/"):
        l, r = dep(env, comp, a[1]), dep(env, comp, a[2])
        return (l[0] or r[0], l[1] or r[1])
    if op in ("eval", "sumall"):
        return (False, dep(env, comp, a[1])[1])
    if op == "expec":
        return (dep(env, comp, a[1])[0], False)
    if op in ("pf", "pfsum"):
        res = (False, False)
        for c2, d in env.fields.get((comp, a[1], a[2]), []):
            x = dep(env, c2, d)
            res = (res[0] or x[0], res[1] or x[1])
        return res
    raise ValueError(op)


# ---------------------------------------------------------------------------
# data


@dataclass
class Data:
    """Values of one parameter: kind in const/time/scen/ts."""

    kind: str
    v: object

    def at(self, t, s):
        if self.kind == "const":
            return self.v
        if self.kind == "time":
            return self.v[t]
        if self.kind == "scen":
            return self.v[s]
        return self.v[t][s]

    def real(self):
        if self.kind == "const":
            return ConstantData(self.v)
        if self.kind == "time":
            return TimeSeriesData({TimeIndex(t): v for t, v in enumerate(self.v)})
        if self.kind == "scen":
            return ScenarioSeriesData({ScenarioIndex(s): v for s, v in enumerate(self.v)})
        return TimeScenarioSeriesData(frame(self.v))


def frame(rows):
    from vf.sym import Sym

    if any(isinstance(v, Sym) for r in rows for v in r):
        return pd.DataFrame(rows, dtype=object)
    return pd.DataFrame(rows)


NZ = object()  # data of either sign, not close to zero


def data_for(ctx, name, struct, nt, ns, lo=-1000, hi=1000, kind=None):
    """Symbolic data for a parameter of this structure (lo=NZ: either sign, at least 1)."""
    if lo is NZ:
        real = lambda n, lo, hi: ctx.nonzero(n, 1, hi)
    else:
        real = ctx.real
    if kind is None:
        kind = {(False, False): "const", (True, False): "time", (False, True): "scen", (True, True): "ts"}[tuple(struct)]
    if kind == "const":
        return Data(kind, real(name, lo, hi))
    if kind == "time":
        return Data(kind, [real(f"{name}_{t}", lo, hi) for t in range(nt)])
    if kind == "scen":
        return Data(kind, [real(f"{name}_{s}", lo, hi) for s in range(ns)])
    return Data(kind, [[real(f"{name}_{t}_{s}", lo, hi) for s in range(ns)] for t in range(nt)])


# ---------------------------------------------------------------------------
# models

OP, INV, COUP = ProblemContext.OPERATIONAL, ProblemContext.INVESTMENT, ProblemContext.COUPLING


@dataclass
class V:
    struct: tuple = (True, True)
    lb: object = None
    ub: object = None
    type: str = "float"
    context: object = OP


@dataclass
class C:
    name: str
    expr: tuple
    cmp: str = ""  # "<=", ">=", "=" then rhs; "" then bounds
    rhs: tuple = None
    lb: tuple = None
    ub: tuple = None
    context: object = OP


@dataclass
class MSpec:
    id: str
    params: dict = field(default_factory=dict)  # name -> (time, scenario)
    vars: dict = field(default_factory=dict)  # name -> V
    constraints: list = field(default_factory=list)
    binding: list = field(default_factory=list)
    obj: tuple = None
    inv_obj: tuple = None
    ports: dict = field(default_factory=dict)  # name -> (type id, [fields])
    defs: dict = field(default_factory=dict)  # (port, field) -> expr

    def build(self):
        return model(
            id=self.id,
            parameters=[_parameter(n, st) for n, st in self.params.items()],
            variables=[_variable(n, v) for n, v in self.vars.items()],
            constraints=[_constraint(c) for c in self.constraints],
            binding_constraints=[_constraint(c) for c in self.binding],
            objective_operational_contribution=to_node(self.obj) if self.obj else None,
            objective_investment_contribution=to_node(self.inv_obj) if self.inv_obj else None,
            ports=[ModelPort(PortType(tid, [PortField(f) for f in fs]), n) for n, (tid, fs) in self.ports.items()],
            port_fields_definitions=[port_field_def(p, f, to_node(e)) for (p, f), e in self.defs.items()],
        )


def _variable(n, v):
    """Through the usual constructors, leaving out what has its default value."""
    kw = {}
    if v.type != "bool":
        if v.lb is not None:
            kw["lower_bound"] = to_node(v.lb)
        if v.ub is not None:
            kw["upper_bound"] = to_node(v.ub)
    if tuple(v.struct) != (True, True):
        kw["structure"] = IndexingStructure(*v.struct)
    if v.context is not OP:
        kw["context"] = v.context
    return {"float": float_variable, "int": int_variable, "bool": bool_var}[v.type](n, **kw)


def _parameter(n, st):
    return float_parameter(n) if tuple(st) == (True, True) else float_parameter(n, IndexingStructure(*st))


def _constraint(c):
    e = to_node(c.expr)
    kw = {}
    if c.cmp:
        r = to_node(c.rhs)
        e = e <= r if c.cmp == "<=" else e >= r if c.cmp == ">=" else e == r
    if c.lb is not None:
        kw["lower_bound"] = to_node(c.lb)
    if c.ub is not None:
        kw["upper_bound"] = to_node(c.ub)
    return Constraint(name=c.name, expression=e, context=c.context, **kw)


@dataclass
class Study:
    """Components (in order; nodes first), connections, data."""

    comps: dict  # id -> MSpec
    nodes: tuple = ()  # ids of the nodes among comps
    links: list = field(default_factory=list)  # (comp1, port1, comp2, port2)
    values: dict = field(default_factory=dict)

    def network(self, models=None):
        net = Network("n")
        models = models if models is not None else {}
        objs = {}
        for cid, m in self.comps.items():
            if id(m) not in models:
                models[id(m)] = m.build()
            mod = models[id(m)]
            if cid in self.nodes:
                objs[cid] = Node(model=mod, id=cid)
                net.add_node(objs[cid])
            else:
                objs[cid] = create_component(model=mod, id=cid)
                net.add_component(objs[cid])
        for c1, p1, c2, p2 in self.links:
            net.connect(PortRef(objs[c1], p1), PortRef(objs[c2], p2))
        return net

    def database(self):
        db = DataBase()
        for (c, p), d in self.values.items():
            db.add_data(c, p, d.real())
        return db

    def order(self):
        return [c for c in self.comps if c in self.nodes] + [c for c in self.comps if c not in self.nodes]

    def env(self, timesteps, S):
        e = Env(len(timesteps), S, list(timesteps), self.comps, self.values)
        for c1, p1, c2, p2 in self.links:
            tid, fs = self.comps[c1].ports[p1]
            for f in fs:
                owner = (c1, p1) if (p1, f) in self.comps[c1].defs else (c2, p2)
                d = (owner[0], self.comps[owner[0]].defs[(owner[1], f)])
                for c, p in ((c1, p1), (c2, p2)):
                    e.fields.setdefault((c, p, f), []).append(d)
        return e


# ---------------------------------------------------------------------------
# the problem


@dataclass
class Row:
    hint: str
    lin: Lin
    lb: object
    ub: object


@dataclass
class Prob:
    vars: dict  # key -> (lb, ub, integer)
    rows: list
    obj: Lin
    infeasible_bounds: object = False  # condition


KEEP = {
    "merged": (OP, INV, COUP),
    "investment": (INV, COUP),
    "operational": (OP, COUP),
}


def value(env, comp, a, t, s):
    r = denote(env, comp, a, t, s)
    if r.c:
        raise NonLinear()
    return r.k


def expected(study, timesteps, S, strategy="merged", prob=None):
    env = study.env(timesteps, S)
    T = len(timesteps)
    keep = KEEP[strategy]
    P = Prob({}, [], Lin())
    order = study.order()
    for c in order:
        m = study.comps[c]
        for n, v in m.vars.items():
            if v.context not in keep:
                continue
            for t in range(T) if v.struct[0] else [None]:
                for s in range(S) if v.struct[1] else [None]:
                    lb = -INF if v.lb is None else value(env, c, v.lb, t, s)
                    ub = INF if v.ub is None else value(env, c, v.ub, t, s)
                    if v.type == "bool":
                        lb, ub = 0.0, 1.0
                    P.vars[(c, n, t, s)] = (lb, ub, v.type != "float")
    for c in order:
        m = study.comps[c]
        for k in list(m.binding) + list(m.constraints):
            if k.context not in keep:
                continue
            expr = ("-", k.expr, k.rhs) if k.cmp else k.expr
            lb = ("lit", 0.0) if k.cmp in (">=", "=") else k.lb
            ub = ("lit", 0.0) if k.cmp in ("<=", "=") else k.ub
            d = dep(env, c, expr)
            for b in (lb, ub):
                if b is not None:
                    x = dep(env, c, b)
                    d = (d[0] or x[0], d[1] or x[1])
            for t in range(T) if d[0] else [0]:
                for s in range(S) if d[1] else [0]:
                    lin = denote(env, c, expr, t, s)
                    P.rows.append(
                        Row(
                            f"{c}_{k.name}_t{t}_s{s}",
                            lin,
                            -INF if lb is None else value(env, c, lb, t, s) - lin.k,
                            INF if ub is None else value(env, c, ub, t, s) - lin.k,
                        )
                    )
    for c in order:
        m = study.comps[c]
        for o, kind in ((m.obj, OP), (m.inv_obj, INV)):
            if o is None or (strategy == "investment" and kind is OP) or (strategy == "operational" and kind is INV):
                continue
            lin = denote(env, c, o, None, None)
            P.obj = P.obj.plus(lin if prob is None else lin.scale(prob))
    return P


def solver_vars(problem, P):
    """Solver variable of every expected key."""
    return {k: problem.context.get_component_variable(k[2], k[3], k[0], k[1]) for k in P.vars}


def check_vars(ctx, problem, P):
    solver = problem.solver
    if solver.NumVariables() != len(P.vars):
        ctx.fail(f"{solver.NumVariables()} variables were created, {len(P.vars)} expected")
    idx = set()
    sv = {}
    for k, (lb, ub, integer) in P.vars.items():
        try:
            v = problem.context.get_component_variable(k[2], k[3], k[0], k[1])
        except KeyError:
            ctx.fail(f"no solver variable for {k}")
        sv[k] = v
        idx.add(v.index())
        if bool(v.integer()) != integer:
            ctx.fail(f"integrality of variable {k}: {v.integer()}")
        ctx.check_close(v.lb(), lb, f"lower bound of variable {k}")
        ctx.check_close(v.ub(), ub, f"upper bound of variable {k}")
    if len(idx) != len(P.vars):
        ctx.fail("two model variables share one solver variable")
    return sv


def _pairs(row, cstr, sv):
    pairs = [(cstr.lb(), row.lb), (cstr.ub(), row.ub)]
    for k, v in sv.items():
        pairs.append((cstr.GetCoefficient(v), row.lin.c.get(k, 0)))
    return pairs


def _negated(row):
    return Row(row.hint, row.lin.scale(-1), -row.ub, -row.lb)


def check_rows(ctx, rows, cstrs, sv, what="constraint", signs=False):
    cstrs = list(cstrs)
    if len(rows) != len(cstrs):
        ctx.fail(f"{len(cstrs)} {what}s were created, {len(rows)} expected")
    free = list(cstrs)
    for i, row in enumerate(rows):
        cand = sorted(free, key=lambda c: (c.name() != row.hint, c.index()))
        for c in cand:
            if ctx.all_equal(_pairs(row, c, sv)) or (signs and ctx.all_equal(_pairs(_negated(row), c, sv))):
                free.remove(c)
                break
        else:
            c = cand[0]
            free.remove(c)
            names = ["lower bound", "upper bound"] + [f"coefficient of {k}" for k in sv]
            for (a, b), n in zip(_pairs(row, c, sv), names):
                ctx.check_close(a, b, f"{what} {row.hint}: {n}")


def check_obj(ctx, problem, P, sv):
    obj = problem.solver.Objective()
    for k, v in sv.items():
        ctx.check_close(obj.GetCoefficient(v), P.obj.c.get(k, 0), f"objective coefficient of {k}")
    ctx.check_close(obj.offset(), P.obj.k, "objective offset")
    if obj.maximization():
        ctx.fail("the problem is a maximisation")


def check_problem(ctx, problem, P, signs=False):
    """signs: a row may be written with the opposite sign."""
    sv = check_vars(ctx, problem, P)
    check_rows(ctx, P.rows, problem.solver.constraints(), sv, signs=signs)
    check_obj(ctx, problem, P, sv)
    return sv


def block(timesteps, bid=1):
    return TimeBlock(bid, list(timesteps))
