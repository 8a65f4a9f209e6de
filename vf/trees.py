"""Decision trees for the investment pathway harnesses (C18, C19, C20)."""
from andromede.simulation.decision_tree import DecisionTreeNode, InterDecisionTimeScenarioConfig
from andromede.simulation.time_block import TimeBlock
from andromede.study import ConstantData, DataBase
from andromede.study.data import TreeData

from vf import spec
from vf.spec import COUP, INV, OP, C, Data, MSpec, Study, V

# (number of nodes, parent of each non root node)
SHAPES = {
    "single": [],
    "one": [0],
    "two": [0, 0],
    "chain": [0, 1],
    "mixed": [0, 0, 1],
    "deep": [0, 0, 1, 1],
    "wide": [0, 0, 0],
    "long": [0, 1, 2],
    "third": [0, 0, 0, 3, 3],
}


def children(shape, i):
    return [j + 1 for j, p in enumerate(SHAPES[shape]) if p == i]


def probs(ctx, shape, root=False):
    """Conditional probabilities that are consistent, symbolic where they are free."""
    res = {0: ctx.real("prob0", 0.5, 0.9) if root else 1.0}
    for i in range(len(SHAPES[shape]) + 1):
        ch = children(shape, i)
        left = 1.0
        for k, j in enumerate(ch):
            if k == len(ch) - 1:
                res[j] = left
            else:
                res[j] = ctx.real(f"prob{j}", 0.1, 0.4)
                left = left - res[j]
    return res


def reach(shape, cond, i):
    r = cond[i]
    while i:
        i = SHAPES[shape][i - 1]
        r = r * cond[i]
    return r


NAMES = {"plain": ["root", "n1", "n2", "n3", "n4"], "prefix": ["n", "n1", "n11", "n12", "nn"]}

X, INVV, MAXP = ("var", "x"), ("var", "inv"), ("var", "maxp")


def candidate(ctx, inv_type="float", pairs=1):
    m = MSpec(
        "candidate",
        params={"cost": (False, False), "cap": (False, False), "op": (True, False)},
        vars={
            "x": V((True, True), ("lit", 0.0), None, context=OP),
            "inv": V((False, False), ("lit", 0.0), ("par", "cap"), inv_type, context=INV),
            "maxp": V((False, False), ("lit", -5.0), ("lit", 5000.0), context=COUP),
        },
        constraints=[
            C("limit", X, "<=", MAXP, context=OP),
            C("floor", ("-", MAXP, ("*", ("lit", 2.0), INVV)), "<=", ("par", "cap"), context=INV),
            C("level", MAXP, "<=", ("*", ("lit", 3.0), ("par", "cap")), context=COUP),
        ],
        obj=("expec", ("sumall", ("*", ("par", "op"), X))),
        inv_obj=("+", ("*", ("par", "cost"), INVV), ("par", "cap")),
    )
    if pairs > 1:
        m.vars["inv2"] = V((False, False), ("lit", 0.0), ("par", "cap"), context=INV)
        m.vars["maxp2"] = V((False, False), ("lit", 0.0), None, context=COUP)
    return m


class Pathway:
    """A tree, a network per node, data per node, and the problem it stands for."""

    def __init__(self, ctx, shape, names="plain", inv_type="float", blocks=((0,),), scenarios=1, second=False, treedata=True, pairs=1, vary=False):
        self.ctx, self.shape = ctx, shape
        self.ids = NAMES[names][: len(SHAPES[shape]) + 1]
        self.n = len(self.ids)
        # vary: the root has a probability of its own, each node its own blocks and number of scenarios
        self.cond = probs(ctx, shape, vary)
        self.blocks, self.scenarios = [], []
        for i in range(self.n):
            bs = [list(b) for b in blocks]
            if vary and i % 3 == 1:
                bs = [[max(b) + 1 for b in bs]] + bs
            elif vary and i % 3 == 2:
                bs = bs[:1]
            self.blocks.append(bs)
            self.scenarios.append(scenarios + i % 2 if vary else scenarios)
        self.nt = max(t for bs in self.blocks for b in bs for t in b) + 1
        m = candidate(ctx, inv_type, pairs)
        self.comps = {"C": m}
        if second:
            self.comps["E"] = m
        self.values = []  # per tree node
        shared = {}
        for i in range(self.n):
            v = {}
            for c in self.comps:
                for p, st in m.params.items():
                    per_node = treedata and p != "op"
                    key = (c, p, i if per_node else None)
                    if key not in shared:
                        shared[key] = spec.data_for(ctx, "_".join(map(str, key)), st, self.nt, max(self.scenarios), 1 if p == "cap" else spec.NZ, 1000)
                    v[(c, p)] = shared[key]
            self.values.append(v)
        self.studies = [Study(self.comps, values=v) for v in self.values]
        self.coupled = []

    def database(self):
        db = DataBase()
        for c, p in self.values[0]:
            ds = [v[(c, p)] for v in self.values]
            if all(d is ds[0] for d in ds):
                db.add_data(c, p, ds[0].real())
            else:
                db.add_data(c, p, TreeData({i: d.real() for i, d in zip(self.ids, ds)}))
        return db

    def build_tree(self, order="parent"):
        nets = [s.network({}) for s in self.studies]
        nodes = []
        for i, name in enumerate(self.ids):
            cfg = InterDecisionTimeScenarioConfig([TimeBlock(k + 1, b) for k, b in enumerate(self.blocks[i])], self.scenarios[i])
            parent = nodes[SHAPES[self.shape][i - 1]] if i else None
            nodes.append(DecisionTreeNode(name, cfg, nets[i], parent=parent, prob=self.cond[i]))
        self.nodes = nodes
        return nodes[0]

    def couple(self, i, comp="C", cum="maxp", inc="inv", par=None, parcum=None):
        """Couples node i with its parent (component par, default the same); records the expected row."""
        node = self.nodes[i]
        p = SHAPES[self.shape][i - 1] if i else None
        par, parcum = par or comp, parcum or cum
        pc = self.nodes[p].network.get_component(par) if i else node.network.get_component(par)
        node.define_coupling_constraint(pc, parcum, node.network.get_component(comp), cum, inc)
        self.coupled.append((i, p, comp, cum, inc, par, parcum))

    # ------------------------------------------------------------------
    # expectation

    def reach(self, i):
        return reach(self.shape, self.cond, i)

    def expected_master(self):
        """(variables by name, rows over names, objective over names)."""
        vars_, rows, obj = {}, [], spec.Lin()
        for i, st in enumerate(self.studies):
            P = spec.expected(st, [0], 1, "investment", self.reach(i))
            ren = {k: f"{self.ids[i]}_{k[0]}_{k[1]}" for k in P.vars}
            for k, b in P.vars.items():
                vars_[ren[k]] = b
            for r in P.rows:
                rows.append(spec.Row(r.hint, spec.Lin({ren[k]: v for k, v in r.lin.c.items()}, 0), r.lb, r.ub))
            obj = obj.plus(spec.Lin({ren[k]: v for k, v in P.obj.c.items()}, P.obj.k))
        for i, p, comp, cum, inc, par, parcum in self.coupled:
            c = {f"{self.ids[i]}_{comp}_{cum}": 1, f"{self.ids[i]}_{comp}_{inc}": -1}
            if p is not None:
                c[f"{self.ids[p]}_{par}_{parcum}"] = -1
            rows.append(spec.Row("", spec.Lin(c, 0), 0.0, 0.0))
        return vars_, rows, obj

    def check_master(self, master):
        ctx = self.ctx
        vars_, rows, obj = self.expected_master()
        sv = {}
        for v in master.solver.variables():
            if v.name() in sv:
                ctx.fail(f"two variables named {v.name()}")
            sv[v.name()] = v
        if set(sv) != set(vars_):
            ctx.fail(f"variables of the master: {sorted(sv)}, expected {sorted(vars_)}")
        for n, (lb, ub, integer) in vars_.items():
            ctx.check_close(sv[n].lb(), lb, f"lower bound of {n}")
            ctx.check_close(sv[n].ub(), ub, f"upper bound of {n}")
            ctx.check(bool(sv[n].integer()) == integer, f"integrality of {n}")
        spec.check_rows(ctx, rows, master.solver.constraints(), sv)
        o = master.solver.Objective()
        for n, v in sv.items():
            ctx.check_close(o.GetCoefficient(v), obj.c.get(n, 0), f"objective coefficient of {n}")
        ctx.check_close(o.offset(), obj.k, "objective constant")
        ctx.check(not o.maximization(), "the master is a maximisation")

    def check_subproblems(self, subproblems):
        ctx = self.ctx
        want = [(i, b) for i in range(self.n) for b in self.blocks[i]]
        ctx.check(len(subproblems) == len(want), f"{len(subproblems)} subproblems, expected {len(want)}")
        names = [p.name for p in subproblems]
        ctx.check(len(set(names)) == len(names), f"two subproblems share a name: {names}")
        # identified by the names of their variables; the blocks of a node in their order
        seen = {}
        for p in subproblems:
            owners = [i for i in range(self.n) if any(v.name() == f"{self.ids[i]}_C_maxp" for v in p.solver.variables())]
            ctx.check(len(owners) == 1, f"subproblem {p.name} belongs to {len(owners)} tree nodes")
            seen.setdefault(owners[0], []).append(p)
        for i in range(self.n):
            ctx.check(len(seen.get(i, [])) == len(self.blocks[i]), f"subproblems of node {self.ids[i]}")
            for p, b in zip(seen[i], self.blocks[i]):
                P = spec.expected(self.studies[i], b, self.scenarios[i], "operational", self.reach(i))
                spec.check_problem(ctx, p, P)
