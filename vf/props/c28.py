"""C28: the shipped model libraries mean what they stand for."""
from functools import lru_cache
from pathlib import Path

import andromede.libs
from andromede.model.parsing import parse_yaml_library
from andromede.model.resolve_library import resolve_library
from andromede.simulation import build_problem
from andromede.study.resolve_components import consistency_check

from vf import lpstub, refparse, spec
from vf.harness import Harness
from vf.spec import C, MSpec, Study, V

prepare_symbolic = lpstub.install
FLOW, EMISSION = ("flow", ["flow"]), ("emission", ["emission"])
S = {"": (False, False), "t": (True, False), "s": (False, True), "ts": (True, True)}
INFTY = float("inf")


@lru_cache(maxsize=None)
def lib(path, name):
    with open(Path(andromede.libs.__file__).parent / path) as f:
        return resolve_library([parse_yaml_library(f)])[name]


LIBS = {
    "antares": ("antares_historic/antares_historic.yml", "antares-historic"),
    "v1": ("reference_models/andromede_v1_models.yml", "andromede-v1-models"),
    "pypsa": ("pypsa_models/pypsa_models.yml", "pypsa_models"),
}


def M(id, params="", vars=(), cons=(), binding=(), obj=None, ports=None, defs=None):
    """Model from text: params 'a b:ts'; vars 'name:structure[:type]' -> (lb, ub)."""
    ps = {}
    for p in params.split():
        n, _, st = p.partition(":")
        ps[n] = S[st]
    vs = {}
    for k in vars:
        n, st, *typ = k.split(":")
        vs[n] = V(S[st], type=typ[0] if typ else "float")

    def e(text):
        return refparse.parse(text, set(vs), set(ps)) if text is not None else None

    for k in vars:
        n = k.split(":")[0]
        vs[n].lb, vs[n].ub = (e(x) for x in vars[k])

    def con(name, text):
        c = e(text)
        return C(name, c[2], c[1], c[3])

    return MSpec(
        id,
        params=ps,
        vars=vs,
        constraints=[con(*x) for x in dict(cons).items()],
        binding=[con(*x) for x in dict(binding).items()],
        obj=e(obj),
        ports={n: (EMISSION if "emission" in n else FLOW) for n in (ports or "").split()},
        defs={tuple(k.split(".")): e(v) for k, v in (defs or {}).items()},
    )


# What every model stands for: bounds, relations between its variables for
# every timestep and scenario, its flows (positive: into the node) and its cost.
REF = {
    "antares": [
        M(
            "area",
            "spillage_cost ens_cost",
            {"spillage:ts": ("0", None), "unsupplied_energy:ts": ("0", None)},
            binding={"balance": "sum_connections(balance_port.flow) + unsupplied_energy = spillage"},
            obj="expec(sum(spillage * spillage_cost)) + expec(sum(unsupplied_energy * ens_cost))",
            ports="balance_port",
        ),
        M("load", "load:ts", ports="balance_port", defs={"balance_port.flow": "0 - load"}),
        M(
            "link",
            "capacity_direct:ts capacity_indirect:ts",
            {
                "flow_direct:ts": ("0", "capacity_direct"),
                "flow_indirect:ts": ("0", "capacity_indirect"),
                "flow:ts": (None, None),
            },
            {"flow_direct_indirect": "flow + flow_indirect = flow_direct"},
            ports="in_port out_port",
            defs={"out_port.flow": "flow", "in_port.flow": "0 - flow"},
        ),
        M("renewable", "nominal_capacity unit_count generation:ts", ports="balance_port", defs={"balance_port.flow": "generation"}),
        M(
            "thermal",
            "p_min_cluster:ts p_max_cluster:ts p_min_unit p_max_unit generation_cost startup_cost fixed_cost d_min_up d_min_down"
            " nb_units_min:ts nb_units_max:ts nb_units_max_variation_forward:ts nb_units_max_variation_backward:ts",
            {
                "generation:ts": ("p_min_cluster", "p_max_cluster"),
                "nb_units_on:ts:int": ("nb_units_min", "nb_units_max"),
                "nb_starting:ts:int": ("0", "nb_units_max"),
                "nb_stopping:ts:int": ("0", None),
                "nb_failing:ts": ("0", None),
            },
            {
                "max_generation": "generation <= p_max_unit * nb_units_on",
                "min_generation": "generation >= p_min_unit * nb_units_on",
                "on_units_dynamics": "nb_units_on - nb_units_on[t-1] = nb_starting - nb_stopping",
                "nb_failing_lower_than_stopping": "nb_failing <= nb_stopping",
                "nb_failing_lower_than_max_variation": "nb_failing <= nb_units_max_variation_forward",
                "min_up_duration": "sum(t + 1 - d_min_up .. t, nb_starting) <= nb_units_on + sum(t + 1 - d_min_up .. t, nb_failing)",
                "min_down_duration": "nb_units_on + sum(t + 1 - d_min_down .. t, nb_stopping) "
                "<= nb_units_max[t - d_min_down] + sum(t + 1 - d_min_down .. t, nb_units_max_variation_backward)",
            },
            obj="expec(sum(generation * generation_cost)) + expec(sum(nb_starting * startup_cost)) + expec(sum(nb_units_on * fixed_cost))",
            ports="balance_port",
            defs={"balance_port.flow": "generation"},
        ),
        M(
            "short-term-storage",
            "reservoir_capacity injection_nominal_capacity withdrawal_nominal_capacity efficiency_injection efficiency_withdrawal"
            " lower_rule_curve:ts upper_rule_curve:ts p_max_injection_modulation:ts p_max_withdrawal_modulation:ts inflows:ts initial_level",
            {
                "p_injection:ts": ("0", "p_max_injection_modulation * injection_nominal_capacity"),
                "p_withdrawal:ts": ("0", "p_max_withdrawal_modulation * withdrawal_nominal_capacity"),
                "level:ts": ("lower_rule_curve * reservoir_capacity", "upper_rule_curve * reservoir_capacity"),
            },
            {
                "initial_level": "level[0] = initial_level * reservoir_capacity",
                "Level equation": "level[t+1] - level = efficiency_injection * p_injection - efficiency_withdrawal * p_withdrawal + inflows",
            },
            ports="injection_port",
            defs={"injection_port.flow": "p_withdrawal - p_injection"},
        ),
    ],
    "v1": [
        M(
            "dsr",
            "max_load:ts curtailment_price",
            {"curtailment:ts": ("0", "max_load")},
            obj="expec(sum(curtailment_price * curtailment))",
            ports="balance_port",
            defs={"balance_port.flow": "curtailment - max_load"},
        ),
        M(
            "electrolyser",
            "efficiency p_max:ts",
            {"power:ts": ("0", "p_max")},
            ports="power_port hydrogen_port",
            defs={"power_port.flow": "0 - power", "hydrogen_port.flow": "power * efficiency"},
        ),
        M(
            "battery",
            "reservoir_capacity injection_nominal_capacity withdrawal_nominal_capacity efficiency_injection efficiency_withdrawal"
            " lower_rule_curve:ts upper_rule_curve:ts p_max_injection_modulation:ts p_max_withdrawal_modulation:ts marginal_cost:t",
            {
                "p_injection:ts": ("0", "p_max_injection_modulation * injection_nominal_capacity"),
                "p_withdrawal:ts": ("0", "p_max_withdrawal_modulation * withdrawal_nominal_capacity"),
                "level:ts": ("lower_rule_curve * reservoir_capacity", "upper_rule_curve * reservoir_capacity"),
            },
            {"level_equation": "level[t+1] - level = efficiency_injection * p_injection - efficiency_withdrawal * p_withdrawal"},
            obj="expec(sum(p_injection * marginal_cost))",
            ports="injection_port",
            defs={"injection_port.flow": "p_withdrawal - p_injection"},
        ),
    ],
    "pypsa": [
        M(
            "bus",
            "v_nom x y v_mag_pu_set:t v_mag_pu_min v_mag_pu_max",
            binding={"p_balance": "sum_connections(p_balance_port.flow) = 0", "q_balance": "sum_connections(q_balance_port.flow) = 0"},
            ports="p_balance_port q_balance_port",
        ),
        M(
            "load",
            "p_set:ts q_set:ts sign",
            ports="p_balance_port q_balance_port",
            defs={"p_balance_port.flow": "p_set * sign", "q_balance_port.flow": "q_set * sign"},
        ),
        M(
            "generator",
            "p_nom_min p_nom_max p_min_pu:t p_max_pu:t e_sum_min e_sum_max sign marginal_cost:t capital_cost efficiency:t emission_factor",
            {"p_nom:": ("p_nom_min", "p_nom_max"), "p:ts": (None, None)},
            {
                "min_dispatch": "p >= p_min_pu * p_nom",
                "max_dispatch": "p <= p_max_pu * p_nom",
                "min_production": "sum(p) >= e_sum_min",
                "max_production": "sum(p) <= e_sum_max",
            },
            obj="capital_cost * p_nom + expec(sum(p * marginal_cost))",
            ports="p_balance_port emission_port",
            defs={"p_balance_port.flow": "sign * p", "emission_port.emission": "emission_factor * p / efficiency"},
        ),
        M(
            "link",
            "efficiency:t p_nom_min p_nom_max p_min_pu:t p_max_pu:t capital_cost marginal_cost:t",
            {"p_nom:": ("p_nom_min", "p_nom_max"), "p0:ts": (None, None)},
            {"p0_upper": "p0 <= p_max_pu * p_nom", "p0_lower": "p0 >= p_min_pu * p_nom"},
            obj="capital_cost * p_nom + expec(sum(p0 * marginal_cost))",
            ports="p0_port p1_port",
            defs={"p0_port.flow": "0 - p0", "p1_port.flow": "p0 * efficiency"},
        ),
        M(
            "storage_unit",
            "p_nom_min p_nom_max p_min_pu:t p_max_pu:t sign spill_cost:t marginal_cost:t marginal_cost_storage:t capital_cost max_hours"
            " efficiency_store:t efficiency_dispatch:t standing_loss:t inflow:ts emission_factor",
            {
                "p_nom:": ("p_nom_min", "p_nom_max"),
                "p_store:ts": ("0", "p_max_pu * p_nom_max"),
                "p_dispatch:ts": ("0", "p_max_pu * p_nom_max"),
                "state_of_charge:ts": ("0", "max_hours * p_nom_max"),
                "spill:ts": ("0", None),
            },
            {
                "p_store_upper": "p_store <= p_max_pu * p_nom",
                "p_dispatch_upper": "p_dispatch <= p_max_pu * p_nom",
                "state_of_charge_upper": "state_of_charge <= max_hours * p_nom",
                "state_of_charge_balance": "state_of_charge - state_of_charge[t-1] + standing_loss * state_of_charge[t-1] "
                "= p_store * efficiency_store - p_dispatch / efficiency_dispatch + inflow - spill",
            },
            obj="capital_cost * p_nom + expec(sum(marginal_cost * p_dispatch)) + expec(sum(spill_cost * spill)) + expec(sum(marginal_cost_storage * state_of_charge))",
            ports="p_balance_port emission_port",
            defs={"p_balance_port.flow": "p_dispatch - p_store", "emission_port.emission": "0 * emission_factor"},
        ),
        M(
            "store",
            "e_nom_min e_nom_max e_min_pu:t e_max_pu:t sign marginal_cost:t marginal_cost_storage:t capital_cost standing_loss:t emission_factor",
            {"e_nom:": ("e_nom_min", "e_nom_max"), "e:ts": (None, None), "p:ts": (None, None)},
            {
                "e_upper": "e <= e_max_pu * e_nom",
                "e_lower": "e >= e_min_pu * e_nom",
                "energy_balance": "e + p = e[t-1] - standing_loss * e[t-1]",
            },
            obj="capital_cost * e_nom + expec(sum(marginal_cost * p)) + expec(sum(marginal_cost_storage * e))",
            ports="p_balance_port emission_port",
            defs={"p_balance_port.flow": "p", "emission_port.emission": "0 * emission_factor"},
        ),
        M("global_constraint_co2_max", "quota", binding={"constraint_expression": "sum(sum_connections(emission_port.emission)) <= quota"}, ports="emission_port"),
        M("global_constraint_co2_eq", "quota", binding={"constraint_expression": "sum(sum_connections(emission_port.emission)) = quota"}, ports="emission_port"),
    ],
}
REF = {(l, m.id): m for l, ms in REF.items() for m in ms}

# ranges that keep lower bounds below upper bounds; everything else: RANGE
RANGES = {
    "p_min_cluster": (0, 10),
    "p_max_cluster": (10, 100),
    "nb_units_min": (0, 2),
    "nb_units_max": (2, 9),
    "lower_rule_curve": (0, 0.5),
    "upper_rule_curve": (0.5, 1),
    "p_nom_min": (0, 10),
    "p_nom_max": (10, 100),
    "e_nom_min": (0, 10),
    "e_nom_max": (10, 100),
    "standing_loss": (0, 0.5),
    "load": (-100, 100),
    "inflows": (-100, 100),
    "inflow": (-100, 100),
    "p_set": (-100, 100),
    "q_set": (-100, 100),
    "quota": (-100, 100),
}
RANGE = (0.5, 100)
NONZERO = {"p_min_pu": (0.1, 1), "e_min_pu": (0.1, 1), "sign": (0.5, 2)}  # either sign

# networks: components (id -> (library, model)), links
NETS = {
    "generation": (
        {"N": ("antares", "area"), "L": ("antares", "load"), "R": ("antares", "renewable"), "T": ("antares", "thermal")},
        [("L", "balance_port", "N", "balance_port"), ("N", "balance_port", "R", "balance_port"), ("T", "balance_port", "N", "balance_port")],
    ),
    "exchange": (
        {"N": ("antares", "area"), "K": ("antares", "area"), "L": ("antares", "load"), "X": ("antares", "link")},
        [("L", "balance_port", "K", "balance_port"), ("X", "in_port", "N", "balance_port"), ("X", "out_port", "K", "balance_port")],
    ),
    "storage": (
        {"N": ("antares", "area"), "B": ("antares", "short-term-storage"), "L": ("antares", "load")},
        [("B", "injection_port", "N", "balance_port"), ("L", "balance_port", "N", "balance_port")],
    ),
    "v1": (
        {"N": ("antares", "area"), "H": ("antares", "area"), "D": ("v1", "dsr"), "E": ("v1", "electrolyser"), "B": ("v1", "battery")},
        [
            ("D", "balance_port", "N", "balance_port"),
            ("E", "power_port", "N", "balance_port"),
            ("E", "hydrogen_port", "H", "balance_port"),
            ("B", "injection_port", "N", "balance_port"),
        ],
    ),
    "pypsa generators": (
        {"N": ("pypsa", "bus"), "L": ("pypsa", "load"), "G": ("pypsa", "generator"), "F": ("pypsa", "generator"), "Q": ("pypsa", "global_constraint_co2_max")},
        [
            ("L", "p_balance_port", "N", "p_balance_port"),
            ("L", "q_balance_port", "N", "q_balance_port"),
            ("G", "p_balance_port", "N", "p_balance_port"),
            ("F", "p_balance_port", "N", "p_balance_port"),
            ("Q", "emission_port", "G", "emission_port"),
            ("Q", "emission_port", "F", "emission_port"),
        ],
    ),
    "pypsa link": (
        {"N": ("pypsa", "bus"), "K": ("pypsa", "bus"), "X": ("pypsa", "link"), "L": ("pypsa", "load"), "G": ("pypsa", "generator"), "Q": ("pypsa", "global_constraint_co2_eq")},
        [
            ("X", "p0_port", "N", "p_balance_port"),
            ("X", "p1_port", "K", "p_balance_port"),
            ("L", "p_balance_port", "K", "p_balance_port"),
            ("G", "p_balance_port", "N", "p_balance_port"),
            ("Q", "emission_port", "G", "emission_port"),
            ("L", "q_balance_port", "K", "q_balance_port"),
            ("L", "q_balance_port", "N", "q_balance_port"),
        ],
    ),
    "pypsa storage": (
        {"N": ("pypsa", "bus"), "U": ("pypsa", "storage_unit"), "S": ("pypsa", "store"), "L": ("pypsa", "load"), "G": ("pypsa", "generator"), "Q": ("pypsa", "global_constraint_co2_max")},
        [
            ("U", "p_balance_port", "N", "p_balance_port"),
            ("S", "p_balance_port", "N", "p_balance_port"),
            ("L", "p_balance_port", "N", "p_balance_port"),
            ("L", "q_balance_port", "N", "q_balance_port"),
            ("G", "p_balance_port", "N", "p_balance_port"),
            ("Q", "emission_port", "U", "emission_port"),
            ("Q", "emission_port", "S", "emission_port"),
            ("Q", "emission_port", "G", "emission_port"),
        ],
    ),
}


def real_model(l, m):
    return lib(*LIBS[l]).models[m]


def h_catalogue(ctx):
    """The libraries offer the documented models, with the documented parameters and ports."""
    l = ctx.pick("library", list(LIBS))
    models = lib(*LIBS[l]).models
    ctx.check(set(models) == {m for (k, m) in REF if k == l}, f"models of {l}: {sorted(models)}")
    for (k, m), ref in REF.items():
        if k != l:
            continue
        real = models[m]
        got = {n: (p.structure.time, p.structure.scenario) for n, p in real.parameters.items()}
        ctx.check(got == ref.params, f"{l}.{m}: parameters {got}")
        got = {n: (p.port_type.id, [f.name for f in p.port_type.fields]) for n, p in real.ports.items()}
        ctx.check(got == ref.ports, f"{l}.{m}: ports {got}")
    ctx.cover(l)


def h_problem(ctx, T, SC, dmax):
    """The problem of a network of library components, for any data."""
    name = ctx.pick("net", list(NETS))
    comps, links = NETS[name]
    ns = ctx.pick("S", SC)
    nt = ctx.pick("T", T)
    specs = {}
    models = {}
    for c, key in comps.items():
        # one specification object per component, all built from the real model
        m = REF[key]
        specs[c] = m
        models[id(m)] = real_model(*key)
    values = {}
    for c, m in specs.items():
        for p, stt in m.params.items():
            if p in ("d_min_up", "d_min_down"):
                values[(c, p)] = spec.Data("const", ctx.intreal(f"{c}_{p}", 1, dmax))
            elif p in NONZERO and stt == (False, False):
                values[(c, p)] = spec.Data("const", ctx.nonzero(f"{c}_{p}", *NONZERO[p]))
            elif p in NONZERO:
                values[(c, p)] = spec.Data("time", [ctx.nonzero(f"{c}_{p}_{t}", *NONZERO[p]) for t in range(nt)])
            else:
                values[(c, p)] = spec.data_for(ctx, f"{c}_{p}", stt, nt, ns, *RANGES.get(p, RANGE))
    st = Study(specs, nodes=tuple(c for c, k in comps.items() if k[1] in ("area", "bus")), links=links, values=values)
    net, db = st.network(models), st.database()
    problem = build_problem(net, db, spec.block(range(nt)), ns)
    spec.check_problem(ctx, problem, spec.expected(st, range(nt), ns), signs=True)
    ctx.cover(name)


HARNESSES = [
    Harness("catalogue", h_catalogue, "the three shipped libraries: every model, its parameters with their time and scenario structure, its ports", covers=list(LIBS)),
    Harness(
        "problems",
        h_problem,
        "7 networks that use every model of the three shipped libraries; all data symbolic (within ranges that keep every variable's bounds consistent), T timesteps, S scenarios, "
        "minimum up and down durations any integer in [1,dmax]",
        quick=dict(T=[2, 3], SC=[1, 2], dmax=4),
        thorough=dict(T=[1, 2, 4, 6], SC=[1, 2, 3], dmax=8),
        covers=list(NETS),
    ),
]
