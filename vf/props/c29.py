"""C29: conversion of a PyPSA network."""
import logging
import shutil
import sys
import tempfile
import types
from math import inf
from pathlib import Path

import pandas as pd


class Network:
    """The tables of a PyPSA network (the pypsa package cannot be imported here)."""

    def __init__(self, name):
        self.name = name
        self.investment_periods = pd.Index([])

    def add(self, cls, name, **attrs):
        assert cls == "Carrier"
        row = dict(co2_emissions=0.0, color="", nice_name="", max_growth=inf, max_relative_growth=0.0)
        row.update(attrs)
        self.carriers = pd.concat([self.carriers, frame({name: row})])


if "pypsa" not in sys.modules:
    _m = types.ModuleType("pypsa")
    _m.Network = Network
    sys.modules["pypsa"] = _m

from andromede.pypsa_converter.pypsa_converter import PyPSAStudyConverter  # noqa: E402
from andromede.pypsa_converter.utils import any_to_float, transform_to_yaml  # noqa: E402
from andromede.study.parsing import parse_yaml_components  # noqa: E402
from andromede.study.resolve_components import build_data_base, build_network, consistency_check, resolve_system  # noqa: E402

from vf.harness import Harness  # noqa: E402
from vf.props import c26, c28  # noqa: E402
from vf.sym import Sym  # noqa: E402

ASSUMPTIONS = ["the network is given by tables with the columns of PyPSA's component attributes; series files are written and read for real"]
prepare_symbolic = c26.prepare_symbolic
LOG = logging.getLogger("vf-silent-pypsa")
LOG.addHandler(logging.NullHandler())
LOG.propagate = False
LIB = "pypsa_models"

# constants of each kind of object, with the values that are not converted at their defaults
TABLES = {
    "generators": dict(
        num="p_nom p_nom_min p_nom_max p_min_pu p_max_pu e_sum_min e_sum_max sign marginal_cost capital_cost efficiency",
        ser="p_min_pu p_max_pu marginal_cost efficiency",
        other=dict(
            control="PQ", type="", p_nom_mod=0.0, p_set=0.0, q_set=0.0, marginal_cost_quadratic=0.0, active=True, build_year=0, lifetime=inf, committable=False,
            start_up_cost=0.0, shut_down_cost=0.0, stand_by_cost=0.0, min_up_time=0, min_down_time=0, up_time_before=1, down_time_before=0, weight=1.0, p_nom_opt=0.0,
        ),
        rest="p_set q_set marginal_cost_quadratic stand_by_cost ramp_limit_up ramp_limit_down p q status",
    ),
    "loads": dict(num="p_set q_set sign", ser="p_set q_set", other=dict(carrier="", type="", active=True), rest="p q"),
    "buses": dict(
        num="v_nom x y v_mag_pu_set v_mag_pu_min v_mag_pu_max",
        ser="v_mag_pu_set",
        other=dict(type="", carrier="AC", unit="None", location="", control="PQ", generator="", sub_network=""),
        rest="p q v_mag_pu v_ang marginal_price",
    ),
    "links": dict(
        num="p_nom p_nom_min p_nom_max p_min_pu p_max_pu marginal_cost capital_cost efficiency",
        ser="p_min_pu p_max_pu marginal_cost efficiency",
        other=dict(
            type="", active=True, build_year=0, lifetime=inf, p_nom_mod=0.0, p_set=0.0, marginal_cost_quadratic=0.0, stand_by_cost=0.0, length=0.0, terrain_factor=1.0, committable=False,
            start_up_cost=0.0, shut_down_cost=0.0, min_up_time=0, min_down_time=0, up_time_before=1, down_time_before=0, p_nom_opt=0.0,
        ),
        rest="p_set marginal_cost_quadratic stand_by_cost p0 p1 status",
    ),
    "storage_units": dict(
        num="p_nom p_nom_min p_nom_max p_min_pu p_max_pu efficiency_store efficiency_dispatch standing_loss max_hours marginal_cost capital_cost marginal_cost_storage spill_cost inflow",
        ser="p_min_pu p_max_pu efficiency_store efficiency_dispatch standing_loss marginal_cost marginal_cost_storage spill_cost inflow",
        other=dict(
            control="PQ", type="", p_nom_mod=0.0, p_set=0.0, q_set=0.0, sign=1.0, marginal_cost_quadratic=0.0, active=True, build_year=0, lifetime=inf, state_of_charge_initial=0.0,
            state_of_charge_initial_per_period=False, cyclic_state_of_charge=True, cyclic_state_of_charge_per_period=True, p_nom_opt=0.0,
        ),
        rest="p_set q_set marginal_cost_quadratic p state_of_charge spill",
    ),
    "stores": dict(
        num="e_nom e_nom_min e_nom_max e_min_pu e_max_pu standing_loss marginal_cost capital_cost marginal_cost_storage",
        ser="e_min_pu e_max_pu standing_loss marginal_cost marginal_cost_storage",
        other=dict(
            type="", e_nom_mod=0.0, e_initial=0.0, e_initial_per_period=False, e_cyclic=True, e_cyclic_per_period=True, p_set=0.0, q_set=0.0, sign=1.0,
            marginal_cost_quadratic=0.0, active=True, build_year=0, lifetime=inf, e_nom_opt=0.0,
        ),
        rest="p_set q_set marginal_cost_quadratic p e",
    ),
}
MODEL = dict(generators="generator", loads="load", buses="bus", links="link", storage_units="storage_unit", stores="store")
SUFFIX = dict(generators="_generator", loads="_load", buses="", links="_link", storage_units="_storage", stores="_store")
CAPA = dict(generators="p_nom", links="p_nom", storage_units="p_nom", stores="e_nom")
PORT = "p_balance_port"


def frame(rows, columns=None):
    """Table of rows by name; symbolic columns hold objects."""
    cols = columns or list(next(iter(rows.values())))
    data = {}
    for c in cols:
        v = [r[c] for r in rows.values()]
        data[c] = pd.Series(v, index=list(rows), dtype=object if any(isinstance(x, (Sym, str)) for x in v) else None)
    return pd.DataFrame(data, index=pd.Index(list(rows), dtype=object), columns=cols)


class Build:
    def __init__(self, ctx, T=2):
        self.ctx, self.T = ctx, T
        self.dir = Path(tempfile.mkdtemp()).resolve()
        self.rows = {k: {} for k in TABLES}
        self.series = {k: {} for k in TABLES}
        self.carriers = {}
        self.gcs = {}
        self.periods, self.weights = [], [1.0] * T
        self.comps, self.conns, self.emit = {}, [], []

    def num(self, name):
        return self.ctx.real(name, -100, 100)

    def carrier(self, name):
        v = self.num("co2" + name)
        self.carriers[name] = dict(co2_emissions=v, color="", nice_name=name, max_growth=inf, max_relative_growth=0.0)

    def obj(self, kind, name, buses=(), series=(), extendable=False, carrier="", infinite=()):
        d = TABLES[kind]
        cols = d["num"].split()
        row = {c: (inf if c in infinite else self.num(f"{kind}{name}{c}")) for c in cols}
        row.update(d["other"])
        if kind in CAPA:
            row[CAPA[kind] + "_extendable"] = extendable
            row["carrier"] = carrier
        if kind == "links":
            row["bus0"], row["bus1"] = buses
        elif kind != "buses":
            row["bus"] = buses[0]
        self.rows[kind][name] = row
        id = name + SUFFIX[kind]
        par = {c: row[c] for c in cols}
        if kind in ("storage_units", "stores"):
            par["sign"] = 1.0
        if kind in CAPA:
            capa = CAPA[kind]
            del par[capa]
            if not extendable:
                par[capa + "_min"] = par[capa + "_max"] = row[capa]
                par["capital_cost"] = 0
            if kind != "links":
                par["emission_factor"] = self.carriers[carrier]["co2_emissions"] if carrier else 0
                if carrier:
                    self.emit.append(id)
        for p in series:
            v = [self.num(f"{kind}{name}{p}{t}") for t in range(self.T)]
            self.series[kind].setdefault(p, {})[name] = v
            par[p] = v
        self.comps[id] = (MODEL[kind], par)
        if kind == "links":
            self.conns += [(buses[0], PORT, id, "p0_port"), (buses[1], PORT, id, "p1_port")]
        elif kind != "buses":
            self.conns.append((buses[0], PORT, id, PORT))
        return row

    def gc(self, name, sense, type="primary_energy", attr="co2_emissions"):
        q = self.num("quota" + name)
        self.gcs[name] = dict(type=type, investment_period=float("nan"), carrier_attribute=attr, sense=sense, constant=q, mu=0.0)
        self.comps[name] = ("global_constraint_co2_max" if sense == "<=" else "global_constraint_co2_eq", {"quota": q})

    def network(self):
        n = Network("Demo")
        n.investment_periods = pd.Index(self.periods)
        snap = pd.RangeIndex(self.T)
        n.snapshots = n.timesteps = snap
        n.snapshot_weightings = pd.DataFrame({c: pd.Series(self.weights, index=snap, dtype=object if any(isinstance(w, Sym) for w in self.weights) else None) for c in ("objective", "stores", "generators")})
        n.carriers = frame(self.carriers, ["co2_emissions", "color", "nice_name", "max_growth", "max_relative_growth"])
        n.global_constraints = frame(self.gcs, ["type", "investment_period", "carrier_attribute", "sense", "constant", "mu"])
        for k, d in TABLES.items():
            cols = d["num"].split() + list(d["other"])
            if k in CAPA:
                cols += [CAPA[k] + "_extendable", "carrier"]
            cols += ["bus0", "bus1"] if k == "links" else ["bus"] if k != "buses" else []
            setattr(n, k, frame(self.rows[k], cols))
            tables = {}
            for p in d["ser"].split() + d["rest"].split():
                s = self.series[k].get(p, {})
                f = pd.DataFrame({c: pd.Series(v, index=snap, dtype=object if any(isinstance(x, Sym) for x in v) else None) for c, v in s.items()}, index=snap)
                f.columns = pd.Index(list(s), dtype=object)
                tables[p] = f
            setattr(n, k + "_t", tables)
        return n

    def convert(self):
        return PyPSAStudyConverter(self.network(), LOG, self.dir, self.dir).to_gems_study()

    def close(self):
        shutil.rmtree(self.dir)


def check_system(ctx, b, system):
    ctx.check(not system.nodes, "nodes")
    ids = sorted(c.id for c in system.components)
    ctx.check(ids == sorted(b.comps), f"components {ids}, expected {sorted(b.comps)}")
    for c in system.components:
        model, pars = b.comps[c.id]
        ctx.check(c.model == f"{LIB}.{model}", f"model of {c.id}: {c.model}")
        got = sorted(p.id for p in c.parameters)
        ctx.check(got == sorted(pars), f"parameters of {c.id}: {got}, expected {sorted(pars)}")
        for p in c.parameters:
            e = pars[p.id]
            what = f"{c.id}.{p.id}"
            ctx.check(not p.scenario_dependent, f"{what} depends on scenarios")
            ctx.check(bool(p.time_dependent) == isinstance(e, list), f"{what}: time dependency {p.time_dependent}")
            if isinstance(e, list):
                f = b.dir / f"{p.value}.txt"
                ctx.check(f.exists(), f"{what}: no file {p.value}")
                rows = [[c26._float(v) for v in l.split()] for l in f.read_text().splitlines()]
                ctx.check([len(r) for r in rows] == [1] * b.T, f"{what}: shape of the file")
                for t in range(b.T):
                    ctx.check_close(rows[t][0], e[t], f"{what} at {t}")
            else:
                ctx.check(not isinstance(p.value, str), f"{what}: {p.value}")
                ctx.check_close(p.value, min(e, 1e20) if not isinstance(e, Sym) else e, what)
    conns = sorted(ends(c.component1, c.port1, c.component2, c.port2) for c in system.connections)
    exp = sorted([ends(*c) for c in b.conns] + [ends(g, "emission_port", c, "emission_port") for g in b.gcs for c in b.emit])
    ctx.check(conns == exp, f"connections {conns}, expected {exp}")


def ends(a, pa, b, pb):
    return tuple(sorted([(a, pa), (b, pb)]))


KINDS = ["generators", "loads", "links", "storage_units", "stores"]


def h_objects(ctx):
    """One object of any kind, everything else free."""
    b = Build(ctx)
    try:
        b.carrier("gas")
        b.carrier("coal")
        buses = ["bus0", "x"]
        kind = ctx.pick("kind", KINDS)
        name = ctx.pick("name", ["x", "bus0", "y z"])
        for n in buses:
            b.obj("buses", n)
        at = (buses if ctx.flag("dir") else buses[::-1]) if kind == "links" else [ctx.pick("at", buses)]
        kw = dict(extendable=ctx.flag("ext"), carrier=ctx.pick("carrier", ["", "coal", "gas"])) if kind in CAPA else {}
        b.obj(kind, name, at, **kw)
        for g in range(ctx.choose("gcs", 3)):
            b.gc(f"budget{g}", ctx.pick("sense", ["<=", "=="]))
        check_system(ctx, b, b.convert())
        ctx.cover("end")
        if kind == "links" and name in buses:
            ctx.cover("link named like a bus")
    finally:
        b.close()


def h_networks(ctx, nobj):
    """Objects of several kinds, perhaps of the same name."""
    b = Build(ctx)
    try:
        b.carrier("gas")
        b.carrier("coal")
        buses = ["bus0", "x"]
        for n in buses:
            b.obj("buses", n)
        seen = set()
        for i in range(nobj):
            kind = ctx.pick("kind", KINDS)
            name = "x" if i == 0 else ctx.pick("name", ["x", "y"])
            ctx.assume((kind, name) not in seen)
            seen.add((kind, name))
            at = (buses if i == 0 or ctx.flag("dir") else buses[::-1]) if kind == "links" else [buses[0] if i == 0 else ctx.pick("at", buses)]
            kw = dict(extendable=ctx.flag("ext"), carrier="coal" if i == 0 else ctx.pick("carrier", ["", "gas"])) if kind in CAPA else {}
            b.obj(kind, name, at, **kw)
        b.gc("budget", "<=")
        check_system(ctx, b, b.convert())
        ctx.cover("end")
    finally:
        b.close()


def h_series(ctx):
    """Attributes given by series; the result is complete and consistent with the shipped library."""
    b = Build(ctx)
    try:
        b.carrier("gas")
        kind = ctx.pick("kind", list(TABLES))
        opts = TABLES[kind]["ser"].split()
        ser = [ctx.pick("series", opts)]
        if len(opts) > 1 and ctx.flag("more"):
            ser.append(opts[(opts.index(ser[0]) + 1) % len(opts)])
        nums = TABLES[kind]["num"].split()
        for n in ("n1", "n2"):
            b.obj("buses", n, series=ser if kind == "buses" and n == "n1" else ())
        if kind != "buses":
            which = ctx.pick("which", ["first", "second", "both"])
            ext = dict(extendable=ctx.flag("ext"), carrier="gas") if kind in CAPA else {}
            for n in ("a", "b"):
                s = ser if which == "both" or (which == "first") == (n == "a") else ()
                b.obj(kind, n, ("n1", "n2") if kind == "links" else ("n2",), s, infinite=[c for c in nums if c in ("p_nom_max", "e_nom_max", "e_sum_max")], **ext)
        s = b.convert()
        check_system(ctx, b, s)
        lib = c28.lib(*c28.LIBS["pypsa"])
        system = resolve_system(s, {LIB: lib})
        consistency_check(system.components, lib.models)
        net = build_network(system)
        db = build_data_base(s, b.dir)
        bad = [(kind, p) for p in ser if not lib.models[MODEL[kind]].parameters[p].structure.time]
        try:
            db.requirements_consistency(net)
        except ValueError:
            ctx.check(bool(bad), f"data refused by the library with series {ser}")
            ctx.cover("refused")
            return
        ctx.check(not bad, f"series {bad} accepted")
        ctx.cover("end")
    finally:
        b.close()


def h_refusals(ctx):
    """What the converter does not support is refused."""
    b = Build(ctx)
    try:
        b.carrier("gas")
        b.obj("buses", "n1")
        b.obj("buses", "n2")
        rows = {}
        for k in KINDS:
            for n in ("a", "b"):
                rows[k, n] = b.obj(k, n, ("n1", "n2") if k == "links" else ("n1",), carrier="gas" if k in CAPA else "")
        what = ctx.pick(
            "what",
            ["quadratic", "active", "committable", "sign", "cyclic", "weight", "period", "constraint", "nothing"],
        )
        n = ctx.pick("which", ["a", "b"])
        bad = None
        if what == "quadratic":
            k = ctx.pick("kind", ["generators", "storage_units", "stores"])
            v = rows[k, n]["marginal_cost_quadratic"] = ctx.real("q", -5, 5)
            bad = v != 0
        elif what == "active":
            k = ctx.pick("kind", KINDS)
            rows[k, n]["active"] = False
            bad = True
        elif what == "committable":
            rows["generators", n]["committable"] = bad = True
        elif what == "sign":
            k = ctx.pick("kind", ["storage_units", "stores"])
            v = rows[k, n]["sign"] = ctx.real("s", -3, 3)
            bad = v != 1
        elif what == "cyclic":
            k, c = ctx.pick("kind", [("storage_units", "cyclic_state_of_charge"), ("stores", "e_cyclic")])
            rows[k, n][c] = False
            bad = True
        elif what == "weight":
            b.weights = [ctx.real("w", 0, 5), 1.0 if n == "a" else ctx.real("w2", 0, 5)]
            if n == "a" and ctx.flag("last"):
                b.weights.reverse()
            bad = any(bool(v != 1) for v in b.weights)
        elif what == "period":
            b.periods = [2030]
            bad = True
        elif what == "constraint":
            g = ctx.pick("gc", [(">=", "primary_energy", "co2_emissions"), ("<=", "operational_limit", "co2_emissions"), ("<=", "primary_energy", "nox"), ("==", "tech_capacity_expansion_limit", "co2_emissions")])
            if n == "b":
                b.gc("ok", "<=")
            b.gc("ko", *g)
            bad = True
        else:
            bad = False
        try:
            s = b.convert()
        except (ValueError, AssertionError):
            ctx.check(bad, f"{what}: a supported network is refused")
            ctx.cover("refused")
            return
        ctx.check(not bad if isinstance(bad, bool) else bad == False, f"{what}: accepted")  # noqa: E712
        check_system(ctx, b, s)
        ctx.cover("accepted")
    finally:
        b.close()


def h_float(ctx):
    """Numbers are kept, infinite and huge ones brought to the largest magnitude handled."""
    kind = ctx.pick("kind", ["real", "int", "bool", "inf", "-inf", "text", "words", "none"])
    v = {
        "real": lambda: ctx.real("v", -(10**22), 10**22),
        "int": lambda: ctx.int("v", -(10**22), 10**22),
        "bool": lambda: True,
        "inf": lambda: inf,
        "-inf": lambda: -inf,
        "text": lambda: "2.5",
        "words": lambda: "abc",
        "none": lambda: None,
    }[kind]()
    try:
        r = any_to_float(v)
    except TypeError:
        ctx.check(kind in ("words", "none"), f"{kind} refused")
        ctx.cover("refused")
        return
    ctx.check(kind not in ("words", "none"), f"{kind} accepted")
    M = 10**20
    if kind in ("real", "int"):
        if v > M:
            ctx.check(r == M, "upper")
            ctx.cover("upper")
        elif v < -M:
            ctx.check(r == -M, "lower")
            ctx.cover("lower")
        else:
            ctx.check_close(r, v, "kept")
            ctx.cover("kept")
    else:
        ctx.check(r == {"bool": 1.0, "inf": 1e20, "-inf": -1e20, "text": 2.5}[kind], kind)


def h_file(ctx):
    """The file that is written describes the converted system."""
    b = Build(ctx)
    b.num = lambda name: ((sum(map(ord, name)) * 7) % 61 - 20) / 4 + 0.012345678
    try:
        b.carrier("gas")
        b.obj("buses", "n1")
        b.obj("buses", "n2")
        for k in KINDS:
            if ctx.flag(k):
                p = TABLES[k]["ser"].split()
                b.obj(k, "a", ("n1", "n2") if k == "links" else ("n1",), p[:1] if ctx.flag("ser") else (), carrier="gas" if k in CAPA else "", infinite=["p_nom_max", "e_sum_max"], **(dict(extendable=True) if k in CAPA else {}))
        if ctx.flag("gc"):
            b.gc("budget", "==")
        s = b.convert()
        out = b.dir / "system.yml"
        transform_to_yaml(s, str(out))
        with out.open() as f:
            check_system(ctx, b, parse_yaml_components(f))
        ctx.cover("end")
    finally:
        b.close()


HARNESSES = [
    Harness("objects", h_objects, "two buses, a generator, load, link, storage unit or store of any name, two carriers, up to two global constraints, symbolic attributes", covers=["end", "link named like a bus"]),
    Harness(
        "networks",
        h_networks,
        "two buses, nobj generators, loads, links, storage units and stores, perhaps of the same name, two carriers, a global constraint, symbolic attributes",
        quick=dict(nobj=2),
        thorough=dict(nobj=3),
        covers=["end"],
        weight=4,
    ),
    Harness("series", h_series, "two objects of a kind, any series attribute (two of them) as a series of 2 steps, symbolic values", covers=["end"], weight=2),
    Harness("refusals", h_refusals, "a network with two objects of each kind and one unsupported feature (symbolic where it is a number)", covers=["refused", "accepted"]),
    Harness("numbers", h_float, "any number within 10^22, infinities, texts", covers=["upper", "lower", "kept", "refused"]),
    Harness("file", h_file, "networks with any subset of the kinds, fixed numbers, read back from the YAML file", covers=["end"]),
]
