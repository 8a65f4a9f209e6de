"""C25: thermal data computed from an Antares study."""
import math
import os
import shutil
import tempfile
from pathlib import Path
from types import SimpleNamespace

import pandas as pd

from andromede.input_converter.src.data_preprocessing.thermal import ThermalDataPreprocessing
from andromede.study.data import TimeScenarioSeriesData, load_ts_from_txt

from vf.harness import Harness
from vf.sym import Sym, SymReal, ite

PARAMS = ["p_min_cluster", "nb_units_min", "nb_units_max", "nb_units_max_variation_forward", "nb_units_max_variation_backward"]
ASSUMPTIONS = ["series are multiples of 1/512, modulations multiples of 1/8 (exact floating-point divisions)"]


def prepare_symbolic():
    # numpy rounds tables of floats to floats
    SymReal.__ceil__ = SymReal.ceil_real
    SymReal.__floor__ = SymReal.floor


class Thermal:
    """What the preprocessing reads of a cluster."""

    def __init__(self, area, name, modulation, series, unit_count, nominal_capacity):
        self.area_id, self.id, self.name = area, name, name
        self._m, self._s = modulation, series
        self.properties = SimpleNamespace(unit_count=unit_count, nominal_capacity=nominal_capacity, enabled=True)

    def get_prepro_modulation_matrix(self):
        return self._m.copy()

    def get_series_matrix(self):
        return self._s.copy()


def table(rows):
    has = any(isinstance(v, Sym) for r in rows for v in r)
    return pd.DataFrame(rows, dtype=object) if has else pd.DataFrame(rows)


def ceil(x):
    return math.ceil(x)


def lower(a, b):
    return ite(a <= b, a, b)


def positive(a):
    return ite(a > 0, a, 0)


def make(ctx, name, R, C, nominal, count, what):
    mod = [[1.0, 1.0, 1.0, (ctx.int(f"{name}m{t}", 0, 12) / 8 if "min" in what else 0.5)] for t in range(R)]
    ser = [[ctx.int(f"{name}s{t}_{s}", 0, 50 * 512) / 512 for s in range(C)] for t in range(R)]
    return mod, ser, Thermal("fr", name, table(mod), table(ser), count, nominal)


def expected(what, mod, ser, nominal, count, period, t, s):
    if what in ("p_min_cluster", "nb_units_min"):
        p = lower(mod[t][3] * nominal * count, ser[t][s])
        return p if what == "p_min_cluster" else ceil(p / nominal)
    n = ceil(ser[t][s] / nominal)
    if what == "nb_units_max":
        return n
    first = t // period * period
    last = min(first + period, len(ser)) - 1
    prev = ceil(ser[t - 1 if t > first else last][s] / nominal)
    return positive(prev - n) if what.endswith("forward") else positive(n - prev)


def _read(par, d):
    """The file the parameter refers to, as the study reader finds it."""
    p = Path(par.value)
    return TimeScenarioSeriesData(load_ts_from_txt(p.name, p.parent))


def h_thermal(ctx, R, C, periods, params, two):
    r, c = ctx.pick("shape", [(a, b) for a in R for b in C])
    what = [ctx.pick("what", params)] + ([ctx.pick("also", [p for p in PARAMS])] if two else [])
    nominal, count = ctx.pick("nominal", [(4, 3), (10.0, 1)])
    period = ctx.pick("period", periods) if any("variation" in w for w in what) else None
    d = Path(tempfile.mkdtemp())
    try:
        names = ["gaz", "coal"] if two else ["gaz"]
        data = []
        for n in names:
            os.makedirs(d / "input" / "thermal" / "series" / "fr" / n)
            data.append(make(ctx, n, r, c, nominal, count, what[0] if not two else "min"))
        out = []
        for w in what:
            for mod, ser, th in data:
                pre = ThermalDataPreprocessing(th, d)
                par = pre.generate_component_parameter(w, period) if period else pre.generate_component_parameter(w)
                out.append((w, mod, ser, th, par))
        for w, mod, ser, th, par in out:
            ctx.check(par.id == w, "id of the parameter")
            ctx.check(bool(par.time_dependent) and bool(par.scenario_dependent), "dependency of the parameter")
            got = _read(par, d)
            shape = got.time_scenario_series.shape
            ctx.check(shape == (r, c), f"{w}: table of {shape}, expected {(r, c)}")
            for t in range(r):
                for s in range(c):
                    e = expected(w, mod, ser, nominal, count, period, t, s)
                    ctx.check_close(got.get_value(t, s), e, f"{w} of {th.id} at ({t}, {s}), period {period}")
        # the data of the study is left as it was
        for w, mod, ser, th, par in out:
            for t in range(r):
                ctx.check_close(th._m.iloc[t, 3], mod[t][3], "modulation")
                for s in range(c):
                    ctx.check_close(th._s.iloc[t, s], ser[t][s], "series")
        ctx.cover(what[0])
    finally:
        shutil.rmtree(d)


def h_default(ctx, rows):
    """Without a period, a week of hours."""
    r, lo = ctx.pick("rows", rows), ctx.pick("dir", ["forward", "backward"])
    k = ctx.pick("at", [0, 1, 166, 167, 168, 169, r - 1])
    d = Path(tempfile.mkdtemp())
    try:
        os.makedirs(d / "input" / "thermal" / "series" / "fr" / "gaz")
        a, b = ctx.int("a", 0, 50 * 512) / 512, ctx.int("b", 0, 50 * 512) / 512
        ser = [[b if t == k else a] for t in range(r)]
        mod = [[1.0, 1.0, 1.0, 0.0]] * r
        w = f"nb_units_max_variation_{lo}"
        par = ThermalDataPreprocessing(Thermal("fr", "gaz", table(mod), table(ser), 1, 4), d).generate_component_parameter(w)
        got = _read(par, d)
        for t in {k, k + 1, k + 167, k // 168 * 168, 0, r - 1, 100}:
            if t < r:
                ctx.check_close(got.get_value(t, 0), expected(w, mod, ser, 4, 1, 168, t, 0), f"{w} at {t} of {r}")
        ctx.cover("end")
    finally:
        shutil.rmtree(d)


def h_unknown(ctx):
    d = Path(tempfile.mkdtemp())
    try:
        os.makedirs(d / "input" / "thermal" / "series" / "fr" / "gaz")
        _, _, th = make(ctx, "gaz", 1, 1, 1, 1, "min")
        w = ctx.pick("w", ["p_min", "", "series", "nb_units_max_variation"])
        try:
            ThermalDataPreprocessing(th, d).generate_component_parameter(w)
        except ValueError:
            ctx.cover("refused")
        else:
            ctx.fail(f"unknown parameter {w!r} was accepted")
    finally:
        shutil.rmtree(d)


HARNESSES = [
    Harness(
        "parameters",
        h_thermal,
        "one cluster with R timesteps and C scenarios, symbolic series in [0,50] (multiples of 1/2) and minimum generation modulations in "
        "[0,1.5] (multiples of 1/8), three nominal capacities, one or three units",
        quick=dict(R=[1, 2], C=[1, 2], periods=[1, 2, 3], params=PARAMS, two=False),
        thorough=dict(R=[1, 2, 3], C=[1, 2]),
        covers=PARAMS,
    ),
    Harness(
        "periods",
        h_thermal,
        "variations over R timesteps, complete, truncated and repeated periods",
        quick=dict(R=[3, 5], C=[1], periods=[2, 3], params=PARAMS[3:], two=False),
        thorough=dict(R=[4, 5, 6], C=[1], periods=[1, 2, 3, 4, 5, 7]),
        covers=PARAMS[3:],
    ),
    Harness(
        "two_clusters",
        h_thermal,
        "two clusters of one area, two parameters each, written one after the other",
        quick=dict(R=[2], C=[1], periods=[2], params=PARAMS[:3], two=True),
        thorough=dict(params=PARAMS),
        covers=PARAMS[:3],
    ),
    Harness("default_period", h_default, "weekly default period, series with one symbolic exception at chosen hours", quick=dict(rows=[170, 337]), thorough=dict(rows=[100, 168, 170, 336, 337, 400]), covers=["end"]),
    Harness("unknown", h_unknown, "four unknown parameters", covers=["refused"]),
]
