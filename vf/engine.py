"""
Bounded symbolic execution by re-execution.

A *harness* is a Python function `h(ctx, **bounds)` that obtains inputs from
`ctx`, calls the real code of /repo and states the property with `ctx.check*`.
It runs in two modes:

* symbolic (SymCtx): inputs are SMT terms, every branch on a symbolic value is
  decided by the solver (both feasible sides are explored), every `ctx.check`
  is one validity query `path condition => property`;
* concrete (ConcreteCtx): inputs come from a counterexample / path model; this
  is the replay on the unpatched code.

`explore` enumerates *paths* depth first; a path stands for all the values that
satisfy its path condition.
"""
import math
import random
import re
import sys
import time
import traceback
from fractions import Fraction

import z3

from vf import sym
from vf.sym import SymBool, SymInt, SymReal, and_, as_boolexpr, mkbool, not_, or_

TOL = Fraction(1, 10**6)


class PathEnd(BaseException):
    """The path stops here (assumption violated, violation found)."""


class Infeasible(PathEnd):
    pass


class Violation(BaseException):
    def __init__(self, msg, values=None, kind="check"):
        super().__init__(msg)
        self.msg = msg
        self.values = values
        self.kind = kind


class BudgetExhausted(BaseException):
    pass


class Ctx:
    """What both modes share."""

    symbolic = False

    def __init__(self):
        self.names = {}
        self.covers = set()

    def _name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else f"{name}~{n}"

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choose(name, len(seq))]

    def flag(self, name):
        return bool(self.choose(name, 2))

    def cover(self, tag):
        self.covers.add(tag)

    def fail(self, msg):
        self.check(False, msg)

    def note(self, **kw):
        pass


# ---------------------------------------------------------------------------


class Stats:
    FIELDS = (
        "paths",
        "infeasible",
        "branch_queries",
        "check_queries",
        "checks_discharged",
        "trivial_checks",
        "unknown",
        "concretisations",
        "proxy_errors",
        "selectors",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.covers = {}

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        d["covers"] = dict(sorted(self.covers.items()))
        return d


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, prefix, stats, timeout_ms=20000, split_ints=False):
        super().__init__()
        self.split_ints = split_ints  # integers are split on their values at once
        self.prefix = prefix  # decisions to replay
        self.pos = 0
        self.trail = []  # decisions taken
        self.alternatives = []  # prefixes still to explore
        self.stats = stats
        self.inputs = []  # (name, kind, term)
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.pc = []
        self.nfresh = 0
        self.incomplete = []
        self.fixed = []  # (integer input, its only value on this path)
        self.intvals = {}
        self.decided = {}  # conditions already decided on this path
        self.mod = None  # a model of the path condition, when known

    # -- inputs -----------------------------------------------------------
    def real(self, name, lo=-1000, hi=1000):
        name = self._name(name)
        v = z3.Real(name)
        self.inputs.append((name, "real", v))
        if lo is not None:
            self._add(v >= sym.rv(lo))
        if hi is not None:
            self._add(v <= sym.rv(hi))
        return SymReal(v)

    def nonzero(self, name, lo=1, hi=1000):
        """A real of either sign with lo <= |v| <= hi."""
        r = self.real(name, -hi, hi)
        self._add(z3.Or(r.num >= sym.rv(lo), r.num <= sym.rv(-lo)))
        return r

    def int(self, name, lo, hi):
        name = self._name(name)
        v = z3.Int(name)
        self.inputs.append((name, "int", v))
        if lo is not None:
            self._add(v >= lo)
        if hi is not None:
            self._add(v <= hi)
        return self.concretize_int(v) if self.split_ints else SymInt(v)

    def intreal(self, name, lo, hi):
        """An integer-valued float."""
        name = self._name(name)
        v = z3.Int(name)
        self.inputs.append((name, "intreal", v))
        self._add(v >= lo)
        self._add(v <= hi)
        return float(self.concretize_int(v)) if self.split_ints else SymReal(z3.ToReal(v))

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        self.inputs.append((name, "bool", v))
        return self.branch(v) if self.split_ints else SymBool(v)

    def choose(self, name, n):
        """A symbolic selector in range(n); every value is feasible (fresh)."""
        name = self._name(name)
        if n <= 1:
            self.inputs.append((name, "sel", 0))
            return 0
        self.stats.selectors += 1
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            assert k[0] == "s", ("nondeterministic harness", k, name)
            k = k[1]
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                self.alternatives.append(self.trail + [("s", j)])
        self.pos += 1
        self.trail.append(("s", k))
        self.inputs.append((name, "sel", k))
        return k

    def fresh_int(self, hint):
        self.nfresh += 1
        return z3.Int(f"!{hint}{self.nfresh}")

    def add_def(self, e):
        self._add(e)

    # -- path condition -----------------------------------------------------
    def _add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if self.mod is not None and not z3.is_true(self.mod.eval(e, model_completion=True)):
            self.mod = None

    def _check(self, *assumptions, timeout=None):
        t0 = time.perf_counter()
        if timeout is not None:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*assumptions)
        if timeout is not None:
            self.solver.set("timeout", self.timeout_ms)
        self.stats.solver_s += time.perf_counter() - t0
        return r

    def assume(self, cond):
        if isinstance(cond, SymBool):
            self._add(cond.e)
            self.stats.branch_queries += 1
            if self._check() == z3.unsat:
                raise Infeasible()
        elif not cond:
            raise Infeasible()

    def branch(self, e):
        e = z3.simplify(z3.substitute(e, *self.fixed) if self.fixed else e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        seen = self.decided.get(e.get_id())
        if seen is not None:
            return seen[1]
        r = self._branch(e)
        self.decided[e.get_id()] = (e, r)
        return r

    def _branch(self, e):
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            if k[0] != "b":
                raise sym.EngineError(f"nondeterministic execution: {k} at {e}")
            self.pos += 1
            self.trail.append(k)
            self._add(e if k[1] else z3.Not(e))
            return k[1]
        ne = z3.Not(e)
        rt = rf = None
        if self.mod is not None:
            mv = self.mod.eval(e, model_completion=True)
            if z3.is_true(mv):
                rt = z3.sat
            elif z3.is_false(mv):
                rf = z3.sat
        if rt is None:
            self.stats.branch_queries += 1
            rt = self._check(e, timeout=5000)
            if rt == z3.sat:
                self.mod = self.solver.model()
        if rt == z3.unsat:
            taken = False
        else:
            if rf is None:
                self.stats.branch_queries += 1
                rf = self._check(ne, timeout=5000)
            taken = True
            if rf != z3.unsat:
                self.alternatives.append(self.trail + [("b", False)])
        self.pos += 1
        self.trail.append(("b", taken))
        self._add(e if taken else ne)
        return taken

    def concretize_int(self, e):
        """Complete split on the value of an integer term."""
        if z3.is_int_value(e):
            return e.as_long()
        seen = self.intvals.get(e.get_id())
        if seen is not None:
            return seen[1]
        orig = e
        e = z3.simplify(z3.substitute(e, *self.fixed) if self.fixed else e)
        if z3.is_int_value(e):
            v = e.as_long()
        else:
            v = self._split_int(e)
            self._fix_vars(e)
        self.intvals[orig.get_id()] = (orig, v)
        return v

    def _fix_vars(self, e):
        """Remembers the integer inputs that have one value left on this path."""
        xs = {}
        todo = [e]
        while todo:
            x = todo.pop()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.is_int():
                xs[x.get_id()] = x
            todo.extend(x.children())
        if len(xs) != 1:
            return
        x = next(iter(xs.values()))
        if self.mod is None:
            if self._check() != z3.sat:
                return
            self.mod = self.solver.model()
        v = self.mod.eval(x, model_completion=True)
        self.stats.branch_queries += 1
        if self._check(x != v) == z3.unsat:
            self.fixed.append((x, v))

    def _split_int(self, e):
        while True:
            if self.pos < len(self.prefix):
                k = self.prefix[self.pos]
                if k[0] != "i":
                    raise sym.EngineError(f"nondeterministic execution: {k} at {e}")
                v, eq = k[1], k[2]
            else:
                if self.mod is None:
                    self.stats.branch_queries += 1
                    r = self._check()
                    if r != z3.sat:
                        if r == z3.unsat:
                            raise Infeasible()
                        raise sym.EngineError("unknown while splitting an integer")
                    self.mod = self.solver.model()
                v = self.mod.eval(e, model_completion=True).as_long()
                eq = True
                self.stats.branch_queries += 1
                if self._check(e != v) != z3.unsat:
                    self.alternatives.append(self.trail + [("i", v, False)])
                k = ("i", v, True)
            self.pos += 1
            self.trail.append(k)
            if eq:
                self._add(e == v)
                return v
            self._add(e != v)

    def concretize_real(self, r):
        """
        A C routine wants a machine float: keep one value of the path (this
        under-approximates, so the path is flagged).
        """
        if r.den is None:
            s = z3.simplify(r.num)
            if z3.is_rational_value(s):
                return float(s.as_fraction())
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            if k[0] != "r":
                raise sym.EngineError("nondeterministic execution")
            v = k[1]
        else:
            if self._check() != z3.sat:
                raise Infeasible()
            m = self.solver.model()
            v = _frac(m.eval(r.expr(), model_completion=True))
        self.pos += 1
        self.trail.append(("r", v))
        self.stats.concretisations += 1
        where = _where()
        self.incomplete.append(f"concretised a real at {where}")
        b = as_boolexpr(r == v)
        self._add(b)
        return float(v)

    # -- property -----------------------------------------------------------
    def check(self, cond, msg):
        if isinstance(cond, SymBool):
            self._query(z3.Not(cond.e), msg)
        elif isinstance(cond, bool) or cond in (0, 1):
            if cond:
                self.stats.trivial_checks += 1
                return
            self._violate(msg, [])
        else:
            raise TypeError(f"check of a non boolean {cond!r}")

    def _query(self, neg, msg, stronger=()):
        self.stats.check_queries += 1
        self.solver.push()
        self.solver.add(neg)
        r = self._check()
        self.solver.pop()
        if r == z3.unsat:
            self.stats.checks_discharged += 1
            return
        if r == z3.unknown:
            self.stats.unknown += 1
            self.incomplete.append(f"solver answered unknown on: {msg}")
            return
        self._violate(msg, [neg], stronger)

    def _violate(self, msg, extra, stronger=()):
        values = None
        reals = [v for (_, k, v) in self.inputs if k == "real"]
        nice = [z3.IsInt(v * 4) for v in reals] if len(reals) <= 40 else []
        attempts = []
        for st in list(stronger) + [None]:
            base = list(extra) + ([st] if st is not None else [])
            if nice:
                attempts.append((base + nice, 3000))
            attempts.append((base, self.timeout_ms))
        for add, to in attempts:
            self.solver.push()
            self.solver.add(*add)
            r = self._check(timeout=to)
            if r == z3.sat:
                values = self._values(self._spread(self.solver.model(), reals))
                self.solver.pop()
                break
            self.solver.pop()
        else:
            if not extra:
                # concrete failure on an infeasible / undecided path
                if self._check() == z3.unsat:
                    raise Infeasible()
            self.stats.unknown += 1
            self.incomplete.append(f"no model for: {msg}")
            return
        raise Violation(msg, values)

    def _spread(self, model, reals, budget=2.0):
        """A model of the assertions whose numbers differ from each other and from 0 and 1 where they can (no coincidences in the replay)."""
        if len(reals) > 40:
            return model
        used, end = [z3.RealVal(0), z3.RealVal(1)], time.time() + budget
        for v in reals:
            if time.time() > end:
                break
            cur = model.eval(v, model_completion=True)
            if not any(z3.is_true(z3.simplify(cur == u)) for u in used):
                used.append(cur)
                self.solver.add(v == cur)
                continue
            self.solver.push()
            self.solver.add(z3.And(*[v != u for u in used]))
            if self._check(timeout=300) == z3.sat:
                # kept: the caller pops to its own level
                model = self.solver.model()
                used.append(model.eval(v, model_completion=True))
                keep = v == used[-1]
                self.solver.pop()
                self.solver.add(keep)
            else:
                self.solver.pop()
        return model

    def _values(self, model):
        out = {}
        for name, kind, v in self.inputs:
            if kind == "sel":
                out[name] = v
            else:
                e = model.eval(v, model_completion=True)
                if kind == "bool":
                    out[name] = z3.is_true(e)
                elif kind in ("int", "intreal"):
                    out[name] = e.as_long()
                else:
                    f = _frac(e)
                    out[name] = f"{f.numerator}/{f.denominator}"
        return out

    def path_values(self):
        if self._check() != z3.sat:
            return None
        return self._values(self.solver.model())

    def close(self, a, b):
        """|a-b| <= 1e-6 as a condition."""
        if not isinstance(a, sym.Sym) and not isinstance(b, sym.Sym):
            return _cclose(a, b)
        for x in (a, b):
            if not isinstance(x, sym.Sym) and (x in (float("inf"), float("-inf")) or x != x):
                return False
        return or_(a == b, abs(SymReal.lift(a) - SymReal.lift(b)) <= TOL)

    def holds(self, cond):
        """True if the path condition implies cond (not a branch, not a check)."""
        if not isinstance(cond, SymBool):
            return bool(cond)
        self.stats.check_queries += 1
        self.solver.push()
        self.solver.add(z3.Not(cond.e))
        r = self._check()
        self.solver.pop()
        if r == z3.unsat:
            self.stats.checks_discharged += 1
        return r == z3.unsat

    def all_equal(self, pairs):
        """True if the path condition implies that all pairs are equal."""
        conds = []
        for a, b in pairs:
            if not isinstance(a, sym.Sym) and not isinstance(b, sym.Sym):
                if not _cclose(a, b):
                    return False
                continue
            if _nonfinite(a) or _nonfinite(b):
                return False
            eq = SymReal.lift(a) == SymReal.lift(b)
            if eq is False:
                return False
            if eq is not True:
                e = z3.simplify(eq.e, som=True, mul_to_power=True)
                if not z3.is_true(e):
                    conds.append(e)
                    continue
            # identical after normalisation by the solver's simplifier
            self.stats.check_queries += 1
            self.stats.checks_discharged += 1
        if not conds:
            return True
        return self.holds(mkbool(z3.And(*conds)))

    def check_close(self, a, b, msg):
        if not isinstance(a, sym.Sym) and not isinstance(b, sym.Sym):
            return self.check(_cclose(a, b), f"{msg}: got {a!r}, expected {b!r}")
        for x in (a, b):
            if not isinstance(x, sym.Sym) and (x in (float("inf"), float("-inf")) or x != x):
                return self.check(False, f"{msg}: got {a!r}, expected {b!r}")
        a = SymReal.lift(a)
        b = SymReal.lift(b)
        eq = a == b
        if eq is True:
            # identical after polynomial normalisation by the solver
            self.stats.check_queries += 1
            self.stats.checks_discharged += 1
            return
        if eq is not False:
            n = z3.simplify(z3.Not(eq.e), som=True, mul_to_power=True)
            self.stats.check_queries += 1
            if z3.is_false(n):
                self.stats.checks_discharged += 1
                return
            self.solver.push()
            self.solver.add(n)
            r = self._check()
            self.solver.pop()
            if r == z3.unsat:
                self.stats.checks_discharged += 1
                return
        d = abs(a - b)

        def gt(t):
            return as_boolexpr(d > t)

        self._query(gt(TOL), f"{msg}", [gt(1), gt(Fraction(1, 1000))])


def _nonfinite(x):
    return not isinstance(x, sym.Sym) and (x != x or x in (float("inf"), float("-inf")))


def _where():
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if "/vf/" not in n:
            return f"{n}:{f.f_lineno}"
        f = f.f_back
    return "?"


def _frac(e):
    if z3.is_algebraic_value(e):
        e = e.approx(12)
    return e.as_fraction()


def _cclose(a, b):
    if a == b:
        return True
    try:
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= 1e-7 + 1e-9 * max(abs(a), abs(b))
    except (TypeError, OverflowError):
        return False


class ConcreteCtx(Ctx):
    def __init__(self, values):
        super().__init__()
        self.values = values
        self.checks = 0
        self.notes = {}

    def _get(self, name):
        name = self._name(name)
        if name not in self.values:
            raise sym.EngineError(f"replay diverged: no value for input {name}")
        return self.values[name]

    def real(self, name, lo=None, hi=None):
        v = self._get(name)
        if isinstance(v, str):
            n, d = v.split("/")
            return int(n) / int(d)
        return float(v)

    nonzero = real

    def int(self, name, lo=None, hi=None):
        return int(self._get(name))

    def intreal(self, name, lo=None, hi=None):
        return float(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def choose(self, name, n):
        return self._get(name)

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Violation(msg)

    def holds(self, cond):
        return bool(cond)

    def all_equal(self, pairs):
        return all(_cclose(a, b) for a, b in pairs)

    def close(self, a, b):
        return _cclose(a, b)

    def check_close(self, a, b, msg):
        self.checks += 1
        if not _cclose(a, b):
            raise Violation(f"{msg}: got {a!r}, expected {b!r}")


# ---------------------------------------------------------------------------


def run_path(fn, params, prefix, stats, timeout_ms=20000, split_ints=False):
    """
    Runs one path. Returns (ctx, outcome) with outcome in
    None | ("violation", msg, values, kind) | ("incomplete", why)
    """
    ctx = SymCtx(prefix, stats, timeout_ms, split_ints)
    sym.CUR = ctx
    sym.reset_tokens()
    outcome = None
    try:
        fn(ctx, **params)
    except Infeasible:
        stats.infeasible += 1
        outcome = ("infeasible",)
    except Violation as v:
        outcome = ("violation", v.msg, v.values, v.kind)
    except sym.EngineError as e:
        ctx.incomplete.append(f"engine: {e}")
    except z3.Z3Exception as e:
        ctx.incomplete.append(f"z3: {e}")
    except RecursionError as e:
        outcome = ("exception", f"RecursionError: {e}", None)
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        loc = tb[-1]
        outcome = (
            "exception",
            f"unexpected {type(e).__name__}: {_short(e)} ({loc.filename.rsplit('/', 1)[-1]}:{loc.lineno})",
            None,
        )
    finally:
        if outcome is None or outcome[0] != "infeasible":
            stats.paths += 1
            for c in ctx.covers:
                stats.covers[c] = stats.covers.get(c, 0) + 1
    if outcome is not None and outcome[0] == "exception":
        vals = None
        try:
            vals = ctx.path_values()
        except (sym.EngineError, z3.Z3Exception):
            pass
        if vals is None and ctx._check() == z3.unsat:
            outcome = ("infeasible",)
            stats.infeasible += 1
        else:
            outcome = ("violation", outcome[1], vals, "exception")
    sym.CUR = None
    return ctx, outcome


def skeleton(msg):
    """A message without its numbers."""
    return re.sub(r"-?\d+(\.\d+)?(e-?\d+)?", "#", msg)


def _short(e):
    s = str(e)
    return s if len(s) < 200 else s[:200] + "..."


def explore(fn, params, prefixes, deadline, stop=None, max_paths=None, on_path=None,
            want_samples=2, rng=None, timeout_ms=20000, frontier=None, split_ints=False, known=()):
    """
    Depth-first exploration from the given prefixes.
    Returns dict(stats, violations, incomplete, remaining, samples).
    When `frontier` is given, stops as soon as that many prefixes are pending
    and returns them (breadth first), to be shared between workers.
    """
    rng = rng or random.Random(0)
    stats = Stats()
    work = list(prefixes)
    res = dict(violations=[], incomplete=[], samples=[], remaining=[])
    history = []  # path conditions of the latest paths (for history replay)
    seen = 0
    while work:
        if time.time() > deadline or (stop is not None and stop.is_set()):
            res["remaining"] = work
            break
        if max_paths is not None and seen >= max_paths:
            res["remaining"] = work
            break
        if frontier is not None and len(work) >= frontier:
            res["remaining"] = work
            break
        prefix = work.pop(0) if frontier is not None else work.pop()
        ctx, outcome = run_path(fn, params, prefix, stats, timeout_ms, split_ints)
        work.extend(ctx.alternatives)
        if outcome is not None and outcome[0] == "infeasible":
            continue
        seen += 1
        if outcome is not None and outcome[0] == "violation":
            _, msg, values, kind = outcome
            if skeleton(msg) in known:
                # an artefact of the proxies (it did not reproduce on the real
                # code): the path is not decided, its inputs get replayed
                if len(res["incomplete"]) < 60:
                    res["incomplete"].append(dict(why=["not reproduced: " + msg], values=values))
                continue
            res["violations"].append(
                dict(msg=msg, values=values, kind=kind,
                     history=[h for h in (_hist_values(c) for c in history[-12:]) if h])
            )
            if len(res["violations"]) >= 3:
                res["remaining"] = work
                break
            continue
        if ctx.incomplete:
            vals = None
            try:
                vals = ctx.path_values()
            except BaseException:
                pass
            if len(res["incomplete"]) < 20:
                res["incomplete"].append(dict(why=ctx.incomplete[:3], values=vals))
        history.append(ctx)
        if len(history) > 16:
            history.pop(0)
        # reservoir sample of passing paths, for validation on the real code
        if want_samples:
            if len(res["samples"]) < want_samples:
                res["samples"].append(ctx)
            elif rng.random() < want_samples / seen:
                res["samples"][rng.randrange(want_samples)] = ctx
    out = []
    for c in res["samples"]:
        v = _hist_values(c)
        if v:
            out.append(v)
    res["samples"] = out
    res["stats"] = stats
    return res


def _hist_values(ctx):
    try:
        return ctx.path_values()
    except BaseException:
        return None
