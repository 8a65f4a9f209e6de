"""
A recording stand-in for the OR-Tools linear solver, used during symbolic
execution only (OR-Tools' C++ objects cannot hold symbolic coefficients).
Replays run on the real OR-Tools, through the same read API.
"""
import math

from vf import sym

INF = math.inf


class Var:
    def __init__(self, solver, index, lb, ub, integer, name):
        self._solver, self._index, self._name = solver, index, name
        self._lb, self._ub, self._int = lb, ub, integer
        self.sol = None

    def name(self):
        return self._name

    def index(self):
        return self._index

    def lb(self):
        return self._lb

    def ub(self):
        return self._ub

    Lb, Ub = lb, ub

    def SetLb(self, v):
        self._lb = v

    def SetUb(self, v):
        self._ub = v

    def SetBounds(self, a, b):
        self._lb, self._ub = a, b

    def integer(self):
        return self._int

    Integer = integer

    def SetInteger(self, b):
        self._int = bool(b)

    def solution_value(self):
        return self.sol

    SolutionValue = solution_value

    def __repr__(self):
        return self._name


class Cstr:
    def __init__(self, solver, index, lb, ub, name):
        self._solver, self._index, self._name = solver, index, name
        self._lb, self._ub = lb, ub
        self._coef = {}

    def name(self):
        return self._name

    def index(self):
        return self._index

    def lb(self):
        return self._lb

    def ub(self):
        return self._ub

    Lb, Ub = lb, ub

    def SetLb(self, v):
        self._lb = v

    def SetUb(self, v):
        self._ub = v

    def SetBounds(self, a, b):
        self._lb, self._ub = a, b

    def GetCoefficient(self, v):
        assert v._solver is self._solver, "variable of another solver"
        return self._coef.get(v._index, 0.0)

    def SetCoefficient(self, v, c):
        assert v._solver is self._solver, "variable of another solver"
        self._coef[v._index] = c

    def Clear(self):
        self._coef = {}


class Obj:
    def __init__(self, solver):
        self._solver = solver
        self._coef = {}
        self._off = 0.0
        self._max = False

    GetCoefficient = Cstr.GetCoefficient
    SetCoefficient = Cstr.SetCoefficient

    def offset(self):
        return self._off

    Offset = offset

    def SetOffset(self, v):
        self._off = v

    def SetMinimization(self):
        self._max = False

    def SetMaximization(self):
        self._max = True

    def SetOptimizationDirection(self, b):
        self._max = bool(b)

    def minimization(self):
        return not self._max

    def maximization(self):
        return self._max

    def Clear(self):
        self._coef, self._off, self._max = {}, 0.0, False


class Solver:
    _alive = []

    def __init__(self, name):
        self._id = name
        self._vars, self._cstrs = [], []
        self._obj = Obj(self)

    @staticmethod
    def infinity():
        return INF

    Infinity = infinity

    def Var(self, lb, ub, integer, name):
        v = Var(self, len(self._vars), lb, ub, bool(integer), name)
        self._vars.append(v)
        return v

    def NumVar(self, lb, ub, name):
        return self.Var(lb, ub, False, name)

    def IntVar(self, lb, ub, name):
        return self.Var(lb, ub, True, name)

    def BoolVar(self, name):
        return self.Var(0.0, 1.0, True, name)

    def Constraint(self, *args):
        lb, ub, name = -INF, INF, ""
        args = list(args)
        if args and isinstance(args[-1], str):
            name = args.pop()
        if len(args) == 2:
            lb, ub = args
        elif args:
            raise TypeError("Constraint()")
        c = Cstr(self, len(self._cstrs), lb, ub, name)
        self._cstrs.append(c)
        return c

    RowConstraint = Constraint

    def Objective(self):
        return self._obj

    def variables(self):
        return list(self._vars)

    def constraints(self):
        return list(self._cstrs)

    def variable(self, i):
        return self._vars[i]

    def constraint(self, i):
        return self._cstrs[i]

    def NumVariables(self):
        return len(self._vars)

    def NumConstraints(self):
        return len(self._cstrs)

    def LookupVariable(self, name):
        for v in self._vars:
            if v._name == name:
                return v
        return None

    def LookupConstraint(self, name):
        for v in self._cstrs:
            if v._name == name:
                return v
        return None

    def Solve(self, *a):
        """Only problems whose variables are all fixed by their bounds."""
        if self._cstrs:
            raise sym.EngineError("the recording solver does not solve")
        for v in self._vars:
            if not sym.same(v._lb, v._ub):
                raise sym.EngineError("the recording solver does not solve")
            v.sol = v._lb
        return 0

    def ExportModelAsMpsFormat(self, fixed_format=True, obfuscated=False):
        return f"MPS {id(self)}"

    def ExportModelAsLpFormat(self, obfuscated=False):
        return f"LP {id(self)}"

    def IsMip(self):
        return not any(n in self._id.upper() for n in ("GLOP", "CLP", "PDLP", "LINEAR_PROGRAMMING", "_LP"))

    def EnableOutput(self):
        pass

    def SuppressOutput(self):
        pass


def install():
    import ortools.linear_solver.pywraplp as lp

    lp.Solver.CreateSolver = staticmethod(lambda solver_id: Solver(solver_id))
