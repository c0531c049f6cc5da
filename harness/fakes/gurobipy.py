"""A stand-in for the Gurobi interface: the documented meaning of the calls
switss makes, on programs small enough for scipy's solvers.

Kept from the documentation: variables have a lower bound of 0 unless told
otherwise, binary variables are 0 or 1, constraints are comparisons of linear
expressions (a plain truth value is rejected), `(b == v) >> (expr <sense> rhs)`
is an indicator constraint, attributes exist once the model is optimised, a
solution within the gaps of the parameters will do, and a time limit of less
than some seconds is taken to run out.
"""
import itertools
import math
import numpy as np
from scipy.optimize import milp, linprog, LinearConstraint, Bounds


class GurobiError(Exception):
    pass


class GRB:
    MINIMIZE, MAXIMIZE = 1, -1
    CONTINUOUS, BINARY, INTEGER = "C", "B", "I"
    INFINITY = 1e100
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED, TIME_LIMIT = 1, 2, 3, 4, 5, 9
    LESS_EQUAL, GREATER_EQUAL, EQUAL = "<", ">", "="


def number(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))


class LinExpr:
    __array_ufunc__ = None

    def __init__(self, arg1=0.0, arg2=None):
        self.terms, self.const = [], 0.0
        if arg2 is not None:
            cs, vs = (arg1, arg2) if isinstance(arg2, (list, tuple)) else ([arg1], [arg2])
            self.terms = [(v, float(c)) for c, v in zip(cs, vs)]
        elif isinstance(arg1, Var):
            self.terms = [(arg1, 1.0)]
        elif isinstance(arg1, LinExpr):
            self.terms, self.const = list(arg1.terms), arg1.const
        elif number(arg1):
            self.const = float(arg1)
        else:
            self.terms = [(v, float(c)) for c, v in arg1]

    @staticmethod
    def _of(terms, const=0.0):
        e = LinExpr(float(const))
        e.terms = list(terms)
        return e

    def addTerms(self, cs, vs):
        self.terms += LinExpr(cs, vs).terms

    def add(self, o, mult=1.0):
        d = self._with(o, mult)
        self.terms, self.const = d.terms, d.const

    def _with(self, o, sg):
        if isinstance(o, Var):
            o = o._expr()
        if isinstance(o, LinExpr):
            return LinExpr._of(self.terms + [(v, sg * c) for v, c in o.terms], self.const + sg * o.const)
        if number(o):
            return LinExpr._of(self.terms, self.const + sg * float(o))
        return NotImplemented

    def __add__(self, o):
        return self._with(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._with(o, -1)

    def __neg__(self):
        return self * -1

    def __rsub__(self, o):
        return (-self)._with(o, 1)

    def __mul__(self, k):
        if not number(k):
            return NotImplemented
        return LinExpr._of([(v, c * float(k)) for v, c in self.terms], self.const * float(k))
    __rmul__ = __mul__

    def _cmp(self, s, o):
        d = self._with(o, -1)
        return d if d is NotImplemented else TempConstr(d, s)

    def __le__(self, o):
        return self._cmp("<", o)

    def __ge__(self, o):
        return self._cmp(">", o)

    def __eq__(self, o):
        return self._cmp("=", o)
    __hash__ = None


class Var:
    __array_ufunc__ = None

    def __init__(self, model, i, lb, ub, vtype):
        self._model, self._i, self.lb, self.ub, self.vtype = model, i, lb, ub, vtype

    def _expr(self):
        return LinExpr._of([(self, 1.0)])

    def __add__(self, o):
        return self._expr() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._expr() - o

    def __rsub__(self, o):
        return (-self._expr()) + o

    def __mul__(self, k):
        return self._expr() * k
    __rmul__ = __mul__

    def __neg__(self):
        return self._expr() * -1

    def __le__(self, o):
        return self._expr() <= o

    def __ge__(self, o):
        return self._expr() >= o

    def __eq__(self, o):
        return self._expr() == o

    def __hash__(self):
        return id(self)

    @property
    def x(self):
        if self._model._x is None:
            raise AttributeError("Unable to retrieve attribute 'x'")
        return float(self._model._x[self._i])
    X = x


def quicksum(xs):
    return sum(xs, LinExpr())


class TempConstr:
    def __init__(self, expr, sense):
        self.expr, self.sense = expr, sense

    def __rshift__(self, o):
        if not isinstance(o, TempConstr):
            return NotImplemented
        return GenExpr(self, o)

    def __bool__(self):
        raise GurobiError("Constraint has no bool value (are you trying \"lb <= expr <= ub\"?)")


class GenExpr:
    def __init__(self, ind, then):
        e = ind.expr
        if ind.sense != "=" or len(e.terms) != 1 or e.terms[0][1] != 1 or -e.const not in (0, 1):
            raise GurobiError("Indicator must be a binary variable equal to 0 or 1")
        self.var, self.val, self.then = e.terms[0][0], int(-e.const), then


class Constr:
    pass


class Model:
    PARAMS = {"outputflag", "mipgap", "mipgapabs", "feasibilitytol", "intfeastol", "numericfocus", "threads", "timelimit"}
    STOP = None      # set by a test: the model is stopped early, with this status

    def __init__(self, name=""):
        self._vars, self._cons, self._obj, self._sense = [], {}, LinExpr(), GRB.MINIMIZE
        self.status, self._x, self._val = GRB.LOADED, None, None
        self._params = {}

    def setParam(self, name, value):
        if name.lower() not in self.PARAMS:
            raise GurobiError("Unknown parameter '%s'" % name)
        self._params[name.lower()] = float(value)

    def update(self):
        pass

    def addVar(self, lb=0.0, ub=float("inf"), obj=0.0, vtype="C", name="", column=None):
        v = Var(self, len(self._vars), float(lb), float(ub), vtype)
        if obj:
            self._obj = self._obj + float(obj) * v
        self._vars.append(v)
        return v

    def addConstr(self, c, name=""):
        if not isinstance(c, (TempConstr, GenExpr)):
            raise GurobiError("Unsupported type (%s) for argument" % type(c))
        k = Constr()
        self._cons[k] = c
        return k

    def addGenConstrIndicator(self, binvar, binval, lhs, sense=None, rhs=None, name=""):
        if sense is not None:
            lhs = TempConstr(lhs - rhs, sense)
        g = GenExpr(binvar == int(binval), lhs)
        return self.addConstr(g, name)

    def remove(self, c):
        if isinstance(c, Constr) and c in self._cons:
            del self._cons[c]
        else:
            raise GurobiError("Item to be removed not in model")

    def setObjective(self, expr, sense=None):
        if isinstance(expr, Var):
            expr = expr._expr()
        if number(expr):
            expr = LinExpr(expr)
        if not isinstance(expr, LinExpr):
            raise GurobiError("Unsupported objective")
        self._obj = expr
        if sense is not None:
            self._sense = sense

    @property
    def objVal(self):
        if self._val is None:
            raise AttributeError("Unable to retrieve attribute 'objVal'")
        return self._val
    ObjVal = objVal

    def _row(self, expr):
        a = np.zeros(len(self._vars))
        for v, c in expr.terms:
            a[v._i] += c
        return a

    def optimize(self):
        if Model.STOP is not None:
            self.status, self._x, self._val = Model.STOP, None, None
            return
        n = len(self._vars)
        sg = 1 if self._sense == GRB.MINIMIZE else -1
        c = sg * self._row(self._obj)
        rows = [(self._row(k.expr), k.sense, -k.expr.const) for k in self._cons.values() if isinstance(k, TempConstr)]
        inds = [k for k in self._cons.values() if isinstance(k, GenExpr)]
        inf = lambda x: math.inf if x >= 1e20 else -math.inf if x <= -1e20 else x
        lo = [inf(v.lb) for v in self._vars]
        hi = [inf(v.ub) for v in self._vars]
        isint = [0 if v.vtype == "C" else 1 for v in self._vars]
        for i, v in enumerate(self._vars):
            if v.vtype == "B":
                lo[i], hi[i] = max(0.0, lo[i]), min(1.0, hi[i])
        st, x = search(c, rows, inds, lo, hi, isint, self._row)
        if st == GRB.OPTIMAL and (any(isint) or inds):
            # any solution within the gaps will do
            gap = max(self._params.get("mipgapabs", 1e-10), self._params.get("mipgap", 1e-4) * abs(c @ x + sg * self._obj.const))
            if gap > 1e-5:
                st2, x2 = search(c, rows + [(c, ">", c @ x + gap / 2), (c, "<", c @ x + gap)], inds, lo, hi, isint, self._row)
                if st2 == GRB.OPTIMAL:
                    x = x2
        if self._params.get("timelimit", 1e9) < 5:
            st, x = GRB.TIME_LIMIT, None
        self.status = st
        self._x = x
        self._val = None if x is None else float(sg * (c @ x) + self._obj.const) if n else float(self._obj.const)


def one(c, rows, lo, hi, isint):
    n = len(c)
    if any(l > h for l, h in zip(lo, hi)):
        return GRB.INFEASIBLE, None
    if n == 0:
        good = all({"<": 0 <= b, ">": 0 >= b, "=": b == 0}[s] for _, s, b in rows)
        return (GRB.OPTIMAL, np.zeros(0)) if good else (GRB.INFEASIBLE, None)

    def run(c):
        cons = []
        if rows:
            A = np.array([a for a, _, _ in rows])
            l = [b if s in "=>" else -np.inf for _, s, b in rows]
            u = [b if s in "=<" else np.inf for _, s, b in rows]
            cons = [LinearConstraint(A, l, u)]
        return milp(c, constraints=cons, integrality=isint, bounds=Bounds(lo, hi), options={"mip_rel_gap": 0})
    r = run(c)
    if r.status == 0:
        x = np.array(r.x)
        for i in range(n):
            if isint[i]:
                x[i] = round(x[i])
        return GRB.OPTIMAL, x
    # infeasible and unbounded are told apart by a program without objective
    f = run(np.zeros(n))
    return (GRB.UNBOUNDED, None) if f.status == 0 else (GRB.INFEASIBLE, None)


def search(c, rows, inds, lo, hi, isint, row):
    """Indicator constraints by enumeration of their binary variables."""
    bs = sorted({g.var._i for g in inds})
    if len(bs) > 12:
        raise GurobiError("too many indicators for the stand-in")
    best, status = None, GRB.INFEASIBLE
    for vals in sorted(itertools.product((0, 1), repeat=len(bs)), key=sum):
        at = dict(zip(bs, vals))
        base = sum(c[b] * v for b, v in at.items())
        rest_zero = all(c[i] == 0 for i in range(len(c)) if i not in at)
        if best is not None and rest_zero and base >= best[0] - 1e-12:
            continue
        l, h, rs = list(lo), list(hi), list(rows)
        for b, v in at.items():
            l[b], h[b] = max(l[b], v), min(h[b], v)
        for g in inds:
            if at[g.var._i] == g.val:
                rs.append((row(g.then.expr), g.then.sense, -g.then.expr.const))
        st, x = one(c, rs, l, h, isint)
        if st == GRB.UNBOUNDED:
            return st, None
        if st == GRB.OPTIMAL and (best is None or c @ x < best[0] - 1e-12):
            best, status = (c @ x, x), st
    return status, best[1] if best else None
