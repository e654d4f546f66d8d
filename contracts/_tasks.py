"""What each optimization task charges: the specification side, used by several contract modules."""
from vcgen.lib import *

IMAX = 2147483647
TOTAL = ("Accuracy", "CostComplexAccuracy", "CostSensitive", "InstanceCostSensitive", "PrescriptivePolicy", "Regression", "CostComplexRegression",
         "PieceWiseLinearRegression", "SimpleLinearRegression", "SurvivalAnalysis")
PARTIAL = ("F1Score", "EqOpp", "GroupFairness")
BRANCHING = ("CostComplexAccuracy", "CostSensitive", "CostComplexRegression", "PieceWiseLinearRegression", "SimpleLinearRegression")
TERMINAL = tuple(t for t in TOTAL + PARTIAL if t != "PieceWiseLinearRegression")


def task_of(q):
    return q[q.index("<") + 1:q.index(">")]


is_total = lambda q: task_of(q) in TOTAL
is_partial = lambda q: task_of(q) in PARTIAL
log = Function("math_log", RealSort(), RealSort())


def add(x, y):
    """Sum of two values, component by component."""
    if is_z3(x):
        return x + y
    return Struct(x.name, {k: (z3.BoolVal(False) if k == "root_solution" else add(x.f[k], y.f[k])) for k in x.f})


def sub(x, y):
    if is_z3(x):
        return x - y
    return Struct(x.name, {k: (z3.BoolVal(False) if k == "root_solution" else sub(x.f[k], y.f[k])) for k in x.f})


def eq(x, y):
    """Equal values; the flag of a root solution does not matter."""
    if is_z3(x):
        return x == y
    return And([eq(x.f[k], y.f[k]) for k in x.f if k != "root_solution"])


def nonneg(x):
    if is_z3(x):
        return x >= 0
    return And([nonneg(x.f[k]) for k in x.f if k != "root_solution"])


def rmax(a, b):
    return If(a < b, b, a)


def d2(task, x, count):
    """Cost of a leaf from the summed costs of its instances."""
    if task in ("Accuracy", "CostComplexAccuracy", "CostSensitive", "PrescriptivePolicy", "F1Score", "EqOpp", "GroupFairness"):
        return x
    if task == "InstanceCostSensitive":
        return rmax(x, RealVal(0))
    if task == "Regression":
        return If(count == 0, RealVal(0), rmax(x.f["yys"] - x.f["ys"] * x.f["ys"] / ToReal(count), RealVal(0)))
    if task == "CostComplexRegression":
        return If(count == 0, DBL_MAX, rmax(x.f["yys"] - x.f["ys"] * x.f["ys"] / ToReal(x.f["weight"]), RealVal(0)))
    raise Unsupported(task)


D2TASKS = ("Accuracy", "CostComplexAccuracy", "CostSensitive", "PrescriptivePolicy", "F1Score", "EqOpp", "GroupFairness", "InstanceCostSensitive", "Regression", "CostComplexRegression")


PAID = Function("paid", R, I, R)


def paid(v, count):
    """A cost that every instance pays."""
    return PAID(v, count) if OPAQUE[0] else v * ToReal(count)
