"""Notation shared by the contract modules."""
import z3
from z3 import And, Or, Not, Implies, If, Int, Real, IntVal, RealVal, IntSort, RealSort, BoolSort, ArraySort, Select, Store, ToReal, Const, Function, ForAll, Exists, BoolVal, Ints
from .engine import forall, RecSpec, Axiomatic, DBL_MAX, Pow2Spec
from .contract import Contract, OPAQUE
from .values import *

AI = ArraySort(IntSort(), IntSort())
AR = ArraySort(IntSort(), RealSort())
AB = ArraySort(IntSort(), BoolSort())
I, R, B = IntSort(), RealSort(), BoolSort()


class Module:
    """A set of contracts over one translation unit made of real source files."""
    def __init__(self, name, files):
        self.name, self.files, self.contracts, self.targets = name, files, {}, []

    def add(self, q, props=(), verify=True, **kw):
        c = Contract(q, props=props, **kw)
        self.contracts[(q, c.nparams, c.sig, len(self.contracts))] = c
        if verify:
            self.targets.append(c)
        return c


def eq_at(i, n, f):
    """f holds at the (arbitrary) index i when it is below n."""
    return Implies(And(i >= 0, i < n), f(i))


def both(a, b):
    return And(a, b)


def vec_unchanged(a, b):
    return And(a.len == b.len, eqv(a.data, b.data))


# prefix sum of an integer / real array, number of true entries below n
isum = RecSpec("isum", [AI], I, lambda a: IntVal(0), lambda a, n, r: r + Select(a, n), local=[0])
rsum = RecSpec("rsum", [AR], R, lambda a: RealVal(0), lambda a, n, r: r + Select(a, n), local=[0])
icount = RecSpec("icount", [AI, I], I, lambda a, x: IntVal(0), lambda a, x, n, r: r + If(Select(a, n) == x, IntVal(1), IntVal(0)), local=[0])

# the solver and everything it is made of, as one translation unit
SOLVER = ["src/solver/solver.cpp", "src/solver/terminal_solver.cpp", "src/solver/cost_combiner.cpp", "src/solver/cost_storage.cpp", "src/solver/cache.cpp",
          "src/solver/branch_cache.cpp", "src/solver/dataset_cache.cpp", "src/solver/similarity_lowerbound.cpp", "src/solver/data_splitter.cpp",
          "src/solver/difference_computer.cpp", "src/solver/counter.cpp"]
TASKS = ["src/tasks/optimization_task.cpp", "src/tasks/accuracy/accuracy.cpp", "src/tasks/accuracy/cost_complex_accuracy.cpp", "src/tasks/cost_sensitive.cpp", "src/tasks/instance_cost_sensitive.cpp",
         "src/tasks/f1score.cpp", "src/tasks/eq_opp.cpp", "src/tasks/group_fairness.cpp", "src/tasks/prescriptive_policy.cpp", "src/tasks/survival_analysis.cpp",
         "src/tasks/regression/regression.cpp", "src/tasks/regression/cost_complex_regression.cpp", "src/tasks/regression/piecewise_linear_regression.cpp", "src/tasks/regression/piecewise_simple_linear_regression.cpp"]


