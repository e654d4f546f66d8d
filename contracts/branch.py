"""P01/P06: the list of decisions that leads to a node."""
from vcgen.lib import *
M = Module("branch", ["src/model/branch.cpp"])
X0 = Int("X0")
codes = lambda b: b.f["branch_codes"]
BRANCHED = Function("branched on a feature", AI, I, I, B)


def has(v, x):
    i = Int("i!h")
    return Exists([i], And(0 <= i, i < v.len, Select(v.data, i) == x))


def ascending(v):
    i, j = Ints("i!s j!s")
    return ForAll([i, j], Implies(And(0 <= i, i <= j, j < v.len), Select(v.data, i) <= Select(v.data, j)))


def branched(b, f):
    """The branch tests the feature: it has one of the two codes of the feature."""
    v = codes(b)
    return BRANCHED(v.data, v.len, f) if OPAQUE[0] else Or(has(v, 2 * f), has(v, 2 * f + 1))


def inv_not_found(L, c):
    v, f, i = codes(c.this), c.arg(0), Int("i!n")
    for k in L.guards():
        yield "not found yet", lambda s, k=k: ForAll([i], Implies(And(0 <= i, i < k(s)), And(Select(v.data, i) != 2 * f, Select(v.data, i) != 2 * f + 1)), patterns=[Select(v.data, i)])


M.add("Branch::HasBranchedOnFeature", ["P01", "P06"], ensures=lambda c: [("one of the codes of the feature is there", c.ret == branched(c.this, c.arg(0)))], invariants=[inv_not_found])


def extended(a, b, code):
    """b lists the decisions of a and the new one, in ascending order."""
    return [("one more decision", b.len == a.len + 1), ("keeps the decisions and has the new one", Implies(Or(has(a, X0), X0 == code), has(b, X0))),
            ("has nothing else", Implies(has(b, X0), Or(has(a, X0), X0 == code))), ("ascending", ascending(b))]


for side, bit in (("Left", 0), ("Right", 1)):
    M.add("Branch::%sChildBranch" % side, ["P01", "P06"], nparams=3, modifies=["arg2"], timeout=60, ensures=lambda c, bit=bit: extended(codes(c.arg(0)), codes(c.post(2)), 2 * c.arg(1) + bit))
    M.add("Branch::%sChildBranch" % side, ["P01", "P06"], nparams=2, timeout=60, ensures=lambda c, bit=bit: extended(codes(c.arg(0)), codes(c.ret), 2 * c.arg(1) + bit))


def same(c, a, b):
    i = Int("i!e")
    return [("equal branches have equal decisions", c.ret == And(a.len == b.len, ForAll([i], Implies(And(0 <= i, i < a.len), Select(a.data, i) == Select(b.data, i)))))]


def inv_same(a, b):
    def f(L, c):
        x, y, i = codes(a(c)), codes(b(c)), Int("i!n")
        for k in L.guards():
            yield "equal so far", lambda s, k=k: ForAll([i], Implies(And(0 <= i, i < k(s)), Select(x.data, i) == Select(y.data, i)), patterns=[Select(x.data, i)])
    return f


M.add("Branch::operator==", ["P06"], ensures=lambda c: same(c, codes(c.this), codes(c.arg(0))), invariants=[inv_same(lambda c: c.this, lambda c: c.arg(0))])
M.add("BranchEquality::operator()", ["P06"], ensures=lambda c: same(c, codes(c.arg(0)), codes(c.arg(1))), invariants=[inv_same(lambda c: c.arg(0), lambda c: c.arg(1))])
