"""P13: the configurations that tuning tries stay within the limits the user asked for."""
from vcgen.lib import *
from contracts import params
from contracts.params import entry, defined, K1, K2, table
M = Module("tuning", ["src/utils/parameter_handler.cpp"] + TASKS)
for k, v in params.M.contracts.items():
    M.contracts[k] = v
L0 = Int("L0")
TUNED = ("max-depth", "max-num-nodes")


def cur(p, c, n, kind="integer"):
    return entry(p, kind, c.eng.strlit('"%s"' % n)).f["current_value"]


def pre(c):
    p = c.arg(0)
    out = [("two names", And(K1 == c.eng.strlit('"max-depth"'), K2 == c.eng.strlit('"max-num-nodes"')))]
    for n in TUNED:
        k = c.eng.strlit('"%s"' % n)
        e = entry(p, "integer", k)
        out += [("%s is defined" % n, defined(p, "integer", k)), ("%s is in its range" % n, And(e.f["min_value"] <= 0, e.f["current_value"] >= 0, e.f["current_value"] <= e.f["max_value"]))]
    out.append(("depth below the width of an integer", cur(p, c, "max-depth") < 31))
    return out


def within(c, v, i):
    """Configuration i of the list asks for no more than the given parameters."""
    p = sel(v.data, i)
    return And([defined(p, "integer", c.eng.strlit('"%s"' % n)) for n in TUNED] + [And(cur(p, c, n) <= cur(c.arg(0), c, n), cur(p, c, n) >= 0) for n in TUNED])


D0, N0 = Int("depth0"), Int("nodes0")
top = lambda n, d: If(n < Pow2Spec(d) - 1, n, Pow2Spec(d) - 1)
# number of configurations of depth below d
below = RecSpec("configs_below", [I], I, lambda n: IntVal(0), lambda n, d, r: r + If(top(n, d) >= d, top(n, d) - d + 1, IntVal(0)), mono=True)


def tried(c, v, done):
    """The combination (D0, N0), once it has been reached, is in the list."""
    n = cur(c.arg(0), c, "max-num-nodes")
    i = below(n, D0) + N0 - D0
    p = sel(v.data, i)
    return Implies(And(D0 >= 0, D0 <= cur(c.arg(0), c, "max-depth"), D0 <= N0, N0 <= top(n, D0), done),
                   And(i >= 0, i < below(n, D0 + 1), i < v.len, cur(p, c, "max-depth") == D0, cur(p, c, "max-num-nodes") == N0))


def configs(L, c):
    n = cur(c.arg(0), c, "max-num-nodes")
    for nm, g in L.locals().items():
        try:
            v = g(L.entry)
        except Exception:
            continue
        if not (isinstance(v, Struct) and "parameters" in v.f):
            continue
        V = lambda s, g=g: g(s).f["parameters"]
        yield "within the limits so far", lambda s, V=V: Implies(And(L0 >= 0, L0 < V(s).len), within(c, V(s), L0))
        for d in L.int_locals():
            yield "one depth at a time", lambda s, V=V, d=d: V(s).len == below(n, d(s))
            yield "combinations of smaller depth", lambda s, V=V, d=d: tried(c, V(s), D0 < d(s))
            for i in L.int_locals():
                if i is not d:
                    yield "one size at a time", lambda s, V=V, d=d, i=i: V(s).len == below(n, d(s)) + i(s) - d(s)
                    yield "smaller combinations", lambda s, V=V, d=d, i=i: tried(c, V(s), Or(D0 < d(s), And(D0 == d(s), N0 < i(s))))
                    yield "order", lambda s, d=d, i=i: d(s) <= i(s)
                    for m in L.fixed_ints():
                        yield "up to the last size", lambda s, d=d, i=i, m=m: Or(i(s) == d(s), i(s) <= m(s) + 1)


M.add("OptimizationTask::GetTuneRunConfiguration", ["P13"], requires=pre, ensures=lambda c: [
    ("every configuration is within the limits", Implies(And(L0 >= 0, L0 < c.ret.f["parameters"].len), within(c, c.ret.f["parameters"], L0))),
    ("every combination of depth and size is tried", tried(c, c.ret.f["parameters"], BoolVal(True)))], invariants=[configs])
M.add("SurvivalAnalysis::GetTuneRunConfiguration", ["P13"], requires=pre, ensures=lambda c: [
    ("every configuration is within the limits", Implies(And(L0 >= 0, L0 < c.ret.f["parameters"].len), within(c, c.ret.f["parameters"], L0))),
    ("every combination of depth and size is tried", tried(c, c.ret.f["parameters"], BoolVal(True)))])


def same_limits(c, v):
    p, d = sel(v.data, L0), c.arg(0)
    return Implies(And(L0 >= 0, L0 < v.len), And([eqv(sel(table(p, "integer").val, k), sel(table(d, "integer").val, k)) for k in (K1, K2)]))


def config_vecs(L):
    for nm, g in L.locals().items():
        try:
            v = g(L.entry)
        except Exception:
            continue
        if isinstance(v, Struct) and "parameters" in v.f:
            yield lambda s, g=g: g(s).f["parameters"]


for t in ("CostComplexAccuracy", "CostComplexRegression", "PieceWiseLinearRegression", "SimpleLinearRegression"):
    M.add(t + "::GetTuneRunConfiguration", ["P13"], requires=lambda c: [("data", c.arg(1).f["size"] > 0)], aborts=lambda c: BoolVal(True), ensures=lambda c: [
        ("the limits on depth and size are those asked for", same_limits(c, c.ret.f["parameters"]))],
        invariants=[lambda L, c: [("limits kept so far", lambda s, V=V: same_limits(c, V(s))) for V in config_vecs(L)]])
M.add("ComputeMaxLambda", verify=False, trusted="the size of the penalties tried is left arbitrary")
