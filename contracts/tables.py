"""P08: the pairwise tables hold, for every pair of features and every label, the sum over the current instances."""
import copy
from vcgen.lib import *
from contracts._tasks import *
from contracts.counting import tri, index, M as COUNTING
from contracts.combiner import M as COMBINER, zero
from contracts.costs import M as COSTS
from contracts.difference import D, lens, valid, VALID, tsum, wsum, tlen, TS, diff_req, diff_post, G, M as DIFFERENCE
M = Module("tables", SOLVER + TASKS)
for src in (COUNTING, COMBINER):
    for c in src.targets:
        if c.q == "Counter::ResetToZeros":      # k0 is an arbitrary entry
            c = copy.copy(c)
            c.ensures = lambda c, f=c.ensures: [(nm, z3.substitute(g, (Int("k0"), Int("x0")))) for nm, g in f(c)]
        if c.q.startswith("Counter::") or c.q.startswith("CostStorage<"):
            M.contracts[(c.q, c.nparams, c.sig, len(M.contracts))] = c
X0, LB0 = Int("x0"), Int("label0")      # an arbitrary entry of the tables, an arbitrary label

# what the first n of a list of entries add to entry x, each adding v
accI = RecSpec("accI", [AI, I, I], I, lambda a, x, v: IntVal(0), lambda a, x, v, n, r: r + If(Select(a, n) == x, v, IntVal(0)), odd=2)
accR = RecSpec("accR", [AI, I, R], R, lambda a, x, v: RealVal(0), lambda a, x, v, n, r: r + If(Select(a, n) == x, v, RealVal(0)), odd=2)
# the same for a list of features and the entries of the features by themselves
dacI = RecSpec("dacI", [AI, I, I, I], I, lambda a, f, x, v: IntVal(0), lambda a, f, x, v, n, r: r + If(index(f, Select(a, n), Select(a, n)) == x, v, IntVal(0)), odd=3)
dacR = RecSpec("dacR", [AI, I, I, R], R, lambda a, f, x, v: RealVal(0), lambda a, f, x, v, n, r: r + If(index(f, Select(a, n), Select(a, n)) == x, v, RealVal(0)), odd=3)
WEIGHTS = ("CostComplexRegression",)
OK = lambda q: task_of2(q) not in ("PieceWiseLinearRegression", "SimpleLinearRegression")


def task_of2(q):
    return q[q.index("<") + 1:q.index(">")].split(",")[0].strip()


def feats(c, p):
    """The feature pairs and features of an instance: entries and lengths."""
    f = c.heap("AInstance", "features").f
    pr = f["present_feature_pair_indices_"]
    b = c.eng.block_root(c._pre, ("int",))
    return Select(pr.data, p), Select(pr.len, p), Select(b.data, Select(f["present_features_"], p)), Select(f["num_present_features"], p), Select(b.len, Select(f["present_features_"], p))


ADDI, ADDR = Function("added", I, I, B, I, I, I), Function("added real", I, I, B, I, R, R)


def added(c, p, nf, one, x, v):
    """What an instance adds to entry x when every entry it has gets v."""
    return (ADDI if v.sort() == I else ADDR)(p, nf, one, x, v)


def added_def(c, p, nf, one, x, v):
    pairs, np, fs, nfs, _ = feats(c, p)
    acc, dac = (accI, dacI) if v.sort() == I else (accR, dacR)
    return added(c, p, nf, one, x, v) == If(one, dac(fs, nf, x, v, nfs), acc(pairs, x, v, np))


def added_odd(c):
    """Follows from the definition and from the sums being odd in the value added."""
    p, nf, one, x = Int("p!o"), Int("nf!o"), Const("one!o", B), Int("x!o")
    out = []
    for f, v, w in ((ADDI, Int("v!o"), Int("w!o")), (ADDR, Real("v!o"), Real("w!o"))):
        a, b = f(p, nf, one, x, v), f(p, nf, one, x, w)
        out.append(ForAll([p, nf, one, x, v, w], Implies(v == -w, a == -b), patterns=[z3.MultiPattern(a, b)]))
    return out


def wf_inst(c, p, nf):
    pairs, np, fs, nfs, bl = feats(c, p)
    k = Int("k!f")
    return And(np >= 0, nfs >= 0, nfs <= bl, ForAll([k], Implies(And(0 <= k, k < np), And(0 <= Select(pairs, k), Select(pairs, k) < tri(nf))), patterns=[Select(pairs, k)]),
               ForAll([k], Implies(And(0 <= k, k < nfs), And(0 <= Select(fs, k), Select(fs, k) < nf)), patterns=[Select(fs, k)]))


def trunc(x):
    return If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def parts(x):
    """The numbers a value consists of."""
    return [x] if is_z3(x) else [y for k in x.f if k != "root_solution" for y in parts(x.f[k])]


def ucc(c):
    q = c.d["_q"]
    t = task_of2(q)
    cnt, cost = [w.strip() not in ("0", "false") for w in q[q.index("<") + 1:q.rindex(">")].split(",")[1:3]]
    return t, cnt, cost


def weight(c, t, p):
    return trunc(Select(c.heap("AInstance", "weight"), p)) if t in WEIGHTS else IntVal(1)


def ucc_post(c):
    t, cnt, cost = ucc(c)
    s, s2, k, k2 = c.arg(1), c.post(1), c.arg(2), c.post(2)
    w = c.arg(4) * weight(c, t, c.arg(0)) if t in WEIGHTS else c.arg(4)
    out = [("sizes are kept", And(s2.f["data2d"].len == s.f["data2d"].len, k2.f["counts"].len == k.f["counts"].len))]
    out += [("the count of every entry of the instance", Select(k2.f["counts"].data, X0) == Select(k.f["counts"].data, X0) + (added(c, c.arg(0), k.f["num_features"], c.arg(5), X0, w) if cnt else 0))]
    for n, (a, b, tot, tot2, v) in enumerate(zip(parts(sel(s.f["data2d"].data, X0)), parts(sel(s2.f["data2d"].data, X0)), parts(s.f["total_costs"]), parts(s2.f["total_costs"]), parts(c.arg(3)))):
        out += [("the costs of every entry of the instance (%d)" % n, b == a + (added(c, c.arg(0), s.f["num_features"], c.arg(5), X0, v) if cost else 0)),
                ("the total costs (%d)" % n, tot2 == tot + (v if cost else 0))]
    return out


def ucc_def(c):
    t, cnt, cost = ucc(c)
    k, s = c.arg(2).f["num_features"], c.arg(1).f["num_features"]
    w = c.arg(4) * weight(c, t, c.arg(0)) if t in WEIGHTS else c.arg(4)
    return [added_def(c, c.arg(0), k, c.arg(5), X0, w)] + [added_def(c, c.arg(0), s, c.arg(5), X0, v) for v in parts(c.arg(3))]


def ucc_req(c):
    s, k = c.arg(1), c.arg(2)
    return [("sized", And(k.f["num_features"] == s.f["num_features"], k.f["num_features"] >= 0, k.f["counts"].len == tri(k.f["num_features"]), s.f["data2d"].len == tri(s.f["num_features"]))),
            ("the entries of the instance", wf_inst(c, c.arg(0), k.f["num_features"]))]


def ucc_inv(L, c):
    t, cnt, cost = ucc(c)
    s, k = c.arg(1), c.arg(2)
    pairs, np, fs, nfs, _ = feats(c, c.arg(0))
    w = c.arg(4) * weight(c, t, c.arg(0)) if t in WEIGHTS else c.arg(4)
    S, K = (lambda st: c.eng.get(st, c._args[1])), (lambda st: c.eng.get(st, c._args[2]))
    yield "sizes", lambda st: S(st).f["data2d"].len == s.f["data2d"].len
    yield "sizes", lambda st: K(st).f["counts"].len == k.f["counts"].len
    for j in L.counters():
        for one in (False, True):
            f = lambda v, m, one=one: (dacI if v.sort() == I else dacR)(fs, k.f["num_features"], X0, v, m) if one else (accI if v.sort() == I else accR)(pairs, X0, v, m)
            if cnt:
                yield "counts", lambda st, f=f, j=j: Select(K(st).f["counts"].data, X0) == Select(k.f["counts"].data, X0) + f(w, j(st))
            if cost:
                for n, v in enumerate(parts(c.arg(3))):
                    yield "costs", lambda st, f=f, j=j, n=n, v=v: parts(sel(S(st).f["data2d"].data, X0))[n] == parts(sel(s.f["data2d"].data, X0))[n] + f(v, j(st))


M.add("UpdateCountCost<*>", ["P08"], instances=OK, modifies=["arg1.data2d", "arg1.total_costs", "arg2.counts"], requires=ucc_req, invariants=[ucc_inv], ensures=ucc_post, axioms=ucc_def, opts=dict(opaque=True))


# ---- one instance -------------------------------------------------------------------------------------------------------------------
# D2[task][n](instance, its label, label): the n-th number of the cost of giving the instance the label. PRE: the task knows the costs.
OWNER = lambda t: t
TASKS8 = [t for t in D2TASKS if t != "PieceWiseLinearRegression"] + ["SurvivalAnalysis"]
BASE = {c.q.split("::")[0]: c for c in COSTS.targets if c.q.endswith("::GetInstanceLeafD2Costs")}
PRE = {t: Function("costs known " + t, I, I, I, B) for t in TASKS8}
UF = {}
neg = lambda b, x: If(b, -x, x)


def d2of(t, n, sort):
    return UF.setdefault((t, n), Function("%s cost %d" % (t, n), I, I, I, sort))


def shaped(v, t, p, o, l):
    """A value of the shape of v that consists of the named numbers."""
    it = iter(range(99))

    def go(x):
        if is_z3(x):
            return d2of(t, next(it), x.sort())(p, o, l)
        return Struct(x.name, {k: (y if k == "root_solution" else go(y)) for k, y in x.f.items()})
    return go(v)


class Once:
    """The context of a call, with multiplier 1 and the named numbers as result."""
    def __init__(self, c, t):
        self.__dict__["c"], self.__dict__["t"] = c, t

    def __getattr__(self, k):
        return getattr(self.c, k)

    def arg(self, i):
        return IntVal(1) if i == 4 else self.c.arg(i)

    def post(self, i):
        return shaped(self.c.arg(3), self.t, self.c.arg(0), self.c.arg(1), self.c.arg(2))


plus_minus = lambda x: Or(x == 1, x == -1)
for t, base in BASE.items():
    if t in TASKS8:
        M.add(t + "::GetInstanceLeafD2Costs", ["P08"], modifies=["arg3"], requires=lambda c, t=t: [("added or removed", plus_minus(c.arg(4))), ("costs known", PRE[t](c.arg(0), c.arg(1), c.arg(2)))],
              axioms=lambda c, t=t, base=base: [PRE[t](c.arg(0), c.arg(1), c.arg(2)) == And([BoolVal(True)] + [g for _, g in (base.requires(c) if base.requires else [])])] + [g for _, g in base.ensures(Once(c, t))],
              ensures=lambda c, t=t: [("plus or minus the cost of the instance (%d)" % n, x == neg(c.arg(4) == -1, y)) for n, (x, y) in enumerate(zip(parts(c.post(3)), parts(shaped(c.arg(3), t, c.arg(0), c.arg(1), c.arg(2)))))])

# ---- all instances of a view ------------------------------------------------------------------------------------------------------
SKIP = ("Accuracy", "CostComplexAccuracy")          # the label of an instance costs nothing and is left out
ONE = ("Regression", "CostComplexRegression")       # one list of instances
GN, GW = Const("g count", AR), Const("g weight", AR)
GC, GT = [Const("g cost %d" % n, AR) for n in range(4)], [Const("g total %d" % n, AR) for n in range(4)]
toR = lambda x: x if x.sort() == R else ToReal(x)
ALL = lambda q: task_of(q) in TASKS8


def cells(s, n):
    """The numbers kept in the tables at the arbitrary label and entry: count, total count, and the n numbers of costs and total costs."""
    st = sel(s.f["cost_storage"].data, LB0)
    return [Select(s.f["counter"].f["counts"].data, X0), s.f["counter"].f["total_count"]] + parts(sel(st.f["data2d"].data, X0)) + parts(st.f["total_costs"])


def shape(s):
    return parts(sel(s.f["cost_storage"].data, LB0).f["total_costs"])


def ghosts(s):
    n = len(shape(s))
    return [GN, GW] + GC[:n] + GT[:n]


def values(c, t, p, o):
    """What one instance adds to each of the cells."""
    s = c.this
    nf, one = s.f["num_features"], s.f["num_nodes"] == 1
    u = parts(shaped(sel(s.f["cost_storage"].data, LB0).f["total_costs"], t, p, o, LB0))
    w = weight(c, t, p)
    return [added(c, p, nf, one, X0, w), w] + [added(c, p, nf, one, X0, x) for x in u] + u


def defined(c, t, nl, one=None):
    """Every instance adds its own values, whatever its position; its features are in range and its costs are known."""
    p, o, l = Int("p!g"), Int("o!g"), Int("l!g")
    s = c.this
    idm = c.heap("AInstance", "id")
    vs = values(c, t, p, o)
    u = vs[2 + len(shape(s)):]
    extra = []
    if t in ("InstanceCostSensitive", "PrescriptivePolicy", "CostComplexAccuracy"):
        extra = [ForAll([l], Or(d2of(t, 0, R)(p, o, l) == 0, d2of(t, 0, R)(p, o, l) > RealVal("1/1000000"), d2of(t, 0, R)(p, o, l) < RealVal("-1/1000000")), patterns=[d2of(t, 0, R)(p, o, l)])]
    if t == "Regression":
        extra = [Or(And(u[0] == 0, u[1] == 0), u[1] > RealVal("1/1000000"))]
    if t in WEIGHTS:
        extra = [weight(c, t, p) >= 1, u[2] == weight(c, t, p)]
    return ForAll([p, o], Implies(VALID(p, o), And([Select(g, Select(idm, p)) == toR(v) for g, v in zip(ghosts(s), vs)] + [wf_inst(c, p, s.f["num_features"])] + extra +
                                                   [ForAll([l], Implies(And(0 <= l, l < nl), PRE[t](p, o, l)), patterns=[PRE[t](p, o, l)])])), patterns=[VALID(p, o)])


def twf(s, nl):
    """The tables have one entry per pair of features, for every label."""
    l = Int("l!t")
    cs, nf = s.f["cost_storage"], s.f["num_features"]
    e = sel(cs.data, l)
    return And(nf >= 0, s.f["counter"].f["num_features"] == nf, s.f["counter"].f["counts"].len == tri(nf), nl >= 1, cs.len >= nl,
               forall([l], Implies(And(0 <= l, l < cs.len), And(e.f["num_features"] == nf, e.f["data2d"].len == tri(nf))), e.f["num_features"], e.f["data2d"].len))


def same_sizes(a, b):
    x, y, k, l = a.f["cost_storage"], b.f["cost_storage"], a.f["counter"], b.f["counter"]
    return And(x.len == y.len, x.data.f["num_features"] == y.data.f["num_features"], x.data.f["data2d"].len == y.data.f["data2d"].len, k.f["num_features"] == l.f["num_features"], k.f["counts"].len == l.f["counts"].len)


def upd_req(c):
    t, v = task_of(c.d["_q"]), c.arg(0)
    nl = D(v)[2]
    out = [("added or removed", plus_minus(c.arg(1))), ("tables", twf(c.this, nl)), ("lengths", lens(v)), ("size", v.f["size"] == tlen(D(v)[1], nl)), ("instances are listed under their label", valid(v)),
           ("values of the instances", defined(c, t, nl)), ("label", And(0 <= LB0, LB0 < nl))]
    if t in ONE:
        out.append(("one list", nl == 1))
    if t in SKIP:
        p, o, l = Int("p!z"), Int("o!z"), Int("l!z")
        out.append(("several labels, and the true one costs nothing", And(nl > 1, ForAll([p, o], d2of(t, 0, I if t == "Accuracy" else R)(p, o, o) == 0, patterns=[d2of(t, 0, I if t == "Accuracy" else R)(p, o, o)]))))
    return out


def upd_post(c):
    t, v, m = task_of(c.d["_q"]), c.arg(0), c.arg(1) == -1
    nl = D(v)[2]
    n = len(shape(c.this))
    names = ["count", "total count"] + ["cost %d" % k for k in range(n)] + ["total cost %d" % k for k in range(n)]
    sums = [TS(c, v, nl, g) for g in ghosts(c.this)]
    if t not in WEIGHTS:
        sums[1] = ToReal(v.f["size"])
    return [("tables keep their sizes", same_sizes(c.this, c.this_post))] + \
        [("%s: every instance of the view is added (or removed)" % nm, toR(b) == toR(a) + neg(m, x)) for nm, a, b, x in zip(names, cells(c.this, n), cells(c.this_post, n), sums)]


def all_listed(a, j, imp, rng, val):
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        x, y, z = a.children()
        return And(imp(x, all_listed(y, j, imp, rng, val)), imp(Not(x), all_listed(z, j, imp, rng, val)))
    return forall([j], imp(rng, Select(a, j) == val), Select(a, j))


def upd_inv(L, c):
    t, v, m = task_of(c.d["_q"]), c.arg(0), c.arg(1) == -1
    a, ln, nl = D(v)
    idm = c.heap("AInstance", "id")
    S = lambda s: c.eng.get(s, c._this)
    n = len(shape(c.this))
    gs, pre = ghosts(c.this), cells(c.this, n)
    skip = lambda o: If(And(nl > 1, BoolVal(t in SKIP)), o, IntVal(-1))      # the label that is left out
    place = lambda o, k: If(And(skip(o) >= 0, k > skip(o)), k - 1, k)
    outer = L.outer()
    lab = lambda s: S(s).f["labels"]
    jj = Int("j!L")
    listed = lambda s, o: all_listed(lab(s).data, jj, Implies, And(0 <= jj, jj < lab(s).len), If(And(skip(o) >= 0, jj >= skip(o)), jj + 1, jj))
    yield "tables", lambda s: same_sizes(c.this, S(s))
    which = [i for i in range(len(gs)) if i != 1 or t in WEIGHTS]
    if len(outer) == 0:
        yield "only label", lambda s: Or(nl > 1, And(lab(s).len == 1, Select(lab(s).data, 0) == 0))
        for k in L.guards():
            for i in which:
                yield "outer", lambda s, k=k, i=i: toR(cells(S(s), n)[i]) == toR(pre[i]) + neg(m, TS(c, v, k(s), gs[i]))
    if len(outer) == 1:
        o = outer[0]
        yield "listed", lambda s: listed(s, o(s))
        for k in L.guards():
            yield "pushed", lambda s, k=k: lab(s).len == place(o(s), k(s))
            for i in which:
                yield "inner", lambda s, k=k, i=i: toR(cells(S(s), n)[i]) == toR(pre[i]) + neg(m, TS(c, v, o(s), gs[i]) + wsum(Select(a, o(s)), idm, gs[i], k(s)))
    if len(outer) == 2:
        j, o = outer
        p = lambda s: Select(Select(a, o(s)), j(s))
        for k in L.guards():
            for i in which:
                if i == 1:
                    continue
                done = (lambda s, k=k: k(s) >= 1) if i == 0 else (lambda s, k=k: And(LB0 != skip(o(s)), place(o(s), LB0) < k(s)))
                yield "one", lambda s, k=k, i=i, done=done: toR(cells(S(s), n)[i]) == toR(pre[i]) + neg(m, TS(c, v, o(s), gs[i]) + wsum(Select(a, o(s)), idm, gs[i], j(s))) + If(done(s), neg(m, toR(values(c, t, p(s), o(s))[i])), RealVal(0))


M.add("CostCalculator<*>::UpdateCosts", ["P08"], instances=ALL, modifies=["this.cost_storage", "this.counter", "this.labels"], requires=upd_req, invariants=[upd_inv], ensures=upd_post, axioms=added_odd, opts=dict(opaque=True, cost=9, budget=400, inv_timeout=1500, no_bug_mode=True))

# ---- the tables after the solver moved to another data set ----------------------------------------------------------------------------
from contracts.terminal import bwf
from contracts.branch import M as BRANCH
for c in DIFFERENCE.targets:
    if c.q == "BinaryDataDifferenceComputer::ComputeDifference":      # its value of the instances is arbitrary: once for every value used here
        c = copy.copy(c)
        c.ensures = lambda c: [g for v in [GN, GW] + GC + GT for g in diff_post(c, v)[:1]] + diff_post(c)[1:]
    if c.q in ("BinaryDataDifferenceComputer::ComputeDifference", "ADataView::ResetReserve"):
        M.contracts[(c.q, c.nparams, c.sig, len(M.contracts))] = c
for src in (BRANCH, COSTS):
    for c in src.targets:
        if c.q.startswith("Branch::") or (c.q.endswith("::GetBranchingCosts") and c.q.split("::")[0] in ("CostComplexAccuracy", "CostComplexRegression")):
            M.contracts[(c.q, c.nparams, c.sig, len(M.contracts))] = c
bc_req = lambda c: [("branching costs", bwf(task_of(c.d["_q"]), c.this, c.this.f["num_features"]))]
bc_post = lambda c: [("branching costs", bwf(task_of(c.d["_q"]), c.this_post, c.this.f["num_features"]))]
FLAT = ("CostComplexAccuracy", "CostComplexRegression")       # every branching node costs the same
F1, F2 = Ints("f1 f2")


def node_cost(c):
    t = task_of(c.d["_q"])
    p = c.this.f["task"]
    return Select(c.heap(t, "branching_cost"), p) if t == "CostComplexRegression" else Select(c.heap(t, "cost_complexity_parameter"), p) * ToReal(Select(c.heap("OptimizationTask", "train_summary").f["size"], p))


def entry_is(c, s, f, g):
    return sel(sel(s.f["branching_costs"].data, f).data, g) == node_cost(c)


def bc_inv(L, c):
    S = lambda s: c.eng.get(s, c._this)
    n = c.this.f["num_features"]
    if task_of(c.d["_q"]) not in FLAT:
        return
    yield "shape", lambda s: bwf(task_of(c.d["_q"]), S(s), n)
    for k in L.guards():
        if not L.outer():
            yield "rows", lambda s, k=k: Implies(And(0 <= F1, F1 < k(s), 0 <= F2, F2 < n), entry_is(c, S(s), F1, F2))
        for o in L.outer():
            yield "earlier rows", lambda s, o=o: Implies(And(0 <= F1, F1 < o(s), 0 <= F2, F2 < n), entry_is(c, S(s), F1, F2))
            yield "row", lambda s, k=k, o=o: Implies(And(0 <= F2, F2 < k(s), F2 != o(s)), entry_is(c, S(s), o(s), F2))


M.add("CostCalculator<*>::ResetBranchingCosts", ["P08"], instances=ALL, modifies=["this.branching_costs"], requires=bc_req, ensures=bc_post)
M.add("CostCalculator<*>::UpdateBranchingCosts", ["P08"], instances=lambda q: ALL(q) and task_of(q) != "CostSensitive", modifies=["this.branching_costs"],
      requires=lambda c: bc_req(c) + [("one column per feature", Select(c.heap("AData", "num_features"), c.arg(0).f["data"]) == c.this.f["num_features"])], invariants=[bc_inv],
      ensures=lambda c: bc_post(c) + ([("every branching node costs the configured cost", Implies(And(0 <= F1, F1 < c.this.f["num_features"], 0 <= F2, F2 < c.this.f["num_features"]), entry_is(c, c.this_post, F1, F2)))] if task_of(c.d["_q"]) in FLAT else []))
M.add("CostCalculator<*>::UpdateBranchingCosts", ["P08"], instances=lambda q: task_of(q) == "CostSensitive", modifies=["this.branching_costs"], verify=False, trusted="changes only the table of branching costs and keeps its shape (the costs themselves: CostSensitive::GetBranchingCosts)",
      requires=bc_req, ensures=bc_post)


class At:
    """The same state with another number of nodes."""
    def __init__(self, c):
        self.__dict__["c"] = c

    def __getattr__(self, k):
        return getattr(self.c, k)

    @property
    def this(self):
        s = self.c.this
        return Struct(s.name, dict(s.f, num_nodes=self.c.arg(2)))


def whole(v, nl):
    return [("lengths", lens(v)), ("size", And(D(v)[2] == nl, v.f["size"] == tlen(D(v)[1], nl))), ("instances are listed under their label", valid(v))]


def totals(c, t, s, v):
    """The cells of the tables are the sums over the instances of the view."""
    n = len(shape(s))
    nl = D(v)[2]
    sums = [TS(c, v, nl, g) for g in ghosts(s)]
    if t not in WEIGHTS:
        sums[1] = ToReal(tlen(D(v)[1], nl))
    names = ["count", "total count"] + ["cost %d" % k for k in range(n)] + ["total cost %d" % k for k in range(n)]
    return [("%s: the sum over the instances" % nm, toR(a) == x) for nm, a, x in zip(names, cells(s, n), sums)]


def init_req(c):
    t, v, old = task_of(c.d["_q"]), c.arg(0), c.this.f["data"]
    nl = D(v)[2]
    same = And(old.f["data"] != 0, (c.arg(2) == 1) == (c.this.f["num_nodes"] == 1))
    out = [("tables", twf(c.this, nl)), ("label", And(0 <= LB0, LB0 < nl)), ("entry", And(0 <= X0, X0 < tri(c.this.f["num_features"]))), ("values of the instances", defined(At(c), t, nl)), ("branching costs", bwf(t, c.this, c.this.f["num_features"])),
           ("data", And(v.f["data"] != 0, Select(c.heap("AData", "num_features"), v.f["data"]) == c.this.f["num_features"])), ("lengths", And(lens(c.this.f["data_add"]), lens(c.this.f["data_remove"])))]
    out += whole(v, nl) + [("%s of the previous data" % nm, Implies(same, g)) for nm, g in whole(old, nl) + totals(c, t, c.this, old)]
    if t in ONE:
        out.append(("one list", nl == 1))
    if t in SKIP:
        p, o = Int("p!z"), Int("o!z")
        u = d2of(t, 0, I if t == "Accuracy" else R)
        out.append(("several labels, and the true one costs nothing", And(nl > 1, ForAll([p, o], u(p, o, o) == 0, patterns=[u(p, o, o)]))))
    return out


def init_inv(L, c):
    t = task_of(c.d["_q"])
    S = lambda s: c.eng.get(s, c._this)
    n = len(shape(c.this))
    yield "sizes", lambda s: same_sizes(c.this, S(s))
    for k in L.guards():
        for i in range(2, 2 + 2 * n):
            yield "zero", lambda s, k=k, i=i: Implies(LB0 < k(s), cells(S(s), n)[i] == 0)


M.add("CostCalculator<*>::Initialize", ["P08"], instances=ALL, modifies=["this.data", "this.num_nodes", "this.cost_storage", "this.branching_costs", "this.counter", "this.temp_costs1", "this.temp_costs2", "this.labels", "this.data_add", "this.data_remove"],
      requires=init_req, invariants=[init_inv], ensures=lambda c: totals(c, task_of(c.d["_q"]), c.this_post, c.arg(0)) + [("tables keep their sizes", same_sizes(c.this, c.this_post))],
      opts=dict(opaque=True, cost=9, budget=400, inv_timeout=1500, no_bug_mode=True))
