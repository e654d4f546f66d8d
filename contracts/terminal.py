"""P01/P06: the depth-two solver looks at every tree of at most three branching nodes."""
from vcgen.lib import *
from contracts._tasks import *
from contracts.solutions import nodes, EPS, M as SOLUTIONS, BRANCHING
from contracts.combiner import M as COMBINER
from contracts.costs import M as COSTS
from contracts.branch import branched, M as BRANCH
from contracts.counting import tri, index
M = Module("terminal", SOLVER + TASKS)
for src in (SOLUTIONS, COMBINER, BRANCH):
    for c in src.targets:
        M.contracts[(c.q, c.nparams, c.sig, len(M.contracts))] = c
for c in COSTS.targets:
    if c.q.endswith("::ComputeD2BranchingCosts"):
        M.contracts[(c.q, c.nparams, c.sig, len(M.contracts))] = c
# values in the tasks below are numbers and there is one value per leaf
NUM = lambda q: task_of(q) in ("Accuracy", "CostComplexAccuracy", "CostSensitive", "InstanceCostSensitive", "PrescriptivePolicy", "Regression", "CostComplexRegression", "SurvivalAnalysis")
# ... and the label of a leaf is one of the labels of the data
LAB = lambda q: task_of(q) in ("Accuracy", "CostComplexAccuracy", "CostSensitive", "InstanceCostSensitive", "PrescriptivePolicy")
better = lambda a, b: a.f["solution"] <= b


def worse_than(ub, v):
    """Strictly worse than the upper bound, beyond the relative precision."""
    return ub * (1 + EPS) < v if v.sort() == RealSort() else ub < v


def child(side):
    f = side + "_child_assignments"

    def ens(c):
        a, b, v, ub = c.arg(0).f[f], c.post(0).f[f], c.arg(1), c.this.f["UB"].f["solution"]
        new = Struct(a.name, {**c.this.f["temp_branch_node"].f, "solution": v})
        return [("no worse than before", b.f["solution"] <= a.f["solution"]),
                ("no worse than the given value, unless that is worse than the upper bound", Or(b.f["solution"] <= v, worse_than(ub, v))),
                ("the old or the new one", Or(eqv(a, b), eqv(b, new)))]
    return ens


for side in ("left", "right"):
    M.add("TerminalSolver<*>::UpdateBest%sChild" % side.capitalize(), ["P01", "P06"], instances=NUM, modifies=["arg0.%s_child_assignments" % side, "this.temp_branch_node.solution"],
          ensures=child(side), opts={"within": {0: "children_info"}})


IMAX = 2147483647
empty = lambda n: And(n.f["feature"] == IMAX, n.f["label"] == IMAX)
total = lambda k: k.f["counter"].f["total_count"]


def bc(t, k, f, g, count):
    """Cost of branching on g below a branch on f (on f itself when equal), for that many instances, from the tables of the calculator."""
    if t not in BRANCHING:
        return IntVal(0)
    v = sel(sel(k.f["branching_costs"].data, f).data, g)
    return paid(v, count) if t == "CostSensitive" else v


def bwf(t, k, n):
    """The table of branching costs has one entry per pair of features."""
    if t not in BRANCHING:
        return BoolVal(True)
    b, i = k.f["branching_costs"], Int("i!b")
    return And(b.len == n, forall([i], Implies(And(0 <= i, i < n), Select(b.data.len, i) == n), Select(b.data.len, i)))


def root(c, s):
    """The best children found so far for the given root feature."""
    info = sel(s.f["children_info"].data, c.arg(1))
    return info.f["left_child_assignments"], info.f["right_child_assignments"]


def three(c):
    l, r = root(c, c.this)
    t = task_of(c.d["_q"])
    a, b, ub = c.this.f["results"].f["three_nodes_solutions"], c.this_post.f["results"].f["three_nodes_solutions"], c.this.f["UB"].f["solution"]
    k = c.this.f["cost_calculator"]
    v = l.f["solution"] + r.f["solution"] + bc(t, k, c.arg(1), c.arg(1), total(k))
    return [("no worse than before", b.f["solution"] <= a.f["solution"]),
            ("no worse than the two best children together", Implies(And(Not(empty(l)), Not(empty(r))), Or(b.f["solution"] <= v, worse_than(ub, v)))),
            ("the old one, or this root with the two best children", Or(eqv(a, b), And(b.f["feature"] == c.arg(1), b.f["solution"] == v, b.f["num_nodes_left"] == nodes(l), b.f["num_nodes_right"] == nodes(r), Not(empty(l)), Not(empty(r)))))]


in_range = lambda c: [("feature", And(0 <= c.arg(1), c.arg(1) < c.this.f["children_info"].len)), ("branching costs", bwf(task_of(c.d["_q"]), c.this.f["cost_calculator"], c.this.f["children_info"].len))]
M.add("TerminalSolver<*>::UpdateBestThreeNodeAssignment", ["P01", "P06"], instances=NUM, modifies=["this.results.three_nodes_solutions"], requires=in_range, ensures=three)


def kwf(t, k, n):
    """The tables of the calculator have one entry per pair of features; the index of a pair is kept next to them."""
    l, i, j = Int("l!w"), Int("i!w"), Int("j!w")
    cs, cn, ix = k.f["cost_storage"], k.f["counter"], k.f["index_infos"]
    e = sel(sel(ix.data, i).data, j)
    lo, hi = If(i <= j, i, j), If(i <= j, j, i)
    st = sel(cs.data, l)
    ok = And(e.f["equal"] == (i == j), e.f["swap"] == (i > j), e.f["ix_f1f2"] == index(n, lo, hi), e.f["ix_f1f1"] == index(n, lo, lo), e.f["ix_f2f2"] == index(n, hi, hi),
             0 <= index(n, lo, hi), index(n, lo, hi) < tri(n), 0 <= index(n, lo, lo), index(n, lo, lo) < tri(n), 0 <= index(n, hi, hi), index(n, hi, hi) < tri(n))
    return [("tables", And(n >= 0, k.f["num_features"] == n, cn.f["num_features"] == n, cn.f["counts"].len == tri(n), ix.len == n)),
            ("one table per label", forall([l], Implies(And(0 <= l, l < cs.len), And(st.f["num_features"] == n, st.f["data2d"].len == tri(n))), st.f["num_features"])),
            ("one row of indices per feature", forall([i], Implies(And(0 <= i, i < n), Select(ix.data.len, i) == n), Select(ix.data.len, i))),
            ("indices of the pairs", forall([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n), ok), e.f["ix_f1f2"])),
            ("branching costs", bwf(t, k, n))]


def wf(c, s=None):
    s = s or c.this
    t, k, n = task_of(c.d["_q"]), s.f["cost_calculator"], s.f["num_features"]
    return kwf(t, k, n) + [("one entry per feature", s.f["children_info"].len == n), ("labels", And(s.f["num_labels"] <= k.f["cost_storage"].len, s.f["num_labels"] >= 0, s.f["num_labels"] <= IMAX))]


def info(k, f, g):
    return sel(sel(k.f["index_infos"].data, f).data, g)


def cnt(k, f, g, a, b):
    """Number of instances with feature f = a and feature g = b."""
    t = lambda i, j: Select(k.f["counter"].f["counts"].data, If(i <= j, index(k.f["num_features"], i, j), index(k.f["num_features"], j, i)))
    return {(1, 1): t(f, g), (1, 0): t(f, f) - t(f, g), (0, 1): t(g, g) - t(f, g), (0, 0): total(k) - t(f, f) - t(g, g) + t(f, g)}[(a, b)]


def cost(k, l, f, g, a, b):
    """Costs of label l summed over the instances with feature f = a and feature g = b."""
    s, n = sel(k.f["cost_storage"].data, l), k.f["num_features"]
    t = lambda i, j: sel(s.f["data2d"].data, If(i <= j, index(n, i, j), index(n, j, i)))
    return {(1, 1): t(f, g), (1, 0): sub(t(f, f), t(f, g)), (0, 1): sub(t(g, g), t(f, g)), (0, 0): sub(sub(add(s.f["total_costs"], t(f, g)), t(f, f)), t(g, g))}[(a, b)]


def leaf(t, k, l, f, g, a, b):
    return d2(t, cost(k, l, f, g, a, b), cnt(k, f, g, a, b))


A0 = Int("label0")
label = lambda s, l: And(0 <= l, l < s.f["num_labels"])


def two(c):
    t, f = task_of(c.d["_q"]), c.arg(1)
    l, r = root(c, c.this)
    a, b, ub = c.this.f["results"].f["two_nodes_solutions"], c.this_post.f["results"].f["two_nodes_solutions"], c.this.f["UB"].f["solution"]
    k = c.this.f["cost_calculator"]
    m = Select(c.heap("SolverParameters", "minimum_leaf_node_size"), c.this.f["solver_parameters"])
    out = [("no worse than before", b.f["solution"] <= a.f["solution"])]
    for side, ch, leaf_side in (("left", l, 1), ("right", r, 0)):
        v = leaf(t, k, A0, f, f, leaf_side, leaf_side)
        w = v + ch.f["solution"] + bc(t, k, f, f, total(k))
        out.append(("no worse than the best %s child with a leaf on the other side" % side,
                    Implies(And(Not(empty(ch)), label(c.this, A0), cnt(k, f, f, leaf_side, leaf_side) >= m, v < worst(t)), Or(b.f["solution"] <= w, worse_than(ub, w), worse_than(ub, v)))))
    return out


def worst(t):
    return IntVal(IMAX) if t == "Accuracy" else DBL_MAX if t in ("CostSensitive", "PrescriptivePolicy", "InstanceCostSensitive", "Regression", "CostComplexRegression", "SurvivalAnalysis") else RealVal(IMAX)


def inv_two(L, c):
    t, f = task_of(c.d["_q"]), c.arg(1)
    k, ub = c.this.f["cost_calculator"], c.this.f["UB"].f["solution"]
    for nm, g in L.locals().items():
        try:
            v = g(L.entry)
        except Exception:
            continue
        if isinstance(v, Struct) and v.name.startswith("Node<"):
            yield "not worse than nothing", lambda s, g=g: g(s).f["solution"] <= worst(t)
            yield "empty or a leaf", lambda s, g=g: Or(empty(g(s)), g(s).f["solution"] < worst(t))
            yield "something better than nothing has a label", lambda s, g=g: Implies(g(s).f["solution"] < worst(t), Not(empty(g(s))))
            for i in L.counters():
                for x in (0, 1):
                    val = leaf(t, k, A0, f, f, x, x)
                    yield "best leaf so far", lambda s, g=g, i=i, val=val: Implies(And(0 <= A0, A0 < i(s)), Or(g(s).f["solution"] <= val, worse_than(ub, val)))


M.add("TerminalSolver<*>::UpdateBestTwoNodeAssignment", ["P01", "P06"], instances=LAB, modifies=["this.results.two_nodes_solutions"], requires=lambda c: in_range(c) + wf(c), ensures=two, invariants=[inv_two], opts={"opaque": True, "cost": 90, "budget": 120})


# ---- one branching node
F0, Z0 = Ints("feature0 assignment0")


def labels_wf(s):
    z = Int("z!w")
    la = sel(s.f["label_assignments"].data, z)
    return [("assignments of labels", forall([z], Implies(And(0 <= z, z < s.f["label_assignments"].len), And(0 <= la.f["left_label"], la.f["left_label"] < s.f["num_labels"], 0 <= la.f["right_label"], la.f["right_label"] < s.f["num_labels"])),
                                             la.f["left_label"], la.f["right_label"])),
            ("one value per label", s.f["sols"].len >= s.f["num_labels"])]


def pre_one(c):
    return wf(c) + labels_wf(c.this) + [("labels of the data", c.arg(0).f["instances"].len <= c.this.f["num_labels"]), ("the tables are filled", c.arg(2))]


def assigned(s, z):
    la = sel(s.f["label_assignments"].data, z)
    return And(0 <= z, z < s.f["label_assignments"].len), la.f["left_label"], la.f["right_label"]


def min_leaf(c):
    return Select(c.heap("SolverParameters", "minimum_leaf_node_size"), c.this.f["solver_parameters"])


def stump(c):
    """Value of branching on feature F0 with the labels of assignment Z0, and whether that tree is allowed."""
    t, k = task_of(c.d["_q"]), c.this.f["cost_calculator"]
    ok, a, b = assigned(c.this, Z0)
    w = leaf(t, k, a, F0, F0, 0, 0) + leaf(t, k, b, F0, F0, 1, 1) + bc(t, k, F0, F0, total(k))
    m = min_leaf(c)
    return w, And(ok, 0 <= F0, F0 < c.this.f["num_features"], cnt(k, F0, F0, 0, 0) >= m, cnt(k, F0, F0, 1, 1) >= m)


def single(c, l):
    k = c.this.f["cost_calculator"]
    return d2(task_of(c.d["_q"]), sel(k.f["cost_storage"].data, l).f["total_costs"], total(k))


def one(c):
    a, b = c.this.f["results"].f["one_node_solutions"], c.this_post.f["results"].f["one_node_solutions"]
    ub = c.this_post.f["UB"].f["solution"]
    w, ok = stump(c)
    v = single(c, A0)
    return [("no worse than before", b.f["solution"] <= a.f["solution"]), ("the upper bound does not grow", ub <= c.this.f["UB"].f["solution"]), ("number of values", c.this_post.f["sols"].len == c.this.f["sols"].len),
            ("no worse than a single leaf", Implies(And(0 <= A0, A0 < c.arg(0).f["instances"].len), Or(b.f["solution"] <= v, worse_than(ub, v)))),
            ("no worse than one branching node with two leaves", Implies(ok, Or(b.f["solution"] <= w, worse_than(ub, w))))]


def inv_one(L, c):
    t, k = task_of(c.d["_q"]), c.this.f["cost_calculator"]
    me = lambda s: c.eng.get(s, c._this)
    res = lambda s: me(s).f["results"].f["one_node_solutions"].f["solution"]
    ub = lambda s: me(s).f["UB"].f["solution"]
    w, ok = stump(c)
    v = single(c, A0)
    yield "not worse", lambda s: res(s) <= c.this.f["results"].f["one_node_solutions"].f["solution"]
    yield "upper bound", lambda s: ub(s) <= c.this.f["UB"].f["solution"]
    yield "number of values", lambda s: me(s).f["sols"].len == c.this.f["sols"].len
    yield "leaf covered", lambda s: Implies(And(0 <= A0, A0 < c.arg(0).f["instances"].len), Or(res(s) <= v, worse_than(ub(s), v)))
    _, a, b = assigned(c.this, Z0)
    for i in L.guards():
        yield "leaves so far", lambda s, i=i: Implies(And(0 <= A0, A0 < i(s)), Or(res(s) <= v, worse_than(ub(s), v)))
        yield "features so far", lambda s, i=i: Implies(And(ok, F0 < i(s)), Or(res(s) <= w, worse_than(ub(s), w)))
        for f in L.outer():
            yield "features before this one", lambda s, f=f: Implies(And(ok, F0 < f(s)), Or(res(s) <= w, worse_than(ub(s), w)))
            yield "assignments so far", lambda s, f=f, i=i: Implies(And(ok, F0 == f(s), Z0 < i(s)), Or(res(s) <= w, worse_than(ub(s), w)))
            for x, l in ((0, a), (1, b)):
                yield "values of the labels so far", lambda s, f=f, i=i, x=x, l=l: Implies(And(ok, l < i(s)), sel(me(s).f["sols"].data, l).f["sol%d%d" % (x, x)] == leaf(t, k, l, f(s), f(s), x, x))
                yield "values of the labels", lambda s, f=f, x=x, l=l: Implies(ok, sel(me(s).f["sols"].data, l).f["sol%d%d" % (x, x)] == leaf(t, k, l, f(s), f(s), x, x))


M.add("TerminalSolver<*>::SolveOneNode", ["P01", "P06"], instances=LAB, modifies=["this.results.one_node_solutions", "this.UB", "this.sols", "this.cost_calculator.temp_costs1", "this.cost_calculator.temp_costs2"],
      requires=pre_one, ensures=one, invariants=[inv_one], opts={"opaque": True, "cost": 100, "budget": 120})


# ---- trees of at most three branching nodes
G0, H0, Z1 = Ints("feature1 feature2 assignment1")
cleared = lambda t, n: And(n.f["solution"] == worst(t), empty(n))


def kids(s, f):
    i = sel(s.f["children_info"].data, f)
    return i.f["left_child_assignments"], i.f["right_child_assignments"]


def all_cleared(t, s, upto):
    return [("the best %s child of every feature is empty" % side, Implies(And(0 <= F0, F0 < upto), cleared(t, kids(s, F0)[i]))) for i, side in enumerate(("left", "right"))]


def inv_init(L, c):
    t = task_of(c.d["_q"])
    me = lambda s: c.eng.get(s, c._this)
    yield "number of entries", lambda s: me(s).f["children_info"].len == c.this.f["children_info"].len
    for i in L.guards():
        for n in (0, 1):
            yield "cleared so far", lambda s, i=i, n=n: all_cleared(t, me(s), i(s))[n][1]


M.add("TerminalSolver<*>::InitialiseChildrenInfo", ["P01", "P06", "P14"], instances=LAB, modifies=["this.children_info"], requires=lambda c: [("one entry per feature", c.this.f["children_info"].len == c.this.f["num_features"])],
      ensures=lambda c: all_cleared(task_of(c.d["_q"]), c.this_post, c.this.f["num_features"]) + [("number of entries", c.this_post.f["children_info"].len == c.this.f["children_info"].len)], invariants=[inv_init])

M.add("CostCalculator<*>::Initialize", ["P01"], instances=LAB, verify=False, trusted="keeps the shape of the tables; proved in module tables (P08) for well-formed views, a precondition that is not carried up to here",
      modifies=["this.data", "this.num_nodes", "this.cost_storage", "this.branching_costs", "this.counter", "this.temp_costs1", "this.temp_costs2", "this.labels", "this.data_add", "this.data_remove"],
      requires=lambda c: kwf(task_of(c.d["_q"]), c.this, c.this.f["num_features"]),
      ensures=lambda c: kwf(task_of(c.d["_q"]), c.this_post, c.this.f["num_features"]) + [("labels", c.this_post.f["cost_storage"].len == c.this.f["cost_storage"].len)])


class Trees:
    """The trees that the depth-two solver has to look at, by feature of the root and of its children and by the labels of the leaves."""
    def __init__(self, c, s, n, m):
        t, k = task_of(c.d["_q"]), s.f["cost_calculator"]
        self.t = t
        self.root = bc(t, k, F0, F0, total(k))
        oz, a, b = assigned(s, Z0)
        oy, x, y = assigned(s, Z1)
        self.labels = (a, b, x, y)
        inr = lambda f: And(0 <= f, f < n)
        br = lambda f: Not(branched(c.branch, f))
        fit = lambda f: And(inr(f), br(f), cnt(k, f, f, 0, 0) >= m, cnt(k, f, f, 1, 1) >= m)
        self.fit = fit
        # branch on G0 below the left of F0 with the labels of Z0, on H0 below the right with those of Z1
        self.left = leaf(t, k, a, F0, G0, 0, 0) + leaf(t, k, b, F0, G0, 0, 1) + bc(t, k, F0, G0, cnt(k, F0, G0, 0, 0) + cnt(k, F0, G0, 0, 1))
        self.right = leaf(t, k, x, F0, H0, 1, 0) + leaf(t, k, y, F0, H0, 1, 1) + bc(t, k, F0, H0, cnt(k, F0, H0, 1, 0) + cnt(k, F0, H0, 1, 1))
        self.ok_left = And(fit(F0), fit(G0), F0 != G0, oz, cnt(k, F0, G0, 0, 0) >= m, cnt(k, F0, G0, 0, 1) >= m)
        self.ok_right = And(fit(F0), fit(H0), F0 != H0, oy, cnt(k, F0, H0, 1, 0) >= m, cnt(k, F0, H0, 1, 1) >= m)
        self.leaf_right, self.leaf_left = leaf(t, k, A0, F0, F0, 1, 1), leaf(t, k, A0, F0, F0, 0, 0)
        self.three = self.left + self.right + self.root
        self.two_left = self.leaf_right + self.left + self.root
        self.two_right = self.leaf_left + self.right + self.root
        self.ok_leaf = label(s, A0)
        self.w = worst(t)

    def found(self, ub, best, v):
        return Or(best <= v, worse_than(ub, v))

    def left_found(self, s):
        return Implies(And(self.ok_left, self.left < self.w), self.found(s.f["UB"].f["solution"], kids(s, F0)[0].f["solution"], self.left))

    def right_found(self, s):
        return Implies(And(self.ok_right, self.right < self.w), self.found(s.f["UB"].f["solution"], kids(s, F0)[1].f["solution"], self.right))

    def three_found(self, s):
        ub, b = s.f["UB"].f["solution"], s.f["results"].f["three_nodes_solutions"].f["solution"]
        return Implies(And(self.ok_left, self.ok_right, self.left < self.w, self.right < self.w), Or(b <= self.three, b <= 0, worse_than(ub, self.left), worse_than(ub, self.right), worse_than(ub, self.three)))

    def two_found(self, s, left):
        ub, b = s.f["UB"].f["solution"], s.f["results"].f["two_nodes_solutions"].f["solution"]
        ok, ch, lf, v = (self.ok_left, self.left, self.leaf_right, self.two_left) if left else (self.ok_right, self.right, self.leaf_left, self.two_right)
        return Implies(And(ok, self.ok_leaf, ch < self.w, lf < self.w), Or(b <= v, b <= 0, worse_than(ub, ch), worse_than(ub, lf), worse_than(ub, v)))


def trees(c, s):
    c.branch = branch_of(c)
    return Trees(c, s, c.this.f["num_features"], min_leaf(c))


def branch_of(c):
    x = c.arg(1)
    while "branch" not in x.f:
        x = x.f[[k for k in x.f if "ontext" in k][0]]
    return x.f["branch"]


def pre_solve(c):
    return wf(c) + labels_wf(c.this) + [("labels of the data", c.arg(0).f["instances"].len <= c.this.f["num_labels"]), ("number of features", c.this.f["num_features"] <= IMAX)]


def solve(c):
    s = c.this_post
    T = trees(c, s)
    many = And(c.arg(3) != 1, total(s.f["cost_calculator"]) >= min_leaf(c))
    return [("no worse than any tree with three branching nodes", Implies(many, T.three_found(s))),
            ("no worse than any root with a branching left child and a leaf", Implies(many, T.two_found(s, True))),
            ("no worse than any root with a branching right child and a leaf", Implies(many, T.two_found(s, False)))]


def inv_solve(L, c):
    """Every pair of features before the current one has been looked at, in both directions."""
    me = lambda s: c.eng.get(s, c._this)
    T = trees(c, me(L.entry))
    t, n, ghost = T.t, c.this.f["num_features"], c.eng.ghost
    k = me(L.entry).f["cost_calculator"]
    # only what the loop changes has to be described again
    changed = lambda f: any(isinstance(x, tuple) and x == ("f", f) for r, path in L.changed for x in path[:1])
    yield "sizes", lambda s: And(me(s).f["children_info"].len == n, me(s).f["sols"].len == c.this.f["sols"].len)
    p = Int("p!x")
    vs = [g for nm, g in L.vecs() if is_z3(g(L.entry).data) and g(L.entry).data.sort() == AI]
    if not L.outer():
        for v in vs:
            yield "features in range", lambda s, v=v: forall([p], Implies(And(0 <= p, p < v(s).len), And(0 <= Select(v(s).data, p), Select(v(s).data, p) < n)), Select(v(s).data, p))
            for i in L.guards():
                for nm, f in (("P", F0), ("Q", G0), ("R", H0)):
                    if nm not in ghost:
                        yield "exists " + nm, lambda s, v=v, i=i, f=f: Exists([p], Implies(And(T.fit(f), f < i(s)), And(0 <= p, p < v(s).len, Select(v(s).data, p) == f)))
    if "P" not in ghost or "Q" not in ghost or "R" not in ghost:
        return
    P, Q, R = ghost["P"], ghost["Q"], ghost["R"]
    sides = (("left", T.left_found, Q, Z0, 0), ("right", T.right_found, R, Z1, 1))
    nest = L.guards()[:1] + L.outer()
    if len(L.guards()) != 1 or len(nest) > 3:
        return
    nest = [g for g in reversed(nest)]    # outermost first
    a, b, z = nest + [None] * (3 - len(nest))
    if changed("children_info"):
        for nm, found, other, zz, w in sides:
            yield "a better %s child is there" % nm, lambda s, w=w: Implies(And(0 <= F0, F0 < n, kids(me(s), F0)[w].f["solution"] < T.w), Not(empty(kids(me(s), F0)[w])))
            yield nm + " children of the rows done", lambda s, found=found, other=other: Implies(Or(P < a(s), other < a(s)), found(me(s)))
            if b is None:
                continue
            pair = lambda x, y, s: And(x == a(s), a(s) < y, y < b(s))
            yield nm + " children of the pairs done", lambda s, found=found, other=other: Implies(Or(pair(P, other, s), pair(other, P, s)), found(me(s)))
            if z is None:
                continue
            for x, y in ((P, other), (other, P)):
                yield nm + " children of this pair", lambda s, found=found, x=x, y=y: Implies(And(x == a(s), y == b(s)), found(me(s)))
                yield nm + " children of this pair so far", lambda s, found=found, x=x, y=y, zz=zz: Implies(And(x == a(s), y == b(s), zz < z(s)), found(me(s)))
    if changed("results"):
        yield "roots done (3)", lambda s: Implies(And(P < a(s)), T.three_found(me(s)))
        yield "roots done (2, left)", lambda s: Implies(And(P < a(s)), T.two_found(me(s), True))
        yield "roots done (2, right)", lambda s: Implies(And(P < a(s)), T.two_found(me(s), False))
    if b is not None:
        yield "position", lambda s: b(s) > a(s)
    if z is None:
        return
    if changed("temp_branch_node"):
        yield "feature of the child", lambda s: And(0 <= me(s).f["temp_branch_node"].f["feature"], me(s).f["temp_branch_node"].f["feature"] < n)
    if changed("sols"):
        for v in vs:
            for i, (l, ok) in enumerate(zip(T.labels, (T.ok_left, T.ok_left, T.ok_right, T.ok_right))):
                for x, y in (((0, 0),), ((0, 1), (1, 0)), ((0, 1), (1, 0)), ((1, 1),))[i]:
                    val = lambda s, v=v, l=l, x=x, y=y: sel(me(s).f["sols"].data, l).f["sol%d%d" % (x, y)] == leaf(t, k, l, Select(v(s).data, a(s)), Select(v(s).data, b(s)), x, y)
                    differ = lambda s, v=v: Select(v(s).data, a(s)) != Select(v(s).data, b(s))
                    yield "values of the labels so far", lambda s, val=val, l=l, ok=ok, differ=differ: Implies(And(ok, differ(s), l < z(s)), val(s))


M.add("TerminalSolver<*>::Solve", ["P01", "P06"], instances=LAB, requires=pre_solve, ensures=solve, invariants=[inv_solve],
      modifies=["this.results", "this.UB", "this.sols", "this.cost_calculator", "this.children_info", "this.temp_branch_node"], opts={"opaque": True, "budget": 300, "cost": 300, "no_bug_mode": True})
