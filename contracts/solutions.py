"""P01/P02/P06/P07: values of (sub)solutions, how they are combined, compared and kept."""
from vcgen.lib import *
M = Module("solutions", SOLVER)
IMAX = 2147483647
TOTAL = ("Accuracy", "CostComplexAccuracy", "CostSensitive", "InstanceCostSensitive", "PrescriptivePolicy", "Regression", "CostComplexRegression",
         "PieceWiseLinearRegression", "SimpleLinearRegression", "SurvivalAnalysis")
PARTIAL = ("F1Score", "EqOpp", "GroupFairness")
BRANCHING = ("CostComplexAccuracy", "CostSensitive", "CostComplexRegression", "PieceWiseLinearRegression", "SimpleLinearRegression")


def task_of(q):
    return q[q.index("<") + 1:q.index(">")]


is_total = lambda q: task_of(q) in TOTAL
is_partial = lambda q: task_of(q) in PARTIAL


def add(x, y):
    """Sum of two solution values."""
    if is_z3(x):
        return x + y
    return Struct(x.name, {k: (z3.BoolVal(False) if k == "root_solution" else x.f[k] + y.f[k]) for k in x.f})


def nodes(n):
    """Number of branching nodes of the tree a node stands for."""
    return If(n.f["feature"] == IMAX, IntVal(0), n.f["num_nodes_left"] + n.f["num_nodes_right"] + 1)


def same_node(a, b):
    return eqv(a, b)


M.add("Node<*>::NumNodes", ["P02", "P01"], ensures=lambda c: [("branching nodes of the tree", c.ret == nodes(c.this))])
M.add("Node<*>::Set", ["P01", "P08"], modifies=["this"], ensures=lambda c: [
    ("takes the given values", And(c.this_post.f["feature"] == c.arg(0), eqv(c.this_post.f["label"], c.arg(1)), eqv(c.this_post.f["solution"], c.arg(2)),
                                   c.this_post.f["num_nodes_left"] == c.arg(3), c.this_post.f["num_nodes_right"] == c.arg(4)))])
M.add("Node<*>::Node", ["P01", "P02"], nparams=4, ensures=lambda c: [
    ("branching node", And(c.this_post.f["feature"] == c.arg(0), eqv(c.this_post.f["solution"], c.arg(1)), c.this_post.f["num_nodes_left"] == c.arg(2), c.this_post.f["num_nodes_right"] == c.arg(3)))])
M.add("Node<*>::Node", ["P01", "P02", "P11"], nparams=2, ensures=lambda c: [
    ("leaf with its label and value", And(c.this_post.f["feature"] == IMAX, eqv(c.this_post.f["label"], c.arg(0)), eqv(c.this_post.f["solution"], c.arg(1)))),
    ("a leaf has no branching nodes", nodes(c.this_post) == 0)])
M.add("TreeNode<*>::HasLeftChild", ["P03", "P06"], ensures=lambda c: [("only branching nodes have children", c.ret == (c.this.f["parent"].f["feature"] != IMAX))])
M.add("TreeNode<*>::HasRightChild", ["P03", "P06"], ensures=lambda c: [("only branching nodes have children", c.ret == (c.this.f["parent"].f["feature"] != IMAX))])
M.add("TreeNode<*>::Set", ["P03", "P06"], modifies=["this"], ensures=lambda c: [
    ("keeps the three nodes", And([eqv(c.this_post.f[f], c.arg(i)) for i, f in enumerate(("parent", "left_child", "right_child"))]))])

better = lambda a, b: a.f["solution"] < b.f["solution"]


def keeps_best(i, j):
    def f(c):
        old, new, out = c.arg(i), c.arg(j), c.post(i)
        return [("the kept value is the best of the two", And(Not(better(old, out)), Not(better(new, out)))),
                ("the kept solution is one of the two", Or(same_node(out, old), same_node(out, new)))]
    return f


for nm in ("AddSol<*>", "AddSols<*>"):
    M.add(nm, ["P01", "P06"], nparams=2, instances=is_total, modifies=["arg0"], ensures=keeps_best(0, 1))
    M.add(nm, ["P01", "P06"], nparams=4, instances=is_total, modifies=["arg2"], ensures=keeps_best(2, 3))
M.add("AddSolsInv<*>", ["P01", "P06"], instances=is_total, modifies=["arg0"], ensures=lambda c: [
    ("the kept value is the worst of the two", And(Not(better(c.post(0), c.arg(0))), Not(better(c.post(0), c.arg(1))))),
    ("the kept solution is one of the two", Or(same_node(c.post(0), c.arg(0)), same_node(c.post(0), c.arg(1))))])


def combined(c):
    _, l, r, bc, out = [c.arg(i) for i in range(4)] + [None] if False else (c.arg(0), c.arg(1), c.arg(2), c.arg(3), c.post(4))
    s = add(l.f["solution"], r.f["solution"])
    if task_of(c.d["_q"]) in BRANCHING:
        s = add(bc, s)
    return [("branches on the feature", out.f["feature"] == c.arg(0)),
            ("the value is the sum of both sides and the branching costs", eqv(out.f["solution"], s)),
            ("the sizes are those of the two sides", And(out.f["num_nodes_left"] == nodes(l), out.f["num_nodes_right"] == nodes(r)))]


M.add("CombineSols<*>", ["P01", "P02", "P03", "P06"], modifies=["arg4"], ensures=combined)
EPS = RealVal("0.0001")


def dominates(c):
    l, r = c.arg(0), c.arg(1)
    return l, r, l.sort() == RealSort()


def left_dom(c):
    l, r, real = dominates(c)
    return [("left is at most right, up to the relative precision", c.ret == (l - r <= EPS * l if real else l <= r))]


def left_strict(c):
    l, r, real = dominates(c)
    return [("left is less than right, beyond the relative precision", c.ret == (l * (1 + EPS) < r if real else l < r))]


value = lambda c: [("values are not negative", And(c.arg(0) >= 0, c.arg(1) >= 0))]
scalar = "const typename"
M.add("LeftDominatesRight<*>", ["P01", "P06"], instances=is_total, sig="SolType", requires=value, ensures=left_dom)
M.add("LeftStrictDominatesRight<*>", ["P01", "P06"], instances=is_total, sig="SolType", ensures=left_strict)


def le3(a, b, eps):
    return And(a.f["misclassifications"] <= b.f["misclassifications"], a.f["group0_score"] <= b.f["group0_score"] + eps, a.f["group1_score"] <= b.f["group1_score"] + eps)


def empty_sol(c):
    s = c.arg(0)
    return [("only a solution without feature and label is empty", c.ret == And(s.f["feature"] == IMAX, worst_label(c, s.f["label"])))]


def worst_label(c, l):
    if is_z3(l):
        return l == IMAX
    raise Unsupported("label")


M.add("CheckEmptySol<*>", ["P01", "P06"], instances=lambda q: is_total(q) and "Linear" not in q, ensures=empty_sol)
