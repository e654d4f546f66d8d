"""P02/P03/P13: what a result reports about its trees, and how trees are built."""
from vcgen.lib import *
from contracts._tasks import task_of
M = Module("results", SOLVER + ["src/solver/result.cpp"])
IMAX = 2147483647
P0 = Int("P0")

scores = lambda h, v: z3.Lambda([Int("!p")], Select(h, Select(v.data, Int("!p"))))


def is_average(c):
    n = c.arg(0).len
    out = []
    for f in ("score", "average_path_length"):
        out.append(("the average of the values of the folds (%s)" % f, Select(c.heap_post("Score", f), c.ret) * ToReal(n) == total(c.heap("Score", f), c.arg(0).data, n)))
    return out


# sum over the listed objects of a field
total = RecSpec("ptotal", [AR, AI], R, lambda h, a: RealVal(0), lambda h, a, n, r: r + Select(h, Select(a, n)), local=[1])


def avg_inv(L, c):
    n = c.arg(0)
    out = []
    for f in ("score", "average_path_length"):
        h0 = c.heap("Score", f)
        for nm, g in L.locals().items():
            try:
                v = g(L.entry)
            except Exception:
                continue
            if is_z3(v) and v.sort() == IntSort():
                for i in L.ints():
                    out.append(("running sum", lambda s, g=g, i=i, f=f, h0=h0: Select(c.eng.heap(s, "Score").f[f], g(s)) == total(h0, n.data, i[1](s))))
        q = Int("!q")
        out.append(("existing objects unchanged", lambda s, f=f, h0=h0: ForAll([q], Implies(q <= c.eng.alloc0, Select(c.eng.heap(s, "Score").f[f], q) == Select(h0, q)))))
    return out


q0 = Int("!e")
M.add("Score::GetAverage", ["P13"], requires=lambda c: [("not empty", c.arg(0).len > 0),
      ("existing objects", ForAll([q0], And(Select(c.arg(0).data, q0) > 0, Select(c.arg(0).data, q0) <= c.eng.alloc0)))],
      ensures=is_average, invariants=[avg_inv], opts={"allocates": True})
M.add("SolverResult::IsFeasible", ["P03", "P13"], ensures=lambda c: [("feasible when there is a solution", c.ret == (c.this.f["scores"].len > 0))])
M.add("SolverResult::NumSolutions", ["P03", "P07"], ensures=lambda c: [("number of solutions", c.ret == c.this.f["scores"].len)])
for fn, f in (("GetBestDepth", "depths"), ("GetBestNodeCount", "num_nodes")):
    M.add("SolverResult::" + fn, ["P02", "P03"], requires=lambda c, f=f: [("the best solution exists", And(c.this.f["best_index"] >= 0, c.this.f["best_index"] < c.this.f[f].len))],
          ensures=lambda c, f=f: [("that of the best solution", c.ret == Select(c.this.f[f].data, c.this.f["best_index"]))])

# trees: depth and number of branching nodes, as recursive functions of the nodes on the heap
simple_label = lambda q: "LinearRegression" not in q


def tree_fn(name, leaf, node):
    """A function of a tree given by its value for a leaf and for a branching node."""
    def at(c, p):
        rec = "Tree<%s>" % task_of(c.d["_rec"])
        lab, l, r = (c.heap(rec, f) for f in ("label", "left_child", "right_child"))
        f = Function("%s_%s" % (name, lab.sort().range()), lab.sort(), AI, AI, I, I)
        return f(lab, l, r, p)

    def definition(c):
        lab, l, r = (c.heap(c.d["_rec"], f) for f in ("label", "left_child", "right_child"))
        p = c.addr
        return [at(c, p) == If(Select(lab, p) != IMAX, IntVal(leaf), node(at(c, Select(l, p)), at(c, Select(r, p))))]
    return at, definition


depth, depth_def = tree_fn("tree_depth", 0, lambda a, b: 1 + If(a < b, b, a))
nnodes, nnodes_def = tree_fn("tree_nodes", 0, lambda a, b: 1 + a + b)
M.add("Tree<*>::IsLabelNode", ["P03", "P04"], instances=simple_label, opts={"heap_this": True}, ensures=lambda c: [("leaves have a label", c.ret == (c.this.f["label"] != IMAX))])
M.add("Tree<*>::Depth", ["P02", "P03"], instances=simple_label, opts={"heap_this": True, "recursive": True}, axioms=depth_def,
      ensures=lambda c: [("number of branching nodes on the longest path", c.ret == depth(c, c.addr))])
M.add("Tree<*>::NumNodes", ["P02", "P03"], instances=simple_label, opts={"heap_this": True, "recursive": True}, axioms=nnodes_def,
      ensures=lambda c: [("number of branching nodes", c.ret == nnodes(c, c.addr))])


def node_is(c, p, feature, label=None, left=None, right=None):
    rec = c.d["_rec"]
    g = [Select(c.heap_post(rec, "feature"), p) == feature]
    if label is not None:
        g.append(Select(c.heap_post(rec, "label"), p) == label)
    for f, v in (("left_child", left), ("right_child", right)):
        if v is not None:
            g.append(Select(c.heap_post(rec, f), p) == v)
    return And(g)


M.add("Tree<*>::CreateLabelNode", ["P03", "P11"], instances=simple_label, opts={"allocates": "ret"}, ensures=lambda c: [
    ("a leaf with the given label", node_is(c, c.ret, IMAX, c.arg(0), IntVal(0), IntVal(0)))])
M.add("Tree<*>::CreateFeatureNodeWithNullChildren", ["P03"], instances=simple_label, opts={"allocates": "ret"}, ensures=lambda c: [
    ("a branching node without label", node_is(c, c.ret, c.arg(0), IMAX, IntVal(0), IntVal(0)))])


def d2_tree(c):
    """The tree of depth at most two given by a root and the two nodes below it."""
    rec = c.d["_rec"]
    H = lambda f, p: Select(c.heap_post(rec, f), p)
    P, Lf, Rt = c.arg(0), c.arg(1), c.arg(2)

    def sub(p, n):
        branching = n.f["parent"].f["feature"] != IMAX
        return If(branching,
                  And(node_is(c, p, n.f["parent"].f["feature"], IMAX), node_is(c, H("left_child", p), IMAX, n.f["left_child"].f["label"]), node_is(c, H("right_child", p), IMAX, n.f["right_child"].f["label"])),
                  node_is(c, p, IMAX, n.f["parent"].f["label"]))
    root = P.f["parent"]
    return [("a leaf when the root does not branch", Implies(root.f["feature"] == IMAX, node_is(c, c.ret, IMAX, root.f["label"]))),
            ("the root branches on its feature", Implies(root.f["feature"] != IMAX, node_is(c, c.ret, root.f["feature"], IMAX))),
            ("the left subtree", Implies(root.f["feature"] != IMAX, sub(H("left_child", c.ret), Lf))),
            ("the right subtree", Implies(root.f["feature"] != IMAX, sub(H("right_child", c.ret), Rt)))]


M.add("Tree<*>::CreateD2TreeFromTreeNodes", ["P01", "P03", "P11"], instances=simple_label, opts={"allocates": True}, ensures=d2_tree)
L0 = Int("L0")


def inserted(c):
    a, b = c.this, c.this_post
    n = a.f["scores"].len
    sc = lambda p: Select(c.heap("Score", "score"), p)
    at = Int("!w")
    K = [("trees", c.arg(0)), ("scores", c.arg(1)), ("depths", depth(c, c.arg(0))), ("num_nodes", nnodes(c, c.arg(0)))]
    out = [("one solution more", And([b.f[f].len == a.f[f].len + 1 for f, _ in K]))]
    # the position is the first one with a larger score
    for f, v in K:
        x, y = a.f[f].data, b.f[f].data
        out.append(("solutions before the position stay (%s)" % f, Implies(And(L0 >= 0, L0 < n, Not(larger_before(c, L0 + 1))), Select(y, L0) == Select(x, L0))))
        out.append(("solutions after the position move up (%s)" % f, Implies(And(L0 >= 0, L0 < n, larger_before(c, L0 + 1)), Select(y, L0 + 1) == Select(x, L0))))
        if v is not None:
            out.append(("the new solution is at the position (%s)" % f, Implies(And(L0 >= 0, L0 <= n, Not(larger_before(c, L0)), Or(L0 == n, larger_before(c, L0 + 1))), Select(y, L0) == v)))
    return out


lbf = RecSpec("larger_before", [AR, AI, R], B, lambda h, a, x: BoolVal(False), lambda h, a, x, n, r: Or(r, Select(h, Select(a, n)) > x), local=[1],
              pairs=[("a larger one stays", lambda a, m, n, fm, fn: Implies(fm, fn)),
                     ("none is larger", lambda a, m, n, fm, fn: Implies(And(Not(fn), m < n), Not(Select(a[0], Select(a[1], m)) > a[2])))])


def larger_before(c, n):
    h = c.heap("Score", "score")
    return lbf(h, c.this.f["scores"].data, Select(h, c.arg(1)), n)


M.add("Tree<*>::ToString", verify=False, trusted="the text of a tree is not interpreted")
M.add("SolverTaskResult<*>::AddSolution", ["P03", "P07", "P13"], instances=simple_label, modifies=["this"], requires=lambda c: [
    ("one entry per solution", And([c.this.f[f].len == c.this.f["scores"].len for f in ("trees", "depths", "num_nodes", "tree_strings")]))],
      ensures=inserted, invariants=[lambda L, c: [("no larger score so far", lambda s, g=g: Not(larger_before(c, g(s)))) for g in L.int_locals()]])
