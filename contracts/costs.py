"""P10/P11/P09/P03: what the optimization tasks charge for instances, leaves and branches, and how values are ordered, added and scored."""
from vcgen.lib import *
from contracts._tasks import *
M = Module("costs", SOLVER + TASKS)

AA = ArraySort(I, AI)
AAR = ArraySort(I, AR)
FAIR = ("EqOpp", "GroupFairness")


def D(v):
    """instances, lengths, number of labels of a view"""
    x = v.f["instances"]
    return x.data.data, x.data.len, x.len


def view(c, i):
    a, ln, n = D(c.arg(i))
    l = Int("l!n")
    return [("lengths", And(n >= 0, ForAll([l], Select(ln, l) >= 0, patterns=[Select(ln, l)])))]


def accs(L):
    return L.changed_reals() + L.changed_ints()


def inv1(spec):
    """an accumulator is the sum up to the loop counter"""
    def f(L, c):
        sp = spec(c)
        for v in accs(L):
            for k in L.counters():
                yield "sum", lambda s, v=v, k=k: v(s) == sp(k(s))
    return f


def inv2(outer, inner):
    def f(L, c):
        o, i = outer(c), inner(c)
        for v in accs(L):
            for k in L.counters():
                yield "outer sum", lambda s, v=v, k=k: v(s) == o(k(s))
                for lab in L.int_locals():
                    yield "inner sum", lambda s, v=v, k=k, lab=lab: v(s) == o(lab(s)) + i(lab(s), k(s))
                for lab in range(2):
                    yield "inner sum of a fixed label", lambda s, v=v, k=k, lab=lab: v(s) == i(IntVal(lab), k(s))
    return f


# ---- values of single instances -------------------------------------------------------------------------------------------------
def present0(c, p):
    """Does the instance have the zeroth (sensitive) feature?"""
    return Select(Select(c.eng.block_root(c._pre, ("bool",)).data, Select(c.heap("AInstance", "features").f["is_feature_present_"], p)), 0)


def has0(c, p):
    return Select(c.eng.block_root(c._pre, ("bool",)).len, Select(c.heap("AInstance", "features").f["is_feature_present_"], p)) > 0


def b2i(b):
    return If(b, IntVal(1), IntVal(0))


def groups(task, c, this, p, org):
    """share of the instance in group 0 and in group 1"""
    one = RealVal(1)
    g0, g1 = one / ToReal(this.f["train_group0_size"]), one / ToReal(this.f["train_group1_size"])
    counts = org == 1 if task == "EqOpp" else z3.BoolVal(True)
    return If(And(counts, Not(present0(c, p))), g0, RealVal(0)), If(And(counts, present0(c, p)), g1, RealVal(0))


def fair_cost(task, c, this, p, org, label):
    a, b = groups(task, c, this, p, org)
    return dict(misclassifications=b2i(org != label), group0_score=If(label == 1, a, b), group1_score=If(label == 1, b, a))


binary = lambda i: (lambda c: ("binary label", And(0 <= c.arg(i), c.arg(i) <= 1)))
sizes = lambda c: ("group sizes", And(c.this.f["train_group0_size"] >= 1, c.this.f["train_group1_size"] >= 1))

for t in ("Accuracy", "CostComplexAccuracy"):
    M.add(t + "::GetInstanceLeafD2Costs", ["P11", "P08"], modifies=["arg3"], ensures=lambda c: [("one per misclassified instance", c.post(3) == c.arg(4) * b2i(c.arg(1) != c.arg(2)))])
M.add("CostSensitive::GetInstanceLeafD2Costs", ["P11", "P08"], modifies=["arg3"],
      requires=lambda c: [("labels", And(0 <= c.arg(1), c.arg(1) < c.this.f["cost_specifier"].f["misclassification_costs"].len, 0 <= c.arg(2),
                                         c.arg(2) < Select(c.this.f["cost_specifier"].f["misclassification_costs"].data.len, c.arg(1))))],
      ensures=lambda c: [("the cost of assigning the label", c.post(3) == ToReal(c.arg(4)) * Select(Select(c.this.f["cost_specifier"].f["misclassification_costs"].data.data, c.arg(1)), c.arg(2)))])


def f1_cost(org, label):
    return dict(false_negatives=b2i(And(org == 1, label == 0)), false_positives=b2i(And(org == 0, label == 1)))


M.add("F1Score::GetInstanceLeafD2Costs", ["P11", "P08"], modifies=["arg3"], requires=lambda c: [binary(1)(c), binary(2)(c)],
      ensures=lambda c: [("false negatives and false positives", And([c.post(3).f[k] == c.arg(4) * v for k, v in f1_cost(c.arg(1), c.arg(2)).items()]))])
# the shares of the groups are sums of fractions: a difference may exceed the limit by a rounding error
ROUNDING = RealVal("1/1000000")
within = lambda c, v, e: And([v.f["group%d_score" % g] - 1 <= c.this.f["discrimination_limit"] + e for g in (0, 1)])
for t in FAIR:
    M.add(t + "::GetInstanceLeafD2Costs", ["P10", "P11", "P08"], modifies=["arg3"], requires=lambda c: [binary(1)(c), binary(2)(c), sizes(c), ("features", has0(c, c.arg(0)))],
          ensures=lambda c, t=t: [("misclassification and group shares", And([c.post(3).f[k] == c.arg(4) * v for k, v in fair_cost(t, c, c.this, c.arg(0), c.arg(1), c.arg(2)).items()]))])
    M.add(t + "::SatisfiesConstraint", ["P10"], ensures=lambda c: [("the difference between the groups is within the limit", Implies(c.ret, within(c, c.arg(0).f["solution"], ROUNDING))),
                                                               ("every difference within the limit is accepted", Implies(within(c, c.arg(0).f["solution"], 0), c.ret))])
    M.add(t + "::MayBranchOnFeature", ["P10"], ensures=lambda c: [("never on the sensitive feature", Implies(c.ret, c.arg(0) != 0)), ("on every other feature", Implies(c.arg(0) > 0, c.ret))])

# the most one instance of a label can add to any value: used by the similarity lower bound
P0, Y0 = Int("p0"), Int("y0")
for t in FAIR:
    M.add(t + "::GetWorstPerLabel", ["P09"], requires=lambda c: [binary(0)(c), sizes(c), ("instance", has0(c, P0))],
          ensures=lambda c, t=t: [("no instance of the label adds more (%s)" % k, Implies(And(0 <= Y0, Y0 <= 1), v <= c.ret.f[k])) for k, v in fair_cost(t, c, c.this, P0, c.arg(0), Y0).items()])
M.add("F1Score::GetWorstPerLabel", ["P09"], requires=lambda c: [binary(0)(c)],
      ensures=lambda c: [("no instance of the label adds more (%s)" % k, Implies(And(0 <= Y0, Y0 <= 1), v <= c.ret.f[k])) for k, v in f1_cost(c.arg(0), Y0).items()])
for t in ("Accuracy", "CostComplexAccuracy"):
    M.add(t + "::GetWorstPerLabel", ["P09"], ensures=lambda c: [("no instance of the label adds more", b2i(c.arg(0) != Y0) <= c.ret)])

# ---- leaves -----------------------------------------------------------------------------------------------------------------------
errs = RecSpec("errs", [AI, I], I, lambda ln, lab: IntVal(0), lambda ln, lab, n, r: r + If(n == lab, IntVal(0), Select(ln, n)), local=[0])
for t in ("Accuracy", "CostComplexAccuracy"):
    sp = lambda c: (lambda k: errs(D(c.arg(0))[1], c.arg(2), k))
    M.add(t + "::GetLeafCosts", ["P11", "P03"], requires=lambda c: view(c, 0), invariants=[inv1(sp)],
          ensures=lambda c, sp=sp: [("the number of instances with another label", c.ret == sp(c)(D(c.arg(0))[2]))])
    M.add(t + "::GetTestLeafCosts", ["P11", "P03"], requires=lambda c: view(c, 0),
          ensures=lambda c, sp=sp: [("the number of instances with another label", c.ret == sp(c)(D(c.arg(0))[2]))])
merrs = RecSpec("merrs", [AI, AAR, I], R, lambda ln, m, lab: RealVal(0), lambda ln, m, lab, n, r: r + ToReal(Select(ln, n)) * Select(Select(m, n), lab), local=[0, 1])


def cs_matrix(c):
    return c.this.f["cost_specifier"].f["misclassification_costs"]


def cs_req(c):
    m, n = cs_matrix(c), D(c.arg(0))[2]
    l = Int("l!m")
    return view(c, 0) + [("one row per label", And(m.len >= n, c.arg(2) >= 0, ForAll([l], Implies(And(0 <= l, l < n), Select(m.data.len, l) > c.arg(2)), patterns=[Select(m.data.len, l)])))]


sp_cs = lambda c: (lambda k: merrs(D(c.arg(0))[1], cs_matrix(c).data.data, c.arg(2), k))
for f in ("GetLeafCosts", "GetTestLeafCosts"):
    M.add("CostSensitive::" + f, ["P11", "P03"], requires=cs_req, invariants=[inv1(sp_cs)],
          ensures=lambda c: [("every instance pays the cost of its label being given this label", c.ret == sp_cs(c)(D(c.arg(0))[2]))])
M.add("F1Score::GetLeafCosts", ["P11", "P03"], requires=lambda c: view(c, 0) + [binary(2)(c), ("two labels", D(c.arg(0))[2] == 2), ("size", c.arg(0).f["size"] == Select(D(c.arg(0))[1], 0) + Select(D(c.arg(0))[1], 1))],
      ensures=lambda c: [("false negatives and false positives", And(c.ret.f["false_negatives"] == If(c.arg(2) == 0, Select(D(c.arg(0))[1], 1), IntVal(0)),
                                                                       c.ret.f["false_positives"] == If(c.arg(2) == 1, Select(D(c.arg(0))[1], 0), IntVal(0))))])

# instances of a list without / with the sensitive feature
ABB = ArraySort(I, AB)
in0 = RecSpec("in0", [AI, AI, ABB], I, lambda a, fp, bl: IntVal(0), lambda a, fp, bl, n, r: r + b2i(Not(Select(Select(bl, Select(fp, Select(a, n))), 0))), local=[0])
in1 = RecSpec("in1", [AI, AI, ABB], I, lambda a, fp, bl: IntVal(0), lambda a, fp, bl, n, r: r + b2i(Select(Select(bl, Select(fp, Select(a, n))), 0)), local=[0])
all0 = RecSpec("all0", [AA, AI, AI, ABB], I, lambda a, ln, fp, bl: IntVal(0), lambda a, ln, fp, bl, n, r: r + in0(Select(a, n), fp, bl, Select(ln, n)))
all1 = RecSpec("all1", [AA, AI, AI, ABB], I, lambda a, ln, fp, bl: IntVal(0), lambda a, ln, fp, bl, n, r: r + in1(Select(a, n), fp, bl, Select(ln, n)))


def fpb(c):
    return c.heap("AInstance", "features").f["is_feature_present_"], c.eng.block_root(c._pre, ("bool",)).data


def grp(c, i, g, label):
    """number of instances of the view in group g, with the label (None: all labels)"""
    a, ln, n = D(c.arg(i))
    if label is None:
        return (all0, all1)[g](a, ln, *fpb(c), n)
    return (in0, in1)[g](Select(a, label), *fpb(c), Select(ln, label))


def feats(c, i):
    a, ln, n = D(c.arg(i))
    l, k = Int("l!w"), Int("i!w")
    return [("instances have the feature", ForAll([l, k], Implies(And(0 <= l, l < n, 0 <= k, k < Select(ln, l)), has0(c, Select(Select(a, l), k))), patterns=[Select(Select(a, l), k)]))]


def inv_groups(i):
    out = []
    for o, n in ((all0, in0), (all1, in1)):
        out.append(inv2(lambda c, o=o: (lambda k: o(D(c.arg(i))[0], D(c.arg(i))[1], *fpb(c), k)),
                        lambda c, n=n: (lambda l, k: n(Select(D(c.arg(i))[0], l), *fpb(c), k))))
    return out


def inv_both(i):
    """the two groups together are all instances"""
    def f(L, c):
        for k in L.counters():
            for lab in list(L.int_locals()) + [lambda s: IntVal(0), lambda s: IntVal(1)]:
                a, fb = D(c.arg(i))[0], fpb(c)
                yield "both groups", lambda s, k=k, lab=lab: in0(Select(a, lab(s)), *fb, k(s)) + in1(Select(a, lab(s)), *fb, k(s)) == k(s)
            a, ln, n = D(c.arg(i))
            yield "all before", lambda s, k=k: all0(a, ln, *fpb(c), k(s)) + all1(a, ln, *fpb(c), k(s)) == tl(ln, k(s))
    return f


tl = RecSpec("tl", [AI], I, lambda ln: IntVal(0), lambda ln, n, r: r + Select(ln, n), local=[0])
for t in FAIR:
    lab = None if t == "GroupFairness" else 1
    for kind in ("train", "test"):
        M.add(t + "::Inform%sData" % kind.capitalize(), ["P10", "P14"], modifies=["this"], requires=lambda c: view(c, 0) + feats(c, 0) + [("two labels", D(c.arg(0))[2] == 2)],
              invariants=inv_groups(0),
              ensures=lambda c, lab=lab, kind=kind: [("size of group %d" % g, c.this_post.f["%s_group%d_size" % (kind, g)] == (rmax(IntVal(1), grp(c, 0, g, lab)) if kind == "train" else grp(c, 0, g, lab)))
                                                     for g in (0, 1)] + [("keeps the summary", eqv(c.this_post.f[kind + "_summary"], c.arg(1))), ("keeps the limit", c.this_post.f["discrimination_limit"] == c.this.f["discrimination_limit"])])

    def leaf(c, t=t, lab=lab):
        n0, n1 = ToReal(grp(c, 0, 0, lab)), ToReal(grp(c, 0, 1, lab))
        s0, s1 = n0 / ToReal(c.this.f["train_group0_size"]), n1 / ToReal(c.this.f["train_group1_size"])
        ln = D(c.arg(0))[1]
        return [("misclassifications", c.ret.f["misclassifications"] == If(c.arg(2) == 1, Select(ln, 0), Select(ln, 1))),
                ("share of group 0 with the positive and of group 1 with the negative label", c.ret.f["group0_score"] == If(c.arg(2) == 1, s0, s1)),
                ("share of group 1 with the positive and of group 0 with the negative label", c.ret.f["group1_score"] == If(c.arg(2) == 1, s1, s0))]
    for f in ("GetLeafCosts", "GetTestLeafCosts"):
        M.add(t + "::" + f, ["P10", "P11", "P03"], requires=lambda c: view(c, 0) + feats(c, 0) + [binary(2)(c), sizes(c), ("two labels", D(c.arg(0))[2] == 2), ("size", c.arg(0).f["size"] == tl(D(c.arg(0))[1], IntVal(2)))],
              invariants=inv_groups(0) + [inv_both(0)], ensures=leaf)

# ---- instance costs, policies, regression and survival -----------------------------------------------------------------------------
# sum over the instances of a list, and over all labels, of a value per instance (an array over addresses)
lsum = RecSpec("lsum", [AI, AR], R, lambda a, v: RealVal(0), lambda a, v, n, r: r + Select(v, Select(a, n)), local=[0])
dsum = RecSpec("dsum", [AA, AI, AR], R, lambda a, ln, v: RealVal(0), lambda a, ln, v, n, r: r + lsum(Select(a, n), v, Select(ln, n)))


def inst_array(f):
    """array over addresses of instances with the given value"""
    p = Int("p!v")
    return z3.Lambda([p], f(p))


def ics_costs(c):
    return c.heap("Instance<int,InstanceCostSensitiveData>", "extra_data").f["costs"]


icsum = RecSpec("icsum", [AI, AAR, I], R, lambda a, v, l: RealVal(0), lambda a, v, l, n, r: r + Select(Select(v, Select(a, n)), l), local=[0])
icall = RecSpec("icall", [AA, AI, AAR, I], R, lambda a, ln, v, l: RealVal(0), lambda a, ln, v, l, n, r: r + icsum(Select(a, n), v, l, Select(ln, n)))


def per_label(c, costs, ptr=None):
    """every instance has a cost for the label"""
    a, ln, n = D(c.arg(0))
    l, k = Int("l!w"), Int("i!w")
    return [("instances have a cost for the label", And(c.arg(2) >= 0, ForAll([l, k], Implies(And(0 <= l, l < n, 0 <= k, k < Select(ln, l)), Select(costs.len, Select(Select(a, l), k)) > c.arg(2)),
                                                                                          patterns=[Select(Select(a, l), k)])))]


inv_ics = inv2(lambda c: (lambda k: icall(D(c.arg(0))[0], D(c.arg(0))[1], ics_costs(c).data, c.arg(2), k)),
               lambda c: (lambda l, k: icsum(Select(D(c.arg(0))[0], l), ics_costs(c).data, c.arg(2), k)))
for f in ("GetLeafCosts", "GetTestLeafCosts"):
    M.add("InstanceCostSensitive::" + f, ["P11", "P03"], requires=lambda c: view(c, 0) + per_label(c, ics_costs(c)), invariants=[inv_ics],
          ensures=lambda c: [("the sum of the costs of giving every instance this label", c.ret == icall(D(c.arg(0))[0], D(c.arg(0))[1], ics_costs(c).data, c.arg(2), D(c.arg(0))[2]))])
M.add("InstanceCostSensitive::GetInstanceLeafD2Costs", ["P11", "P08"], modifies=["arg3"],
      requires=lambda c: [("the instance has a cost for the label", And(c.arg(2) >= 0, c.arg(2) < Select(ics_costs(c).len, c.arg(0))))],
      ensures=lambda c: [("the cost of giving this instance the label", c.post(3) == ToReal(c.arg(4)) * Select(Select(ics_costs(c).data, c.arg(0)), c.arg(2)))])
M.add("InstanceCostSensitive::ComputeD2Costs", ["P11", "P08"], modifies=["arg2"], ensures=lambda c: [("the summed costs", c.post(2) == rmax(c.arg(0), RealVal(0)))])

# policies: the cost of an instance is looked up by its identifier
ppid = lambda c: c.heap("AInstance", "id")
ppc = lambda c: c.this.f["cost_per_training_instance"]
ppsum = RecSpec("ppsum", [AI, AI, AAR, I], R, lambda a, id, v, l: RealVal(0), lambda a, id, v, l, n, r: r + Select(Select(v, Select(id, Select(a, n))), l), local=[0])
ppall = RecSpec("ppall", [AA, AI, AI, AAR, I], R, lambda a, ln, id, v, l: RealVal(0), lambda a, ln, id, v, l, n, r: r + ppsum(Select(a, n), id, v, l, Select(ln, n)))


def pp_ok(c, p, label):
    return And(0 <= Select(ppid(c), p), Select(ppid(c), p) < ppc(c).len, 0 <= label, label < Select(ppc(c).data.len, Select(ppid(c), p)))


def pp_req(c):
    a, ln, n = D(c.arg(0))
    l, k = Int("l!w"), Int("i!w")
    return view(c, 0) + [("costs are known", ForAll([l, k], Implies(And(0 <= l, l < n, 0 <= k, k < Select(ln, l)), pp_ok(c, Select(Select(a, l), k), c.arg(2))), patterns=[Select(Select(a, l), k)]))]


M.add("PrescriptivePolicy::GetLeafCosts", ["P11", "P03"], requires=pp_req,
      invariants=[inv2(lambda c: (lambda k: ppall(D(c.arg(0))[0], D(c.arg(0))[1], ppid(c), ppc(c).data.data, c.arg(2), k)), lambda c: (lambda l, k: ppsum(Select(D(c.arg(0))[0], l), ppid(c), ppc(c).data.data, c.arg(2), k)))],
      ensures=lambda c: [("the sum of the costs of giving every instance this treatment", c.ret == ppall(D(c.arg(0))[0], D(c.arg(0))[1], ppid(c), ppc(c).data.data, c.arg(2), D(c.arg(0))[2]))])
M.add("PrescriptivePolicy::GetInstanceLeafD2Costs", ["P11", "P08"], modifies=["arg3"], requires=lambda c: [("costs are known", pp_ok(c, c.arg(0), c.arg(2)))],
      ensures=lambda c: [("the cost of giving this instance the treatment", c.post(3) == ToReal(c.arg(4)) * Select(Select(ppc(c).data.data, Select(ppid(c), c.arg(0))), c.arg(2)))])
ppwrong = RecSpec("ppwrong", [AI, AI, I], I, lambda a, ko, l: IntVal(0), lambda a, ko, l, n, r: r + b2i(Select(ko, Select(a, n)) != l), local=[0])
ppwall = RecSpec("ppwall", [AA, AI, AI, I], I, lambda a, ln, ko, l: IntVal(0), lambda a, ln, ko, l, n, r: r + ppwrong(Select(a, n), ko, l, Select(ln, n)))
ko = lambda c: c.heap("Instance<double,PPGData>", "extra_data").f["k_opt"]
M.add("PrescriptivePolicy::GetTestLeafCosts", ["P11", "P03"], requires=lambda c: view(c, 0),
      invariants=[inv2(lambda c: (lambda k: ppwall(D(c.arg(0))[0], D(c.arg(0))[1], ko(c), c.arg(2), k)), lambda c: (lambda l, k: ppwrong(Select(D(c.arg(0))[0], l), ko(c), c.arg(2), k)))],
      ensures=lambda c: [("the number of instances with another optimal treatment", c.ret == ppwall(D(c.arg(0))[0], D(c.arg(0))[1], ko(c), c.arg(2), D(c.arg(0))[2]))])

# regression: labels of instances
ylab = lambda c: c.heap("LInstance<double>", "label")
ysum = RecSpec("ysum", [AI, AR], R, lambda a, y: RealVal(0), lambda a, y, n, r: r + Select(y, Select(a, n)), local=[0])
yysum = RecSpec("yysum", [AI, AR], R, lambda a, y: RealVal(0), lambda a, y, n, r: r + Select(y, Select(a, n)) * Select(y, Select(a, n)), local=[0])
ydev = RecSpec("ydev", [AI, AR, R], R, lambda a, y, m: RealVal(0), lambda a, y, m, n, r: r + (Select(y, Select(a, n)) - m) * (Select(y, Select(a, n)) - m), local=[0])
first = lambda c: (Select(D(c.arg(0))[0], 0), Select(D(c.arg(0))[1], 0))
one_list = lambda c: view(c, 0) + [("all instances are in the first list", And(D(c.arg(0))[2] >= 1, c.arg(0).f["size"] == Select(D(c.arg(0))[1], 0)))]


def inv_list(*specs):
    return [inv1(lambda c, sp=sp: (lambda k: sp(c, first(c)[0], k))) for sp in specs]


Y = lambda c, a, k: ysum(a, ylab(c), k)
YY = lambda c, a, k: yysum(a, ylab(c), k)
M.add("Regression::SolveLeafNode", ["P11"], requires=lambda c: one_list(c) + [("not empty", first(c)[1] > 0)], invariants=inv_list(Y, YY),
      ensures=lambda c: [("the leaf predicts the mean", c.ret.f["label"] * ToReal(first(c)[1]) == Y(c, *first(c))),
                         ("the value is the sum of squares about the mean", c.ret.f["solution"] * ToReal(first(c)[1]) == YY(c, *first(c)) * ToReal(first(c)[1]) - Y(c, *first(c)) * Y(c, *first(c))),
                         ("it is a leaf", c.ret.f["feature"] == IMAX)])
for f in ("GetLeafCosts", "GetTestLeafCosts"):
    M.add("Regression::" + f, ["P11", "P03"], requires=one_list, invariants=[inv1(lambda c: (lambda k: ydev(first(c)[0], ylab(c), c.arg(2), k)))],
          ensures=lambda c: [("the sum of squared errors", c.ret == ydev(first(c)[0], ylab(c), c.arg(2), first(c)[1]))])
M.add("Regression::GetInstanceLeafD2Costs", ["P11", "P08"], modifies=["arg3"],
      ensures=lambda c: [("label and squared label", And(c.post(3).f["ys"] == ToReal(c.arg(4)) * Select(ylab(c), c.arg(0)), c.post(3).f["yys"] == ToReal(c.arg(4)) * Select(ylab(c), c.arg(0)) * Select(ylab(c), c.arg(0))))])
M.add("Regression::ComputeD2Costs", ["P11", "P08"], modifies=["arg2"], requires=lambda c: [("count", c.arg(1) >= 0)], ensures=lambda c: [("sum of squares about the mean", c.post(2) == d2("Regression", c.arg(0), c.arg(1)))])
M.add("Regression::GetLabel", ["P11", "P08"], requires=lambda c: [("count", c.arg(1) >= 0)], ensures=lambda c: [("the mean", c.ret * ToReal(c.arg(1)) == If(c.arg(1) == 0, RealVal(0), c.arg(0).f["ys"]))])
trunc = lambda x: If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
M.add("CostComplexRegression::GetInstanceLeafD2Costs", ["P11", "P08"], modifies=["arg3"],
      ensures=lambda c: [("label, squared label and weight", And(c.post(3).f["ys"] == ToReal(c.arg(4)) * Select(ylab(c), c.arg(0)), c.post(3).f["yys"] == ToReal(c.arg(4)) * Select(c.heap("Instance<double,RegExtraData>", "extra_data").f["ysq"], c.arg(0)),
                                                          c.post(3).f["weight"] == c.arg(4) * trunc(Select(c.heap("AInstance", "weight"), c.arg(0)))))])
M.add("CostComplexRegression::ComputeD2Costs", ["P11", "P08"], modifies=["arg2"], requires=lambda c: [("count", And(c.arg(1) >= 0, c.arg(0).f["weight"] == c.arg(1)))],
      ensures=lambda c: [("sum of squares about the mean", c.post(2) == d2("CostComplexRegression", c.arg(0), c.arg(1)))])

# survival: hazards and events
sa = lambda c: c.heap("Instance<double,SAData>", "extra_data")
hsum = RecSpec("hsum", [AI, AR], R, lambda a, h: RealVal(0), lambda a, h, n, r: r + Select(h, Select(a, n)), local=[0])
esum = RecSpec("esum", [AI, AI], I, lambda a, e: IntVal(0), lambda a, e, n, r: r + b2i(Select(e, Select(a, n)) != 0), local=[0])
nlsum = RecSpec("nlsum", [AI, AI, AR], R, lambda a, e, h: RealVal(0), lambda a, e, h, n, r: r + If(Select(e, Select(a, n)) != 0, -log(Select(h, Select(a, n))), RealVal(0)), local=[0])
H = lambda c, a, k: hsum(a, sa(c).f["hazard"], k)
E = lambda c, a, k: esum(a, sa(c).f["ev"], k)
NL = lambda c, a, k: nlsum(a, sa(c).f["ev"], sa(c).f["hazard"], k)
events = lambda e: rmax(RealVal("0.5"), ToReal(e))
M.add("SurvivalAnalysis::SolveLeafNode", ["P11", "P15"], requires=lambda c: one_list(c) + [("hazards are positive", H(c, *first(c)) > 0)], invariants=inv_list(H, E, NL),
      ensures=lambda c: [("the estimate: events (at least one half) by total hazard", c.ret.f["label"] * H(c, *first(c)) == events(E(c, *first(c)))),
                         ("the loss of the estimate", c.ret.f["solution"] == rmax(RealVal(0), NL(c, *first(c)) - ToReal(E(c, *first(c))) * log(c.ret.f["label"])))])
for f in ("GetLeafCosts", "GetTestLeafCosts"):
    M.add("SurvivalAnalysis::" + f, ["P11", "P03", "P15"], requires=one_list, invariants=inv_list(H, E, NL),
          ensures=lambda c: [("the loss of the given estimate", c.ret == rmax(RealVal(0), NL(c, *first(c)) - ToReal(E(c, *first(c))) * (log(c.arg(2)) + 1) + c.arg(2) * H(c, *first(c))))])
M.add("SurvivalAnalysis::GetInstanceLeafD2Costs", ["P11", "P08"], modifies=["arg3"], ensures=lambda c: [
    ("hazard, event and log hazard", And(c.post(3).f["hazard_sum"] == Select(sa(c).f["hazard"], c.arg(0)) * ToReal(c.arg(4)),
     c.post(3).f["event_sum"] == If(Select(sa(c).f["ev"], c.arg(0)) != 0, c.arg(4), IntVal(0)),
     c.post(3).f["negative_log_hazard_sum"] == If(Select(sa(c).f["ev"], c.arg(0)) != 0, -log(Select(sa(c).f["hazard"], c.arg(0))) * ToReal(c.arg(4)), RealVal(0))))])
theta = lambda c: events(c.arg(0).f["event_sum"]) / c.arg(0).f["hazard_sum"]
M.add("SurvivalAnalysis::ComputeD2Costs", ["P11", "P08"], modifies=["arg2"], requires=lambda c: [("hazards are positive", c.arg(0).f["hazard_sum"] > 0)],
      ensures=lambda c: [("the loss of the estimate", c.post(2) == rmax(RealVal(0), c.arg(0).f["negative_log_hazard_sum"] - ToReal(c.arg(0).f["event_sum"]) * log(theta(c))))])
M.add("SurvivalAnalysis::GetLabel", ["P11", "P08"], requires=lambda c: [("hazards are positive", c.arg(0).f["hazard_sum"] > 0)],
      ensures=lambda c: [("the estimate: events (at least one half) by total hazard", c.ret == theta(c))])

# ---- branching costs -----------------------------------------------------------------------------------------------------------------
for t, cost in (("CostComplexAccuracy", lambda c: c.this.f["cost_complexity_parameter"] * ToReal(c.this.f["train_summary"].f["size"])), ("CostComplexRegression", lambda c: c.this.f["branching_cost"])):
    M.add(t + "::GetBranchingCosts", ["P11", "P01"], ensures=lambda c, cost=cost: [("the configured cost of a node", c.ret == cost(c))])
    M.add(t + "::GetTestBranchingCosts", ["P11", "P03"], ensures=lambda c: [("no cost in evaluation", c.ret == 0)])
    M.add(t + "::ComputeD2BranchingCosts", ["P11", "P08"], ensures=lambda c: [("the same for any data", c.ret == c.arg(0))])
M.add("CostSensitive::ComputeD2BranchingCosts", ["P11", "P08"], ensures=lambda c: [("paid by every instance", c.ret == paid(c.arg(0), c.arg(1)))])
# was a feature of the same attribute / group tested before?
hit = RecSpec("hit", [AI, AI, I, I], B, lambda br, same, n, f: z3.BoolVal(False), lambda br, same, n, f, k, r: Or(r, Select(same, (Select(br, k) / 2) * n + f) != 0), local=[0], mono=True)


def cs_paid(c, ctx, f):
    cs = c.this.f["cost_specifier"]
    br = ctx.f["branch"].f["branch_codes"]
    n = cs.f["feature_costs"].len
    return If(hit(br.data, cs.f["same_binarized"].data, n, f, br.len), RealVal(0), If(hit(br.data, cs.f["same_group"].data, n, f, br.len), Select(cs.f["discount_costs"].data, f), Select(cs.f["feature_costs"].data, f)))


def cs_ctx(ctx, fi):
    def f(c):
        cs = c.this.f["cost_specifier"]
        br = c.arg(ctx).f["branch"].f["branch_codes"]
        n = cs.f["feature_costs"].len
        k = Int("k!b")
        return [("feature", And(0 <= c.arg(fi), c.arg(fi) < n)), ("costs are known for every feature and pair", And(cs.f["discount_costs"].len == n, br.len >= 0)),
                ("tested features exist", ForAll([k], Implies(And(0 <= k, k < br.len), And(Select(br.data, k) >= 0, Select(br.data, k) / 2 < n, (Select(br.data, k) / 2) * n + c.arg(fi) >= 0,
                                                 (Select(br.data, k) / 2) * n + c.arg(fi) < cs.f["same_group"].len, (Select(br.data, k) / 2) * n + c.arg(fi) < cs.f["same_binarized"].len)), patterns=[Select(br.data, k)]))]
    return f


def inv_hit(L, c):
    cs = c.this.f["cost_specifier"]
    br = c.arg(0).f["branch"].f["branch_codes"]
    for k in L.counters():
        for nm in ("same_binarized", "same_group"):
            # mentions the value at the next position, for the step that returns
            yield "next", lambda s, k=k, nm=nm: Or(hit(br.data, cs.f[nm].data, cs.f["feature_costs"].len, c.arg(1), k(s) + 1), Not(hit(br.data, cs.f[nm].data, cs.f["feature_costs"].len, c.arg(1), k(s) + 1)))
            yield "none before", lambda s, k=k, nm=nm: Not(hit(br.data, cs.f[nm].data, cs.f["feature_costs"].len, c.arg(1), k(s)))


M.add("CostSensitive::GetBranchingCosts", ["P11", "P01"], nparams=2, requires=cs_ctx(0, 1), invariants=[inv_hit],
      ensures=lambda c: [("free after the same attribute, discounted after the same group, else the full cost", c.ret == cs_paid(c, c.arg(0), c.arg(1)))])
for f in ("GetBranchingCosts", "GetTestBranchingCosts"):
    M.add("CostSensitive::" + f, ["P11", "P01", "P03"], nparams=3, requires=lambda c: cs_ctx(1, 2)(c), ensures=lambda c: [("paid by every instance of the node", c.ret == ToReal(c.arg(0).f["size"]) * cs_paid(c, c.arg(1), c.arg(2)))])

# ---- order and arithmetic of values ---------------------------------------------------------------------------------------------------
IEPS = RealVal("0.0001")
M.add("F1Score::Dominates", ["P07"], ensures=lambda c: [("no worse in both", c.ret == And([c.arg(0).f[k] <= c.arg(1).f[k] for k in ("false_negatives", "false_positives")]))])
M.add("F1Score::DominatesInv", ["P07"], ensures=lambda c: [("no better in both", c.ret == And([c.arg(0).f[k] >= c.arg(1).f[k] for k in ("false_negatives", "false_positives")]))])


def fair_dom(c, s=1):
    a, b = (c.arg(0), c.arg(1)) if s == 1 else (c.arg(1), c.arg(0))
    return And(a.f["misclassifications"] <= b.f["misclassifications"], a.f["group0_score"] <= b.f["group0_score"] + IEPS, a.f["group1_score"] <= b.f["group1_score"] + IEPS)


imin, imax = (lambda a, b: If(b < a, b, a)), (lambda a, b: If(a < b, b, a))
fields = dict(F1Score=("false_negatives", "false_positives"), EqOpp=("misclassifications", "group0_score", "group1_score"), GroupFairness=("misclassifications", "group0_score", "group1_score"))
for t in PARTIAL:
    fs = fields[t]
    if t != "F1Score":
        M.add(t + "::Dominates", ["P07", "P10"], ensures=lambda c: [
            ("inside the tree: no worse in misclassifications and both group scores", Implies(And(Not(c.arg(0).f["root_solution"]), Not(c.arg(1).f["root_solution"])), c.ret == fair_dom(c))),
            ("at the root: no worse in misclassifications", Implies(And(c.arg(0).f["root_solution"], c.arg(1).f["root_solution"], c.arg(0).f["misclassifications"] <= c.arg(1).f["misclassifications"]), c.ret)),
            ("never when it misclassifies more", Implies(c.ret, c.arg(0).f["misclassifications"] <= c.arg(1).f["misclassifications"]))])
        M.add(t + "::DominatesInv", ["P07", "P10"], ensures=lambda c: [("no better in all", c.ret == fair_dom(c, -1))])
        M.add(t + "::RelaxRootSolution", ["P07", "P10"], modifies=["arg0"], ensures=lambda c: [("only marks the solution", And(c.post(0).f["solution"].f["root_solution"], eq(c.post(0).f["solution"], c.arg(0).f["solution"]),
             c.post(0).f["feature"] == c.arg(0).f["feature"], c.post(0).f["label"] == c.arg(0).f["label"], c.post(0).f["num_nodes_left"] == c.arg(0).f["num_nodes_left"], c.post(0).f["num_nodes_right"] == c.arg(0).f["num_nodes_right"]))])
    M.add(t + "::Add", ["P03", "P01"], nparams=2, ensures=lambda c, fs=fs: [("component sums", And([c.ret.f[k] == c.arg(0).f[k] + c.arg(1).f[k] for k in fs]))])
    M.add(t + "::TestAdd", ["P03"], ensures=lambda c, fs=fs: [("component sums", And([c.ret.f[k] == c.arg(0).f[k] + c.arg(1).f[k] for k in fs]))])
    M.add(t + "::Add", ["P03", "P01"], nparams=3, modifies=["arg2"], ensures=lambda c, fs=fs: [("component sums", And([c.post(2).f[k] == c.arg(0).f[k] + c.arg(1).f[k] for k in fs]))])
    M.add(t + "::Subtract", ["P09"], modifies=["arg2"], ensures=lambda c, fs=fs: [("component differences, not below zero", And([c.post(2).f[k] == rmax(0 * c.arg(0).f[k], c.arg(0).f[k] - c.arg(1).f[k]) for k in fs]))])
    M.add(t + "::Merge", ["P07"], modifies=["arg2"], ensures=lambda c, fs=fs: [("component minima", And([c.post(2).f[k] == imin(c.arg(0).f[k], c.arg(1).f[k]) for k in fs]))])
    M.add(t + "::MergeInv", ["P07"], modifies=["arg2"], ensures=lambda c, fs=fs: [("component maxima", And([c.post(2).f[k] == imax(c.arg(0).f[k], c.arg(1).f[k]) for k in fs]))])
for sig in ("const int", "const double"):
    M.add("OptimizationTask::Add", ["P03", "P01"], nparams=2, sig="(" + sig, ensures=lambda c: [("sum", c.ret == c.arg(0) + c.arg(1))])
    M.add("OptimizationTask::TestAdd", ["P03"], nparams=2, sig="(" + sig, ensures=lambda c: [("sum", c.ret == c.arg(0) + c.arg(1))])
    M.add("OptimizationTask::Add", ["P03", "P01"], nparams=3, sig="(" + sig, modifies=["arg2"], ensures=lambda c: [("sum", c.post(2) == c.arg(0) + c.arg(1))])
    M.add("OptimizationTask::Subtract", ["P09"], sig="(" + sig, modifies=["arg2"], ensures=lambda c: [("difference, not below zero", c.post(2) == rmax(0 * c.arg(0), c.arg(0) - c.arg(1)))])

# ---- scores ------------------------------------------------------------------------------------------------------------------------------
ratio = lambda k: (lambda c: c.ret * ToReal(c.this.f[k].f["size"]) == ToReal(c.this.f[k].f["size"] - c.arg(0)))
mean = lambda k: (lambda c: c.ret * ToReal(c.this.f[k].f["size"]) == c.arg(0))
some = lambda k: (lambda c: [("there is data", c.this.f[k].f["size"] > 0)])
for t in ("Accuracy", "CostComplexAccuracy", "PrescriptivePolicy"):
    for f, k in (("ComputeTrainScore", "train_summary"), ("ComputeTrainTestScore", "train_summary"), ("ComputeTestTestScore", "test_summary")):
        if f == "ComputeTrainScore" and t != "Accuracy":
            continue
        M.add(t + "::" + f, ["P03", "P13"], requires=some(k), ensures=lambda c, k=k: [("the share of instances that is correct", ratio(k)(c))])
for t in ("Regression", "SurvivalAnalysis"):
    for f, k in (("ComputeTrainScore", "train_summary"), ("ComputeTrainTestScore", "train_summary"), ("ComputeTestTestScore", "test_summary")):
        M.add(t + "::" + f, ["P03", "P13"], requires=some(k), ensures=lambda c, k=k: [("the mean loss", mean(k)(c))])
for f, k in (("ComputeTrainScore", "train_summary"), ("ComputeTrainTestScore", "train_summary"), ("ComputeTestTestScore", "test_summary")):
    def f1(c, k=k):
        tp = c.this.f[k].f["instances_per_class"]
        fn, fp = c.arg(0).f["false_negatives"], c.arg(0).f["false_positives"]
        t_ = Select(tp.data, 1) - fn
        return [("2TP / (2TP + FP + FN)", c.ret * ToReal(2 * t_ + fp + fn) == ToReal(2 * t_))]
    M.add("F1Score::" + f, ["P03", "P13", "P11"], requires=lambda c, k=k: [("two classes", c.this.f[k].f["instances_per_class"].len == 2), ("some positive", 2 * (Select(c.this.f[k].f["instances_per_class"].data, 1) - c.arg(0).f["false_negatives"])
          + c.arg(0).f["false_negatives"] + c.arg(0).f["false_positives"] > 0)], ensures=f1)
    for t in FAIR:
        M.add(t + "::" + f, ["P03", "P10", "P13"], requires=some(k), ensures=lambda c, k=k: [("accuracy when the limit is met", Implies(within(c, c.arg(0), 0), c.ret == ToReal(c.this.f[k].f["size"] - c.arg(0).f["misclassifications"]) / ToReal(c.this.f[k].f["size"]))),
            ("zero when it is exceeded", Implies(Not(within(c, c.arg(0), ROUNDING)), c.ret == 0)),
            ("one of the two", Or(c.ret == 0, c.ret == ToReal(c.this.f[k].f["size"] - c.arg(0).f["misclassifications"]) / ToReal(c.this.f[k].f["size"])))])
for t in ("CostSensitive", "Regression", "CostComplexRegression", "SurvivalAnalysis"):
    M.add(t + "::CompareScore", ["P13"], ensures=lambda c: [("lower is better", c.ret == (c.arg(0) < c.arg(1)))])
M.add("OptimizationTask::CompareScore", ["P13"], ensures=lambda c: [("higher is better", c.ret == (c.arg(0) > c.arg(1)))])
M.add("InstanceCostSensitive::CompareScore", ["P13"], ensures=lambda c: [("lower is better", And(Implies(c.arg(0) < c.arg(1), c.ret), Implies(c.arg(0) > c.arg(1), Not(c.ret))))])
for t in ("OptimizationTask",):
    for k in ("Train", "Test"):
        M.add(t + "::Inform%sData" % k, ["P14", "P03"], modifies=["this.%s_summary" % k.lower()], ensures=lambda c, k=k.lower(): [("keeps the summary of this data", eqv(c.this_post.f[k + "_summary"], c.arg(1)))])
