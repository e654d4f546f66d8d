"""P08: what the depth-two solver reads from its pairwise tables."""
from vcgen.lib import *
from contracts._tasks import *
from contracts.counting import tri, index, M as COUNTING
M = Module("combiner", SOLVER + TASKS)
# callees of Counter are used through the contracts proved in module 'counting'
for c in COUNTING.targets:
    if c.q.startswith("Counter::"):
        M.contracts[(c.q, c.nparams, c.sig, len(M.contracts))] = c

nf = lambda s: s.f["num_features"]
SLR = lambda q: task_of(q) != "SimpleLinearRegression"     # its costs hold a vector: not modelled
pair = lambda c, i, j: And(0 <= c.arg(i), c.arg(i) <= c.arg(j), c.arg(j) < nf(c.this))
sized = lambda s: s.f["data2d"].len == tri(nf(s))
at = lambda s, i, j: sel(s.f["data2d"].data, index(nf(s), i, j))
M.add("CostStorage<*>::NumElements", ["P08"], requires=lambda c: [("sizes", nf(c.this) >= 0)], ensures=lambda c: [("number of unordered pairs", c.ret == tri(nf(c.this)))])
M.add("CostStorage<*>::IndexSymmetricMatrix", ["P08"], requires=lambda c: [("0 <= row <= column < features", pair(c, 0, 1))],
      ensures=lambda c: [("index of the pair", c.ret == index(nf(c.this), c.arg(0), c.arg(1))), ("index in range", And(0 <= c.ret, c.ret < tri(nf(c.this))))])
M.add("CostStorage<*>::GetCosts", ["P08"], nparams=2, requires=lambda c: [("0 <= row <= column < features", pair(c, 0, 1)), ("sized", sized(c.this))],
      ensures=lambda c: [("costs of the pair", eqv(c.ret, at(c.this, c.arg(0), c.arg(1))))])
M.add("CostStorage<*>::GetCosts", ["P08"], nparams=1, requires=lambda c: [("index", And(c.arg(0) >= 0, c.arg(0) < c.this.f["data2d"].len))],
      ensures=lambda c: [("costs at the index", eqv(c.ret, sel(c.this.f["data2d"].data, c.arg(0))))])
M.add("CostStorage<*>::UpdateTotalCosts", ["P08"], instances=SLR, modifies=["this.total_costs"], ensures=lambda c: [("added to the total", eq(c.this_post.f["total_costs"], add(c.this.f["total_costs"], c.arg(0))))])
M.add("CostStorage<*>::UpdateCosts", ["P08"], instances=SLR, nparams=2, modifies=["this.data2d"], requires=lambda c: [("index", And(c.arg(0) >= 0, c.arg(0) < c.this.f["data2d"].len))],
      ensures=lambda c: upd(c, c.arg(0), c.arg(1)))
M.add("CostStorage<*>::UpdateCosts", ["P08"], instances=SLR, nparams=3, modifies=["this.data2d"], requires=lambda c: [("0 <= row <= column < features", pair(c, 0, 1)), ("sized", sized(c.this))],
      ensures=lambda c: upd(c, index(nf(c.this), c.arg(0), c.arg(1)), c.arg(2)))
X0 = Int("x0")


def upd(c, i, v):
    a, b = c.this.f["data2d"], c.this_post.f["data2d"]
    return [("size kept", a.len == b.len), ("added to the entry", eq(sel(b.data, i), add(sel(a.data, i), v))),
            ("other entries are kept", Implies(X0 != i, eqv(sel(b.data, X0), sel(a.data, X0))))]


zero = lambda x: And([y == 0 for y in leaves(x) if y.sort() != BoolSort()])
M.add("CostStorage<*>::ResetToZeros", ["P08", "P14"], instances=SLR, modifies=["this.data2d", "this.total_costs"],
      ensures=lambda c: [("total is zero", zero(c.this_post.f["total_costs"])), ("size kept", c.this_post.f["data2d"].len == c.this.f["data2d"].len),
                         ("all zero", eq_at(X0, c.this.f["data2d"].len, lambda k: zero(sel(c.this_post.f["data2d"].data, k))))])


# ---------------------------------------------------------------- CostCalculator
def tab(s):
    """The pair table of counts, symmetric in its arguments."""
    n = s.f["num_features"]
    return lambda i, j: Select(s.f["counter"].f["counts"].data, If(i <= j, index(n, i, j), index(n, j, i)))


def wf(c):
    s = c.this
    n = s.f["num_features"]
    return [("the tables have one entry per pair", And(n >= 0, s.f["counter"].f["num_features"] == n, s.f["counter"].f["counts"].len == tri(n)))]


def feats(c, *ix):
    return [("features", And([And(0 <= c.arg(i), c.arg(i) < c.this.f["num_features"]) for i in ix]))]


def count(c, i, j, a, b):
    t = tab(c.this)
    total = c.this.f["counter"].f["total_count"]
    return {(1, 1): t(i, j), (1, 0): t(i, i) - t(i, j), (0, 1): t(j, j) - t(i, j), (0, 0): total - t(i, i) - t(j, j) + t(i, j)}[(a, b)]


inst = lambda q: task_of(q) in TERMINAL
for a in (0, 1):
    for b in (0, 1):
        M.add("CostCalculator<*>::GetCount%d%d" % (a, b), ["P08"], instances=inst, requires=lambda c: wf(c) + feats(c, 0, 1),
              ensures=lambda c, a=a, b=b: [("instances with the first feature = %d and the second = %d" % (a, b), c.ret == count(c, c.arg(0), c.arg(1), a, b))])
M.add("CostCalculator<*>::GetCounts", ["P08"], nparams=3, instances=inst, modifies=["arg0"], requires=lambda c: wf(c) + feats(c, 1, 2),
      ensures=lambda c: [("count%d%d" % (a, b), c.post(0).f["count%d%d" % (a, b)] == count(c, c.arg(1), c.arg(2), a, b)) for a in (0, 1) for b in (0, 1)])


def info(c, x):
    n = c.this.f["counter"].f["counts"].len
    return [("indices in range", And([And(0 <= x.f[k], x.f[k] < n) for k in ("ix_f1f1", "ix_f1f2", "ix_f2f2")]))]


def counts_by_index(c):
    a, x, o = c.this.f["counter"].f["counts"].data, c.arg(1), c.post(0)
    f11, f12, f22 = [Select(a, x.f[k]) for k in ("ix_f1f1", "ix_f1f2", "ix_f2f2")]
    lo, hi = f22 - f12, f11 - f12     # second but not first, first but not second (of the ordered pair)
    return [("count11", o.f["count11"] == f12), ("count00", o.f["count00"] == c.this.f["counter"].f["total_count"] - f11 - f22 + f12),
            ("count01", o.f["count01"] == If(x.f["swap"], hi, lo)), ("count10", o.f["count10"] == If(x.f["swap"], lo, hi))]


M.add("CostCalculator<*>::GetCounts", ["P08"], nparams=2, instances=inst, modifies=["arg0"], requires=lambda c: info(c, c.arg(1)), ensures=counts_by_index)


def info_post(c):
    n = c.arg(0)
    i, j = Int("f1!"), Int("f2!")
    x = c.this_post.f["index_infos"]
    e = sel(sel(x.data, i).data, j)
    lo, hi = If(i <= j, i, j), If(i <= j, j, i)
    g = And(0 <= i, i < n, 0 <= j, j < n)
    return [("equal", Implies(g, e.f["equal"] == (i == j))), ("swap", Implies(g, e.f["swap"] == (i > j))),
            ("index of the pair", Implies(g, e.f["ix_f1f2"] == index(n, lo, hi))),
            ("index of the first", Implies(g, e.f["ix_f1f1"] == index(n, lo, lo))), ("index of the second", Implies(g, e.f["ix_f2f2"] == index(n, hi, hi)))]


def inv_info(L, c):
    n = c.arg(0)
    i, j = Int("f1!"), Int("f2!")

    def at(s):
        x = c.eng.get(s, c._this).f["index_infos"]
        return sel(sel(x.data, i).data, j)
    lo, hi = If(i <= j, i, j), If(i <= j, j, i)

    def ok(s):
        e = at(s)
        return And(e.f["equal"] == (i == j), e.f["swap"] == (i > j), e.f["ix_f1f2"] == index(n, lo, hi), e.f["ix_f1f1"] == index(n, lo, lo), e.f["ix_f2f2"] == index(n, hi, hi))
    lens = lambda s: And(c.eng.get(s, c._this).f["index_infos"].len == c.this.f["index_infos"].len, Select(c.eng.get(s, c._this).f["index_infos"].data.len, i) == Select(c.this.f["index_infos"].data.len, i),
                         c.eng.get(s, c._this).f["index_infos"].data.len == c.this.f["index_infos"].data.len)
    yield "lens", lens
    for k in L.counters():
        yield "rows done", lambda s, k=k: Implies(And(0 <= i, i < k(s), 0 <= j, j < n), ok(s))
        for m in L.int_locals():
            yield "row in progress", lambda s, k=k, m=m: Implies(And(i == m(s), 0 <= j, j < k(s)), ok(s))
            yield "rows before", lambda s, m=m: Implies(And(0 <= i, i < m(s), 0 <= j, j < n), ok(s))


def info_pre(c):
    x = c.this.f["index_infos"]
    i = Int("i!r")
    return [("one entry per pair", And(x.len == c.arg(0), c.arg(0) >= 0, ForAll([i], Implies(And(0 <= i, i < x.len), Select(x.data.len, i) == x.len), patterns=[Select(x.data.len, i)])))]


M.add("CostCalculator<*>::InitializeIndexInfos", ["P08"], instances=lambda q: task_of(q) in ("Accuracy", "Regression"), modifies=["this.index_infos"], requires=info_pre, ensures=info_post, invariants=[inv_info])


# ---- costs
def st_at(c, label):
    return sel(c.this.f["cost_storage"].data, label)


def ctab(c, label):
    s = st_at(c, label)
    n = c.this.f["num_features"]
    return lambda i, j: sel(s.f["data2d"].data, If(i <= j, index(n, i, j), index(n, j, i)))


def cwf(c, label):
    s = st_at(c, label)
    n = c.this.f["num_features"]
    return wf(c) + [("label", And(0 <= label, label < c.this.f["cost_storage"].len)),
                    ("the cost tables have one entry per pair", And(s.f["num_features"] == n, s.f["data2d"].len == tri(n)))]


def part(c, label, i, j, a, b):
    t = ctab(c, label)
    total = st_at(c, label).f["total_costs"]
    return {(1, 1): t(i, j), (1, 0): sub(t(i, i), t(i, j)), (0, 1): sub(t(j, j), t(i, j)), (0, 0): sub(sub(add(total, t(i, j)), t(i, i)), t(j, j))}[(a, b)]


def consistent(c, label, i, j):
    """The tables are sums of non-negative costs per instance, so every part is one too."""
    t = ctab(c, label)
    return [("costs of every part are not negative", And([nonneg(part(c, label, i, j, a, b)) for a in (0, 1) for b in (0, 1)] + [nonneg(t(i, j))]))] if task_of(c.d["_q"]) in ("EqOpp", "GroupFairness") else []


for a in (0, 1):
    for b in (0, 1):
        M.add("CostCalculator<*>::GetCosts%d%d" % (a, b), ["P08"], instances=lambda q: inst(q) and SLR(q),
              requires=lambda c: cwf(c, c.arg(0)) + feats(c, 1, 2) + consistent(c, c.arg(0), c.arg(1), c.arg(2)),
              ensures=lambda c, a=a, b=b: [("costs of the instances with the first feature = %d and the second = %d" % (a, b), eq(c.ret, part(c, c.arg(0), c.arg(1), c.arg(2), a, b)))])


def calc_sols(c):
    label, i, j = c.arg(2), c.arg(3), c.arg(4)
    task = task_of(c.d["_q"])
    out = []
    for a in (0, 1):
        for b in (0, 1):
            g = eq(c.post(1).f["sol%d%d" % (a, b)], d2(task, part(c, label, i, j, a, b), c.arg(0).f["count%d%d" % (a, b)]))
            if a != b:
                g = Implies(i != j, g)
            out.append(("value of the leaf with the first feature = %d and the second = %d" % (a, b), g))
    return out


def weights(c, label, i, j):
    if task_of(c.d["_q"]) != "CostComplexRegression":
        return []
    return [("no weight only without instances", And([(part(c, label, i, j, a, b).f["weight"] == 0) == (c.arg(0).f["count%d%d" % (a, b)] == 0) for a in (0, 1) for b in (0, 1)]))]


M.add("CostCalculator<*>::CalcSols", ["P08", "P01"], nparams=5, instances=lambda q: task_of(q) in D2TASKS, modifies=["arg1", "this.temp_costs1", "this.temp_costs2"],
      requires=lambda c: cwf(c, c.arg(2)) + feats(c, 3, 4) + consistent(c, c.arg(2), c.arg(3), c.arg(4)) + weights(c, c.arg(2), c.arg(3), c.arg(4)), ensures=calc_sols)


def ipart(c, label, x):
    s = st_at(c, label)
    f11, f12, f22 = [sel(s.f["data2d"].data, x.f[k]) for k in ("ix_f1f1", "ix_f1f2", "ix_f2f2")]
    return {"11": f12, "00": sub(sub(add(s.f["total_costs"], f12), f11), f22), "hi": sub(f11, f12), "lo": sub(f22, f12)}


def calc_sols_ix(c):
    label, x = c.arg(2), c.arg(3)
    task = task_of(c.d["_q"])
    p = ipart(c, label, x)
    v = lambda k: c.post(1).f["sol" + k]
    n = lambda k: c.arg(0).f["count" + k]
    return [("sol11", eq(v("11"), d2(task, p["11"], n("11")))), ("sol00", eq(v("00"), d2(task, p["00"], n("00")))),
            ("sol01", Implies(Not(x.f["equal"]), And(Implies(x.f["swap"], eq(v("01"), d2(task, p["hi"], n("01")))), Implies(Not(x.f["swap"]), eq(v("01"), d2(task, p["lo"], n("01"))))))),
            ("sol10", Implies(Not(x.f["equal"]), And(Implies(x.f["swap"], eq(v("10"), d2(task, p["lo"], n("10")))), Implies(Not(x.f["swap"]), eq(v("10"), d2(task, p["hi"], n("10")))))))]


def pre_ix(c):
    label, x = c.arg(2), c.arg(3)
    task = task_of(c.d["_q"])
    n = c.this.f["num_features"]
    s = st_at(c, label)
    p = ipart(c, label, x)
    out = [("label", And(0 <= label, label < c.this.f["cost_storage"].len)), ("indices in range", And([And(0 <= x.f[k], x.f[k] < s.f["data2d"].len) for k in ("ix_f1f1", "ix_f1f2", "ix_f2f2")])),
           ("equal features have one index", Implies(x.f["equal"], And(x.f["ix_f1f1"] == x.f["ix_f1f2"], x.f["ix_f2f2"] == x.f["ix_f1f2"], Not(x.f["swap"]))))]
    if task in ("EqOpp", "GroupFairness"):
        out.append(("costs of every part are not negative", And([nonneg(y) for y in p.values()])))
    if task == "CostComplexRegression":
        cn = lambda k: c.arg(0).f["count" + k] == 0
        out.append(("no weight only without instances", And((p["11"].f["weight"] == 0) == cn("11"), (p["00"].f["weight"] == 0) == cn("00"),
                    Implies(Not(x.f["equal"]), And((p["hi"].f["weight"] == 0) == If(x.f["swap"], cn("01"), cn("10")), (p["lo"].f["weight"] == 0) == If(x.f["swap"], cn("10"), cn("01")))))))
    return out


M.add("CostCalculator<*>::CalcSols", ["P08", "P01"], nparams=4, instances=lambda q: task_of(q) in D2TASKS, modifies=["arg1", "this.temp_costs1", "this.temp_costs2"], requires=pre_ix, ensures=calc_sols_ix)
