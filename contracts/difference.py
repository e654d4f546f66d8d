"""P08/P09/P06: the difference between two views."""
from vcgen.lib import *
M = Module("difference", ["src/solver/difference_computer.cpp", "src/model/data.cpp"])
AA = ArraySort(I, AI)
L0, K0 = Int("l0"), Int("i0")
G = Const("g0", AR)      # an arbitrary value per identifier of an instance
clamp = lambda x: If(x < 0, RealVal(0), If(x > 1, RealVal(1), x))
# sum over the first n instances of a list of a value between 0 and 1
vsum = RecSpec("vsum", [AI, AI, AR], R, lambda a, id, g: RealVal(0), lambda a, id, g, n, r: r + clamp(Select(g, Select(id, Select(a, n)))), local=[0],
               pairs=[("every instance adds between 0 and 1", lambda a, m, n, x, y: And(x <= y, y <= x + ToReal(n - m)))])


def D(v):
    x = v.f["instances"]
    return x.data.data, x.data.len, x.len


def lens(v):
    l = Int("l!n")
    ln = D(v)[1]
    return forall([l], Select(ln, l) >= 0, Select(ln, l))


def views(c):
    return [("lengths", And(lens(c.arg(0)), lens(c.arg(1)))), ("same labels", And(D(c.arg(0))[2] >= D(c.arg(1))[2], D(c.arg(1))[2] >= 0))]


S = lambda c, v, l, k: vsum(Select(D(v)[0], l), c.heap("AInstance", "id"), G, k)


def inv_metrics(L, c):
    old, new = c.arg(0), c.arg(1)
    ints = [g for _, g in L.ints()]
    idm = c.heap("AInstance", "id")
    for nm, v in L.vecs() + [(nm, (lambda s, g=g: g(s).f["num_removals"])) for nm, g in L.locals().items() if isinstance(g(L.entry), Struct) and "num_removals" in g(L.entry).f]:
        if not (is_z3(v(L.entry).data) and v(L.entry).data.sort() == AI):
            continue
        R0 = lambda s, l, v=v: Select(v(s).data, l)
        bound = lambda s, l, R0=R0: S(c, old, l, Select(D(old)[1], l)) <= S(c, new, l, Select(D(new)[1], l)) + ToReal(R0(s, l))
        yield "size", lambda s, v=v: v(s).len == D(new)[2]
        tot = [g for nm2, g in L.locals().items() if isinstance(g(L.entry), Struct) and "total_difference" in g(L.entry).f]
        for k in L.counters():
            yield "removals so far", lambda s, k=k, bound=bound: Implies(And(0 <= L0, L0 < k(s)), bound(s, L0))
            l = Int("l!r")
            yield "not yet", lambda s, k=k, v=v: ForAll([l], Implies(And(l >= k(s), l < D(new)[2]), Select(v(s).data, l) == 0))
            for T in tot:
                t = lambda s, T=T: T(s).f["total_difference"]
                yield "total", lambda s, t=t: t(s) >= 0
                yield "same so far", lambda s, k=k, t=t: Implies(And(t(s) == 0, 0 <= L0, L0 < k(s)), same_list(c, L0))
        cs = L.counters()
        for T in tot:
            t = lambda s, T=T: T(s).f["total_difference"]
            yield "total in", lambda s, t=t, e=L.entry: t(s) >= t(e)
            for i in cs:
                for o in cs:
                    if i is not o:
                        yield "same position", lambda s, t=t, i=i, o=o: Implies(t(s) == 0, i(s) == o(s))
        for lab in L.int_locals():
            yield "nonneg", lambda s, lab=lab, R0=R0: R0(s, lab(s)) >= 0
            yield "other labels", lambda s, lab=lab, v=v, e=L.entry: v(s).data == Store(v(e).data, lab(s), Select(v(s).data, lab(s)))
            for i in cs:
                for T in tot:
                    t = lambda s, T=T: T(s).f["total_difference"]
                    yield "same prefix", lambda s, t=t, lab=lab, i=i: Implies(And(t(s) == 0, 0 <= K0, K0 < i(s)), Select(idm, Select(Select(D(old)[0], lab(s)), K0)) == Select(idm, Select(Select(D(new)[0], lab(s)), K0)))
                for o in cs:
                    if i is not o:
                        yield "merge", lambda s, lab=lab, i=i, o=o, R0=R0: Implies(lab(s) == L0, S(c, old, L0, o(s)) <= S(c, new, L0, i(s)) + ToReal(R0(s, L0)))


def same_list(c, l):
    idm = c.heap("AInstance", "id")
    old, new = c.arg(0), c.arg(1)
    return And(Select(D(old)[1], l) == Select(D(new)[1], l),
               Implies(And(0 <= K0, K0 < Select(D(new)[1], l)), Select(idm, Select(Select(D(old)[0], l), K0)) == Select(idm, Select(Select(D(new)[0], l), K0))))


def metrics_post(c):
    old, new = c.arg(0), c.arg(1)
    inl = And(0 <= L0, L0 < D(new)[2])
    rem = c.ret.f["num_removals"]
    return [("one count per label", rem.len == D(new)[2]),
            ("at most the removals are lost: for values between 0 and 1, sum(old) <= sum(new) + removals", Implies(inl, S(c, old, L0, Select(D(old)[1], L0)) <= S(c, new, L0, Select(D(new)[1], L0)) + ToReal(Select(rem.data, L0)))),
            ("no difference only for the same instances", Implies(And(inl, c.ret.f["total_difference"] == 0), same_list(c, L0)))]


M.add("BinaryDataDifferenceComputer::ComputeDifferenceMetrics", ["P09", "P06", "P08"], requires=lambda c: views(c), invariants=[inv_metrics], ensures=metrics_post, opts=dict(cost=9))

# sum over the first n instances of a list of any value
wsum = RecSpec("wsum", [AI, AI, AR], R, lambda a, id, g: RealVal(0), lambda a, id, g, n, r: r + Select(g, Select(id, Select(a, n))), local=[0], cases=True)
tlen = RecSpec("dlen", [AI], I, lambda ln: IntVal(0), lambda ln, n, r: r + Select(ln, n), local=[0], additive=[0])
# the same over the first n labels
AAI = ArraySort(I, AI)
tsum = RecSpec("tsum", [AAI, AI, AI, AR], R, lambda aa, ln, id, g: RealVal(0), lambda aa, ln, id, g, n, r: r + wsum(Select(aa, n), id, g, Select(ln, n)), local=[0, 1], cases=True)
VALID = Function("is an instance with label", I, I, B)
TS = lambda c, v, k, g=G: tsum(D(v)[0], D(v)[1], c.heap("AInstance", "id"), g, k)


def valid(v):
    """Every instance of the view is listed under its label."""
    l, i = Int("l!v"), Int("i!v")
    a, ln, n = D(v)
    return forall([l, i], Implies(And(0 <= l, l < n, 0 <= i, i < Select(ln, l)), VALID(Select(Select(a, l), i), l)), Select(Select(a, l), i))


W = lambda c, v, l, k: wsum(Select(D(v)[0], l), c.heap("AInstance", "id"), G, k)
WL = lambda c, v, l: W(c, v, l, Select(D(v)[1], l))


def inv_diff(L, c):
    old, new = c.arg(0), c.arg(1)
    add = lambda s: c.eng.get(s, c._args[2])
    rem = lambda s: c.eng.get(s, c._args[3])
    for v in (add, rem):
        yield "labels", lambda s, v=v: D(v(s))[2] == D(new)[2]
        yield "length", lambda s, v=v: lens(v(s))
        yield "size", lambda s, v=v: v(s).f["size"] == tlen(D(v(s))[1], D(new)[2])
        yield "labels of the instances", lambda s, v=v: valid(v(s))
    if not L.outer():
        for k in L.guards():
            yield "total", lambda s, k=k: TS(c, add(s), k(s)) - TS(c, rem(s), k(s)) == TS(c, new, k(s)) - TS(c, old, k(s))
            yield "total size", lambda s, k=k: tlen(D(add(s))[1], k(s)) - tlen(D(rem(s))[1], k(s)) == tlen(D(new)[1], k(s)) - tlen(D(old)[1], k(s))
            yield "outer done", lambda s, k=k: Implies(And(0 <= L0, L0 < k(s)), WL(c, add(s), L0) - WL(c, rem(s), L0) == WL(c, new, L0) - WL(c, old, L0))
            for v in (add, rem):
                yield "outer empty", lambda s, k=k, v=v: none_from(v(s), k(s))
    fx, cs = L.fixed_ints(), L.counters()
    for lab in L.outer():
        for v in (add, rem):
            yield "in others", lambda s, lab=lab, v=v, e=L.entry: And([D(v(s))[t] == Store(D(v(e))[t], lab(s), Select(D(v(s))[t], lab(s))) for t in (0, 1)])
            yield "in before", lambda s, lab=lab, v=v, e=L.entry: TS(c, v(s), lab(s)) == TS(c, v(e), lab(s))
            yield "in before", lambda s, lab=lab, v=v, e=L.entry: tlen(D(v(s))[1], lab(s)) == tlen(D(v(e))[1], lab(s))
        for i, o in [(i, o) for i in cs for o in cs + fx if i is not o] + [(i, o) for i in fx for o in cs]:
            yield "merge", lambda s, lab=lab, i=i, o=o: WL(c, add(s), lab(s)) - WL(c, rem(s), lab(s)) == W(c, new, lab(s), i(s)) - W(c, old, lab(s), o(s))
            yield "merged number", lambda s, lab=lab, i=i, o=o: Select(D(add(s))[1], lab(s)) - Select(D(rem(s))[1], lab(s)) == i(s) - o(s)


def fresh_views(c):
    return And([And(D(c.arg(i))[2] == D(c.arg(1))[2], c.arg(i).f["size"] == 0, tlen(D(c.arg(i))[1], D(c.arg(i))[2]) == 0, none_from(c.arg(i), IntVal(0)), lens(c.arg(i))) for i in (2, 3)])


def none_from(v, k):
    """No instances for labels from k on."""
    l = Int("l!e")
    return forall([l], Implies(And(l >= k, l < D(v)[2]), Select(D(v)[1], l) == 0), Select(D(v)[1], l))


inl = lambda c: And(0 <= L0, L0 < D(c.arg(1))[2])
diff_req = lambda c: views(c) + [("the outputs are empty", fresh_views(c)), ("instances are listed under their label", And(valid(c.arg(0)), valid(c.arg(1))))]


def diff_post(c, g=G):
    n = D(c.arg(1))[2]
    return [("sum(new) = sum(old) + sum(added) - sum(removed), for any value of the instances, over all labels", TS(c, c.arg(1), n, g) == TS(c, c.arg(0), n, g) + TS(c, c.post(2), n, g) - TS(c, c.post(3), n, g)),
            ("the numbers of instances add up", tlen(D(c.arg(1))[1], n) == tlen(D(c.arg(0))[1], n) + tlen(D(c.post(2))[1], n) - tlen(D(c.post(3))[1], n)),
            ("the sizes are those of the lists", And([And(D(c.post(i))[2] == n, c.post(i).f["size"] == tlen(D(c.post(i))[1], n), lens(c.post(i)), valid(c.post(i))) for i in (2, 3)]))]


M.add("BinaryDataDifferenceComputer::ComputeDifference", ["P08"], modifies=["arg2", "arg3"], requires=diff_req, invariants=[inv_diff],
      ensures=lambda c: [("sum(new) = sum(old) + sum(added) - sum(removed), for any value of the instances, for every label",
                          Implies(inl(c), WL(c, c.arg(1), L0) == WL(c, c.arg(0), L0) + WL(c, c.post(2), L0) - WL(c, c.post(3), L0)))] + diff_post(c), opts=dict(cost=9))


def inv_reset(L, c):
    me = lambda s: c.eng.get(s, c._this)
    n = D(c.arg(0))[2]
    yield "labels", lambda s: D(me(s))[2] == n
    yield "weights", lambda s: me(s).f["instance_weights"].len == n
    yield "lengths", lambda s: lens(me(s))
    for k in L.guards():
        yield "cleared", lambda s, k=k: cleared_to(me(s), k(s))
        yield "sum", lambda s, k=k: tlen(D(me(s))[1], k(s)) == 0


def cleared_to(v, k):
    l = Int("l!c")
    return forall([l], Implies(And(0 <= l, l < k), Select(D(v)[1], l) == 0), Select(D(v)[1], l))


def emptied(v, n):
    return And(D(v)[2] == n, v.f["size"] == 0, tlen(D(v)[1], n) == 0, none_from(v, IntVal(0)), lens(v))


M.add("ADataView::ResetReserve", ["P08", "P14"], modifies=["this.instances", "this.instance_weights", "this.size", "this.data", "this.bitset_view"], requires=lambda c: [("lengths", And(lens(c.this), lens(c.arg(0)), D(c.arg(0))[2] >= 0))],
      invariants=[inv_reset], ensures=lambda c: [("no instances are left", emptied(c.this_post, D(c.arg(0))[2])), ("same data", c.this_post.f["data"] == c.arg(0).f["data"])])
