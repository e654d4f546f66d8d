"""P05: splitting a view is an exact, order-preserving partition."""
from vcgen.lib import *
M = Module("partition", ["src/model/data.cpp", "src/model/feature_vector.cpp", "src/solver/data_splitter.cpp"])

AA = ArraySort(I, AI)
ABB = ArraySort(I, AB)
# pres(block, ptr-of-instance, instance): value of the feature; 'fp' maps an instance to the block that holds its feature values
# cnt(instances of one label, fp, blocks, feature, wanted; n): how many of the first n instances have the feature value 'wanted'
cnt = RecSpec("cnt", [AI, AI, ABB, I, B], I, lambda a, fp, bl, f, w: IntVal(0),
              lambda a, fp, bl, f, w, n, r: r + If(Select(Select(bl, Select(fp, Select(a, n))), f) == w, IntVal(1), IntVal(0)), local=[0])
# total(instances per label, lengths, fp, blocks, feature, wanted; number of labels)
total = RecSpec("total", [AA, AI, AI, ABB, I, B], I, lambda a, ln, fp, bl, f, w: IntVal(0),
                lambda a, ln, fp, bl, f, w, n, r: r + cnt(Select(a, n), fp, bl, f, w, Select(ln, n)))
tlen = RecSpec("tlen", [AI], I, lambda ln: IntVal(0), lambda ln, n, r: r + Select(ln, n), local=[0])

L0, K0 = Int("l0"), Int("i0")     # arbitrary label and position


def D(c, v):
    """instances, lengths, number of labels of a view"""
    x = v.f["instances"]
    return x.data.data, x.data.len, x.len


def fp(c):
    return c.heap("AInstance", "features").f["is_feature_present_"]


def blocks(c):
    return c.eng.block_root(c._pre, ("bool",))


def wf_features(c, v, feature):
    """every instance of the view has a value for the feature"""
    a, ln, n = D(c, v)
    l, i = Int("l!w"), Int("i!w")
    return ForAll([l, i], Implies(And(0 <= l, l < n, 0 <= i, i < Select(ln, l)), Select(blocks(c).len, Select(fp(c), Select(Select(a, l), i))) > feature),
                  patterns=[Select(Select(a, l), i)])


def wf_lens(v):
    l = Int("l!n")
    ln = v.f["instances"].data.len
    return ForAll([l], Select(ln, l) >= 0, patterns=[Select(ln, l)])


def split_post(c, this, left, right, feature):
    a, ln, n = D(c, this)
    bl = blocks(c).data
    out = []
    for side, v, want in (("left", left, False), ("right", right, True)):
        x, xl, xn = D(c, v)
        w = z3.BoolVal(want)
        C = lambda l, k: cnt(Select(a, l), fp(c), bl, feature, w, k)
        inl = And(0 <= L0, L0 < n)
        p0 = Select(Select(bl, Select(fp(c), Select(Select(a, L0), K0))), feature)
        out += [("%s has the same labels" % side, xn == n),
                ("%s has exactly the instances of its side (number per label)" % side, Implies(inl, Select(xl, L0) == C(L0, Select(ln, L0)))),
                ("every instance is found on its side, in order (%s)" % side,
                 Implies(And(inl, 0 <= K0, K0 < Select(ln, L0), p0 == w), Select(Select(x, L0), C(L0, K0)) == Select(Select(a, L0), K0))),
                ("size of %s is the number of its instances" % side, v.f["size"] == total(a, ln, fp(c), bl, feature, w, n)),
                ("%s refers to the same data" % side, v.f["data"] == this.f["data"])]
    return out


def inv_split(L, c):
    a, ln, n = D(c, c.this)
    bl = blocks(c).data
    ints = L.counters()
    allints = L.int_locals()
    argl = [(1, False), (2, True)]
    for i, want in argl:
        w = z3.BoolVal(want)
        C = lambda l, k, w=w: cnt(Select(a, l), fp(c), bl, c.arg(0), w, k)
        v = lambda s, i=i: c.eng.get(s, c._args[i])
        p0 = Select(Select(bl, Select(fp(c), Select(Select(a, L0), K0))), c.arg(0)) == w
        done = lambda s, v=v, C=C, p0=p0: And(Select(D(c, v(s))[1], L0) == C(L0, Select(ln, L0)),
                                              Implies(And(0 <= K0, K0 < Select(ln, L0), p0), Select(Select(D(c, v(s))[0], L0), C(L0, K0)) == Select(Select(a, L0), K0)))
        yield "labels", lambda s, v=v: D(c, v(s))[2] == n
        yield "data", lambda s, v=v: v(s).f["data"] == c.this.f["data"]
        for k in ints:
            yield "outer done", lambda s, k=k, done=done: Implies(And(0 <= L0, L0 < k(s), L0 < n), done(s))
            yield "outer empty", lambda s, k=k, v=v: ForAll([Int("l!e")], Implies(And(Int("l!e") >= k(s), Int("l!e") < n), Select(D(c, v(s))[1], Int("l!e")) == 0))
            yield "outer size", lambda s, k=k, v=v, w=w: v(s).f["size"] == total(a, ln, fp(c), bl, c.arg(0), w, k(s))
            for lab in allints:
                # inner loop: position k within label lab
                yield "in cnt", lambda s, k=k, lab=lab, v=v, C=C: Select(D(c, v(s))[1], lab(s)) == C(lab(s), k(s))
                yield "in elem", lambda s, k=k, lab=lab, v=v, C=C, p0=p0: Implies(And(L0 == lab(s), 0 <= K0, K0 < k(s), p0),
                    And(C(L0, K0) < Select(D(c, v(s))[1], L0), C(L0, K0) >= 0, Select(Select(D(c, v(s))[0], L0), C(L0, K0)) == Select(Select(a, L0), K0)))
                yield "in others", lambda s, lab=lab, v=v, e=L.entry: And([D(c, v(s))[t] == Store(D(c, v(e))[t], lab(s), Select(D(c, v(s))[t], lab(s))) for t in (0, 1)])
        yield "pos", lambda s, C=C: Implies(And(L0 >= 0, L0 < n), C(L0, K0) >= 0)


empty = lambda v: v.f["instances"].len == 0
M.add("ADataView::SplitData", ["P05", "P01"], invariants=[inv_split], modifies=["arg1", "arg2"],
      requires=lambda c: [("the outputs are fresh views", And(empty(c.arg(1)), empty(c.arg(2)))), ("feature", c.arg(0) >= 0),
                          ("instances have the feature", wf_features(c, c.this, c.arg(0))), ("lengths", wf_lens(c.this))],
      ensures=lambda c: split_post(c, c.this, c.post(1), c.post(2), c.arg(0)))

M.add("ADataView::AddInstance", ["P05", "P08"], modifies=["this.instances", "this.size", "this.bitset_view"],
      requires=lambda c: [("label", And(0 <= c.arg(0), c.arg(0) < c.this.f["instances"].len)), ("lengths", wf_lens(c.this))],
      ensures=lambda c: add_post(c))


def add_post(c):
    a, ln, n = D(c, c.this)
    x, xl, xn = D(c, c.this_post)
    return [("one instance is appended to its label", And(xn == n, xl == Store(ln, c.arg(0), Select(ln, c.arg(0)) + 1),
             x == Store(a, c.arg(0), Store(Select(a, c.arg(0)), Select(ln, c.arg(0)), c.arg(1))))),
            ("a bit set made for the old contents is not kept", And(c.this_post.f["bitset_view"].f["size"] == 0,
             Implies(c.this.f["bitset_view"].f["size"] > 0, c.this_post.f["bitset_view"].f["hash"] == -1))),
            ("the size grows by one", c.this_post.f["size"] == c.this.f["size"] + 1)]


def inv_size(L, c):
    for k in L.changed_ints():
        for v in L.changed_ints():
            yield "size", lambda s, k=k, v=v: v(s) == tlen(c.this.f["instances"].data.len, k(s))


M.add("ADataView::ComputeSize", ["P05"], modifies=["this.size"], invariants=[inv_size], requires=lambda c: [("lengths", wf_lens(c.this))],
      ensures=lambda c: [("the size is the number of instances", c.this_post.f["size"] == tlen(c.this.f["instances"].data.len, c.this.f["instances"].len))])
