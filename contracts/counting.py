from vcgen.lib import *
M = Module("counting", ["src/solver/counter.cpp", "src/solver/difference_computer.cpp", "src/model/data.cpp"])


TRI, INDEX = Function("pairs of features", I, I), Function("index of a pair", I, I, I, I)


def tri(n):
    return TRI(n) if OPAQUE[0] else n * (n + 1) / 2


def index(n, i, j):
    """Row-major index of (i, j), i <= j, in the upper triangle of an n x n matrix."""
    if OPAQUE[0]:
        return INDEX(n, i, j)
    return n * i + j - (i * (i + 1)) / 2


nf = lambda s: s.f["num_features"]
M.add("Counter::NumElements", ["P08"], requires=lambda c: [("sizes", nf(c.this) >= 0)], ensures=lambda c: [("number of unordered feature pairs", c.ret == tri(nf(c.this)))])
M.add("Counter::IndexSymmetricMatrix", ["P08"],
      requires=lambda c: [("0 <= row <= column < features", And(0 <= c.arg(0), c.arg(0) <= c.arg(1), c.arg(1) < nf(c.this)))],
      ensures=lambda c: [("index of the pair", c.ret == index(nf(c.this), c.arg(0), c.arg(1))),
                         ("index in range", And(0 <= c.ret, c.ret < tri(nf(c.this))))])
M.add("Counter::ResetToZeros", ["P08", "P14"], requires=lambda c: [("sizes", nf(c.this) >= 0)], modifies=["this.counts", "this.total_count"],
      ensures=lambda c: [("total is zero", c.this_post.f["total_count"] == 0), ("one count per pair", c.this_post.f["counts"].len == tri(nf(c.this))),
                         ("all zero", eq_at(Int("k0"), c.this_post.f["counts"].len, lambda k: c.this_post.f["counts"].data[k] == 0))])
okc = lambda s: s.f["counts"].len == tri(nf(s))
M.add("Counter::GetCount", ["P08"], nparams=2,
      requires=lambda c: [("0 <= row <= column < features", And(0 <= c.arg(0), c.arg(0) <= c.arg(1), c.arg(1) < nf(c.this))), ("sized", okc(c.this))],
      ensures=lambda c: [("count of the pair", c.ret == c.this.f["counts"].data[index(nf(c.this), c.arg(0), c.arg(1))])])
M.add("Counter::UpdateCount", ["P08"], nparams=3, modifies=["this.counts"],
      requires=lambda c: [("0 <= row <= column < features", And(0 <= c.arg(0), c.arg(0) <= c.arg(1), c.arg(1) < nf(c.this))), ("sized", okc(c.this))],
      ensures=lambda c: [("only the count of the pair changes", And(c.this_post.f["counts"].len == c.this.f["counts"].len,
                         c.this_post.f["counts"].data == Store(c.this.f["counts"].data, index(nf(c.this), c.arg(0), c.arg(1)),
                                                               c.this.f["counts"].data[index(nf(c.this), c.arg(0), c.arg(1))] + c.arg(2))))])
M.add("Counter::UpdateTotalCount", ["P08"], modifies=["this.total_count"], ensures=lambda c: [("added", c.this_post.f["total_count"] == c.this.f["total_count"] + c.arg(0))])


def inv_sum(L, c):
    for k in L.changed_ints():
        for v in L.changed_ints():
            yield "v=isum(k)", lambda s, k=k, v=v: v(s) == isum(c.this.f["num_removals"].data, k(s))


M.add("DifferenceMetrics::GetNumRemovals", ["P08", "P09"], invariants=[inv_sum],
      ensures=lambda c: [("sum of the removals of every label", c.ret == isum(c.this.f["num_removals"].data, c.this.f["num_removals"].len))])
