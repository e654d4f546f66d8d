"""Symbolic values: immutable trees whose leaves are z3 terms."""
import z3


class Unsupported(Exception):
    pass


class Struct:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "%s%r" % (self.name, self.f)


class Vec:
    __slots__ = ("len", "data", "et")

    def __init__(self, ln, data, et):
        self.len, self.data, self.et = ln, data, et

    def __repr__(self):
        return "Vec(%s,%s)" % (self.len, self.data)


class MapV:
    """A finite map: has[k], val[k]."""
    __slots__ = ("has", "val", "kt", "vt")

    def __init__(self, has, val, kt, vt):
        self.has, self.val, self.kt, self.vt = has, val, kt, vt


class LV:
    """An lvalue: a root of the state and a path of steps ('f',name) ('i',index) ('k',key) ('h',address)."""
    __slots__ = ("root", "steps")

    def __init__(self, root, steps=()):
        self.root, self.steps = root, tuple(steps)

    def __add__(self, step):
        return LV(self.root, self.steps + (step,))

    def __repr__(self):
        return "LV(%s,%s)" % (self.root, self.steps)


def same_lv(a, b):
    if a.root != b.root or len(a.steps) != len(b.steps):
        return False
    for (k1, v1), (k2, v2) in zip(a.steps, b.steps):
        if k1 != k2:
            return False
        if k1 == "f":
            if v1 != v2:
                return False
        elif not v1.eq(v2):
            return False
    return True


class PtrV:
    """Pointer to (alternatives of) lvalues: [(guard, LV)]."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class IterV:
    """Iterator into a vector lvalue (idx) or map lvalue (key; end iff not has)."""
    __slots__ = ("lv", "idx", "kind")

    def __init__(self, lv, idx, kind="vec"):
        self.lv, self.idx, self.kind = lv, idx, kind


class LamV:
    __slots__ = ("node", "env")

    def __init__(self, node, env):
        self.node, self.env = node, env


class Opaque:
    """A value the engine does not look into (streams, random engines, clocks)."""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def tmap(f, v, *ws):
    """Applies f to corresponding leaves."""
    if is_z3(v):
        return f(v, *ws)
    if isinstance(v, Struct):
        return Struct(v.name, {k: tmap(f, x, *[w.f[k] for w in ws]) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(tmap(f, v.len, *[w.len for w in ws]), tmap(f, v.data, *[w.data for w in ws]), v.et)
    if isinstance(v, MapV):
        return MapV(tmap(f, v.has, *[w.has for w in ws]), tmap(f, v.val, *[w.val for w in ws]), v.kt, v.vt)
    if isinstance(v, Opaque):
        return v
    raise Unsupported("value without leaves: %r" % (v,))


def leaves(v, out=None):
    if out is None:
        out = []
    if is_z3(v):
        out.append(v)
    elif isinstance(v, Struct):
        for x in v.f.values():
            leaves(x, out)
    elif isinstance(v, Vec):
        leaves(v.len, out)
        leaves(v.data, out)
    elif isinstance(v, MapV):
        leaves(v.has, out)
        leaves(v.val, out)
    return out


def lift(v, dom):
    return tmap(lambda x: z3.K(dom, x), v)


def sel(v, i):
    return tmap(lambda a: z3.Select(a, i), v)


def sto(v, i, x):
    return tmap(lambda a, y: z3.Store(a, i, y), v, x)


def merge(c, a, b):
    """ite over values; raises Unsupported when shapes differ."""
    if a is b:
        return a
    if is_z3(a) and is_z3(b):
        if a.eq(b):
            return a
        a, b = coerce(a, b)
        return z3.If(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        return Struct(a.name, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(merge(c, a.len, b.len), merge(c, a.data, b.data), a.et)
    if isinstance(a, MapV) and isinstance(b, MapV):
        return MapV(merge(c, a.has, b.has), merge(c, a.val, b.val), a.kt, a.vt)
    if isinstance(a, IterV) and isinstance(b, IterV) and same_lv(a.lv, b.lv) and a.kind == b.kind:
        return IterV(a.lv, merge(c, a.idx, b.idx), a.kind)
    if isinstance(a, LV) and isinstance(b, LV):
        if same_lv(a, b):
            return a
        if a.root == b.root and len(a.steps) == len(b.steps) and all(x[0] == y[0] and (x[0] != "f" or x[1] == y[1]) for x, y in zip(a.steps, b.steps)):
            return LV(a.root, [(x[0], x[1] if x[0] == "f" else merge(c, x[1], y[1])) for x, y in zip(a.steps, b.steps)])
        return PtrV([(c, a), (z3.Not(c), b)])
    if isinstance(a, (PtrV, LV)) and isinstance(b, (PtrV, LV)):
        aa = a.alts if isinstance(a, PtrV) else [(z3.BoolVal(True), a)]
        bb = b.alts if isinstance(b, PtrV) else [(z3.BoolVal(True), b)]
        return PtrV([(z3.And(c, g), l) for g, l in aa] + [(z3.And(z3.Not(c), g), l) for g, l in bb])
    if isinstance(a, LamV) and isinstance(b, LamV) and a.node is b.node:
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a
    raise Unsupported("cannot merge %s and %s" % (type(a).__name__, type(b).__name__))


def coerce(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == z3.IntSort() and b.sort() == z3.RealSort():
        return z3.ToReal(a), b
    if a.sort() == z3.RealSort() and b.sort() == z3.IntSort():
        return a, z3.ToReal(b)
    if a.sort() == z3.BoolSort() and b.sort() == z3.IntSort():
        return z3.If(a, z3.IntVal(1), z3.IntVal(0)), b
    if a.sort() == z3.IntSort() and b.sort() == z3.BoolSort():
        return a, z3.If(b, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("sorts %s and %s" % (a.sort(), b.sort()))


def eqv(a, b):
    """Structural equality of two values as a Bool."""
    if is_z3(a):
        a, b = coerce(a, b)
        return a == b
    if isinstance(a, Struct):
        return z3.And([eqv(a.f[k], b.f[k]) for k in a.f] or [z3.BoolVal(True)])
    if isinstance(a, Vec):
        return z3.And(eqv(a.len, b.len), eqv(a.data, b.data))
    if isinstance(a, MapV):
        return z3.And(eqv(a.has, b.has), eqv(a.val, b.val))
    if isinstance(a, Opaque):
        return z3.BoolVal(True)
    if isinstance(a, LV) and isinstance(b, LV) and same_lv(a, b):
        return z3.BoolVal(True)
    raise Unsupported("equality of %s" % type(a).__name__)


def veceq(a, b):
    """Extensional equality of two scalar vectors (elements below the length)."""
    i = z3.Int("!q")
    return z3.And(a.len == b.len, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.len), eqv(sel(a.data, i), sel(b.data, i)))))


def read(v, steps):
    for k, x in steps:
        if k == "f":
            if not isinstance(v, Struct):
                raise Unsupported("field %s of %s" % (x, type(v).__name__))
            if x not in v.f:
                raise Unsupported("no field %s in %s" % (x, v.name))
            v = v.f[x]
        elif k == "i":
            if not isinstance(v, Vec):
                raise Unsupported("index into %s" % type(v).__name__)
            v = sel(v.data, x)
        elif k == "k":
            v = sel(v.val, x)
        elif k == "h":
            v = sel(v, x)
    return v


def write(v, steps, new):
    if not steps:
        if is_z3(v) and is_z3(new) and v.sort() != new.sort():
            if v.sort() == z3.RealSort() and new.sort() == z3.IntSort():
                return z3.ToReal(new)
            if v.sort() == z3.IntSort() and new.sort() == z3.BoolSort():
                return z3.If(new, z3.IntVal(1), z3.IntVal(0))
            raise Unsupported("store of %s into %s" % (new.sort(), v.sort()))
        return new
    (k, x), rest = steps[0], steps[1:]
    if k == "f":
        d = dict(v.f)
        d[x] = write(v.f[x], rest, new)
        return Struct(v.name, d)
    if k == "i":
        return Vec(v.len, sto(v.data, x, write(sel(v.data, x), rest, new)), v.et)
    if k == "k":
        if rest:
            return MapV(v.has, sto(v.val, x, write(sel(v.val, x), rest, new)), v.kt, v.vt)
        return MapV(z3.Store(v.has, x, z3.BoolVal(True)), sto(v.val, x, new), v.kt, v.vt)
    if k == "h":
        return sto(v, x, write(sel(v, x), rest, new))
