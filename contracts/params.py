"""P12: parameters are validated when they are set, and read back as they were set."""
from vcgen.lib import *
M = Module("params", ["src/utils/parameter_handler.cpp"])
from fractions import Fraction
EPS = RealVal(str(Fraction(1e-6)))
K1, K2 = Int("key1"), Int("key2")     # arbitrary other names


def table(s, kind):
    return s.f["parameters_%s_" % kind]


def entry(s, kind, name):
    return sel(table(s, kind).val, name)


defined = lambda s, kind, name: Select(table(s, kind).has, name)


def allowed(c, kind, name, v):
    e = entry(c.this, kind, name)
    if kind in ("integer", "float"):
        return And(e.f["min_value"] <= v, v <= e.f["max_value"])
    if kind == "string":
        i = Int("i!a")
        a = e.f["allowed_values"]
        return Or(And(e.f["optional"], v == c.eng.strlit('""')), a.len == 0, Exists([i], And(0 <= i, i < a.len, Select(a.data, i) == v)))
    return BoolVal(True)


def valid(c, kind, name, v):
    return And(defined(c.this, kind, name), allowed(c, kind, name, v))


def wf(c, kind):
    return [("list of values", entry(c.this, kind, c.arg(0)).f["allowed_values"].len >= 0)] if kind == "string" else []


def same_table(a, b, but=None):
    """the same names with the same values"""
    return And([Implies(BoolVal(True) if but is None else k != but, And(Select(a.has, k) == Select(b.has, k), eqv(sel(a.val, k), sel(b.val, k)))) for k in (K1, K2)])


def kept(c, *but):
    return [("the %s parameters are kept" % k, same_table(table(c.this, k), table(c.this_post, k))) for k in ("string", "integer", "boolean", "float") if k not in but]


for kind, nm in (("string", "String"), ("integer", "Integer"), ("boolean", "Boolean"), ("float", "Float")):
    M.add("ParameterHandler::Get%sParameter" % nm, ["P12"], aborts=lambda c, kind=kind: Not(defined(c.this, kind, c.arg(0))),
          ensures=lambda c, kind=kind: [("the parameter exists", defined(c.this, kind, c.arg(0))), ("the current value", c.ret == entry(c.this, kind, c.arg(0)).f["current_value"])])
    M.add("ParameterHandler::Check%sParameter" % nm, ["P12"], modifies=["this.parameters_%s_" % kind], requires=lambda c, kind=kind: wf(c, kind), aborts=lambda c, kind=kind: Not(valid(c, kind, c.arg(0), c.arg(1))),
          ensures=lambda c, kind=kind: [("an unknown name or a value outside the range does not return", valid(c, kind, c.arg(0), c.arg(1))), ("nothing changes", eqv(table(c.this, kind), table(c.this_post, kind)))])
    M.add("ParameterHandler::Set%sParameter" % nm, ["P12"], modifies=["this.parameters_%s_" % kind], requires=lambda c, kind=kind: wf(c, kind), aborts=lambda c, kind=kind: Not(valid(c, kind, c.arg(0), c.arg(1))),
          ensures=lambda c, kind=kind: [("an unknown name or a value outside the range is refused", valid(c, kind, c.arg(0), c.arg(1))),
                                        ("the value is stored", entry(c.this_post, kind, c.arg(0)).f["current_value"] == c.arg(1)),
                                        ("still defined", defined(c.this_post, kind, c.arg(0)))] +
                                       [("the rest of the entry is kept", And([eqv(entry(c.this, kind, c.arg(0)).f[f], entry(c.this_post, kind, c.arg(0)).f[f]) for f in entry(c.this, kind, c.arg(0)).f if f != "current_value"])),
                                        ("other names are kept", same_table(table(c.this, kind), table(c.this_post, kind), c.arg(0)))])


def limits(c):
    e = lambda kind, n: entry(c.this, kind, c.eng.strlit('"%s"' % n)).f["current_value"]
    full = Pow2Spec(e("integer", "max-depth")) - 1
    n = e("integer", "max-num-nodes")
    return And([defined(c.this, "integer", c.eng.strlit('"%s"' % x)) for x in ("max-depth", "max-num-nodes")] + [defined(c.this, "float", c.eng.strlit('"cost-complexity"')), n <= full, Or(n == full, e("float", "cost-complexity") < EPS)])


M.add("ParameterHandler::CheckParameters", ["P12"], requires=lambda c: [("depth", entry(c.this, "integer", c.eng.strlit('"max-depth"')).f["current_value"] >= 0), ("depth below the width of an integer", entry(c.this, "integer", c.eng.strlit('"max-depth"')).f["current_value"] < 31)] + [("all parameters are defined", And([defined(c.this, k, c.eng.strlit('"%s"' % x)) for k, x in (("integer", "max-depth"), ("integer", "max-num-nodes"), ("float", "cost-complexity"))]))],
      aborts=lambda c: Not(limits(c)), ensures=lambda c: [("contradictory limits do not return", limits(c))])


# ---------------------------------------------------------------- definitions
def defines(kind, ix):
    """ix: positions of the default value and of the bounds"""
    def f(c):
        e = entry(c.this_post, kind, c.arg(0))
        out = [("defined", defined(c.this_post, kind, c.arg(0))), ("starts at its default", And(e.f["current_value"] == c.arg(2), e.f["default_value"] == c.arg(2))),
               ("was not defined before", Not(defined(c.this, kind, c.arg(0)))), ("other names are kept", same_table(table(c.this, kind), table(c.this_post, kind), c.arg(0)))]
        for fld, i in ix.items():
            out.append((fld, eqv(e.f[fld], c.arg(i))))
        return out
    return f


for kind, nm, ix in (("string", "String", dict(allowed_values=4, optional=5)), ("integer", "Integer", dict(min_value=4, max_value=5)), ("float", "Float", dict(min_value=4, max_value=5)), ("boolean", "Boolean", {})):
    M.add("ParameterHandler::Define%sParameter" % nm, ["P12"], modifies=["this.parameters_%s_" % kind, "this.categories_"], aborts=lambda c: BoolVal(True), ensures=defines(kind, ix))
