"""Symbolic execution of functions of /repo against contracts; every proof obligation goes to an SMT solver."""
import re as _re
import time
import z3
from .cxxast import params, body, norm
from .values import *
from .types import Types

I0, I1, TRUE, FALSE = z3.IntVal(0), z3.IntVal(1), z3.BoolVal(True), z3.BoolVal(False)
MAXDEPTH = 24


class Aborted(Exception):
    """The current path cannot continue."""


class State:
    __slots__ = ("env", "pc", "taint")

    def __init__(self, env=None, pc=None, taint=False):
        self.env, self.pc, self.taint = env if env is not None else {}, pc if pc is not None else [], taint

    def copy(self):
        return State(dict(self.env), list(self.pc), self.taint)

    def become(self, o):
        self.env, self.pc, self.taint = o.env, o.pc, o.taint


class Frame:
    __slots__ = ("no", "this", "rec", "fn", "vars", "names")

    def __init__(self, no, this, rec, fn):
        self.no, self.this, self.rec, self.fn, self.vars, self.names = no, this, rec, fn, {}, {}


def consts_of(es):
    """The uninterpreted constants in the given terms."""
    out, todo, seen = [], list(es), set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        todo += e.children()
    return out


def array_cases(a, limit=6):
    """The stored arrays a term can stand for: [(condition, array)], resolving conditionals and selections from nested arrays."""
    if not z3.is_app(a):
        return [(z3.BoolVal(True), a)]
    k = a.decl().kind()
    out = None
    if k == z3.Z3_OP_ITE:
        out = [(a.arg(0), a.arg(1)), (z3.Not(a.arg(0)), a.arg(2))]
    elif k == z3.Z3_OP_SELECT and z3.is_app(a.arg(0)):
        m, j = a.arg(0), a.arg(1)
        if m.decl().kind() == z3.Z3_OP_STORE:
            out = [(m.arg(1) == j, m.arg(2)), (m.arg(1) != j, z3.Select(m.arg(0), j))]
        elif m.decl().kind() == z3.Z3_OP_ITE:
            out = [(m.arg(0), z3.Select(m.arg(1), j)), (z3.Not(m.arg(0)), z3.Select(m.arg(2), j))]
    if out is None or limit <= 0:
        return [(z3.BoolVal(True), a)]
    return [(z3.And(g, h), y) for g, x in out for h, y in array_cases(x, limit - 2)]


class RecSpec:
    """A recursively defined specification function: f(args..., n) = base(args) for n <= 0, step(args, n - 1, f(args, n - 1)) otherwise."""
    registry = {}

    def __init__(self, name, arg_sorts, res_sort, base, step, local=(), mono=False, pairs=(), additive=(), cases=False, odd=None):
        self.odd = odd      # argument whose sign changes the sign of the value (and of which zero gives zero)
        self.name, self.base, self.step, self.local, self.mono = name, base, step, tuple(local), mono
        self.pairs = list(pairs)      # (name, f(args, m, n, value at m, value at n)): holds for 0 <= m <= n, by induction on n
        self.additive = tuple(additive)      # arrays at which the function is a plain sum: storing one entry changes the sum by that entry
        self.cases = cases or bool(additive)      # whether conditionals and nested selections in the array argument are resolved
        self.arg_sorts = arg_sorts
        self.fn = z3.Function(name, *arg_sorts, z3.IntSort(), res_sort)
        if name in RecSpec.registry:
            raise ValueError("two specification functions are called " + name)
        RecSpec.registry[name] = self

    def __call__(self, *a):
        return self.fn(*a)

    def unfold(self, app):
        a = [app.arg(i) for i in range(app.num_args())]
        pre, n = a[:-1], a[-1]
        fs = [app == z3.If(n <= 0, self.base(*pre), self.step(*pre, n - 1, self.fn(*pre, n - 1)))]
        # the function looks at its array only below n (proved by induction, see prove_local)
        for j in self.local:
            for g, x in (array_cases(a[j]) if self.cases else [(z3.BoolVal(True), a[j])]):
                xs = pre[:j] + [x] + pre[j + 1:]
                if x is not a[j]:
                    fs.append(z3.Implies(g, app == self.fn(*xs, n)))
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
                    b, i = x.arg(0), x.arg(1)
                    fs.append(z3.Implies(i >= n, self.fn(*xs, n) == self.fn(*pre[:j], b, *pre[j + 1:], n)))
                    if j in self.additive:
                        fs.append(z3.Implies(z3.And(0 <= i, i < n), self.changed(xs, j, n)))
        return z3.And(fs)

    def changed(self, pre, j, n):
        """f(.., Store(b, i, v), .., n) = f(.., b, .., n) with the summand at i exchanged"""
        b, i = pre[j].arg(0), pre[j].arg(1)
        old = list(pre[:j]) + [b] + list(pre[j + 1:])
        z = z3.IntVal(0) if self.fn.range() == z3.IntSort() else z3.RealVal(0)
        return self.fn(*pre, n) == self.fn(*old, n) + self.step(*pre, i, z) - self.step(*old, i, z)

    def prove_additive(self, j):
        args = [z3.Const("a%d!%s" % (k, self.name), so) for k, so in enumerate(self.arg_sorts)]
        i, v, n = z3.Int("i!l"), z3.Const("v!l", self.arg_sorts[j].range()), z3.Int("n!l")
        new = list(args)
        new[j] = z3.Store(args[j], i, v)
        d = lambda xs, m: self.fn(*xs, m) == z3.If(m <= 0, self.base(*xs), self.step(*xs, m - 1, self.fn(*xs, m - 1)))
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(d(args, n), d(new, n), 0 <= i, i < n, z3.Implies(i < n - 1, self.changed(new, j, n - 1)), z3.Implies(i >= n - 1, self.fn(*new, n - 1) == self.fn(*args, n - 1)))
        s.add(z3.Not(self.changed(new, j, n)))
        return s.check() == z3.unsat

    def grows(self, a, b):
        """Value order: false <= true for predicates, <= for numbers."""
        return z3.Implies(a, b) if z3.is_bool(a) else a <= b

    def prove_mono(self):
        """f(args, n) <= f(args, n + 1); with that, f is monotone in n."""
        args = [z3.Const("a%d!%s" % (k, self.name), so) for k, so in enumerate(self.arg_sorts)]
        n = z3.Int("n!m")
        s = z3.Solver()
        s.set("timeout", 10000)
        f = lambda m: self.fn(*args, m)
        d = lambda m: f(m) == z3.If(m <= 0, self.base(*args), self.step(*args, m - 1, f(m - 1)))
        s.add(d(n), d(n + 1), z3.Not(self.grows(f(n), f(n + 1))))
        return s.check() == z3.unsat

    def prove_pair(self, lem):
        args = [z3.Const("a%d!%s" % (k, self.name), so) for k, so in enumerate(self.arg_sorts)]
        m, n = z3.Int("m!p"), z3.Int("n!p")
        f = lambda k: self.fn(*args, k)
        d = f(n + 1) == z3.If(n + 1 <= 0, self.base(*args), self.step(*args, n, f(n)))
        for goal, hyp in ((lem(args, m, m, f(m), f(m)), [m >= 0]), (lem(args, m, n + 1, f(m), f(n + 1)), [0 <= m, m <= n, d, lem(args, m, n, f(m), f(n))])):
            s = z3.Solver()
            s.set("timeout", 10000)
            s.add(*hyp)
            s.add(z3.Not(goal))
            if s.check() != z3.unsat:
                return False
        return True

    def prove_odd(self):
        """f(.., -v, .., n) = -f(.., v, .., n), by induction on n"""
        args = [z3.Const("a%d!%s" % (k, self.name), so) for k, so in enumerate(self.arg_sorts)]
        neg = [(-x if k == self.odd else x) for k, x in enumerate(args)]
        n = z3.Int("n!o")
        d = lambda xs, m: self.fn(*xs, m) == z3.If(m <= 0, self.base(*xs), self.step(*xs, m - 1, self.fn(*xs, m - 1)))
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(d(args, n), d(neg, n), z3.Implies(n > 0, self.fn(*neg, n - 1) == -self.fn(*args, n - 1)), self.fn(*neg, n) != -self.fn(*args, n))
        return s.check() == z3.unsat

    def prove_local(self):
        """Induction on n: storing at an index >= n does not change the value. Returns True when z3 accepts base and step."""
        for j in self.local:
            args = [z3.Const("a%d!%s" % (k, self.name), so) for k, so in enumerate(self.arg_sorts)]
            s_ = self.arg_sorts[j]
            i, v, n = z3.Int("i!l"), z3.Const("v!l", s_.range()), z3.Int("n!l")
            args2 = list(args)
            args2[j] = z3.Store(args[j], i, v)
            f = lambda xs, m: self.fn(*xs, m)
            d = lambda xs, m: f(xs, m) == z3.If(m <= 0, self.base(*xs), self.step(*xs, m - 1, f(xs, m - 1)))
            s = z3.Solver()
            s.set("timeout", 10000)
            s.add(d(args, n), d(args2, n), i >= n)
            s.add(z3.Implies(n > 0, f(args2, n - 1) == f(args, n - 1)))
            s.add(f(args2, n) != f(args, n))
            if s.check() != z3.unsat:
                return False
        return True


class Axiomatic:
    """A specification function with instantiated defining axioms: axiom(app args) -> list of Bools."""
    def __init__(self, name, arg_sorts, res_sort, axioms):
        self.fn = z3.Function(name, *arg_sorts, res_sort)
        self.ax = axioms
        RecSpec.registry[name] = self

    def __call__(self, *a):
        return self.fn(*a)

    def unfold(self, app):
        return z3.And([TRUE] + list(self.ax(*[app.arg(i) for i in range(app.num_args())])))


UNFOLD = [2]


def closing(fs):
    """Restricts the formulas to inputs for which every recursive specification function is fully unfolded; None when that cannot be said."""
    us = unfoldings(fs)
    seen, todo, done, out = set(), list(fs) + us, set(), []
    unfolded = {u.arg(0).arg(0).get_id() if z3.is_and(u) else None for u in us}
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in RecSpec.registry:
                r = RecSpec.registry[e.decl().name()]
                if has_var(e) or not isinstance(r, RecSpec):
                    return None
                if e.get_id() not in unfolded:
                    a = [e.arg(i) for i in range(e.num_args())]
                    b = r.base(*a[:-1])
                    out.append(z3.And(a[-1] <= 0, e == b))
                    todo.append(b)
            todo.extend(e.children())
        elif z3.is_quantifier(e):
            todo.append(e.body())
    return out


def unfoldings(fs, rounds=None):
    rounds = rounds or UNFOLD[0]
    seen, apps, out = set(), {}, []
    todo = list(fs)
    done = set()
    for _ in range(rounds):
        st = todo
        new = []
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(e):
                if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in RecSpec.registry and i not in done:
                    if not has_var(e):
                        done.add(i)
                        new.append(RecSpec.registry[e.decl().name()].unfold(e))
                st.extend(e.children())
            elif z3.is_quantifier(e):
                st.append(e.body())
        new = [z3.simplify(x, som=False) if False else x for x in new]
        out += new
        todo = list(new)
        if not new:
            break
    # monotone specification functions: every pair of arguments that differ in the bound only
    for apps_ in groups_of(list(fs) + out):
        r = RecSpec.registry[apps_[0].decl().name()]
        for x in apps_:
            for y in apps_:
                if x is not y:
                    k = x.num_args() - 1
                    if r.mono:
                        out.append(z3.Implies(x.arg(k) <= y.arg(k), r.grows(x, y)))
                    a = [x.arg(i) for i in range(k)]
                    for _, lem in r.pairs:
                        out.append(z3.Implies(z3.And(0 <= x.arg(k), x.arg(k) <= y.arg(k)), lem(a, x.arg(k), y.arg(k), x, y)))
    for apps_ in odd_groups(list(fs)):
        j = RecSpec.registry[apps_[0].decl().name()].odd
        for n, x in enumerate(apps_):
            for y in apps_[:n + 1]:
                same = [x.arg(i) == y.arg(i) for i in range(x.num_args()) if i != j and x.arg(i).get_id() != y.arg(i).get_id()]
                out.append(z3.Implies(z3.And(same + [x.arg(j) == -y.arg(j)]), x == -y))
    return out


def odd_groups(fs):
    wanted = lambda r: getattr(r, "odd", None) is not None
    if not any(wanted(r) for r in RecSpec.registry.values()):
        return []
    seen, todo, by = set(), list(fs), {}
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and wanted(RecSpec.registry.get(e.decl().name())) and not has_var(e):
                by.setdefault(e.decl().name(), []).append(e)
            todo.extend(e.children())
        elif z3.is_quantifier(e):
            todo.append(e.body())
    return [g[:40] for g in by.values()]


def groups_of(fs):
    """Applications of monotone specification functions that differ in the last argument only."""
    wanted = lambda r: r is not None and (getattr(r, "mono", False) or getattr(r, "pairs", None))
    if not any(wanted(r) for r in RecSpec.registry.values()):
        return []
    seen, todo, by = set(), list(fs), {}
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and wanted(RecSpec.registry.get(e.decl().name())) and not has_var(e):
                by.setdefault((e.decl().name(),) + tuple(e.arg(i).get_id() for i in range(e.num_args() - 1)), []).append(e)
            todo.extend(e.children())
        elif z3.is_quantifier(e):
            todo.append(e.body())
    return [g[:12] for g in by.values() if len(g) > 1]


_hv = {}


def has_var(e):
    return free_vars(e) > 0


def forall(vs, body, *pats):
    """Quantifier with the given patterns where z3 takes them (no conditionals inside)."""
    def plain(e):
        todo, seen = [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_ITE or z3.is_bool(x) and x.num_args()) or z3.is_quantifier(x):
                return False
            todo += x.children()
        return True
    ps = [p for p in pats if plain(p)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def free_vars(e):
    """1 + the largest index of a variable that is not bound in e."""
    i = e.get_id()
    if i in _hv:
        return _hv[i][1]
    if z3.is_var(e):
        r = z3.get_var_index(e) + 1
    elif z3.is_quantifier(e):
        r = max(0, free_vars(e.body()) - e.num_vars())
    else:
        r = max([free_vars(c) for c in e.children()] or [0])
    _hv[i] = (e, r)
    return r


class Obligation:
    __slots__ = ("fn", "label", "kind", "pc", "goal", "line", "taint", "status", "backend", "secs", "model")

    def __init__(self, fn, label, kind, pc, goal, line, taint):
        self.fn, self.label, self.kind, self.pc, self.goal, self.line, self.taint = fn, label, kind, pc, goal, line, taint
        self.status = self.backend = self.model = None
        self.secs = 0.0


class Engine:
    def __init__(self, unit, contracts, opts=None):
        self.u, self.T = unit, Types(unit)
        self.contracts = contracts            # {(qualified name, nparams or None): Contract}
        self.obl, self.ax, self.frames = [], [], []
        self.silent, self.n, self.fno = 0, 0, 0
        self.log = None
        self.trusted, self.used = set(), set()
        self.cur = None
        self.strs = {}
        self.opts = opts or {}
        self.inlined = set()
        self.dropped = {}
        self.nest = []
        self.deadline = None
        self.dom_lv = []
        self._cq = {}
        self.ghost = {}                       # witnesses of existential loop invariants
        self.approx = set()                   # places where the semantics is over-approximated (a refutation is then not decisive)

    # ---------------------------------------------------------------- values
    def fresh_name(self, base):
        self.n += 1
        return "%s!%d" % (base, self.n)

    def sort_of(self, t):
        if t[0] in ("int", "uint", "str", "ptr"):
            return z3.IntSort()
        if t[0] == "real":
            return z3.RealSort()
        if t[0] == "bool":
            return z3.BoolSort()
        raise Unsupported("scalar sort of %s" % (t,))

    def fresh(self, t, name, dom=(), rec=None, depth=0):
        if depth > 12:
            raise Unsupported("type nesting")
        if t[0] == "ref":
            return self.fresh(t[1], name, dom, rec, depth)
        if t[0] in ("int", "uint", "str", "real", "bool", "ptr"):
            s = self.sort_of(t)
            for d in reversed(dom):
                s = z3.ArraySort(d, s)
            c = z3.Const(self.fresh_name(name), s)
            if t[0] in ("uint",) and not dom:
                self.ax.append(c >= 0)
            return c
        if t[0] in ("vec", "arr"):
            ln = self.fresh(("int",), name + ".len", dom) if t[0] == "vec" else None
            if t[0] == "arr":
                ln = z3.IntVal(t[2])
                for d in reversed(dom):
                    ln = z3.K(d, ln)
            elif not dom:
                self.ax.append(ln >= 0)
            return Vec(ln, self.fresh(t[1], name + "[]", tuple(dom) + (z3.IntSort(),), rec, depth + 1), t[1])
        if t[0] == "pair":
            return Struct("pair", {"first": self.fresh(t[1], name + ".first", dom, rec, depth + 1), "second": self.fresh(t[2], name + ".second", dom, rec, depth + 1)})
        if t[0] == "map":
            ks = self.sort_of(t[1])
            has = self.fresh(("bool",), name + ".has", tuple(dom) + (ks,))
            return MapV(has, self.fresh(t[2], name + ".val", tuple(dom) + (ks,), rec, depth + 1), t[1], t[2])
        if t[0] == "rec":
            d = {}
            for fname, fd, r in self.T.fields(t[1]):
                try:
                    ft = self.T.of(fd, r)
                    d[fname] = self.fresh(ft, name + "." + fname, dom, r, depth + 1)
                except Unsupported:
                    d[fname] = Opaque(t[1] + "." + fname)
            return Struct(t[1], d)
        if t[0] in ("opaque", "fun", "set", "iter"):
            return Opaque(str(t))
        raise Unsupported("fresh value of %s" % (t,))

    def fresh_like(self, v, name="h"):
        if isinstance(v, IterV):
            return IterV(v.lv, self.fresh_like(v.idx, name), v.kind)
        if isinstance(v, (LV, PtrV, LamV)):
            raise Unsupported("a pointer to a local object changes in a loop")
        r = tmap(lambda x: z3.Const(self.fresh_name(name), x.sort()), v)
        if isinstance(r, Vec):
            self.ax.append(r.len >= 0)
        return r

    def zero(self, t, rec=None):
        """Value-initialised object."""
        if t[0] in ("int", "uint", "ptr", "str"):
            return I0
        if t[0] == "real":
            return z3.RealVal(0)
        if t[0] == "bool":
            return FALSE
        if t[0] == "vec":
            return Vec(I0, self.fresh(t[1], "empty", (z3.IntSort(),), rec), t[1])
        if t[0] == "arr":
            return Vec(z3.IntVal(t[2]), lift(self.zero(t[1], rec), z3.IntSort()), t[1])
        if t[0] == "pair":
            return Struct("pair", {"first": self.zero(t[1], rec), "second": self.zero(t[2], rec)})
        if t[0] == "map":
            ks = self.sort_of(t[1])
            return MapV(z3.K(ks, FALSE), self.fresh(t[2], "nov", (ks,), rec), t[1], t[2])
        if t[0] == "rec":
            return self.construct(t[1], None, [], self.st0)
        return Opaque(str(t))

    # ---------------------------------------------------------------- state access
    def get(self, st, lv):
        if isinstance(lv, PtrV):
            v = self.get(st, lv.alts[-1][1])
            for g, l in reversed(lv.alts[:-1]):
                v = merge(g, self.get(st, l), v)
            return v
        if isinstance(lv.root, tuple) and lv.root[0] == "H":
            cls = lv.root[1]
            if len(lv.steps) == 1 and cls in self.u.records:
                d = {}
                for fname, fd, r in self.T.fields(cls):
                    h = self.heap(st, r)
                    d[fname] = sel(h.f[fname], lv.steps[0][1])
                return Struct(cls, d)
            self.heap(st, cls)
        if lv.root not in st.env:
            raise Unsupported("read of %s" % (lv.root,))
        v = st.env[lv.root]
        if v is None:
            raise Unsupported("value lost at a join")
        return read(v, lv.steps)

    def put(self, st, lv, val):
        if isinstance(lv, PtrV):
            for g, l in lv.alts:
                self.put(st, l, merge(g, val, self.get(st, l)))
            return
        if isinstance(lv.root, tuple) and lv.root[0] == "H":
            cls = lv.root[1]
            if len(lv.steps) == 1 and cls in self.u.records:
                for fname, fd, r in self.T.fields(cls):
                    self.put(st, LV(("H", r), (lv.steps[0], ("f", fname))), val.f[fname])
                return
            h = self.heap(st, cls)
            # heap arrays are per field: ('h',a),('f',x),...
            fld = lv.steps[1][1]
            d = dict(h.f)
            d[fld] = sto(h.f[fld], lv.steps[0][1], write(sel(h.f[fld], lv.steps[0][1]), lv.steps[2:], val))
            st.env[lv.root] = Struct(h.name, d)
        else:
            if lv.root not in st.env:
                raise Unsupported("write of %s" % (lv.root,))
            cur = st.env[lv.root]
            if isinstance(val, (LV, PtrV, IterV, LamV)):
                if lv.steps:
                    cur2 = self._put_special(cur, lv.steps, val)
                    st.env[lv.root] = cur2
                else:
                    st.env[lv.root] = val
            elif not lv.steps and not is_z3(cur):
                st.env[lv.root] = val
            else:
                st.env[lv.root] = write(cur, lv.steps, val)
        if self.log is not None:
            pre = []
            for s in lv.steps:
                if s[0] == "h":
                    continue
                if s[0] != "f":
                    break
                pre.append(s)
            self.log.add((lv.root, tuple(pre)))

    def _put_special(self, cur, steps, val):
        (k, x), rest = steps[0], steps[1:]
        if k != "f":
            raise Unsupported("pointer to local stored in a container")
        d = dict(cur.f)
        d[x] = self._put_special(cur.f[x], rest, val) if rest else val
        return Struct(cur.name, d)

    def heap(self, st, cls):
        root = ("H", cls)
        if root not in st.env:
            if root not in self.heap0:
                d = {}
                for c in self.u.records[cls].get("inner", []):
                    if c.get("kind") == "FieldDecl" and "name" in c:
                        try:
                            d[c["name"]] = self.fresh(self.T.of(c, cls), "H." + cls + "." + c["name"], (z3.IntSort(),), cls)
                        except Unsupported:
                            d[c["name"]] = Opaque(cls + "." + c["name"])
                self.heap0[root] = Struct(cls, d)
            st.env[root] = self.heap0[root]
        return st.env[root]

    def field(self, lv, name, decl_rec):
        if isinstance(lv, PtrV):
            return PtrV([(g, self.field(l, name, decl_rec)) for g, l in lv.alts])
        if isinstance(lv.root, tuple) and lv.root[0] == "H" and len(lv.steps) == 1 and decl_rec:
            lv = LV(("H", decl_rec), lv.steps)
        return lv + ("f", name)

    def step(self, lv, s):
        if isinstance(lv, PtrV):
            return PtrV([(g, self.step(l, s)) for g, l in lv.alts])
        return lv + s

    def temp(self, st, val, name="tmp"):
        r = ("t", self.fresh_name(name))
        st.env[r] = val
        return LV(r)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, goal, label, kind, line=None):
        if self.silent:
            return
        if z3.is_true(z3.simplify(goal)) and kind in ("bounds", "division", "unsigned"):
            goal = TRUE
        self.obl.append(Obligation(self.cur, label, kind, list(st.pc), goal, line, st.taint))

    def assume(self, st, f):
        st.pc.append(f)

    def solver(self, timeout):
        s = z3.Solver()
        s.set("timeout", int(timeout))
        return s

    def valid(self, pc, goal, timeout=2000):
        if z3.is_true(goal):
            return True
        fs = list(pc) + [z3.Not(goal)]
        s = self.solver(timeout)
        ufs = unfoldings(fs)
        for f in fs + ufs + self.ax_for(fs + ufs):
            s.add(f)
        return s.check() == z3.unsat

    def ax_for(self, fs):
        return self.ax + self.extra_ax

    extra_ax = []

    def infeasible(self, st):
        c = z3.simplify(st.pc[-1]) if st.pc else TRUE
        return z3.is_false(c)

    # ---------------------------------------------------------------- merging
    def merge_states(self, base, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        n0 = base
        guards, joined = self.split(n0, states)
        env = {}
        keys = set(states[0].env)
        for s in states[1:]:
            for k in s.env:
                if isinstance(k, tuple) and k[0] == "H" and k not in keys:
                    keys.add(k)
        for k in keys:
            if isinstance(k, tuple) and k[0] == "H":
                for s in states:
                    self.heap(s, k[1])
            if any(k not in s.env for s in states[1:]):
                continue
            v = states[-1].env[k]
            for g, s in zip(reversed(guards[:-1]), reversed(states[:-1])):
                w = s.env[k]
                if w is v:
                    continue
                if w is None or v is None:
                    v = None
                    break
                try:
                    v = merge(g, w, v)
                except Unsupported:
                    v = None
                    break
            env[k] = v
        r = State(env, states[0].pc[:n0] + joined, any(s.taint for s in states))
        return r

    def split(self, n0, states):
        """Conditions that tell the states apart, and what holds after joining them."""
        if len(states) == 2:
            a, b = states[0].pc, states[1].pc
            i = n0
            while i < min(len(a), len(b)) and z3.eq(a[i], b[i]):
                i += 1
            if i < min(len(a), len(b)) and (z3.eq(z3.Not(a[i]), b[i]) or z3.eq(a[i], z3.Not(b[i]))):
                return [a[i], b[i]], a[n0:i] + [z3.Implies(a[i], f) for f in a[i + 1:]] + [z3.Implies(b[i], f) for f in b[i + 1:]]
        guards = [z3.And(s.pc[n0:]) if len(s.pc) > n0 else TRUE for s in states]
        return guards, [z3.Or(guards)]

    # ---------------------------------------------------------------- statements
    def run(self, s, st):
        """Executes a statement; returns a list of (kind, state, value)."""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("symbolic execution exceeds its time budget")
        k = s.get("kind")
        m = getattr(self, "s_" + (k or "None"), None)
        if m:
            return m(s, st)
        # expression statement
        try:
            if s.get("valueCategory") in ("lvalue", "xvalue"):
                self.lv(s, st)
            else:
                self.ev(s, st)
        except Aborted:
            return []
        return [("normal", st, None)]

    def seq(self, stmts, st):
        outs = []
        cur = st
        for s in stmts:
            if cur is None:
                break
            base = len(cur.pc)
            r = self.run(s, cur)
            normals = [x[1] for x in r if x[0] == "normal"]
            outs += [x for x in r if x[0] != "normal"]
            cur = self.merge_states(base, normals) if normals else None
        if cur is not None:
            outs.append(("normal", cur, None))
        return outs

    def s_None(self, s, st):
        return [("normal", st, None)]

    s_NullStmt = s_None

    def s_CompoundStmt(self, s, st):
        return self.seq(s.get("inner", []), st)

    def s_DeclStmt(self, s, st):
        try:
            for d in s.get("inner", []):
                if d.get("kind") == "VarDecl":
                    self.declare(d, st)
                elif d.get("kind") in ("TypeAliasDecl", "TypedefDecl", "UsingDecl", "StaticAssertDecl", "UsingDirectiveDecl"):
                    pass
                else:
                    raise Unsupported("declaration " + d.get("kind", "?"))
        except Aborted:
            return []
        return [("normal", st, None)]

    def declare(self, d, st):
        fr = self.frames[-1]
        init = [c for c in d.get("inner", []) if c.get("kind") not in ("FullComment",)]
        t = None
        try:
            t = self.T.of(d, fr.rec)
        except Unsupported:
            t = ("unknown", d["type"]["qualType"])
        if d["type"]["qualType"].rstrip().endswith("&"):
            t = ("ref", t)
        root = (d["id"], fr.no)
        if t[0] == "ref":
            e = init[0]
            self.bind_ref(root, e, st, d)
            fr.names[d.get("name", "?")] = root
            return
        if init:
            v = self.ev(init[0], st)
            if is_z3(v) and t[0] in ("int", "uint", "real", "bool"):
                v = self.conv(v, t)
        elif t[0] == "rec":
            v = self.construct(t[1], None, [], st)
        elif t[0] in ("vec", "map"):
            v = self.zero(t)
        elif t[0] == "arr":
            v = self.fresh(t, d.get("name", "v"))
        else:
            v = self.fresh(t, d.get("name", "v")) if t[0] != "unknown" else Opaque(t[1])
        st.env[root] = v
        fr.names[d.get("name", "?")] = root

    def bind_ref(self, root, e, st, d=None):
        fr = self.frames[-1]
        if e.get("valueCategory") in ("lvalue", "xvalue"):
            fr.vars[root[0]] = self.lv(e, st)
        else:
            v = self.ev(e, st)
            fr.vars[root[0]] = v if isinstance(v, LV) and False else self.temp(st, v)

    def s_ReturnStmt(self, s, st):
        inner = s.get("inner", [])
        try:
            if not inner:
                return [("return", st, None)]
            e = inner[0]
            if self.frames[-1].fn.get("_retref") and e.get("valueCategory") in ("lvalue", "xvalue"):
                return [("return", st, self.lv(e, st))]
            if e.get("valueCategory") in ("lvalue", "xvalue"):
                return [("return", st, self.get(st, self.lv(e, st)))]
            return [("return", st, self.ev(e, st))]
        except Aborted:
            return []

    def s_BreakStmt(self, s, st):
        return [("break", st, None)]

    def s_ContinueStmt(self, s, st):
        return [("continue", st, None)]

    def s_IfStmt(self, s, st):
        inner = list(s.get("inner", []))
        if s.get("hasInit"):
            r = self.run(inner.pop(0), st)
            if not r:
                return []
            st = r[0][1]
        if s.get("hasVar"):
            self.s_DeclStmt(inner.pop(0), st)
        try:
            c = self.cond(inner[0], st)
        except Aborted:
            return []
        cs = z3.simplify(c)
        outs = []
        if not z3.is_false(cs):
            a = st.copy()
            a.pc.append(c)
            outs += self.run(inner[1], a) if len(inner) > 1 else [("normal", a, None)]
        if not z3.is_true(cs):
            b = st.copy()
            b.pc.append(z3.Not(c))
            if s.get("hasElse") and len(inner) > 2:
                outs += self.run(inner[2], b)
            else:
                outs.append(("normal", b, None))
        return outs

    def s_SwitchStmt(self, s, st):
        raise Unsupported("switch")

    def s_CXXThrowExpr(self, s, st):
        self.abort(s, st)
        return []

    def s_CXXTryStmt(self, s, st):
        raise Unsupported("try")

    def abort(self, s, st):
        if self.on_abort is not None:
            self.on_abort(st, s.get("line"))

    on_abort = None

    # loops
    def s_WhileStmt(self, s, st):
        inner = s["inner"]
        return self.loop(st, lambda x: self.cond(inner[-2], x), inner[-1], None, s)

    def s_DoStmt(self, s, st):
        body_, cond_ = s["inner"][0], s["inner"][1]
        base = len(st.pc)
        first = self.run(body_, st)
        outs = [x for x in first if x[0] == "return"]
        brk = [x[1] for x in first if x[0] == "break"]
        cont = self.merge_states(base, [x[1] for x in first if x[0] in ("normal", "continue")])
        if cont is None:
            m = self.merge_states(base, brk)
            return outs + ([("normal", m, None)] if m else [])
        b2 = len(cont.pc)
        rest = self.loop(cont, lambda x: self.cond(cond_, x), body_, None, s)
        outs += [x for x in rest if x[0] == "return"]
        m = self.merge_states(base, brk + [x[1] for x in rest if x[0] == "normal"])
        return outs + ([("normal", m, None)] if m else [])

    def s_ForStmt(self, s, st):
        init, _, cond_, inc, body_ = (s["inner"] + [{}] * 5)[:5]
        if init.get("kind"):
            r = self.run(init, st)
            if not r:
                return []
            st = r[0][1]
        f = (lambda x: self.cond(cond_, x)) if cond_.get("kind") else (lambda x: TRUE)
        return self.loop(st, f, body_, inc if inc.get("kind") else None, s)

    def s_CXXForRangeStmt(self, s, st):
        inner = s["inner"]
        rng_decl = inner[1]["inner"][0]
        var = inner[-2]["inner"][0]
        body_ = inner[-1]
        fr = self.frames[-1]
        e = [c for c in rng_decl["inner"]][0]
        if e.get("valueCategory") in ("lvalue", "xvalue"):
            lvv = self.lv(e, st)
        else:
            lvv = self.temp(st, self.ev(e, st))
        v = self.get(st, lvv)
        if not isinstance(v, Vec):
            raise Unsupported("range loop over %s" % type(v).__name__)
        idx = ("idx%s" % s["id"], fr.no)
        st.env[idx] = I0
        fr.names["$idx%s" % s["id"]] = idx
        t = self.T.of(var, fr.rec)
        vroot = (var["id"], fr.no)

        def cond_(x):
            return x.env[idx] < self.get(x, lvv).len

        def prologue(x):
            i = x.env[idx]
            self.ax_nonneg(x, i)
            el = self.step(lvv, ("i", i))
            if t[0] == "ref":
                fr.vars[var["id"]] = el
            else:
                x.env[vroot] = self.get(x, el)
                if self.log is not None:
                    self.log.add((vroot, ()))

        def inc_(x):
            x.env[idx] = x.env[idx] + 1
            if self.log is not None:
                self.log.add((idx, ()))
        return self.loop(st, cond_, body_, inc_, s, prologue)

    def ax_nonneg(self, st, e):
        pass

    def loop(self, st, cond_, body_, inc, node, prologue=None):
        fr = self.frames[-1]
        entry = st.copy()
        n_entry = len(entry.pc)

        def one(x):
            """One iteration from state x (condition already assumed): outcomes with the increment applied."""
            if prologue:
                prologue(x)
            r = self.run(body_, x)
            back, others = [], []
            for k, y, v in r:
                if k in ("normal", "continue"):
                    try:
                        if callable(inc):
                            inc(y)
                        elif inc is not None:
                            if inc.get("valueCategory") in ("lvalue", "xvalue"):
                                self.lv(inc, y)
                            else:
                                self.ev(inc, y)
                        back.append(y)
                    except Aborted:
                        pass
                else:
                    others.append((k, y, v))
            return back, others

        if self.opts.get("unroll"):
            return self.unrolled(st, cond_, one, n_entry)
        # 1. which locations does the loop change
        saved_log, self.silent = self.log, self.silent + 1
        saved_abort, self.on_abort = self.on_abort, None
        changed = set()
        try:
            for _ in range(6):
                x = entry.copy()
                self.havoc(x, changed)
                self.log = set()
                try:
                    c = cond_(x)
                    x.pc.append(c)
                    one(x)
                except Aborted:
                    pass
                new = {(r, p) for r, p in self.log if r in entry.env or (isinstance(r, tuple) and r[0] == "H")}
                if new <= changed:
                    break
                changed |= new
            changed = {(r, p) for r, p in changed if not any(r == r2 and p != p2 and p[:len(p2)] == p2 for r2, p2 in changed)}
        finally:
            self.log, self.silent, self.on_abort = saved_log, self.silent - 1, saved_abort
        if self.log is not None:
            self.log |= changed
        # 2. invariants
        head = entry.copy()
        for r, p in changed:
            if isinstance(r, tuple) and r[0] == "H":
                self.heap(entry, r[1])
        head = entry.copy()
        self.havoc(head, changed)
        head.taint = True
        cands = []
        self.nest.append(self.guards(head, changed, cond_))
        try:
            return self.loop_by_invariant(entry, head, changed, cond_, one, node, n_entry)
        finally:
            self.nest.pop()

    def guards(self, head, changed, cond_):
        """The changed integer variables that the loop condition looks at."""
        self.silent += 1
        try:
            seen = {str(x) for x in consts_of([cond_(head.copy())])}
        except (Aborted, Unsupported):
            return []
        finally:
            self.silent -= 1
        return [r for r, p in sorted(changed, key=lambda z: str(z)) if not p and r in head.env and is_z3(head.env[r]) and head.env[r].sort() == z3.IntSort() and str(head.env[r]) in seen]

    def loop_by_invariant(self, entry, head, changed, cond_, one, node, n_entry):
        cands = []
        if not self.silent:
            cands = self.candidates(entry, head, changed, cond_, node)
            t_inv = time.time()
            # while the invariants of an enclosing loop are weakened step by step, what was dropped here is not tried again
            ids, seen = [], {}
            for lab, f in cands:
                seen[lab] = seen.get(lab, 0) + 1
                ids.append((lab, seen[lab]))
            key = (id(node), len(cands)) if len(self.frames) == 1 else None
            gone = self.dropped.get(key, set()) if key else set()
            tried = [(i, x) for i, x in zip(ids, cands) if i not in gone]
            cands = self.houdini(entry, head, changed, [x for _, x in tried], cond_, one)
            if key:
                self.dropped[key] = gone | {i for i, x in tried if not any(x[1] is y[1] for y in cands)}
            t_inv = time.time() - t_inv
            for j, (lab, f) in enumerate(cands):
                if lab in ("v>=v0", "v<=v0"):
                    continue
                for what in ("holds on entry", "is preserved"):
                    o = Obligation(self.cur, "loop invariant '%s' %s" % (lab, what), "invariant", [], TRUE, node.get("line"), True)
                    o.status, o.backend, o.secs = "proved", "z3 " + z3.get_version_string(), (t_inv if j == 0 and what == "holds on entry" else 0.0)
                    self.obl.append(o)
        inv_state = head.copy()
        for lab, f in cands:
            inv_state.pc.append(f(inv_state))
        # 3. final pass: obligations of the body, exits
        outs = []
        x = inv_state.copy()
        try:
            c = cond_(x)
        except Aborted:
            return []
        exit_st = x.copy()
        exit_st.pc.append(z3.Not(c))
        for lab, f in cands:
            if lab.startswith("exists "):  # name the witness, for the invariants of later loops
                q = f(exit_st)
                w = z3.Const(self.fresh_name(lab[7:]), q.var_sort(0))
                self.ghost[lab[7:]] = w
                exit_st.pc.append(z3.substitute_vars(q.body(), w))
        exits = [] if z3.is_true(z3.simplify(c)) else [exit_st]
        x.pc.append(c)
        if not z3.is_false(z3.simplify(c)):
            back, others = one(x)
            for k, y, v in others:
                if k == "break":
                    exits.append(y)
                else:
                    outs.append((k, y, v))
        m = self.merge_states(n_entry, exits)
        if m is not None:
            m.taint = True
            outs.append(("normal", m, None))
        return outs

    def unrolled(self, st, cond_, one, n_entry):
        """At most 'unroll' iterations; longer runs are left out (used only to look for counterexamples)."""
        exits, outs, x = [], [], st
        for it in range(self.opts["unroll"] + 1):
            try:
                c = cond_(x)
            except Aborted:
                break
            cs = z3.simplify(c)
            if not z3.is_true(cs):
                e = x.copy()
                e.pc.append(z3.Not(c))
                exits.append(e)
            if z3.is_false(cs) or it == self.opts["unroll"]:
                break
            x.pc.append(c)
            back, others = one(x)
            for k, y, v in others:
                if k == "break":
                    exits.append(y)
                else:
                    outs.append((k, y, v))
            x = self.merge_states(n_entry, back)
            if x is None:
                break
        m = self.merge_states(n_entry, exits)
        if m is not None:
            outs.append(("normal", m, None))
        return outs

    def havoc(self, st, changed):
        for r, p in sorted(changed, key=lambda z: (str(z[0]), len(z[1]))):
            if isinstance(r, tuple) and r[0] == "H":
                h = self.heap(st, r[1])
                if p:
                    d = dict(h.f)
                    sub = d[p[0][1]]
                    d[p[0][1]] = write(sub, p[1:], self.fresh_like(read(sub, p[1:]), "h")) if len(p) > 1 and isinstance(sub, Struct) else self.fresh_like(sub, "h")
                    st.env[r] = Struct(h.name, d)
                else:
                    st.env[r] = self.fresh_like(h, "h")
                continue
            if r not in st.env or st.env[r] is None:
                continue
            v = st.env[r]
            nm = str(r[0]) if isinstance(r, tuple) else str(r)
            if p:
                st.env[r] = write(v, p, self.fresh_like(read(v, p), "h"))
            elif isinstance(v, (LV, PtrV)):
                st.env[r] = None
            else:
                st.env[r] = self.fresh_like(v, "h")

    def candidates(self, entry, head, changed, cond_, node):
        out = []

        def at(root, p):
            return lambda s: read(s.env[root], p) if not (isinstance(root, tuple) and root[0] == "H") else read(self.heap(s, root[1]), p)
        for r, p in sorted(changed, key=lambda z: (str(z[0]), str(z[1]))):
            try:
                v0 = at(r, p)(entry)
            except Exception:
                continue
            if v0 is None:
                continue

            def leaf(v0, path):
                g = at(r, path)
                if isinstance(v0, IterV):
                    i0 = v0.idx
                    out.append(("iter>=", lambda s, g=g, i0=i0: g(s).idx >= i0))
                    return
                if is_z3(v0) and v0.sort() in (z3.IntSort(), z3.RealSort()):
                    out.append(("v>=v0", lambda s, g=g, v0=v0: g(s) >= v0))
                    out.append(("v<=v0", lambda s, g=g, v0=v0: g(s) <= v0))
                elif is_z3(v0) and v0.sort() == z3.BoolSort():
                    out.append(("v=v0", lambda s, g=g, v0=v0: g(s) == v0))
                elif isinstance(v0, Vec):
                    out.append(("len=len0", lambda s, g=g, v0=v0: g(s).len == v0.len))
                    out.append(("len>=len0", lambda s, g=g, v0=v0: g(s).len >= v0.len))
                    if isinstance(v0.data, Vec):
                        out.append(("lens=lens0", lambda s, g=g, v0=v0: g(s).data.len == v0.data.len))
                elif isinstance(v0, Struct):
                    for k in v0.f:
                        if not isinstance(v0.f[k], (Opaque, LV, PtrV)):
                            leaf(v0.f[k], tuple(path) + (("f", k),))
            leaf(v0, p)
        # condition, weakened
        def conjuncts(e):
            if z3.is_and(e):
                return [y for c in e.children() for y in conjuncts(c)]
            return [e]

        def weaken(e):
            k = e.decl().kind() if z3.is_app(e) else None
            if k == z3.Z3_OP_LT:
                return e.arg(0) <= e.arg(1)
            if k == z3.Z3_OP_GT:
                return e.arg(0) >= e.arg(1)
            if k == z3.Z3_OP_NOT:
                a = e.arg(0)
                if z3.is_eq(a) and a.arg(0).sort() == z3.IntSort():
                    return a.arg(0) <= a.arg(1)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_LE:
                    return a.arg(0) >= a.arg(1)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_GE:
                    return a.arg(0) <= a.arg(1)
            return e
        self.silent += 1
        try:
            cs = conjuncts(cond_(head.copy()))
            for j in range(len(cs)):
                def f(s, j=j):
                    self.silent += 1
                    try:
                        es = conjuncts(cond_(s.copy()))
                    finally:
                        self.silent -= 1
                    return weaken(es[j]) if j < len(es) else TRUE
                out.append(("cond", f))
        except (Aborted, Unsupported):
            pass
        finally:
            self.silent -= 1
        L = LoopView(self, entry, head, changed, node)
        self.loops_stack.append(L)
        for src in self.inv_sources:
            try:
                out += list(src(L))
            except (Unsupported, KeyError, IndexError, AttributeError, TypeError) as e:
                if self.opts.get("debug"):
                    print("inv source failed:", type(e).__name__, e)
        self.loops_stack.pop()
        return out

    loops_stack = []
    inv_sources = ()

    def houdini(self, entry, head, changed, cands, cond_, one):
        dbg = self.opts.get("debug")
        # initiation
        keep = []
        s = self.solver(self.opts.get("inv_timeout", 400))
        pcu = unfoldings(entry.pc)
        for f in list(entry.pc) + pcu + self.ax_for([]):
            s.add(f)
        gs, ok = [], []
        for lab, f in cands:
            try:
                g = f(entry)
                f(head)
            except (Unsupported, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception) as e:
                if dbg and not lab.startswith("v"):
                    print("cand error", lab, e)
                continue
            gs.append(g)
            ok.append((lab, f))
        for u in unfoldings(gs):
            s.add(u)
        rest = [j for j in range(len(gs)) if not z3.is_true(z3.simplify(gs[j]))]
        bad0 = self.drop(s, gs, rest, lambda j, r: dbg and ok[j][0] not in ("v>=v0", "v<=v0") and print("   init drop", ok[j][0], r))
        keep = [x for j, x in enumerate(ok) if j not in bad0]
        cands = keep
        # consecution
        self.silent += 1
        sab, self.on_abort = self.on_abort, None
        slog, self.log = self.log, None
        try:
            for rnd in range(12):
                x = head.copy()
                for lab, f in cands:
                    x.pc.append(f(x))
                try:
                    x.pc.append(cond_(x))
                    # inner loops need their own invariants in this pass
                    self.silent -= 1
                    so, self.obl = self.obl, []
                    try:
                        back, _ = one(x)
                    finally:
                        self.obl = so
                        self.silent += 1
                except Aborted:
                    back = []
                bad = set()
                for y in back:
                    s = self.solver(self.opts.get("inv_timeout", 400))
                    gs = []
                    for j, (lab, f) in enumerate(cands):
                        gs.append(f(y))
                    us = unfoldings(list(y.pc) + gs)
                    for f in list(y.pc) + us + self.ax_for([]):
                        s.add(f)
                    rest = [j for j in range(len(gs)) if j not in bad and not z3.is_true(z3.simplify(gs[j]))]
                    bad |= self.drop(s, gs, rest, lambda j, r: dbg and cands[j][0] not in ("v>=v0", "v<=v0") and print("   step drop", cands[j][0], r))
                if not bad:
                    break
                cands = [c for j, c in enumerate(cands) if j not in bad]
            else:
                cands = []
        finally:
            self.silent -= 1
            self.on_abort = sab
            self.log = slog
        if dbg:
            print("   invariants kept:", [l for l, _ in cands if l not in ("v>=v0", "v<=v0")])
        return cands

    def drop(self, s, gs, rest, note):
        """Indices of the goals that do not follow from the assertions of s (a model can refute several at once)."""
        bad = set()
        while rest:
            s.push()
            s.add(z3.Not(z3.And([gs[j] for j in rest])))
            r = s.check()
            if r == z3.unsat:
                s.pop()
                return bad
            ref = []
            if r == z3.sat:
                m = s.model()
                for j in rest:
                    try:
                        if z3.is_false(m.eval(gs[j], model_completion=True)):
                            ref.append(j)
                    except z3.Z3Exception:
                        pass
            s.pop()
            if not ref:
                for j in rest:
                    s.push()
                    s.add(z3.Not(gs[j]))
                    r = s.check()
                    s.pop()
                    if r != z3.unsat:
                        bad.add(j)
                        note(j, r)
                return bad
            for j in ref:
                bad.add(j)
                note(j, "model")
            rest = [j for j in rest if j not in ref]
        return bad

    # ---------------------------------------------------------------- expressions
    def cond(self, e, st):
        v = self.ev(e, st)
        return self.tobool(v)

    def tobool(self, v):
        if isinstance(v, (LV, PtrV)):
            return TRUE
        if not is_z3(v):
            raise Unsupported("condition of %s" % type(v).__name__)
        if v.sort() == z3.BoolSort():
            return v
        return v != 0

    def conv(self, v, t):
        """Converts a scalar to type t."""
        if not is_z3(v):
            return v
        s = v.sort()
        if t[0] in ("int", "uint", "ptr"):
            if s == z3.BoolSort():
                return z3.If(v, I1, I0)
            if s == z3.RealSort():
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            return v
        if t[0] == "real":
            if s == z3.BoolSort():
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            if s == z3.IntSort():
                return z3.ToReal(v)
            return v
        if t[0] == "bool":
            return self.tobool(v)
        return v

    def ev(self, e, st):
        """Value of an expression (glvalues are read)."""
        if e.get("valueCategory") in ("lvalue", "xvalue") and e["kind"] not in ("ImplicitCastExpr",):
            return self.get(st, self.lv(e, st))
        m = getattr(self, "e_" + e["kind"], None)
        if m is None:
            raise Unsupported("expression " + e["kind"])
        return m(e, st)

    def sub(self, e, i=0):
        return e["inner"][i]

    def e_pass(self, e, st):
        return self.ev(self.sub(e), st)

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_pass

    def e_ConstantExpr(self, e, st):
        if norm(e["type"]["qualType"]) == "bool" and e.get("value") in ("true", "false"):
            return TRUE if e["value"] == "true" else FALSE
        return self.e_pass(e, st)
    e_CXXStdInitializerListExpr = e_pass

    def e_IntegerLiteral(self, e, st):
        return z3.IntVal(int(e["value"]))

    def e_CharacterLiteral(self, e, st):
        return z3.IntVal(int(e["value"]))

    def e_FloatingLiteral(self, e, st):
        return z3.RealVal(repr(float(e["value"])) if "e" not in repr(float(e["value"])) else _exact(float(e["value"])))

    def e_CXXBoolLiteralExpr(self, e, st):
        return z3.BoolVal(bool(e["value"]))

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return I0

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, e, st):
        return self.strlit(e["value"])

    def strlit(self, s):
        if s not in self.strs:
            self.strs[s] = z3.IntVal(1000003 + len(self.strs))
        return self.strs[s]

    def e_ImplicitValueInitExpr(self, e, st):
        self.st0 = st
        return self.zero(self.T.of(e, self.frames[-1].rec))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, e, st):
        return self.frames[-1].this

    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        q = norm((e.get("argType") or (e.get("inner") or [{}])[0].get("type") or {}).get("desugaredQualType") or (e.get("argType") or (e.get("inner") or [{}])[0].get("type") or {}).get("qualType") or "")
        size = {"unsigned long": 8, "long": 8, "int": 4, "unsigned int": 4, "char": 1, "bool": 1, "double": 8}.get(q)
        if size is not None and e.get("name") == "sizeof":
            return z3.IntVal(size)
        self.approx.add("sizeof is an arbitrary size")
        return self.fresh(("uint",), "sizeof")

    def cast(self, e, st):
        ck = e.get("castKind")
        s = self.sub(e)
        if ck in ("LValueToRValue",):
            v = self.get(st, self.lv(s, st))
            return self.read_facts(v, s, st)
        if ck in ("NoOp", "UserDefinedConversion", "ConstructorConversion", "FunctionToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "BitCast", "LValueBitCast", "ArrayToPointerDecay", "BuiltinFnToFnPtr", "Dynamic"):
            if s.get("valueCategory") in ("lvalue", "xvalue") and ck != "FunctionToPointerDecay":
                if ck == "ArrayToPointerDecay":
                    if s["kind"] == "StringLiteral":
                        return self.strlit(s["value"])
                    raise Unsupported("array decay")
                return self.get(st, self.lv(s, st))
            return self.ev(s, st)
        v = self.ev(s, st)
        if ck == "ToVoid":
            return None
        if ck in ("NullToPointer",):
            return I0
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean", "BooleanToSignedIntegral"):
            t = self.T.of(e, self.frames[-1].rec)
            if t[0] == "uint" and is_z3(v) and v.sort() == z3.IntSort() and ck == "IntegralCast":
                ft = None
                try:
                    ft = self.T.of(s, self.frames[-1].rec)
                except Unsupported:
                    pass
                if not (ft and ft[0] == "uint"):
                    self.oblige(st, v >= 0, "conversion to unsigned is of a non-negative value", "unsigned", e.get("line"))
                    st.pc.append(v >= 0)
            return self.conv(v, t)
        if ck == "PointerToBoolean":
            return self.tobool(v)
        raise Unsupported("cast " + str(ck))

    def read_facts(self, v, e, st):
        return v

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = cast

    def e_CXXFunctionalCastExpr(self, e, st):
        return self.cast(e, st)

    def e_DeclRefExpr(self, e, st):
        d = e["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            return self.enum_value(d["id"])
        return self.get(st, self.lv(e, st))

    def enum_value(self, i):
        n = self.u.byid.get(i)
        for x in self.u.byid.values():
            if x.get("kind") == "EnumDecl":
                val = 0
                for c in x.get("inner", []):
                    if c.get("kind") != "EnumConstantDecl":
                        continue
                    for y in c.get("inner", []):
                        if y.get("kind") == "ConstantExpr" and "value" in y:
                            val = int(y["value"])
                    if c["id"] == i:
                        return z3.IntVal(val)
                    val += 1
        raise Unsupported("enum")

    def arith(self, op, a, b, st, line, t=None):
        if isinstance(a, IterV) or isinstance(b, IterV):
            return self.iter_arith(op, a, b)
        if isinstance(a, (LV, PtrV)) or isinstance(b, (LV, PtrV)):
            return self.ptr_cmp(op, a, b)
        if op in ("+", "-") and is_z3(a) and is_z3(b) and t is not None and t[0] == "ptr":
            return IterV(self.block(t, a, st), b if op == "+" else -b)
        if not (is_z3(a) and is_z3(b)):
            raise Unsupported("operator %s on %s, %s" % (op, type(a).__name__, type(b).__name__))
        if op in ("&&", "||"):
            raise Unsupported("logic")
        if a.sort() == z3.BoolSort() and b.sort() == z3.BoolSort():
            if op == "==":
                return a == b
            if op == "!=":
                return a != b
            if op == "&":
                return z3.And(a, b)
            if op == "|":
                return z3.Or(a, b)
            if op == "^":
                return z3.Xor(a, b)
            a, b = z3.If(a, I1, I0), z3.If(b, I1, I0)
        a, b = coerce(a, b)
        if op == "+":
            return a + b
        if op == "-":
            r = a - b
            if t and t[0] == "uint":
                self.oblige(st, r >= 0, "unsigned subtraction does not wrap", "unsigned", line)
                st.pc.append(r >= 0)
            return r
        if op == "*":
            return a * b
        if op == "/":
            self.oblige(st, b != 0, "no division by zero", "division", line)
            st.pc.append(b != 0)
            if a.sort() == z3.RealSort():
                return a / b
            if z3.is_int_value(b) and b.as_long() > 0:
                return z3.If(a >= 0, a / b, -((-a) / b))
            q = z3.If(a >= 0, a, -a) / z3.If(b >= 0, b, -b)
            return z3.If((a >= 0) == (b >= 0), q, -q)
        if op == "%":
            self.oblige(st, b != 0, "no division by zero", "division", line)
            st.pc.append(b != 0)
            m = z3.If(a >= 0, a, -a) % z3.If(b >= 0, b, -b)
            return z3.If(a >= 0, m, -m)
        if op == "<":
            return a < b
        if op == "<=":
            return a <= b
        if op == ">":
            return a > b
        if op == ">=":
            return a >= b
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        if op == "<<":
            a1, b1 = z3.simplify(a), z3.simplify(b)
            if z3.is_int_value(b1):
                return a * (2 ** b1.as_long())
            self.oblige(st, z3.And(b >= 0, b < 63), "shift distance in range", "bounds", line)
            return a * Pow2(b)
        if op == ">>":
            b1 = z3.simplify(b)
            if z3.is_int_value(b1):
                return a / (2 ** b1.as_long())
            return a / Pow2(b)
        if op in ("&", "|", "^"):
            f = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor"}[op], z3.IntSort(), z3.IntSort(), z3.IntSort())
            if op == "&":
                for x, y in ((a, b), (b, a)):
                    y = z3.simplify(y)
                    if z3.is_int_value(y) and y.as_long() == 1:
                        return x % 2
            self.approx.add("bit operation left uninterpreted")
            return f(a, b)
        raise Unsupported("operator " + op)

    def ptr_cmp(self, op, a, b):
        if op in ("==", "!="):
            if isinstance(a, LV) and isinstance(b, LV):
                r = self.same_object(a, b)
            elif is_z3(a) or is_z3(b):
                x, y = (a, b) if is_z3(a) else (b, a)
                if isinstance(y, LV) and isinstance(y.root, tuple) and y.root[0] == "H" and len(y.steps) == 1:
                    r = x == y.steps[0][1]
                else:
                    r = FALSE      # the address of a local object is neither null nor an address of the heap
            else:
                r = None
            if r is None:
                raise Unsupported("pointer comparison")
            return r if op == "==" else z3.Not(r)
        raise Unsupported("pointer arithmetic")

    def same_object(self, a, b):
        """Condition under which two lvalues of the same type are the same object (None: not known)."""
        if a.root != b.root:
            return FALSE
        if len(a.steps) != len(b.steps):
            return None
        cs = []
        for (k1, v1), (k2, v2) in zip(a.steps, b.steps):
            if k1 != k2:
                return None
            if k1 == "f":
                if v1 != v2:
                    return FALSE
            else:
                cs.append(v1 == v2)
        return z3.And(cs) if cs else TRUE

    def overlap(self, a, b, st):
        """May the objects of two lvalues overlap?"""
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return any(self.overlap(x, y, st) for _, x in (a.alts if isinstance(a, PtrV) else [(TRUE, a)]) for _, y in (b.alts if isinstance(b, PtrV) else [(TRUE, b)]))
        if a.root != b.root:
            return False
        for (k1, v1), (k2, v2) in zip(a.steps, b.steps):
            if k1 == "f":
                if k2 == "f" and v1 != v2:
                    return False
            elif not v1.eq(v2):
                if self.valid(st.pc, v1 != v2):
                    return False
        return True

    def iter_arith(self, op, a, b):
        if op in ("==", "!=", "<", "<=", ">", ">=") and isinstance(a, IterV) and isinstance(b, IterV):
            if a.kind == "map" or b.kind == "map":
                x, y = (a, b) if not _is_end(a) else (b, a)
                if not _is_end(y) or not same_lv(x.lv, y.lv):
                    raise Unsupported("map iterator comparison")
                if _is_end(x):
                    r = TRUE
                else:
                    r = z3.Not(x.idx[1])
                return r if op == "==" else z3.Not(r)
            return self.arith(op, a.idx, b.idx, None, None)
        if op in ("+", "-") and isinstance(a, IterV) and is_z3(b):
            return IterV(a.lv, a.idx + b if op == "+" else a.idx - b)
        if op == "-" and isinstance(a, IterV) and isinstance(b, IterV):
            return a.idx - b.idx
        raise Unsupported("iterator arithmetic")

    def e_BinaryOperator(self, e, st):
        op = e["opcode"]
        l, r = e["inner"]
        if op in ("&&", "||"):
            a = self.cond(l, st)
            sa = z3.simplify(a)
            if op == "&&" and z3.is_false(sa):
                return FALSE
            if op == "||" and z3.is_true(sa):
                return TRUE
            s1 = st.copy()
            n0 = len(st.pc)
            s1.pc.append(a if op == "&&" else z3.Not(a))
            try:
                b = self.cond(r, s1)
            except Aborted:
                st.pc.append(z3.Not(a) if op == "&&" else a)
                return FALSE if op == "&&" else TRUE
            s2 = st.copy()
            s2.pc.append(z3.Not(a) if op == "&&" else a)
            m = self.merge_states(n0, [s1, s2])
            # the disjunction of the two guards is trivially true unless facts were added
            st.become(m)
            return z3.And(a, b) if op == "&&" else z3.Or(a, b)
        if op == ",":
            self.ev(l, st)
            return self.ev(r, st)
        if op == "=":
            return self.get(st, self.lv(e, st))
        a = self.ev(l, st)
        b = self.ev(r, st)
        return self.arith(op, a, b, st, e.get("line"), self._t(e))

    def _t(self, e):
        try:
            return self.T.of(e, self.frames[-1].rec)
        except Unsupported:
            return None

    def e_ConditionalOperator(self, e, st):
        c = self.cond(self.sub(e, 0), st)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return self.ev(self.sub(e, 1), st)
        if z3.is_false(cs):
            return self.ev(self.sub(e, 2), st)
        n0 = len(st.pc)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c)
        s2.pc.append(z3.Not(c))
        a = b = None
        try:
            a = self.ev(self.sub(e, 1), s1)
        except Aborted:
            s1 = None
        try:
            b = self.ev(self.sub(e, 2), s2)
        except Aborted:
            s2 = None
        if s1 is None and s2 is None:
            raise Aborted()
        st.become(self.merge_states(n0, [s1, s2]))
        if s1 is None:
            return b
        if s2 is None:
            return a
        return merge(c, a, b)

    def e_UnaryOperator(self, e, st):
        op = e["opcode"]
        s = self.sub(e)
        if op in ("++", "--"):
            lvv = self.lv(s, st)
            v = self.get(st, lvv)
            d = 1 if op == "++" else -1
            if isinstance(v, IterV):
                n = IterV(v.lv, v.idx + d, v.kind)
            else:
                n = v + d
            self.put(st, lvv, n)
            return v if e.get("isPostfix") else n
        if op == "-":
            return -self.num(self.ev(s, st))
        if op == "+":
            return self.ev(s, st)
        if op == "!":
            return z3.Not(self.cond(s, st))
        if op == "&":
            return self.lv(s, st)
        if op == "*":
            return self.get(st, self.lv(e, st))
        if op == "~":
            return -self.num(self.ev(s, st)) - 1
        raise Unsupported("unary " + op)

    def num(self, v):
        if v.sort() == z3.BoolSort():
            return z3.If(v, I1, I0)
        return v

    def e_InitListExpr(self, e, st):
        t = self.T.of(e, self.frames[-1].rec)
        items = e.get("inner", []) or []
        if t[0] == "ref":
            t = t[1]
        if t[0] in ("vec", "arr"):
            self.st0 = st
            v = self.zero(("vec", t[1]))
            data = v.data
            for i, x in enumerate(items):
                data = sto(data, z3.IntVal(i), self.convt(self.ev(x, st), t[1]))
            return Vec(z3.IntVal(len(items)), data, t[1])
        if t[0] == "pair":
            return Struct("pair", {"first": self.ev(items[0], st), "second": self.ev(items[1], st)})
        if t[0] == "rec":
            v = self.construct_default_fields(t[1], st)
            fs = [f for f in self.T.fields(t[1])]
            d = dict(v.f)
            for (fname, fd, r), x in zip(fs, items):
                if x.get("kind") == "CXXDefaultInitExpr":
                    continue
                d[fname] = self.convt(self.ev(x, st), self.T.of(fd, r))
            return Struct(t[1], d)
        if items:
            return self.ev(items[0], st)
        self.st0 = st
        return self.zero(t)

    def convt(self, v, t):
        if is_z3(v) and t[0] in ("int", "uint", "real", "bool"):
            return self.conv(v, t)
        return v

    def e_LambdaExpr(self, e, st):
        return LamV(e, self.frames[-1])

    # ---------------------------------------------------------------- lvalues
    def lv(self, e, st):
        k = e["kind"]
        m = getattr(self, "l_" + k, None)
        if m is None:
            raise Unsupported("lvalue " + k)
        return m(e, st)

    def l_pass(self, e, st):
        s = self.sub(e)
        if s.get("valueCategory") in ("lvalue", "xvalue"):
            return self.lv(s, st)
        return self.temp(st, self.ev(s, st))

    l_ParenExpr = l_ExprWithCleanups = l_MaterializeTemporaryExpr = l_CXXBindTemporaryExpr = l_ImplicitCastExpr = l_pass
    l_CXXStaticCastExpr = l_CXXConstCastExpr = l_CStyleCastExpr = l_CXXFunctionalCastExpr = l_CXXReinterpretCastExpr = l_CXXDynamicCastExpr = l_pass

    def l_StringLiteral(self, e, st):
        return self.temp(st, self.strlit(e["value"]))

    def l_DeclRefExpr(self, e, st):
        d = e["referencedDecl"]
        i = d["id"]
        for fr in reversed(self.frames):
            if i in fr.vars:
                return fr.vars[i]
            if (i, fr.no) in st.env:
                return LV((i, fr.no))
            if not fr.vars.get("$lambda"):
                break
        n = self.u.byid.get(i)
        root = ("g", i)
        if root in st.env:
            return LV(root)
        if n is not None and n.get("kind") == "VarDecl":
            init = [c for c in n.get("inner", []) if c.get("kind") and c["kind"] != "FullComment"]
            t = self._gt(n)
            q = n["type"]["qualType"]
            const = q.startswith("const") or n.get("constexpr") or n.get("storageClass") == "static" and "const" in q
            if init and const:
                v = self.ev(init[0], st)
                st.env[root] = self.convt(v, t) if t else v
                return LV(root)
            if t is not None:
                key = ("g0", i)
                if key not in self.heap0:
                    self.heap0[key] = self.fresh(t, n.get("name", "g"))
                st.env[root] = self.heap0[key]
                return LV(root)
        if d["name"] in ("cout", "cerr", "endl"):
            return self.temp(st, Opaque("stream"))
        raise Unsupported("reference to %s" % d.get("name"))

    def _gt(self, n):
        try:
            return self.T.of(n, n.get("_rec"))
        except Unsupported:
            return None

    def l_MemberExpr(self, e, st):
        base = self.sub(e)
        mid = e.get("referencedMemberDecl")
        if mid in self.u.byid and self.u.byid[mid].get("kind") == "VarDecl":  # static member
            return self.l_DeclRefExpr({"referencedDecl": {"id": mid, "name": e["name"], "kind": "VarDecl"}}, st)
        decl = self.u.fields.get(mid, (None, None))[0]
        if e.get("isArrow"):
            p = self.ev(base, st)
            b = self.deref(p, base, st)
        else:
            if base.get("valueCategory") in ("lvalue", "xvalue"):
                b = self.lv(base, st)
            else:
                b = self.temp(st, self.ev(base, st))
        if e["name"] in ("first", "second"):
            bv = None
            if isinstance(b, LV) and b.steps and b.steps[-1][0] == "mapentry":
                key = b.steps[-1][1]
                l2 = LV(b.root, b.steps[:-1])
                return l2 + ("k", key) if e["name"] == "second" else self.temp(st, key)
        return self.field(b, e["name"], decl)

    def deref(self, p, e, st):
        if isinstance(p, (LV, PtrV)):
            return p
        if isinstance(p, IterV):
            if p.kind == "map":
                if _is_end(p):
                    raise Unsupported("end dereferenced")
                self.oblige(st, p.idx[1], "dereferenced map iterator is valid", "bounds", e.get("line"))
                return p.lv + ("mapentry", p.idx[0])
            v = self.get(st, p.lv)
            self.oblige(st, z3.And(p.idx >= 0, p.idx < v.len), "iterator in range", "bounds", e.get("line"))
            return p.lv + ("i", p.idx)
        if is_z3(p):
            try:
                t = self.T.of(e, self.frames[-1].rec)
            except Unsupported:
                if e.get("kind") != "CXXOperatorCallExpr":
                    raise
                t = self.T.of(e["inner"][1], self.frames[-1].rec)  # the smart pointer itself
            while t[0] == "ref":
                t = t[1]
            if t[0] == "ptr" and t[1][0] == "rec":
                if self.opts.get("null_checks", True):
                    pass
                return LV(("H", t[1][1]), (("h", p),))
            raise Unsupported("dereference of %s" % (t,))
        raise Unsupported("dereference of %s" % type(p).__name__)

    def l_UnaryOperator(self, e, st):
        op = e["opcode"]
        s = self.sub(e)
        if op == "*":
            p = self.ev(s, st)
            return self.deref(p, s, st)
        if op in ("++", "--"):
            self.e_UnaryOperator(e, st)
            return self.lv(s, st)
        raise Unsupported("lvalue unary " + op)

    def l_ArraySubscriptExpr(self, e, st):
        b, i = self.sub(e, 0), self.sub(e, 1)
        p = self.ev(b, st)
        idx = self.ev(i, st)
        if is_z3(p):
            l = self.block(self.T.of(b, self.frames[-1].rec), p, st)
        elif isinstance(p, IterV):
            l, idx = p.lv, p.idx + idx
        else:
            raise Unsupported("array subscript")
        v = self.get(st, l)
        self.oblige(st, z3.And(idx >= 0, idx < v.len), "index in range", "bounds", e.get("line"))
        st.pc.append(z3.And(idx >= 0, idx < v.len))
        return self.step(l, ("i", idx))

    def block(self, t, p, st):
        """The block of scalars a raw pointer points to."""
        while t[0] == "ref":
            t = t[1]
        if t[0] != "ptr" or t[1][0] not in ("int", "uint", "bool", "real"):
            raise Unsupported("raw pointer to %s" % (t,))
        self.block_root(st, t[1])
        return LV(("B", t[1][0]), (("h", p),))

    def block_root(self, st, t):
        root = ("B", t[0])
        if root not in st.env:
            if root not in self.heap0:
                self.heap0[root] = self.fresh(("vec", t), "B." + t[0], (z3.IntSort(),))
            st.env[root] = self.heap0[root]
        return st.env[root]

    def l_ConditionalOperator(self, e, st):
        c = self.cond(self.sub(e, 0), st)
        a = self.lv(self.sub(e, 1), st) if self.sub(e, 1).get("valueCategory") != "prvalue" else self.temp(st, self.ev(self.sub(e, 1), st))
        b = self.lv(self.sub(e, 2), st) if self.sub(e, 2).get("valueCategory") != "prvalue" else self.temp(st, self.ev(self.sub(e, 2), st))
        return merge(c, a, b)

    def l_BinaryOperator(self, e, st):
        op = e["opcode"]
        if op == "=":
            r = self.ev(self.sub(e, 1), st)
            l = self.lv(self.sub(e, 0), st)
            self.assign(l, r, st, self._t(self.sub(e, 0)))
            return l
        if op == ",":
            self.ev(self.sub(e, 0), st)
            return self.lv(self.sub(e, 1), st)
        raise Unsupported("lvalue operator " + op)

    def assign(self, l, r, st, t=None):
        if is_z3(r) and t is not None:
            r = self.convt(r, t)
        self.put(st, l, r)

    def l_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]
        b = self.ev(self.sub(e, 1), st)
        l = self.lv(self.sub(e, 0), st)
        a = self.get(st, l)
        t = self._t(self.sub(e, 0))
        r = self.arith(op, a, b, st, e.get("line"), t)
        self.assign(l, r, st, t)
        return l

    # ---------------------------------------------------------------- calls
    def e_CallExpr(self, e, st):
        return self.call(e, st)

    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def l_CallExpr(self, e, st):
        r = self.call(e, st)
        if isinstance(r, (LV, PtrV)):
            return r
        return self.temp(st, r)

    l_CXXMemberCallExpr = l_CXXOperatorCallExpr = l_CallExpr

    def e_CXXTemporaryObjectExpr(self, e, st):
        return self.e_CXXConstructExpr(e, st)

    def l_CXXTemporaryObjectExpr(self, e, st):
        return self.temp(st, self.ev(e, st))

    l_CXXConstructExpr = l_CXXTemporaryObjectExpr

    def e_CXXNewExpr(self, e, st):
        t = self.T.of(e, self.frames[-1].rec)
        if e.get("isArray"):
            n = self.ev(self.sub(e), st)
            self.block_root(st, t[1])
            a = self.new_addr(st)
            self.put(st, LV(("B", t[1][0]), (("h", a),)), Vec(n, self.fresh(t[1], "new[]", (z3.IntSort(),)), t[1]))
            return a
        c = [x for x in e.get("inner", []) if x["kind"] in ("CXXConstructExpr", "InitListExpr")]
        v = self.ev(c[0], st)
        return self.alloc(t[1][1], v, st)

    def new_addr(self, st):
        a = st.env.get(("alloc",))
        if a is None:
            a = self.alloc0
        n = z3.Const(self.fresh_name("new"), z3.IntSort())
        st.pc.append(n > a)
        st.pc.append(n > 0)
        st.env[("alloc",)] = n
        if self.log is not None:
            self.log.add((("alloc",), ()))
        return n

    def alloc(self, rec, v, st):
        n = self.new_addr(st)
        self.put(st, LV(("H", rec), (("h", n),)), v)
        return n

    def s_CXXDeleteExpr(self, s, st):
        return [("normal", st, None)]

    def construct_default_fields(self, rec, st):
        d = {}
        for fname, fd, r in self.T.fields(rec):
            init = [c for c in fd.get("inner", []) if c.get("kind") not in ("FullComment",)]
            try:
                t = self.T.of(fd, r)
            except Unsupported:
                d[fname] = Opaque(rec + "." + fname)
                continue
            if init and fd.get("hasInClassInitializer"):
                v = self.ev(init[0], st)
                d[fname] = self.convt(v, t)
            elif t[0] == "rec":
                d[fname] = self.construct(t[1], None, [], st)
            elif t[0] in ("vec", "map"):
                d[fname] = self.zero(t)
            else:
                d[fname] = self.fresh(t, fname)
        return Struct(rec, d)

    def ctor_of(self, rec, nargs, ctor_type=None):
        n = self.u.records.get(rec)
        cands = []
        for c in n.get("inner", []):
            if c.get("kind") == "CXXConstructorDecl":
                ps = params(c)
                if ctor_type and c["type"]["qualType"] == ctor_type:
                    return c
                if len(ps) == nargs:
                    cands.append(c)
        return cands[0] if cands and not ctor_type else None

    def construct(self, rec, ctor_type, args, st, default_args=None):
        """Constructs an object of record type; args are AST nodes."""
        if rec not in self.u.records:
            raise Unsupported("constructor of %s" % rec)
        c = self.ctor_of(rec, len(args), ctor_type)
        d = self.u.definition(c["id"]) if c is not None else None
        if d is None:
            if not args:
                return self.construct_default_fields(rec, st)
            raise Unsupported("constructor %s(%s)" % (rec, ctor_type))
        # arguments are evaluated in the caller's frame
        fr = self.new_frame(d, rec)
        self.bind_params(d, args, st, fr)
        tmp = self.temp(st, Struct(rec, {f: None for f, _, _ in self.T.fields(rec)}), "obj")
        fr.this = tmp
        self.frames.append(fr)
        try:
            self.init_members(d, rec, tmp, st)
            n0 = len(st.pc)
            outs = self.run(body(d), st)
        finally:
            self.frames.pop()
        sts = [x[1] for x in outs if x[0] in ("normal", "return")]
        m = self.merge_states(n0, sts)
        if m is None:
            raise Aborted()
        st.become(m)
        return self.get(st, tmp)

    def init_members(self, d, rec, tmp, st):
        inits = [c for c in d.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
        done = set()
        vals = {}
        for c in inits:
            x = (c.get("inner") or [None])[0]
            if "delegatingInit" in c:
                v = self.ev(x, st)
                st.env[tmp.root] = v
                return
            if "baseInit" in c and "enable_shared_from_this<" in c["baseInit"]["qualType"]:
                continue
            if "baseInit" in c:
                v = self.ev(x, st)
                for k, y in v.f.items():
                    vals[k] = y
                    done.add(k)
            elif "anyInit" in c:
                nm = c["anyInit"]["name"]
                fd = next((f for f in self.T.fields(rec) if f[0] == nm), None)
                try:
                    t = self.T.of(fd[1], fd[2])
                except Unsupported:
                    vals[nm] = Opaque(nm)
                    continue
                if x is None or x.get("kind") == "CXXDefaultInitExpr":
                    init = [y for y in fd[1].get("inner", []) if y.get("kind") not in ("FullComment",)]
                    x = init[0]
                if t[0] == "ref":
                    vals[nm] = Opaque(nm)
                    continue
                try:
                    vals[nm] = self.convt(self.ev(x, st), t)
                except Unsupported:
                    if t[0] in ("rec", "opaque", "fun"):
                        vals[nm] = self.fresh(t, nm)
                        self.trusted.add("initialiser of %s::%s left arbitrary" % (rec, nm))
                    else:
                        raise
            st.env[tmp.root] = Struct(rec, {**st.env[tmp.root].f, **vals})
        for fname, fd, r in self.T.fields(rec):
            if fname in vals:
                continue
            try:
                t = self.T.of(fd, r)
            except Unsupported:
                vals[fname] = Opaque(fname)
                continue
            if t[0] in ("vec", "map"):
                vals[fname] = self.zero(t)
            elif t[0] == "rec":
                vals[fname] = self.construct(t[1], None, [], st)
            else:
                vals[fname] = self.fresh(t, fname)
        st.env[tmp.root] = Struct(rec, {f: vals[f] for f, _, _ in self.T.fields(rec)})

    def e_CXXConstructExpr(self, e, st):
        args = [a for a in e.get("inner", [])]
        t = self.T.of(e, self.frames[-1].rec)
        real = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        self.st0 = st
        if t[0] == "rec":
            ct = (e.get("ctorType") or {}).get("qualType")
            if len(real) == 1 and ct:
                p = norm(ct[ct.index("(") + 1:])
                p = p[:-1] if p.endswith(")") else p
                try:
                    pt = self.T.parse(p.replace("noexcept", "").rstrip(")"), t[1])
                except Unsupported:
                    pt = None
                if pt == ("ref", t):
                    return self.ev(real[0], st)
            return self.construct(t[1], ct, args, st)
        if t[0] in ("vec", "arr"):
            if not real:
                return self.zero(t) if t[0] == "vec" else self.fresh(t, "arr")
            a0 = self.ev(real[0], st)
            if len(real) == 1 or (len(real) == 2 and "allocator" in str(real[1].get("type"))):
                if isinstance(a0, Vec):
                    return Vec(a0.len, a0.data, t[1])
                return Vec(a0, lift(self.zero(t[1]), z3.IntSort()), t[1])
            a1 = self.ev(real[1], st)
            if isinstance(a0, IterV) and isinstance(a1, IterV):
                src = self.get(st, a0.lv)
                if z3.is_int_value(z3.simplify(a0.idx)) and z3.simplify(a0.idx).as_long() == 0:
                    return Vec(a1.idx, src.data, src.et)
                i = z3.Int("!i")
                return Vec(a1.idx - a0.idx, tmap(lambda x: z3.Lambda([i], z3.Select(x, i + a0.idx)), src.data), src.et)
            return Vec(a0, lift(self.convt(a1, t[1]), z3.IntSort()), t[1])
        if t[0] == "pair":
            if len(real) == 2:
                return Struct("pair", {"first": self.convt(self.ev(real[0], st), t[1]), "second": self.convt(self.ev(real[1], st), t[2])})
            if len(real) == 1:
                return self.ev(real[0], st)
            return self.zero(t)
        if t[0] == "ptr":
            if not real:
                return I0
            return self.ev(real[0], st)
        if t[0] == "str":
            if not real:
                return self.strlit('""')
            return self.ev(real[0], st)
        if t[0] == "map":
            if not real:
                return self.zero(t)
            return self.ev(real[0], st)
        if t[0] == "iter":
            return self.ev(real[0], st)
        if t[0] in ("int", "uint", "real", "bool"):
            return self.conv(self.ev(real[0], st), t) if real else self.zero(t)
        return Opaque(str(t))

    # function calls
    def callee(self, e):
        f = e["inner"][0]
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = f["inner"][0]
        return f

    def new_frame(self, d, rec):
        self.fno += 1
        fr = Frame(self.fno, None, rec, d)
        q = d["type"]["qualType"]
        if "_retref" not in d:
            ret = q[:q.index("(")].strip() if "(" in q else q
            if "decltype" in q or ret.startswith("auto"):
                ret = q.split("->")[-1]
            d["_retref"] = ret.endswith("&")
        return fr

    def bind_params(self, d, args, st, fr, env_frame=None):
        ps = params(d)
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            if a is None or (isinstance(a, dict) and a.get("kind") == "CXXDefaultArgExpr"):
                init = [c for c in p.get("inner", []) if c.get("kind")]
                if not init:
                    # look for the default on another declaration
                    init = self.default_arg(d, i)
                a = init[0]
            t = None
            try:
                t = self.T.of(p, fr.rec)
            except Unsupported:
                t = ("unknown",)
            if isinstance(a, dict):
                if t[0] == "ref":
                    if a.get("valueCategory") in ("lvalue", "xvalue"):
                        fr.vars[p["id"]] = self.lv(a, st)
                    else:
                        fr.vars[p["id"]] = self.temp(st, self.convt(self.ev(a, st), t[1]))
                else:
                    try:
                        st.env[(p["id"], fr.no)] = self.convt(self.ev(a, st), t)
                    except Unsupported:
                        if t[0] in ("opaque", "unknown"):
                            st.env[(p["id"], fr.no)] = Opaque("arg")
                        else:
                            raise
            else:  # already a value / lvalue
                if t[0] == "ref" and isinstance(a, (LV, PtrV)):
                    fr.vars[p["id"]] = a
                elif t[0] == "ref":
                    fr.vars[p["id"]] = self.temp(st, a)
                else:
                    st.env[(p["id"], fr.no)] = self.convt(a, t) if is_z3(a) else a
            if "name" in p:
                fr.names[p["name"]] = (p["id"], fr.no)

    def default_arg(self, d, i):
        for n in self.u.byid.values():
            if n.get("mangledName") == d.get("mangledName") and n is not d:
                ps = params(n)
                if i < len(ps):
                    init = [c for c in ps[i].get("inner", []) if c.get("kind")]
                    if init:
                        return init
        raise Unsupported("default argument")

    def call(self, e, st):
        """Returns a value, or an LV for functions that return references."""
        self._ret_is_lv = False
        k = e["kind"]
        f = self.callee(e)
        args = e["inner"][1:]
        if k == "CXXMemberCallExpr":
            return self.member_call(e, f, args, st)
        if f["kind"] != "DeclRefExpr":
            if f["kind"] == "MemberExpr":
                return self.member_call(e, f, args, st)
            raise Unsupported("call through %s" % f["kind"])
        d = f["referencedDecl"]
        name = d["name"]
        if k == "CXXOperatorCallExpr":
            return self.operator_call(e, d, name, args, st)
        if d["kind"] in ("VarDecl", "ParmVarDecl"):
            raise Unsupported("call through a function pointer")
        df = self.u.definition(d["id"])
        if df is not None or d["id"] in self.u.byid:
            decl = df or self.u.byid[d["id"]]
            return self.invoke(decl, None, args, st, e)
        return self.std_call(e, name, args, st)

    def invoke(self, d, this, args, st, e):
        """Calls a function of /repo: through its contract when it has one, otherwise by inlining its body."""
        if "_q" not in d:
            d = self.u.definition(d["id"]) or d
        q = d.get("_q") or ((d.get("_rec") + "::" if d.get("_rec") else "") + d["name"])
        ps = params(d)
        con = self.find_contract(q, d)
        fr = self.new_frame(d, d.get("_rec"))
        fr.this = this
        if con is not None and not (con.inline_in and con.inline_in(self.cur)):
            return self.apply_contract(con, d, fr, this, args, st, e)
        if body(d) is None:
            raise Unsupported("call of %s, which has no body here" % q)
        if len(self.frames) > MAXDEPTH or sum(1 for x in self.frames if x.fn is d) > 0:
            raise Unsupported("recursive call of %s without a contract" % q)
        self.bind_params(d, args, st, fr)
        self.inlined.add(q)
        self.frames.append(fr)
        n0 = len(st.pc)
        try:
            outs = self.run(body(d), st)
        finally:
            self.frames.pop()
        return self.join_returns(outs, st, n0, d)

    def join_returns(self, outs, st, n0, d):
        rs = [(x[1], x[2]) for x in outs if x[0] in ("normal", "return")]
        if not rs:
            raise Aborted()
        if len(rs) == 1:
            st.become(rs[0][0])
            v = rs[0][1]
        else:
            vals = [r[1] for r in rs]
            guards = [z3.And(r[0].pc[n0:]) if len(r[0].pc) > n0 else TRUE for r in rs]
            v = vals[-1]
            lvs = [isinstance(x, LV) for x in vals]
            m = self.merge_states(n0, [r[0] for r in rs])
            if all(x is None for x in vals):
                v = None
            else:
                try:
                    for g, w in zip(reversed(guards[:-1]), reversed(vals[:-1])):
                        v = merge(g, w, v)
                except Unsupported:
                    if d.get("_retref"):
                        v2 = [self.get(r[0], r[1]) for r in rs]
                        v = v2[-1]
                        for g, w in zip(reversed(guards[:-1]), reversed(v2[:-1])):
                            v = merge(g, w, v)
                        st.become(m)
                        v = self.temp(st, v)
                        self._ret_is_lv = True
                        return v
                    raise
            st.become(m)
        self._ret_is_lv = bool(d.get("_retref"))
        return v

    def find_contract(self, q, d):
        c = self._find_contract(q, d)
        if c is not None and self.opts.get("inline_all") and body(d) is not None and not any(x.fn is d for x in self.frames):
            return None
        return c

    def _find_contract(self, q, d):
        # exact name, or class-generic: Name<*>::f
        if q not in self._cq:
            g = _re.sub(r"<[^<>]*(<[^<>]*>)?[^<>]*>", "<*>", q)
            self._cq[q] = [c for c in self.contracts.values() if c.q in (q, g)]
        for c in self._cq[q]:
            if ((c.nparams is None or c.nparams == len(params(d))) and (c.sig is None or c.sig in norm(d["type"]["qualType"]))
                    and (c.instances is None or "<*>" not in c.q or c.instances(d.get("_rec") or q))):
                return c
        return None

    def apply_contract(self, con, d, fr, this, args, st, e):
        self.used.add(con)
        self.bind_params(d, args, st, fr)
        pl = []
        for p in params(d):
            pl.append(fr.vars.get(p["id"]) or LV((p["id"], fr.no)))
        # contracts assume that what they modify is not also reachable through another argument
        objs = [("this", this)] if this is not None else []
        objs += [("arg%d" % i, l) for i, l in enumerate(pl)]
        within = con.opts.get("within", {})
        for i, f in within.items():       # this argument has to be a cell of a vector of the object
            k = len(this.steps)
            l = pl[i]
            if not (isinstance(l, LV) and len(l.steps) == k + 2 and same_lv(LV(l.root, l.steps[:k]), this) and l.steps[k] == ("f", f) and l.steps[k + 1][0] == "i"):
                raise Unsupported("argument %d of %s is not a cell of %s" % (i, con.q, f))
        free = {"arg%d" % i for i in within} | {"this"} if within else set()
        for n1, l1 in objs:
            for m in [m for m in con.modifies if m == n1 or m.startswith(n1 + ".")]:
                part = LV(l1.root, list(l1.steps) + [("f", x) for x in m.split(".")[1:]]) if isinstance(l1, LV) else l1
                for n2, l2 in objs:
                    if n2 != n1 and not ("this" in (n1, n2) and n1 in free and n2 in free) and self.overlap(part, l2, st):
                        raise Unsupported("arguments of %s may overlap" % con.q)
        self.approx.add("contract of " + con.q)
        pre = st.copy()
        cx = Ctx(self, d, pre, None, this, pl, None)
        for lab, g in con.requires(cx):
            self.oblige(st, g, "precondition of %s: %s" % (con.q, lab), "call", e.get("line"))
            st.pc.append(g)
        # frame
        for m in con.modifies:
            self.havoc_target(m, this, pl, st)
        rt = None
        q = d["type"]["qualType"]
        ret = q[:q.index("(")].strip()
        rv = None
        if con.returns is not None:
            rv = con.returns(cx)
        elif norm(ret) != "void":
            rt = self.T.parse(ret, d.get("_rec"))
            if con.opts.get("allocates") == "ret":
                rv = self.new_addr(st)
                l = LV(("H", rt[1][1]), (("h", rv),))
                self.put(st, l, self.fresh_like(self.get(st, l)))
            elif con.opts.get("allocates"):
                raise Unsupported("call of %s, which creates objects" % con.q)
            else:
                rv = self.fresh(rt, "ret")
        post = Ctx(self, d, pre, st, this, pl, rv)
        for lab, g in con.ensures(post):
            st.pc.append(g)
        if con.havocs_taint:
            st.taint = st.taint
        self._ret_is_lv = isinstance(rv, LV)
        return rv

    def havoc_target(self, m, this, pl, st):
        if m == "this":
            l = this
        elif m.startswith("this."):
            l = this
            for f in m[5:].split("."):
                l = self.field(l, f, self.decl_rec(f, this))
        elif m.startswith("arg"):
            parts = m[3:].split(".")
            l = pl[int(parts[0])]
            for f in parts[1:]:
                l = self.field(l, f, None)
        elif m.startswith("heap:"):
            cls, _, f = m[5:].partition(".")
            h = self.heap(st, cls)
            d = dict(h.f)
            for k in d:
                if not f or k == f:
                    d[k] = self.fresh_like(d[k])
            st.env[("H", cls)] = Struct(h.name, d)
            if self.log is not None:
                self.log.add((("H", cls), (("f", f),) if f else ()))
            return
        else:
            raise Unsupported("modifies " + m)
        self.put(st, l, self.fresh_like(self.get(st, l)))

    def decl_rec(self, f, this):
        if isinstance(this, LV) and isinstance(this.root, tuple) and this.root[0] == "H":
            for n, fd, r in self.T.fields(this.root[1]):
                if n == f:
                    return r
        return None

    # member calls
    def member_call(self, e, f, args, st):
        base = f["inner"][0]
        mid = f.get("referencedMemberDecl")
        name = f["name"]
        d = self.u.byid.get(mid)
        if d is not None and d.get("kind") in ("CXXMethodDecl", "CXXConversionDecl", "CXXDestructorDecl"):
            if d.get("storageClass") == "static":
                return self.invoke(self.u.definition(mid) or d, None, args, st, e)
            if f.get("isArrow"):
                p = self.ev(base, st)
                this = self.deref(p, base, st)
            elif base.get("valueCategory") in ("lvalue", "xvalue"):
                this = self.lv(base, st)
            else:
                this = self.temp(st, self.ev(base, st))
            df = self.u.definition(mid)
            if df is None:
                if self.find_contract((d.get("_rec") or "") + "::" + name, d) is None:
                    raise Unsupported("call of %s::%s without a body" % (d.get("_rec"), name))
                d["_q"] = (d.get("_rec") or "") + "::" + name
                df = d
            return self.invoke(df, this, args, st, e)
        # standard library member
        if f.get("isArrow"):
            p = self.ev(base, st)
            lvv = self.deref(p, base, st)
        elif base.get("valueCategory") in ("lvalue", "xvalue"):
            lvv = self.lv(base, st)
        else:
            lvv = self.temp(st, self.ev(base, st))
        return self.std_member(e, name, lvv, base, args, st)

    def operator_call(self, e, d, name, args, st):
        op = name[8:].strip() if name.startswith("operator") else name
        df = self.u.definition(d["id"])
        if df is not None:
            if df["kind"] == "CXXMethodDecl":
                a0 = args[0]
                this = self.lv(a0, st) if a0.get("valueCategory") in ("lvalue", "xvalue") else self.temp(st, self.ev(a0, st))
                if op == "()" and isinstance(self.get(st, this), LamV):
                    return self.call_lambda(self.get(st, this), args[1:], st)
                return self.invoke(df, this, args[1:], st, e)
            return self.invoke(df, None, args, st, e)
        a0 = args[0]
        if op == "()":
            this = self.lv(a0, st) if a0.get("valueCategory") in ("lvalue", "xvalue") else self.temp(st, self.ev(a0, st))
            v = self.get(st, this)
            if isinstance(v, LamV):
                return self.call_lambda(v, args[1:], st)
            raise Unsupported("call operator")
        if op == "=":
            # implicit or library assignment
            r = self.ev(args[1], st)
            l = self.lv(a0, st)
            cur = None
            try:
                cur = self.get(st, l)
            except Unsupported:
                pass
            if isinstance(cur, Vec) and isinstance(r, Vec):
                r = Vec(r.len, r.data, cur.et)
            self.put(st, l, r)
            self._ret_is_lv = True
            return l
        if op in ("<<", ">>"):
            try:
                t = self.T.of(a0, self.frames[-1].rec)
            except Unsupported:
                t = ("opaque",)
            return Opaque("stream")
        if op == "[]":
            l = self.lv(a0, st) if a0.get("valueCategory") in ("lvalue", "xvalue") else self.temp(st, self.ev(a0, st))
            i = self.ev(args[1], st)
            self._ret_is_lv = True
            return self.index(l, i, st, e)
        if op in ("->", "*") and len(args) == 1:
            p = self.ev(a0, st)
            if op == "->":
                self._ret_is_lv = False
                return p
            r = self.deref(p, a0, st)
            self._ret_is_lv = True
            return r
        if op in ("++", "--"):
            l = self.lv(a0, st)
            v = self.get(st, l)
            self.put(st, l, IterV(v.lv, v.idx + (1 if op == "++" else -1), v.kind))
            return v if len(args) == 2 else self.get(st, l)
        if len(args) == 2:
            a, b = self.ev(args[0], st), self.ev(args[1], st)
            if isinstance(a, Vec) and isinstance(b, Vec) and op in ("==", "!="):
                if not is_z3(a.data):
                    raise Unsupported("comparison of nested vectors")
                g = veceq(a, b)
                return g if op == "==" else z3.Not(g)
            if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-"):
                if op == "+" and self._t(e) and self._t(e)[0] == "str":
                    self.approx.add("strings are opaque")
                    return self.fresh(("str",), "str")
                return self.arith(op, a, b, st, e.get("line"))
        raise Unsupported("operator %s" % op)

    def index(self, l, i, st, e):
        v = self.get(st, l)
        if isinstance(v, Vec):
            self.oblige(st, z3.And(i >= 0, i < v.len), "index in range", "bounds", e.get("line"))
            st.pc.append(z3.And(i >= 0, i < v.len))
            return self.step(l, ("i", i))
        if isinstance(v, MapV):
            has = z3.Select(v.has, i)
            self.st0 = st
            z = self.zero(v.vt)
            nv = merge(has, sel(v.val, i), z)
            self.put(st, self.step(l, ("k", i)), nv)
            return self.step(l, ("k", i))
        raise Unsupported("index of %s" % type(v).__name__)

    def call_lambda(self, lam, args, st):
        m = None
        for c in lam.node.get("inner", []):
            if c.get("kind") == "CXXRecordDecl":
                for x in c.get("inner", []):
                    if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()":
                        m = x
        d = m
        b = [c for c in lam.node["inner"] if c.get("kind") == "CompoundStmt"]
        fr = Frame(lam.env.no, lam.env.this, lam.env.rec, d)
        self.new_frame(d, lam.env.rec)
        fr.vars = dict(lam.env.vars)
        fr.names = dict(lam.env.names)
        self.bind_params(d, args, st, fr)
        self.frames.append(fr)
        n0 = len(st.pc)
        try:
            outs = self.run(b[-1] if b else body(d), st)
        finally:
            self.frames.pop()
        return self.join_returns(outs, st, n0, d)

    # ---------------------------------------------------------------- standard library models (trusted)
    def std_member(self, e, name, lvv, base, args, st):
        v = self.get(st, lvv)
        self._ret_is_lv = False
        if isinstance(v, Vec):
            self.trusted.add("std::vector::" + name)
            A = lambda i: self.ev(args[i], st)
            if name == "size":
                if not isinstance(v.len, z3.IntNumRef):
                    st.pc.append(v.len >= 0)
                return v.len
            if name == "empty":
                st.pc.append(v.len >= 0)
                return v.len == 0
            if name in ("push_back", "emplace_back"):
                st.pc.append(v.len >= 0)
                if name == "emplace_back" and (len(args) != 1 or (v.et[0] == "rec" and self._argtype(args[0]) != v.et)):
                    x = self.emplace(v.et, args, st)
                else:
                    x = self.convt(A(0), v.et)
                v = self.get(st, lvv)
                self.put(st, lvv, Vec(v.len + 1, sto(v.data, v.len, x), v.et))
                return None
            if name == "pop_back":
                self.oblige(st, v.len > 0, "pop_back on a non-empty vector", "bounds", e.get("line"))
                self.put(st, lvv, Vec(v.len - 1, v.data, v.et))
                return None
            if name in ("back", "front"):
                self.oblige(st, v.len > 0, name + " of a non-empty vector", "bounds", e.get("line"))
                st.pc.append(v.len > 0)
                self._ret_is_lv = True
                return self.step(lvv, ("i", v.len - 1 if name == "back" else I0))
            if name == "at":
                self._ret_is_lv = True
                return self.index(lvv, A(0), st, e)
            if name == "clear":
                self.put(st, lvv, Vec(I0, v.data, v.et))
                return None
            if name in ("reserve", "shrink_to_fit"):
                return None
            if name in ("resize", "assign") and len(args) >= 1:
                n = A(0)
                self.st0 = st
                if isinstance(n, IterV):
                    raise Unsupported("assign of a range")
                z = self.convt(A(1), v.et) if len(args) > 1 and args[1].get("kind") != "CXXDefaultArgExpr" else self.zero(v.et)
                v = self.get(st, lvv)
                if name == "assign" or z3.is_int_value(z3.simplify(v.len)) and z3.simplify(v.len).as_long() == 0:
                    data = lift(z, z3.IntSort())
                else:
                    i = z3.Int("!i")
                    data = tmap(lambda a, x: z3.Lambda([i], z3.If(i < v.len, z3.Select(a, i), x)), v.data, z)
                self.put(st, lvv, Vec(n, data, v.et))
                return None
            if name in ("begin", "cbegin"):
                return IterV(lvv, I0)
            if name in ("end", "cend"):
                return IterV(lvv, v.len)
            if name == "insert" and len(args) == 2:
                pos, x = A(0), self.convt(A(1), v.et)
                v = self.get(st, lvv)
                self.oblige(st, z3.And(pos.idx >= 0, pos.idx <= v.len), "insertion within the vector", "bounds", e.get("line"))
                i = z3.Int("!i")
                data = tmap(lambda a, y: z3.Lambda([i], z3.If(i < pos.idx, z3.Select(a, i), z3.If(i == pos.idx, y, z3.Select(a, i - 1)))), v.data, x)
                self.put(st, lvv, Vec(v.len + 1, data, v.et))
                return None
            if name == "insert" and len(args) == 3:
                pos, a, b = A(0), A(1), A(2)
                src = self.get(st, a.lv)
                self.oblige(st, pos.idx == v.len, "insertion at the end", "model", e.get("line"))
                st.pc.append(pos.idx == v.len)
                st.pc.append(v.len >= 0)
                i = z3.Int("!i")
                data = tmap(lambda x, y: z3.Lambda([i], z3.If(i < v.len, z3.Select(x, i), z3.Select(y, i - v.len + a.idx))), v.data, src.data)
                self.put(st, lvv, Vec(v.len + (b.idx - a.idx), data, v.et))
                return None
            if name == "swap":
                o = self.lv(args[0], st)
                w = self.get(st, o)
                self.put(st, lvv, w)
                self.put(st, o, v)
                return None
            if name == "operator=":
                w = A(0)
                if isinstance(w, Vec):
                    self.put(st, lvv, Vec(w.len, w.data, v.et))
                    self._ret_is_lv = True
                    return lvv
            raise Unsupported("std::vector::" + name)
        if isinstance(v, MapV):
            self.trusted.add("std::map::" + name)
            A = lambda i: self.ev(args[i], st)
            if name == "find":
                k = A(0)
                return IterV(lvv, (k, z3.Select(v.has, k)), "map")
            if name in ("end", "cend"):
                return IterV(lvv, None, "map")
            if name == "count":
                return z3.If(z3.Select(v.has, A(0)), I1, I0)
            if name == "at":
                k = A(0)
                self.oblige(st, z3.Select(v.has, k), "key present", "bounds", e.get("line"))
                self._ret_is_lv = True
                return self.step(lvv, ("k", k))
            if name == "clear":
                self.put(st, lvv, MapV(z3.K(v.has.sort().domain(), FALSE), v.val, v.kt, v.vt))
                return None
            raise Unsupported("std::map::" + name)
        if is_z3(v) and v.sort() == z3.IntSort():  # smart pointer or string
            if name == "get":
                return v
            if name == "operator bool":
                return v != 0
            if name in ("c_str", "str"):
                return v
            if name == "operator=" and len(args) == 1:
                w = self.ev(args[0], st)
                if is_z3(w) and w.sort() == z3.IntSort():
                    self.put(st, lvv, w)
                    self._ret_is_lv = True
                    return lvv
            if name in ("size", "length", "empty") and self._argtype_of_object(e) == "str":
                self.approx.add("the length of a string is left uninterpreted")
                n = z3.Function("str_size", z3.IntSort(), z3.IntSort())(v)
                st.pc.append(n >= 0)
                return n == 0 if name == "empty" else n
            if name == "reset":
                self.put(st, lvv, I0)
                return None
        if isinstance(v, (LV, PtrV)) and name == "get":
            return v
        if isinstance(v, Opaque):
            return Opaque("result")
        raise Unsupported("member %s of %s" % (name, type(v).__name__))

    def _argtype_of_object(self, e):
        x = e["inner"][0]
        while x.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            x = x["inner"][0]
        if x.get("kind") == "MemberExpr":
            t = self._argtype(x["inner"][0])
            return t[0] if t else None

    def _argtype(self, a):
        try:
            t = self.T.of(a, self.frames[-1].rec)
            while t[0] == "ref":
                t = t[1]
            return t
        except Unsupported:
            return None

    def emplace(self, et, args, st):
        if et[0] == "rec":
            return self.construct(et[1], None, args, st)
        if et[0] == "pair":
            return Struct("pair", {"first": self.convt(self.ev(args[0], st), et[1]), "second": self.convt(self.ev(args[1], st), et[2])})
        if len(args) == 1:
            return self.convt(self.ev(args[0], st), et)
        if et[0] == "vec" and len(args) <= 2:
            self.st0 = st
            n = self.ev(args[0], st)
            x = self.convt(self.ev(args[1], st), et[1]) if len(args) > 1 else self.zero(et[1])
            return Vec(n, lift(x, z3.IntSort()), et[1])
        raise Unsupported("emplace of %s" % (et,))

    def std_call(self, e, name, args, st):
        self._ret_is_lv = False
        self.trusted.add("std::" + name)
        A = lambda i: self.ev(args[i], st)
        if name in ("min", "max"):
            a, b = A(0), A(1)
            if is_z3(a) and is_z3(b):
                a, b = coerce(a, b)
                return z3.If(b < a, b, a) if name == "min" else z3.If(a < b, b, a)
        if name == "swap":
            l, r = self.lv(args[0], st), self.lv(args[1], st)
            a, b = self.get_raw(st, l), self.get_raw(st, r)
            self.put(st, l, b)
            self.put(st, r, a)
            return None
        if name in ("abs", "fabs"):
            a = A(0)
            return z3.If(a >= 0, a, -a)
        if name in ("move", "forward", "as_const"):
            if args[0].get("valueCategory") in ("lvalue", "xvalue"):
                self._ret_is_lv = True
                return self.lv(args[0], st)
            return A(0)
        if name in ("exit", "abort", "__assert_fail", "terminate", "_Exit"):
            self.abort(e, st)
            raise Aborted()
        if name in ("printf", "fflush", "puts"):
            return I0
        if name == "find" and len(args) == 3:
            b, f, x = A(0), A(1), A(2)
            v = self.get(st, b.lv)
            i, j = self.fresh(("int",), "found"), z3.Int("!j")
            st.pc.append(z3.And(b.idx <= i, i <= f.idx))
            el = sel(v.data, i)
            if is_z3(el):
                st.pc.append(z3.Implies(i < f.idx, el == x))
                st.pc.append(z3.ForAll([j], z3.Implies(z3.And(b.idx <= j, j < i), z3.Select(v.data, j) != x)))
            else:
                self.approx.add("std::find over a class is taken to return any position")
            return IterV(b.lv, i)
        if name in ("sort", "stable_sort", "shuffle", "random_shuffle", "reverse"):
            b = A(0)
            v = self.get(st, b.lv)
            if name in ("sort", "stable_sort") and len(args) == 2 and is_z3(v.data) and v.data.sort().range() in (z3.IntSort(), z3.RealSort()):
                # an ascending permutation of the elements
                f = A(1)
                self.oblige(st, z3.And(b.idx == 0, f.idx == v.len), "sort of a whole vector", "model", e.get("line"))
                out, src = self.fresh_like(v.data), self.fresh_like(v.data)
                st.pc.append(src == v.data)
                to, fro = (self.fresh_like(z3.K(z3.IntSort(), I0)) for _ in range(2))
                i, j = z3.Ints("!si !sj")
                inr = lambda x: z3.And(0 <= x, x < v.len)
                st.pc.append(forall([i], z3.Implies(inr(i), z3.And(inr(z3.Select(to, i)), z3.Select(out, i) == z3.Select(src, z3.Select(to, i)), z3.Select(fro, z3.Select(to, i)) == i)), z3.Select(out, i)))
                st.pc.append(forall([i], z3.Implies(inr(i), z3.And(inr(z3.Select(fro, i)), z3.Select(src, i) == z3.Select(out, z3.Select(fro, i)), z3.Select(to, z3.Select(fro, i)) == i)), z3.Select(src, i)))
                st.pc.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < v.len), z3.Select(out, i) <= z3.Select(out, j)), patterns=[z3.MultiPattern(z3.Select(out, i), z3.Select(out, j))]))
                self.put(st, b.lv, Vec(v.len, out, v.et))
                return None
            self.approx.add("std::%s leaves the elements arbitrary" % name)
            self.put(st, b.lv, Vec(v.len, self.fresh_like(v.data), v.et))
            return None
        if name == "make_pair":
            return Struct("pair", {"first": A(0), "second": A(1)})
        if name == "fill":
            b, f, x = A(0), A(1), A(2)
            if is_z3(b):
                b = IterV(self.block(self.T.of(args[0], self.frames[-1].rec), b, st), I0)
            v = self.get(st, b.lv)
            x = self.convt(x, v.et)
            self.oblige(st, z3.And(b.idx == 0, f.idx == v.len), "fill of a whole vector", "model", e.get("line"))
            self.put(st, b.lv, Vec(v.len, lift(x, z3.IntSort()), v.et))
            return None
        if name in ("memcpy", "__builtin_memcpy"):
            def blk(x):
                while x["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr") and "void" in x["type"]["qualType"]:
                    x = x["inner"][0]
                return self.block(self.T.of(x, self.frames[-1].rec), self.ev(x, st), st)
            d, f = blk(args[0]), blk(args[1])
            self.approx.add("memcpy is taken to copy the whole block")
            self.put(st, d, self.get(st, f))
            return I0
        if name in ("make_shared", "make_unique"):
            t = self.T.of(e, self.frames[-1].rec)
            return self.alloc(t[1][1], self.construct(t[1][1], None, args, st), st)
        if name in ("sqrt", "log", "exp", "pow", "log2", "floor", "ceil", "round", "cbrt", "log10"):
            vs = [self.conv(A(i), ("real",)) for i in range(len(args))]
            if name == "floor":
                return z3.ToReal(z3.ToInt(vs[0]))
            if name == "ceil":
                return -z3.ToReal(z3.ToInt(-vs[0]))
            self.approx.add("std::%s left uninterpreted" % name)
            f = z3.Function("math_" + name, *[z3.RealSort()] * (len(vs) + 1))
            return f(*vs)
        if name in ("isnan", "isinf"):
            self.approx.add("no NaN or infinity")
            return FALSE
        if name in ("clock", "time", "now"):
            self.approx.add("clock arbitrary")
            return self.fresh(("int",), "clock")
        if name == "to_string":
            self.approx.add("strings are opaque")
            return self.fresh(("str",), "str")
        if name in ("begin", "end"):
            l = self.lv(args[0], st)
            v = self.get(st, l)
            return IterV(l, I0 if name == "begin" else v.len)
        if name == "max" or name == "lowest" or name == "infinity" or name == "quiet_NaN":
            t = self._t(e)
            if t and t[0] == "real":
                return DBL_MAX if name != "lowest" else -DBL_MAX
            if t and t[0] in ("int",):
                return z3.IntVal(2 ** 31 - 1)
        if name == "isfinite":
            return TRUE
        raise Unsupported("call of std::%s" % name)

    def get_raw(self, st, l):
        return self.get(st, l)


def _exact(f):
    from fractions import Fraction
    fr = Fraction(f)
    return "%d/%d" % (fr.numerator, fr.denominator)


DBL_MAX = z3.RealVal(str(int(1.7976931348623157e308)))
_pow2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def Pow2(b):
    return Pow2Spec(b)


Pow2Spec = RecSpec("pow2", [], z3.IntSort(), lambda: z3.IntVal(1), lambda n, r: 2 * r)


def _is_end(it):
    return it.idx is None


class LoopView:
    """What an invariant template may look at."""
    def __init__(self, eng, entry, head, changed, node):
        self.eng, self.entry, self.head, self.changed, self.node = eng, entry, head, changed, node
        self.frame = eng.frames[-1]

    def locals(self):
        """All local variables of the current function: name -> getter(state)."""
        out = {}
        for nm, root in self.frame.names.items():
            if root[0] in self.frame.vars:
                lv = self.frame.vars[root[0]]
                out[nm] = (lambda s, lv=lv: self.eng.get(s, lv))
            elif root in self.entry.env:
                out[nm] = (lambda s, root=root: s.env[root])
        return out

    def changed_ints(self):
        """Getters of the integer variables the loop changes."""
        out = []
        for r, p in self.changed:
            if isinstance(r, tuple) and r[0] == "H":
                continue
            v = self.entry.env.get(r)
            if v is None:
                continue
            try:
                v = read(v, p)
            except Exception:
                continue
            if is_z3(v) and v.sort() == z3.IntSort():
                out.append(lambda s, r=r, p=p: read(s.env[r], p))
        return out

    def counters(self):
        """Changed local integer variables that start at a constant."""
        out = []
        for r, p in self.changed:
            if p or not isinstance(r, tuple) or r[0] in ("H", "B", "p", "alloc"):
                continue
            v = self.entry.env.get(r)
            if v is not None and is_z3(v) and v.sort() == z3.IntSort():
                out.append(lambda s, r=r: s.env[r])
        return out

    def guards(self):
        """Changed local integer variables that the loop condition looks at."""
        return [lambda s, r=r: s.env[r] for r in self.eng.nest[-1]]

    def outer(self):
        """The same of the enclosing loops, the innermost first."""
        return [lambda s, r=r: s.env[r] for g in reversed(self.eng.nest[:-1]) for r in g if r in self.entry.env]

    def changed_reals(self):
        out = []
        for r, p in self.changed:
            if isinstance(r, tuple) and r[0] == "H":
                continue
            v = self.entry.env.get(r)
            if v is None:
                continue
            try:
                v = read(v, p)
            except Exception:
                continue
            if is_z3(v) and v.sort() == z3.RealSort():
                out.append(lambda s, r=r, p=p: read(s.env[r], p))
        return out

    def ints(self):
        """All integer scalars among the locals (changed or not), as getters."""
        out = []
        for nm, g in self.locals().items():
            try:
                v = g(self.entry)
            except Exception:
                continue
            if is_z3(v) and v.sort() == z3.IntSort():
                out.append((nm, g))
        return out

    def int_locals(self):
        """Integer locals (not parameters) of the current function, as getters."""
        ps = {p.get("name") for p in params(self.frame.fn)}
        return [g for nm, g in self.ints() if nm not in ps]

    def fixed_ints(self):
        """Integer locals that the loop does not change."""
        names = {r for r, p in self.changed if not p}
        return [g for g in self.int_locals() if self.root_of(g) not in names]

    def root_of(self, g):
        class Spy(dict):
            seen = None
            def __getitem__(s, k):
                s.seen = s.seen or k
                return dict.__getitem__(s, k)
            def get(s, k, d=None):
                s.seen = s.seen or k
                return dict.get(s, k, d)
        import copy
        st = copy.copy(self.entry)
        st.env = Spy(self.entry.env)
        g(st)
        return st.env.seen

    def vecs(self):
        out = []
        for nm, g in self.locals().items():
            try:
                v = g(self.entry)
            except Exception:
                continue
            if isinstance(v, Vec):
                out.append((nm, g))
        return out


class Ctx:
    """Pre/post state of a call, for contracts."""
    def __init__(self, eng, d, pre, post, this, args, ret):
        self.eng, self.d, self._pre, self._post, self._this, self._args, self.ret = eng, d, pre, post, this, args, ret

    def arg(self, i):
        return self.eng.get(self._pre, self._args[i])

    def post(self, i):
        return self.eng.get(self._post, self._args[i])

    @property
    def this(self):
        return self.eng.get(self._pre, self._this)

    @property
    def this_post(self):
        return self.eng.get(self._post, self._this)

    def heap(self, cls, field):
        return self.eng.heap(self._pre, cls).f[field]

    def heap_post(self, cls, field):
        return self.eng.heap(self._post, cls).f[field]

    @property
    def addr(self):
        """Address of *this when it lives on the heap."""
        return self._this.steps[0][1]
