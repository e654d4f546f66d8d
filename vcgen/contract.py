"""Contracts and the driver that verifies functions against them."""
import os, subprocess, sys, tempfile, time, traceback
import z3
from . import cxxast
from .cxxast import params, body, norm
from . import engine as _engine
from .engine import Engine, State, Ctx, LV, Obligation, unfoldings, TRUE, FALSE, Aborted
from .values import *


class Contract:
    """requires/ensures: Ctx -> [(label, Bool)]; modifies: 'this', 'this.f', 'argN', 'heap:Class.field'; invariants: LoopView, Ctx -> [(label, state -> Bool)]."""
    def __init__(self, q, requires=None, ensures=None, modifies=(), invariants=(), nparams=None, sig=None, inline_in=None, returns=None,
                 aborts=None, trusted=None, props=(), havocs_taint=True, replay=None, timeout=None, as_rec=None, instances=None, axioms=None, lemmas=None, opts=None):
        self.q, self.modifies, self.invariants, self.nparams, self.sig = q, tuple(modifies), tuple(invariants), nparams, sig
        self._req, self._ens, self.inline_in, self.returns, self.aborts = requires, ensures, inline_in, returns, aborts
        self.trusted, self.props, self.havocs_taint, self.replay, self.timeout = trusted, tuple(props), havocs_taint, replay, timeout
        self.instances = instances
        self.axioms = axioms
        self.lemmas = lemmas
        self.opts = opts or {}

    def requires(self, c):
        return list(self._req(c)) if self._req else []

    def ensures(self, c):
        return list(self._ens(c)) if self._ens else []


def unity(files, repo, cache):
    """A generated file that includes the real sources, so that callees in other files are seen."""
    if len(files) == 1:
        return files[0]
    txt = "".join('#include "%s"\n' % os.path.join(repo, f) for f in files)
    import hashlib
    p = os.path.join(cache, "unity-%s.cpp" % hashlib.sha256(txt.encode()).hexdigest()[:16])
    os.makedirs(cache, exist_ok=True)
    if not os.path.exists(p):
        with open(p + ".%d" % os.getpid(), "w") as f:
            f.write(txt)
        os.replace(p + ".%d" % os.getpid(), p)
    return p


def conjuncts(g):
    if z3.is_and(g):
        return [y for x in g.children() for y in conjuncts(x)]
    return [g]


def symbols(e, cache={}):
    """Uninterpreted symbols of a formula."""
    k = e.get_id()
    if k in cache and cache[k][0].eq(e):
        return cache[k][1]
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    cache[k] = (e, out)
    return out


def sliced(facts, goal, timeout):
    """The goal from the facts connected to it; dropping facts is sound."""
    want = set(symbols(goal))
    use = []
    rest = [(f, symbols(f)) for f in facts]
    for _ in range(2):
        take = [x for x in rest if x[1] & want]
        rest = [x for x in rest if not (x[1] & want)]
        use += take
        for f, y in take:
            want |= y
    for seed in (0, 3):
        s = z3.Solver()
        s.set("timeout", int(timeout * 500))
        s.set("random_seed", seed)
        for f, _ in (use if seed else reversed(use)):
            s.add(f)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return True
    return False


def discharge(ob, axs, timeout, exact=False):
    """z3 first, cvc5 for what z3 leaves open."""
    if ob.status == "proved":
        return
    t = time.time()
    if z3.is_true(z3.simplify(ob.goal)):
        ob.status, ob.backend, ob.secs = "proved", "z3 (simplifier)", 0.0
        return
    fs = list(ob.pc) + [z3.Not(ob.goal)]
    us = unfoldings(fs)
    allf = fs + us + axs
    s = z3.Solver()
    s.set("timeout", int(timeout * 300))
    for f in allf:
        s.add(f)
    r = s.check()
    ob.secs = time.time() - t
    ob.backend = "z3 " + z3.get_version_string()
    if r == z3.unknown:
        # the conjuncts of the goal one by one, with only the facts that share symbols with them, then everything with more time
        if all(sliced(list(ob.pc) + us + axs, g, timeout * 0.15) for g in conjuncts(ob.goal)):
            r = z3.unsat
        else:
            s.set("timeout", int(timeout * 700))
            s.set("random_seed", 7)
            r = s.check()
        ob.secs = time.time() - t
    if r == z3.unsat:
        ob.status = "proved"
        return
    if r == z3.sat and exact:
        # a counterexample counts when the specification functions are fully evaluated on it
        cl = _engine.closing(fs + axs)
        if cl is None:
            ob.status = "unknown"
            return
        s.add(*cl)
        r = s.check()
        ob.secs = time.time() - t
        if r != z3.sat:
            ob.status = "unknown"
            return
    if r == z3.sat:
        ob.status = "refuted"
        ob.model = s.model()
        return
    ob.status = "unknown"
    txt = s.to_smt2()
    if "lambda" not in txt:
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout * 1000), "-"], input="(set-logic ALL)\n" + txt, capture_output=True, text=True, timeout=timeout + 10)
            o = p.stdout.strip().splitlines()
            if o and o[0] == "unsat":
                ob.status, ob.backend = "proved", "cvc5"
            elif o and o[0] == "sat" and not exact:
                ob.status, ob.backend = "refuted", "cvc5"
        except (subprocess.TimeoutExpired, FileNotFoundError):
            pass
    ob.secs = time.time() - t


def verify(unit, con, contracts, d, timeout=10.0, debug=False, budget=120.0, unroll=3):
    """Verifies one function (AST node d) against its contract. When that fails, the same obligations are tried with
    loops unrolled and callees inlined: a counterexample found that way is one of the code itself. Returns a dict."""
    res = _verify(unit, con, contracts, d, timeout, debug, budget, {})
    res["decisive"] = False
    if res["status"] in ("refuted", "unknown", "unsupported") and unroll and not con.opts.get("no_bug_mode"):
        r2 = _verify(unit, con, contracts, d, timeout, debug, budget, {"unroll": unroll, "inline_all": True})
        res["unrolled"] = dict(status=r2["status"], reason=r2["reason"], secs=r2["secs"], approx=r2.get("approx"),
                               refuted=[o for o in r2["obligations"] if o["status"] == "refuted"])
        if r2["status"] == "refuted" and not r2.get("approx"):
            ref = [o for o in r2["obligations"] if o["status"] == "refuted" and o["kind"] in ("postcondition", "frame", "abort", "bounds", "division")]
            if ref:
                res["decisive"] = True
                res["counterexample"] = ref
                res["status"] = "refuted"
    return res


# contracts with the option "opaque" are proved for every interpretation of the non-linear spec functions
OPAQUE = [False]


def _verify(unit, con, contracts, d, timeout, debug, budget, mode):
    OPAQUE[0] = bool(con.opts.get("opaque")) and not mode
    try:
        return _verify_1(unit, con, contracts, d, timeout, debug, budget, mode)
    finally:
        OPAQUE[0] = False


def _verify_1(unit, con, contracts, d, timeout, debug, budget, mode):
    t0 = time.time()
    eng = Engine(unit, contracts, {"debug": debug, **con.opts, **mode})
    _engine.UNFOLD[0] = 2 if not mode else 2 * mode["unroll"] + 3
    eng.heap0 = {}
    eng.alloc0 = z3.Int("alloc0")
    eng.deadline = t0 + budget
    eng.cur = d["_q"]
    eng.loops_stack = []
    res = dict(function=d["_q"], signature=d["type"]["qualType"], contract=con.q, status=None, obligations=[], reason=None, line=d.get("line"))
    try:
        st = State()
        rec = d.get("_rec")
        fr = eng.new_frame(d, rec)
        pl = []
        is_static = d.get("storageClass") == "static" or d["kind"] == "FunctionDecl"
        is_ctor = d["kind"] == "CXXConstructorDecl"
        if not is_static:
            st.env["this"] = eng.fresh(("rec", rec), "this") if not is_ctor else Struct(rec, {f: None for f, _, _ in eng.T.fields(rec)})
            fr.this = LV("this")
            if con.opts.get("heap_this"):
                a = z3.Int("this!addr")
                eng.ax.append(a > 0)
                fr.this = LV(("H", rec), (("h", a),))
        for p in params(d):
            t = eng.T.of(p, rec)
            root = (p["id"], fr.no)
            v = eng.fresh(t[1] if t[0] == "ref" else t, p.get("name", "arg"))
            if t[0] == "ref":
                r2 = ("p", p["id"])
                if len(pl) in con.opts.get("within", {}):      # a cell of a vector of this object
                    f = con.opts["within"][len(pl)]
                    i = z3.Int("cell!%d" % len(pl))
                    st.pc += [0 <= i, i < st.env["this"].f[f].len]
                    r2 = LV("this", (("f", f), ("i", i)))
                else:
                    st.env[r2] = v
                    r2 = LV(r2)
                fr.vars[p["id"]] = r2
                pl.append(r2)
            else:
                st.env[root] = v
                # keep the entry value: by-value parameters may be overwritten
                r2 = ("pv", p["id"])
                st.env[r2] = v
                pl.append(LV(r2))
            if "name" in p:
                fr.names[p["name"]] = root
        pre = st.copy()
        # every heap the contract looks at is created in the pre-state
        c0 = Ctx(eng, d, pre, pre, fr.this, pl, None)
        reqs = con.requires(c0)
        for lab, g in reqs:
            st.pc.append(g)
        if con.axioms:
            eng.extra_ax = list(con.axioms(c0))
        else:
            eng.extra_ax = []
        for lab, g in (con.lemmas(c0) if con.lemmas else []):
            eng.oblige(st, g, lab, "lemma", None)
            st.pc.append(g)
        eng.inv_sources = [(lambda L, f=f: f(L, c0)) for f in con.invariants]
        # vacuity: the precondition must be satisfiable
        s = z3.Solver()
        s.set("timeout", 5000)
        for f in st.pc + unfoldings(st.pc) + eng.ax + eng.extra_ax:
            s.add(f)
        vac = s.check()
        if vac == z3.unsat:
            res.update(status="error", reason="contradictory precondition")
            return res
        res["vacuity"] = str(vac)
        aborts = []
        eng.on_abort = lambda x, line: aborts.append((x.copy(), line))
        eng.frames.append(fr)
        if is_ctor:
            eng.init_members(d, rec, LV("this"), st)
        npre = len(pre.pc)
        outs = eng.run(body(d), st)
        ends = [x for x in outs if x[0] in ("normal", "return")]
        for x, line in aborts:
            ok = con.aborts(c0) if con.aborts else FALSE
            eng.oblige(x, ok, "the function does not abort", "abort", line)
        frame_done = False
        for kind, y, val in ends:
            if isinstance(val, LV) and d.get("_retref"):
                val = eng.get(y, val)
            cx = Ctx(eng, d, pre, y, fr.this, pl, val)
            for h in list(y.env):
                if isinstance(h, tuple) and h[0] == "H" and h not in pre.env:
                    eng.heap(pre, h[1])
            for lab, g in con.ensures(cx):
                eng.oblige(y, g, lab, "postcondition", None)
            for lab, g in frame_goals(eng, con, d, pre, y, fr, pl, is_static or is_ctor, val):
                eng.oblige(y, g, lab, "frame", None)
        if not ends and not aborts:
            res.update(status="error", reason="no path reaches the end of the function")
            return res
        # reachability of at least one end
        if ends:
            reach = False
            for kind, y, val in ends:
                s = z3.Solver()
                s.set("timeout", 3000)
                for f in y.pc + unfoldings(y.pc) + eng.ax + eng.extra_ax:
                    s.add(f)
                if s.check() != z3.unsat:
                    reach = True
                    break
            if not reach:
                res.update(status="error", reason="no end of the function is reachable under the precondition")
                return res
        if not eng.obl:
            res.update(status="error", reason="no obligations")
            return res
        for ob in eng.obl:
            if time.time() > t0 + budget + 60:
                raise Unsupported("time budget used up")
            discharge(ob, eng.ax + eng.extra_ax, con.timeout or timeout, bool(mode))
            if debug and ob.status != "proved":
                print("  ", ob.status, ob.kind, ob.label, "line", ob.line)
        bad = [o for o in eng.obl if o.status != "proved"]
        ref = [o for o in bad if o.status == "refuted"]
        res["status"] = "proved" if not bad else ("refuted" if ref else "unknown")
        res["approx"] = sorted(eng.approx)
        res["obligations"] = [dict(kind=o.kind, label=o.label, line=o.line, status=o.status, backend=o.backend, secs=round(o.secs, 3), taint=o.taint,
                                   model=model_text(o.model) if o.model is not None else None) for o in eng.obl]
    except Unsupported as e:
        res.update(status="unsupported", reason=str(e))
        if debug:
            traceback.print_exc()
    except Aborted:
        res.update(status="unsupported", reason="every path aborts")
    except (KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, RecursionError, StopIteration) as e:
        res.update(status="unsupported", reason="%s: %s" % (type(e).__name__, str(e)[:200]))
        if debug:
            traceback.print_exc()
    res["used"] = sorted(c.q for c in eng.used)
    res["trusted"] = sorted(eng.trusted)
    res["inlined"] = sorted(eng.inlined)
    res["secs"] = round(time.time() - t0, 2)
    return res


def frame_goals(eng, con, d, pre, y, fr, pl, nothis, ret=None):
    """Everything not listed in modifies keeps its value."""
    out = []
    mods = set(con.modifies)
    if con.opts.get("allocates") == "ret":
        out.append(("the returned object is new", ret > eng.alloc0))
    def same(a, b, path, what):
        if path in mods or a is b:
            return
        if any(m.startswith(path + ".") for m in mods):
            for k in a.f:
                same(a.f[k], b.f[k], path + "." + k, "field " + (path + "." + k).split(".", 1)[1])
            return
        out.append((what + " is unchanged", eqv(a, b)))

    within = con.opts.get("within", {})
    if not nothis and not con.opts.get("heap_this"):
        a, b = pre.env["this"], y.env["this"]
        for i, f in within.items():       # the cell that is passed as an argument has its own frame
            st = State()
            st.env["this"] = a
            eng.put(st, pl[i], eng.get(y, pl[i]))
            a = st.env["this"]
        same(a, b, "this", "this")
    for i, l in enumerate(pl):
        if i in within:
            same(eng.get(pre, l), eng.get(y, l), "arg%d" % i, "argument %d" % i)
        elif l.root[0] != "pv":
            same(pre.env[l.root], y.env[l.root], "arg%d" % i, "argument %d" % i)
    for h in y.env:
        if isinstance(h, tuple) and h[0] == "H":
            cls = h[1]
            if "heap:" + cls in mods:
                continue
            a, b = eng.heap(pre, cls), y.env[h]
            for k in a.f:
                if a.f[k] is b.f[k] or "heap:%s.%s" % (cls, k) in mods:
                    continue
                if con.opts.get("allocates") == "ret":
                    q = z3.Int("!a")
                    out.append(("objects of %s other than the returned one are unchanged (%s)" % (cls, k), z3.Implies(q != ret, eqv(sel(a.f[k], q), sel(b.f[k], q)))))
                elif con.opts.get("allocates"):
                    q = z3.Int("!a")
                    out.append(("objects of %s that existed are unchanged (%s)" % (cls, k), z3.ForAll([q], z3.Implies(q <= eng.alloc0, eqv(sel(a.f[k], q), sel(b.f[k], q))))))
                else:
                    out.append(("objects of %s are unchanged (%s)" % (cls, k), eqv(a.f[k], b.f[k])))
    return out


def model_text(m):
    out = []
    for dcl in m.decls():
        try:
            v = str(m[dcl]).replace("\n", " ")
            if len(v) < 200:
                out.append("%s = %s" % (dcl.name(), v))
        except Exception:
            pass
    return "; ".join(sorted(out))[:3000]
