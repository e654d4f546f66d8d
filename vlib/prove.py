"""prove.py <out.json> <property>|all [--budget s] [--only text]: verifies every function under contract for one property
against the current source of /repo. Run with python3-vt (z3). One forked process per function."""
import importlib, json, os, pkgutil, re, signal, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from vcgen import cxxast
from vcgen.contract import verify, unity
from vcgen.engine import RecSpec
REPO = os.environ.get("REPO", "/repo")
CACHE = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build")), "ast")


def modules():
    import contracts
    for m in sorted(pkgutil.iter_modules(contracts.__path__), key=lambda m: m.name):
        if m.name.startswith("_"):
            continue
        yield importlib.import_module("contracts." + m.name).M


def targets(M, u, con):
    if "<*>" in con.q:
        rx = re.escape(con.q).replace("<\\*>", "<.*>")
        ds = [f for q in sorted(u.funcs) for f in u.funcs[q] if re.fullmatch(rx, q)]
        ds = [d for d in ds if con.instances is None or con.instances(d["_rec"] or d["_q"])]
    else:
        ds = u.find(con.q)
    ds = [d for d in ds if cxxast.body(d) is not None]
    ds = [d for d in ds if (con.nparams is None or len(cxxast.params(d)) == con.nparams) and (con.sig is None or con.sig in cxxast.norm(d["type"]["qualType"]))]
    return ds


def clean_cache():
    """Keeps the cache of parsed sources small."""
    try:
        fs = sorted((os.path.getmtime(os.path.join(CACHE, f)), os.path.join(CACHE, f)) for f in os.listdir(CACHE) if f.endswith(".pkl"))
        for _, f in fs[:-60]:
            os.remove(f)
    except OSError:
        pass


def main():
    out, prop = sys.argv[1], sys.argv[2]
    budget = float(sys.argv[sys.argv.index("--budget") + 1]) if "--budget" in sys.argv else 60.0
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else ""
    debug = "-v" in sys.argv
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or max(1, os.cpu_count() or 1)
    t0 = time.time()
    results, tasks = [], []
    for M in modules():
        cons = [c for c in M.targets if (prop == "all" or prop in c.props) and (only in c.q or only == M.name)]
        if not cons:
            continue
        try:
            u = cxxast.load(REPO, unity(M.files, REPO, CACHE), CACHE)
        except Exception as e:
            for c in cons:
                results.append(dict(function=c.q, contract=c.q, module=M.name, status="error", reason=str(e)[:300], obligations=[], secs=0, decisive=False))
            continue
        for c in cons:
            ds = targets(M, u, c)
            if not ds:
                results.append(dict(function=c.q, contract=c.q, module=M.name, status="missing", reason="no function of this name (renamed or removed)", obligations=[], secs=0, decisive=False))
            for d in ds:
                tasks.append((M, u, c, d))
    clean_cache()
    lemmas = []
    for n, r in sorted(RecSpec.registry.items()):
        if getattr(r, "local", None):
            ok = r.prove_local()
            lemmas.append(dict(name="%s looks at its arrays below n only (induction)" % n, proved=ok))
            if not ok:
                r.local = ()
        if getattr(r, "mono", None):
            ok = r.prove_mono()
            lemmas.append(dict(name="%s grows with its bound (induction)" % n, proved=ok))
            if not ok:
                r.mono = False
        for j in getattr(r, "additive", ()):
            ok = j in r.local and r.prove_additive(j)
            lemmas.append(dict(name="%s is a sum over its array (induction)" % n, proved=ok))
            if not ok:
                r.additive = tuple(x for x in r.additive if x != j)
        if getattr(r, "odd", None) is not None:
            ok = r.prove_odd()
            lemmas.append(dict(name="%s changes its sign with its argument (induction)" % n, proved=ok))
            if not ok:
                r.odd = None
        for nm, lem in list(getattr(r, "pairs", ())):
            ok = r.prove_pair(lem)
            lemmas.append(dict(name="%s: %s (induction)" % (n, nm), proved=ok))
            if not ok:
                r.pairs.remove((nm, lem))
    tasks.sort(key=lambda t: -t[2].opts.get("cost", 1))
    running = {}

    def start(i):
        M, u, c, d = tasks[i]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                con = {k: v for k, v in M.contracts.items() if v is not c or v.opts.get("recursive")}
                res = verify(u, c, con, d, budget=c.opts.get("budget", budget), debug=debug)
                data = json.dumps(res).encode()
            except BaseException as e:
                data = json.dumps(dict(function=d["_q"], contract=c.q, status="error", reason="%s: %s" % (type(e).__name__, e), obligations=[], secs=0, decisive=False)).encode()
                if debug:
                    traceback.print_exc()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        running[pid] = (i, r, time.time(), bytearray())

    def finish(pid, killed):
        i, r, ts, buf = running.pop(pid)
        M, u, c, d = tasks[i]
        os.close(r)
        try:
            res = json.loads(bytes(buf).decode())
        except ValueError:
            res = dict(function=d["_q"], contract=c.q, status="unknown", reason="time limit" if killed else "verifier process ended", obligations=[], secs=round(time.time() - ts, 1), decisive=False)
        res["module"], res["props"] = M.name, list(c.props)
        results.append(res)
        if debug or prop == "all" or "--print" in sys.argv:
            print("%-62s %-11s %6.1f s %3d obl %s %s" % (res["function"], res["status"], res["secs"], len(res["obligations"]), res["reason"] or "",
                  [(o["kind"], o["label"], o["line"], o["status"]) for o in res["obligations"] if o["status"] != "proved"][:6]), flush=True)
            if res.get("unrolled"):
                un = res["unrolled"]
                print("      unrolled: %s %s approx=%s %s" % (un["status"], un["reason"] or "", un["approx"], [(o["kind"], o["label"], o["line"], (o.get("model") or "")[:300]) for o in un["refuted"]][:3]), flush=True)
    import select
    nxt = 0
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < jobs:
            start(nxt)
            nxt += 1
        fds = {v[1]: p for p, v in running.items()}
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            p = fds[fd]
            if data:
                running[p][3].extend(data)
            else:
                os.waitpid(p, 0)
                finish(p, False)
        for p in list(running):
            if time.time() - running[p][2] > 2.5 * max(budget, tasks[running[p][0]][2].opts.get("budget", 0)) + 60:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                finish(p, True)
    results.sort(key=lambda r: (r["module"], r["function"]))
    json.dump(dict(property=prop, results=results, lemmas=lemmas, wall_s=round(time.time() - t0, 2)), open(out, "w"))
    if debug or prop == "all" or "--print" in sys.argv:
        st = {}
        for r in results:
            st[r["status"]] = st.get(r["status"], 0) + 1
            if r["status"] in ("missing",) or r["status"] == "error":
                print(r["function"], r["status"], r["reason"])
        print(st, sum(len(r["obligations"]) for r in results), "obligations", round(time.time() - t0, 1), "s")


if __name__ == "__main__":
    main()
