#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree (see DESIGN.md).
1. deductive part: every function under contract for the property is verified against its contract (vlib/prove.py);
2. bounded stand-in: the real code is run on seeded small problems against the property's contract, which covers what is
   not (or no longer) proved and looks for an input that shows a refuted obligation."""
import json, os, subprocess, sys, threading, time, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import build as vbuild
from vlib.config import CHECKS, ASSUMPTIONS

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
BUDGET = {"quick": 40.0, "thorough": 360.0}[TIER]      # wall seconds for the bounded part
PROOF_WALL = 420.0
SKIPPED = {}   # harnesses that do not compile against the current internal interfaces


def prove(pid, out):
    """Runs the verifier on the functions of the property; returns its results (or an error text)."""
    try:
        r = subprocess.run(["python3-vt", os.path.join(VERIF, "vlib", "prove.py"), out, pid], capture_output=True, text=True, timeout=PROOF_WALL)
        if r.returncode == 0:
            return json.load(open(out)), None
        return None, (r.stdout + r.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        return None, "the verifier did not finish within %d s" % PROOF_WALL
    except (OSError, ValueError) as e:
        return None, str(e)


def run_bounded(spec, allow_none=False):
    """Runs the stand-ins of one property over all cores. Returns [(spec, command, exit, stdout, stderr)]."""
    exes = {}
    for x in sorted({s["exe"] for s in spec}):
        try:
            exes[x] = vbuild.command(x)
        except vbuild.HarnessError as e:
            SKIPPED[x] = str(e)
    if not exes and not allow_none:
        raise vbuild.BuildError("\n".join(SKIPPED.values()))
    spec = [s for s in spec if s["exe"] in exes]
    jobs = max(1, os.cpu_count() or 1)
    secs = max(1.0, BUDGET * min(jobs, len(spec)) / max(1, len(spec)))

    def one(s):
        cmd = [*exes[s["exe"]], *s["args"], "--seed", str(SEED), "--secs", "%.1f" % secs]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs * 4 + 120, errors="replace")
            return s, cmd, r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            out = e.stdout.decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            return s, cmd, "timeout", out, ""
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, spec))


def main():
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evfile = os.path.join(evdir, pid + ".json")
    replay = os.path.join(evdir, pid + ".replay.txt")
    pfile = os.path.join(evdir, pid + ".proof.json")
    for f in (evfile, replay, pfile):
        if os.path.exists(f):
            os.remove(f)
    # the library is compiled while the verifier works
    berr = []

    def prebuild():
        try:
            for x in {s["exe"] for s in cfg["bounded"]}:
                try:
                    vbuild.command(x)
                except vbuild.HarnessError:
                    pass    # reported by run_bounded
        except vbuild.BuildError as e:
            berr.append(e)
    th = threading.Thread(target=prebuild)
    th.start()
    proof, perr = prove(pid, pfile)
    th.join()
    if berr:
        raise berr[0]
    results = proof["results"] if proof else []
    proved = [r for r in results if r["status"] == "proved"]
    open_ = [r for r in results if r["status"] != "proved"]
    decisive = [r for r in open_ if r.get("decisive")]
    nobl = sum(len(r["obligations"]) for r in results)
    ndis = sum(1 for r in results for o in r["obligations"] if o["status"] == "proved")
    backends = {}
    for r in results:
        for o in r["obligations"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1

    violations, hard = [], []
    runs = run_bounded(cfg["bounded"], allow_none=bool(results) and not open_)
    evals = nontrivial = 0
    samples, counts = [], {}
    for s, cmd, rc, out, err in runs:
        for line in out.splitlines():
            if line.startswith("SUMMARY"):
                kv = dict(x.split("=") for x in line.split()[1:])
                evals += int(kv["evaluations"])
                nontrivial += int(kv["nontrivial"])
            elif line.startswith("COUNTS"):
                for x in line.split()[1:]:
                    k, v = x.split("=")
                    counts[k] = counts.get(k, 0) + int(v)
        if "FAIL kind=" in out:
            violations.append((cmd, out))
        elif rc not in (0,):
            hard.append("%s ended with %s\n%s%s" % (" ".join(cmd), rc, out[-2000:], err[-2000:]))
        if len(samples) < 3:
            samples.append(" ".join(os.path.basename(c) if c.startswith("/") else c for c in cmd))
    cov = dict(evaluations=evals, distinct_nontrivial=nontrivial, rule=cfg.get("rule", "seeded random small problems; non-trivial: a branching node is allowed and there are more than three instances"),
               samples=samples, contract_evaluations=counts)
    assumptions = list(ASSUMPTIONS["all"])
    if results:
        cov.update(obligations=nobl, discharged=ndis, checker_cmd="python3-vt vlib/prove.py <out> %s" % pid,
                   functions_under_contract=len(results), functions_proved=len(proved),
                   proved=[r["function"] for r in proved],
                   open=[dict(function=r["function"], status=r["status"], reason=r["reason"], decisive=bool(r.get("decisive"))) for r in open_],
                   back_ends=backends, solver_s=round(sum(o["secs"] for r in results for o in r["obligations"]), 2),
                   lemmas=proof["lemmas"], inlined=sorted({x for r in results for x in r.get("inlined", [])}),
                   trusted_base=sorted({x for r in results for x in r.get("trusted", [])} | {"clang 18 front end (typed AST)", "vcgen (this repository's VC generator)", "z3", "cvc5"}),
                   bounded_part=cfg.get("bounded_note", "everything between the functions under contract and the observable behaviour is covered by the bounded stand-in only"))
    elif perr:
        cov["verifier_error"] = perr
    if SKIPPED:
        cov["skipped_harnesses"] = SKIPPED
    ev = dict(property=pid, tier=TIER, seed=SEED, level=cfg["level"], coverage=cov, wall_s=round(time.time() - t0, 2), assumptions=assumptions, violations=len(violations) + (len(decisive) if not violations else 0))
    json.dump(ev, open(evfile, "w"), indent=1)
    if os.path.exists(pfile):
        os.remove(pfile)

    def describe(f):
        for r in open_:
            f.write("function %s (contract %s, module %s): %s %s\n" % (r["function"], r["contract"], r["module"], r["status"], r["reason"] or ""))
            for o in r["obligations"]:
                if o["status"] != "proved":
                    f.write("  obligation %s, line %s: %s: %s (%s)\n" % (o["kind"], o["line"], o["label"], o["status"], o["backend"]))
                    if o.get("model"):
                        f.write("    model: %s\n" % o["model"])
            for o in r.get("counterexample", []):
                f.write("  counterexample with loops unrolled and callees inlined: %s, line %s: %s\n    model: %s\n" % (o["kind"], o["line"], o["label"], o.get("model")))
    if violations or decisive:
        with open(replay, "w") as f:
            for cmd, out in violations:
                f.write("command: " + " ".join(cmd) + "\n" + "(rebuild with: python3 /verif/vlib/build.py %s; a single case: --case <case>)\n" % os.path.basename(cmd[0]) + out + "\n")
            describe(f)
        for r in open_:
            print("failed: %s: %s" % (r["function"], "; ".join(sorted({"%s: %s" % (o["kind"], o["label"]) for o in (r.get("counterexample") or [o for o in r["obligations"] if o["status"] == "refuted"])})) or r["reason"]))
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if violations else " no-failing-input-found"))
        return 1
    if hard:
        print("\n".join(hard))
        return 2
    for x, e in SKIPPED.items():
        print("harness %s does not compile against the current interfaces and was left out: %s" % (x, e[-300:]))
    for r in open_:
        print("undecided (bounded stand-in only): %s: %s %s" % (r["function"], r["status"], r["reason"] or ""))
    if perr:
        print("the verifier gave no answer (bounded stand-in only): " + perr[-500:])
    print("property=%s held: %d of %d functions under contract proved (%d of %d obligations), bounded stand-in: %d evaluations, %.1f s" %
          (pid, len(proved), len(results), ndis, nobl, evals, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vbuild.BuildError as e:
        print("build failed:\n" + str(e))
        sys.exit(2)
