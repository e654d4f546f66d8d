"""Compiles /repo's working tree and the harnesses into /verif/build. An object is reused only when the contents
(not the time stamps) of every file it was made from, and the command, are unchanged."""
import fcntl, hashlib, json, os, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
FLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fPIC", "-I" + REPO + "/include"]
PYTHON = "/opt/vp/venv/bin/python"
JOBS = max(1, os.cpu_count() or 1)


class BuildError(Exception):
    pass


class HarnessError(BuildError):
    """The library compiles but a harness does not fit it (an internal interface it uses was changed)."""


def _digest(path, memo={}):
    try:
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        if key not in memo:
            memo[key] = hashlib.sha256(open(path, "rb").read()).hexdigest()
        return memo[key]
    except OSError:
        return None


def _compile(src, obj, flags):
    cmd = ["g++", *flags, "-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    stamp = obj + ".json"
    try:
        rec = json.load(open(stamp))
        if rec["cmd"] == cmd and os.path.exists(obj) and all(_digest(p) == h for p, h in rec["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for f in (obj, stamp):
        if os.path.exists(f):
            os.remove(f)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = [d for d in deps if d.startswith(REPO) or d.startswith(VERIF)]
    json.dump({"cmd": cmd, "deps": {d: _digest(d) for d in deps}}, open(stamp, "w"))
    return True


def _made_from(objs):
    """Identifies the contents the objects were compiled from."""
    return "\n".join(o + " " + hashlib.sha256(open(o + ".json", "rb").read()).hexdigest() for o in sorted(objs))


def lib_sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            if f.endswith(".cpp") and f not in ("main.cpp", "bindings.cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


def build_py():
    """Builds the Python package (the extension and a copy of the Python files) into /verif/build/py."""
    top = os.path.join(OUT, "py")
    pkg = os.path.join(top, "pystreed")
    with open(os.path.join(OUT, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(PYTHON):
            raise HarnessError("no " + PYTHON)
        q = subprocess.run([PYTHON, "-c", "import sysconfig, pybind11; print(sysconfig.get_paths()['include']); print(pybind11.get_include()); print(sysconfig.get_config_var('EXT_SUFFIX'))"], capture_output=True, text=True)
        if q.returncode:
            raise HarnessError(q.stderr[-2000:])
        inc1, inc2, suffix = q.stdout.split()
        jobs = [(s, os.path.join(OUT, "obj", os.path.relpath(s, REPO)[:-4] + ".o"), FLAGS) for s in lib_sources()]
        jobs.append((REPO + "/src/bindings.cpp", os.path.join(OUT, "obj", "src", "bindings.o"), FLAGS + ["-fvisibility=hidden", "-I" + inc1, "-I" + inc2]))
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [(j, ex.submit(_compile, *j)) for j in jobs]
        for j, f in fs:
            try:
                f.result()
            except BuildError as e:
                raise HarnessError(str(e)) if j[0].endswith("bindings.cpp") else e
        os.makedirs(pkg, exist_ok=True)
        so = os.path.join(pkg, "cstreed" + suffix)
        stamp = so + ".objs"
        names = _made_from([j[1] for j in jobs])
        if not os.path.exists(so) or not os.path.exists(stamp) or open(stamp).read() != names:
            if os.path.exists(stamp):
                os.remove(stamp)
            r = subprocess.run(["g++", "-shared", "-o", so + ".tmp"] + [j[1] for j in jobs], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-4000:])
            os.replace(so + ".tmp", so)
            open(stamp, "w").write(names)
        want = {f for f in os.listdir(REPO + "/pystreed") if f.endswith(".py")}
        for f in os.listdir(pkg):
            if f.endswith(".py") and f not in want:
                os.remove(os.path.join(pkg, f))
        for f in want:
            new = open(os.path.join(REPO, "pystreed", f), "rb").read()
            old = os.path.join(pkg, f)
            if not os.path.exists(old) or open(old, "rb").read() != new:
                open(old, "wb").write(new)
    return top


def build(harness):
    """Builds /verif/harness/<harness>.cpp against the library; returns the path of the program."""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = [(s, os.path.join(OUT, "obj", os.path.relpath(s, REPO)[:-4] + ".o")) for s in lib_sources()]
        mine = (os.path.join(VERIF, "harness", harness + ".cpp"), os.path.join(OUT, "obj", "harness", harness + ".o"))
        jobs.append(mine)
        # the solver takes longest: start it first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [(j, ex.submit(_compile, j[0], j[1], FLAGS)) for j in jobs]
        for j, f in fs:
            if j is not mine:
                f.result()
        try:
            for _, f in fs:
                f.result()
        except BuildError as e:
            raise HarnessError(str(e))
        exe = os.path.join(OUT, harness)
        stamp = exe + ".objs"
        names = _made_from([o for _, o in jobs])
        if not os.path.exists(exe) or not os.path.exists(stamp) or open(stamp).read() != names:
            if os.path.exists(stamp):
                os.remove(stamp)
            r = subprocess.run(["g++", "-o", exe + ".tmp"] + [o for _, o in jobs], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-4000:])
            os.replace(exe + ".tmp", exe)
            open(stamp, "w").write(names)
        return exe


def command(harness):
    """The command that runs a harness (built first when it is a C++ one)."""
    if os.path.exists(os.path.join(VERIF, "harness", harness + ".py")):
        return ["env", "PYTHONPATH=" + build_py(), "PYTHONDONTWRITEBYTECODE=1", "OMP_NUM_THREADS=1", "OPENBLAS_NUM_THREADS=1", PYTHON, "-W", "ignore", os.path.join(VERIF, "harness", harness + ".py")]
    return [build(harness)]


if __name__ == "__main__":
    for h in sys.argv[1:]:
        print(command(h)[-1])
