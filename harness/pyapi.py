"""Bounded contract harness for the Python package: random small data sets and options are fitted through the public
estimators and every answer is compared with an independent evaluation of the printed tree on the original columns.
Options, output and exit codes are those of the C++ harnesses (one program per task, --case replays one case)."""
import argparse, contextlib, io, math, mmap, os, random, re, struct, sys, tempfile, time, traceback, warnings
import numpy as np
import pandas as pd
warnings.simplefilter("ignore")
import pystreed
from pystreed import (STreeDClassifier, STreeDCostSensitiveClassifier, STreeDGroupFairnessClassifier, STreeDInstanceCostSensitiveClassifier,
                      STreeDPiecewiseLinearRegressor, STreeDPrescriptivePolicyGenerator, STreeDRegressor, STreeDSurvivalAnalysis)
from pystreed.data import CostSpecifier, FeatureCostSpecifier
assert os.path.dirname(os.path.abspath(pystreed.__file__)).startswith(os.path.abspath(os.environ["PYTHONPATH"])), pystreed.__file__

CLASSIFY = ["accuracy", "cost-complex-accuracy", "f1-score"]
REGRESS = ["regression", "cost-complex-regression"]
FAIR = ["group-fairness", "equality-of-opportunity"]
TASKS = CLASSIFY + REGRESS + FAIR + ["cost-sensitive", "instance-cost-sensitive", "prescriptive-policy", "survival-analysis", "simple-linear-regression", "piecewise-linear-regression"]


class Stop(Exception):
    pass


class Run:
    def __init__(self, a):
        self.a, self.evals, self.nontrivial, self.fails = a, 0, 0, 0
        self.kinds = set(a.kinds.split(",")) if a.kinds else None

    def chk(self, kind, ok, what, c):
        if ok or (self.kinds is not None and kind not in self.kinds):
            return
        self.fails += 1
        print("FAIL kind=%s task=%s case=%d" % (kind, self.a.task, c.seed))
        print("  " + what)
        print("  estimator: %s" % c.text)
        for l in c.table().splitlines():
            print("    " + l)
        sys.stdout.flush()
        if self.fails >= self.a.max_fail:
            raise Stop()


# ------------------------------------------------------------------------------------------------ cases
class Case:
    pass


def column(r, kind, n):
    if kind == "bin":
        p = r.choice([0.3, 0.5, 0.7])
        return [int(r.random() < p) for _ in range(n)]
    if kind == "num":
        vals = sorted(r.choice([r.randint(-5, 20), round(r.uniform(-3, 3), 2), r.randint(0, 3) + 0.5]) for _ in range(r.choice([3, 4, 6, 12])))
        col = [r.choice(vals) for _ in range(n)]
        return [float(v) for v in col]
    pool = r.choice([["a", "b"], ["red", "green", "blue"], ["k%d" % i for i in range(7)], ["x y", "it's", "z"]])
    return [r.choice(pool) for _ in range(n)]


def gen(seed, task):
    r = random.Random(seed)
    c = Case()
    c.seed, c.task, c.r = seed, task, r
    n, k = r.randint(8, 26), r.randint(2, 3)
    cols, kinds = [], []
    linear = task in ("simple-linear-regression", "piecewise-linear-regression")
    if linear:
        n = r.randint(14, 30)
    kinds = [r.choice(["bin", "bin", "num", "cat"]) for _ in range(r.randint(2, 4))]
    if task == "cost-sensitive" or r.random() < 0.3 and not linear:
        kinds = ["bin"] * r.randint(2, 5)
    if task in FAIR:
        kinds[r.randrange(len(kinds))] = "bin"
    if linear and "num" not in kinds:
        kinds[0] = "num"
    c.kinds = kinds
    c.n = n
    names = ["c%d" % i for i in range(len(kinds))]
    total = 2 * n
    cols = [column(r, t, total) for t in kinds]
    for col, t in zip(cols, kinds):  # the training part must show that a column is not binary
        if t == "num" and len(set(col[:n])) < 3:
            col[:3] = [2.5, 3.5, 7.0]
        if t == "bin" and len(set(col[:n])) < 2:
            col[:2] = [0, 1]
        if t == "cat" and len(set(col[:n])) < 2:
            col[:2] = sorted(set(col) | {"extra"})[:2]
    df = pd.DataFrame({m: v for m, v in zip(names, cols)}, columns=names)
    c.df, c.test = df.iloc[:n].reset_index(drop=True), df.iloc[n:].reset_index(drop=True)
    c.binary = all(t == "bin" for t in kinds)
    score = [sum((hash_of(col[i]) % 5) * w for col, w in zip(cols, [1.0, 0.5, -0.7, 0.3, 0.2])) for i in range(total)]
    noisy = [s + r.gauss(0, 1.0) for s in score]
    if task in CLASSIFY + FAIR + ["cost-sensitive"]:
        kk = 2 if task in FAIR + ["f1-score"] else k
        qs = np.quantile(noisy, np.linspace(0, 1, kk + 1)[1:-1])
        y = np.array([int(np.searchsorted(qs, v)) for v in noisy])
        y[:kk] = range(kk)
        c.k = kk
    elif task in REGRESS or linear:
        y = np.array([round(v * 2) / 2 for v in noisy])
    elif task == "instance-cost-sensitive":
        y = np.array([[round(abs(r.gauss(0, 2)) * (1 + (hash_of(cols[0][i]) + j) % 3), 1) for j in range(k)] for i in range(total)])
        c.k = k
    elif task == "prescriptive-policy":
        rows = []
        for i in range(total):
            t = i % k if i % n < k else r.randrange(k)
            rows.append([t, round(noisy[i], 2), r.choice([0.25, 0.5, 0.75])] + [round(noisy[i] + r.gauss(0, 1) + (hash_of(cols[0][i]) + j) % 2, 2) for j in range(k)] + [r.randrange(k)] + [round(r.gauss(0, 1), 2) for _ in range(k)])
        y = np.array(rows)
        c.k = k
    else:
        times = [max(0.5, round(3 + v + r.expovariate(0.3), 0)) for v in noisy]
        ev = [r.random() < 0.7 for _ in range(total)]
        ev[0] = ev[n] = True
        y = np.array(list(zip(ev, times)), dtype=[("e", bool), ("t", float)])
    c.y, c.ytest = y[:n], y[n:]
    c.frame = r.random() < 0.75
    c.auto = r.random() < 0.5
    p = dict(max_depth=r.randint(1, 3), min_leaf_node_size=r.choice([1, 1, 1, 2, 3]), random_seed=r.randint(0, 50))
    if r.random() < 0.4:
        p["max_num_nodes"] = r.randint(p["max_depth"], 2 ** p["max_depth"] - 1)
    if task != "cost-sensitive":
        p.update(n_thresholds=r.randint(1, 4), n_categories=r.randint(2, 4), continuous_binarize_strategy=r.choice(["quantile", "uniform", "tree"]))
        if task in ("survival-analysis", "instance-cost-sensitive", "prescriptive-policy") and p["continuous_binarize_strategy"] == "tree":
            p["continuous_binarize_strategy"] = "uniform"
    for o in ("use_branch_caching", "use_terminal_solver", "use_upper_bound", "use_lower_bound"):
        if r.random() < 0.3 and not (linear and o == "use_terminal_solver"):
            p[o] = r.random() < 0.5
    if task in ("cost-complex-accuracy", "cost-complex-regression") or linear:
        p["cost_complexity"] = r.choice([0.0, 0.01, 0.05, 0.2])
    if p.get("cost_complexity"):  # the two limits exclude each other
        p.pop("max_num_nodes", None)
    if linear:
        p.update(simple=task.startswith("simple"), lasso_penalty=r.choice([0.0, 0.1]), ridge_penalty=r.choice([0.0, 0.05]))
        p.pop("min_leaf_node_size")
    if task in CLASSIFY + REGRESS + FAIR:
        p["optimization_task"] = task
    if task in FAIR:
        p["discrimination_limit"] = r.choice([1.0, 0.5, 0.21])
        i = r.choice([j for j, t in enumerate(kinds) if t == "bin"])
        p["sensitive_feature"] = i if not c.frame or r.random() < 0.5 else names[i]
        c.sensitive = names[i]
    if task == "prescriptive-policy":
        p["teacher_method"] = r.choice(["DM", "IPW", "DR"])
    c.params = p
    c.given = dict(p)
    for name, default in DEFAULTS:      # now and then rely on a default
        if name in p and r.random() < 0.15:
            if name == "sensitive_feature":
                i = 0
                if kinds[0] != "bin":
                    continue
                c.sensitive = names[0]
            if name == "cost_complexity" and "max_num_nodes" in p:
                continue
            if name == "max_depth":
                if task == "piecewise-linear-regression" or "max_num_nodes" in p:
                    continue
            p[name] = default
            c.given.pop(name)
    c.explicit = [m for m, t in zip(names, kinds) if t == "cat"] if c.frame and r.random() < 0.5 and "cat" in kinds else None
    if task == "cost-sensitive":
        m = len(kinds)
        c.costs = [[0.0 if i == j else float(r.randint(1, 4)) for j in range(c.k)] for i in range(c.k)]
        c.fcosts = [round(r.choice([0.0, 0.1, 0.3]), 2) for _ in range(m)]
    if c.explicit and r.random() < 0.5:  # categories coded as numbers
        for m in c.explicit:
            codes = {v: i + 2 for i, v in enumerate(sorted(set(df[m])))}
            for d in (c.df, c.test):
                d[m] = d[m].map(codes)
    if not c.frame:  # arrays carry numbers only: categories become integers
        for d in (c.df, c.test):
            for m, t in zip(names, kinds):
                if t == "cat":
                    d[m] = d[m].map(lambda v: hash_of(v) % 6).astype(float)
        if any(t == "cat" for t in kinds):
            pool = [i for i, t in enumerate(kinds) if t == "cat" and len(set(c.df[names[i]])) > 1]
            c.explicit = pool if r.random() < 0.5 else None
    c.text = "%s(%s)%s%s" % (make_class(task).__name__, ", ".join("%s=%r" % kv for kv in sorted(c.given.items())), "" if c.explicit is None else " categorical=%r" % (c.explicit,), "" if c.frame else " fitted on an array")
    c.table = lambda: pd.concat([c.df, pd.DataFrame({"target": [str(v) for v in c.y]})], axis=1).to_string()
    return c


# the documented defaults
DEFAULTS = [("max_depth", 3), ("min_leaf_node_size", 1), ("cost_complexity", 0.01), ("sensitive_feature", 0), ("discrimination_limit", 0.05), ("teacher_method", "DR"), ("lasso_penalty", 0.0), ("ridge_penalty", 0.0), ("random_seed", 27)]


def hash_of(v):
    return sum(ord(ch) for ch in str(v))


def make_class(task):
    if task in CLASSIFY: return STreeDClassifier
    if task in REGRESS: return STreeDRegressor
    if task in FAIR: return STreeDGroupFairnessClassifier
    return {"cost-sensitive": STreeDCostSensitiveClassifier, "instance-cost-sensitive": STreeDInstanceCostSensitiveClassifier, "prescriptive-policy": STreeDPrescriptivePolicyGenerator,
            "survival-analysis": STreeDSurvivalAnalysis, "simple-linear-regression": STreeDPiecewiseLinearRegressor, "piecewise-linear-regression": STreeDPiecewiseLinearRegressor}[task]


def X_of(c, d):
    return d.copy() if c.frame else d.values.astype(float)


def cont_names(c):
    return [m for m, t in zip(c.df.columns, c.kinds) if t == "num"]


def get_numeric(c):
    """The columns that are neither binary, nor text, nor declared categorical."""
    return [m for m in c.df.columns if m not in (c.explicit or []) and c.df[m].dtype.kind in "if" and set(c.df[m]) - {0, 1}]


def extra(c):
    """What is passed to fit besides the data and the target."""
    if c.task == "cost-sensitive":
        fs = [FeatureCostSpecifier(v, v, "g%d" % i, i, i) for i, v in enumerate(c.fcosts)]
        return dict(cost_specifier=CostSpecifier(c.costs, fs))
    if c.task in ("simple-linear-regression", "piecewise-linear-regression"):
        k = [i for i, t in enumerate(c.kinds) if t == "num"]
        cont = [c.df.columns[i] for i in k] if c.frame else k
        if c.frame and c.auto and list(get_numeric(c)) == cont:
            cont = None
        return dict(continuous_columns=cont, categorical_columns=c.explicit)
    return dict(categorical=c.explicit)


def fit(c, est, d, y):
    X = X_of(c, d)
    before = X.copy()
    est.fit(X, y, **extra(c))
    return X, before


# ------------------------------------------------------------------------------------------------ reading the tree
def nodes(t):
    return 0 if t.is_leaf_node() else 1 + nodes(t.left_child) + nodes(t.right_child)


def depth(t):
    return 0 if t.is_leaf_node() else 1 + max(depth(t.left_child), depth(t.right_child))


def predicate(name, columns):
    """The function of a row of the original data that a feature of the printed tree stands for."""
    if name in columns:
        return lambda row: bool(row[name])
    m = re.match(r"^(.*?) <= (.*)$", name)
    if m:
        col, v = m.group(1), float(m.group(2))
        return lambda row: row[col] <= v
    m = re.match(r"^(.*?) == '(.*)'$", name)
    if m:
        col, v = m.group(1), m.group(2).replace("\\'", "'")
        return lambda row: row[col] == v
    m = re.match(r"^(.*?) == (.*)$", name)
    if m:
        col, v = m.group(1), float(m.group(2))
        return lambda row: row[col] == v
    m = re.match(r"^(.*?) in \[(.*)\]$", name)
    if m:
        col, vs = m.group(1), [a[1:-1].replace("\\'", "'") if a.startswith("'") else float(a) for a in re.findall(r"'(?:[^'\\]|\\.)*'|[^,]+", m.group(2))]
        return lambda row: row[col] in vs
    return None


def leaf_of(t, row):
    while not t.is_leaf_node():
        t = t.right_child if row[t.feature] else t.left_child
    return t


def binary_rows(est, c, d):
    """The binary features of every row, evaluated from the names the tree is printed with."""
    names = [str(v) for v in est.feature_names_in_]
    ps = [predicate(m, set(c.df.columns)) for m in names]
    if any(p is None for p in ps):
        return None
    return [[bool(p(row)) for p in ps] for row in d.to_dict("records")]


def close(a, b, tol=1e-6):
    return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def leaf_value(c, leaf, cont):
    if c.task in ("simple-linear-regression", "piecewise-linear-regression"):
        return leaf.label.intercept + sum(b * x for b, x in zip(leaf.label.coefficients, cont))
    return leaf.label


def raw_predict(c, est, X):
    """Predicted labels; for survival the hazard ratio of the leaf."""
    if c.task == "survival-analysis":
        return est.predict_cumulative_hazard_function(X, return_array=True)
    return np.asarray(est.predict(X))


def hazard(c, x):
    """Cumulative baseline hazard of the training data at time x."""
    ev, ts = [bool(v) for v in c.y["e"]], [float(v) for v in c.y["t"]]
    out, risk = 0.0, 0
    first = False
    for t in sorted(set(ts)):
        if t > x:
            break
        died = sum(1 for e, u in zip(ev, ts) if e and u == t)
        if died:
            out += died / sum(1 for u in ts if u >= t)
            first = True
    return out if first else 1.0 / (len(ts) + 1)


# ------------------------------------------------------------------------------------------------ checks
def same(c, a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-6 * np.maximum(1.0, np.abs(a))))


def check_fit(R, c, est, tag=""):
    t = est.get_tree()
    d, n = depth(t), nodes(t)
    R.chk(tag + "pydepth", est.get_depth() == d, "get_depth() = %r but the tree has depth %d" % (est.get_depth(), d), c)
    R.chk(tag + "pynodes", est.get_n_leaves() == n + 1, "get_n_leaves() = %r but the tree has %d leaves" % (est.get_n_leaves(), n + 1), c)
    limit = c.params.get("max_num_nodes")
    R.chk(tag + "pylimits", d <= c.params["max_depth"] and (limit is None or n <= limit), "depth %d and %d branching nodes exceed the limits" % (d, n), c)
    return t


def check_case(R, c):
    cls = make_class(c.task)
    est = cls(**c.given)
    try:
        X, before = fit(c, est, c.df, c.y)
    except Exception as e:
        R.chk("pyfit", False, "fit raised %s: %s" % (type(e).__name__, e), c)
        return
    R.evals += 1
    R.chk("pyinput", X.equals(before) and list(X.columns) == list(before.columns) if c.frame else np.array_equal(X, before), "fit changed the data it was given", c)
    # parameters reach the solver
    q = est.get_solver_params()
    for name, v in c.params.items():
        if name in ("max_num_nodes", "min_leaf_node_size") and c.task in ("piecewise-linear-regression", "simple-linear-regression"):
            continue
        attr = {"teacher_method": "ppg_teacher_method"}.get(name, name)
        if hasattr(q, attr):
            R.chk("pyparams", getattr(q, attr) == v, "%s=%r but the solver uses %r" % (name, v, getattr(q, attr)), c)
    if not est.is_fitted():
        return
    R.nontrivial += 1
    t = check_fit(R, c, est)
    if c.r.random() < 0.15:
        check_print(R, c, est, t)
    # predictions
    parts = [("the training data", c.df, c.y), ("other data", c.test, c.ytest)]
    cont = cont_names(c)
    for what, d, y in parts:
        X = X_of(c, d)
        before = X.copy()
        p = raw_predict(c, est, X)
        R.chk("pyinput", X.equals(before) and list(X.columns) == list(before.columns) if c.frame else np.array_equal(X, before), "predict changed the data it was given", c)
        R.chk("pyrows", len(p) == len(d), "%d predictions for %d rows" % (len(p), len(d)), c)
        R.chk("pyagain", same(c, p, raw_predict(c, est, X)), "predicting %s twice gives two answers" % what, c)
        order = list(range(len(d)))
        c.r.shuffle(order)
        cut = order[:max(2, len(order) // 2)]
        p2 = raw_predict(c, est, X_of(c, d.iloc[cut]))
        R.chk("pyalone", same(c, p2, p[cut]), "the predictions of %s change when fewer rows are predicted together" % what, c)
        rows = None
        if hasattr(est, "feature_names_in_") and c.frame:
            rows = binary_rows(est, c, d)
            R.chk("pynames", rows is not None, "feature names that cannot be evaluated: %s" % list(est.feature_names_in_), c)
            R.chk("pycategorical", not any(str(v).startswith(m + " <= ") for v in est.feature_names_in_ for m in c.explicit or []), "a categorical column is split at a threshold: %s" % list(est.feature_names_in_), c)
        elif c.binary and c.task not in FAIR:
            rows = [[bool(v) for v in row] for row in d.values]
        if rows is not None:
            leaves = [leaf_of(t, row) for row in rows]
            vals = d[cont].values if cont else np.zeros((len(d), 0))
            if c.task == "survival-analysis":
                times = est.unique_times_
                want = np.array([[l.label * hazard(c, u) for u in times] for l in leaves])
                R.chk("pywalk", same(c, p, want), "the cumulative hazard of %s is not that of the leaves" % what, c)
                sv = est.predict_survival_function(X, return_array=True)
                R.chk("pysurvival", same(c, sv, np.exp(-want)), "the survival function of %s is not exp(-hazard)" % what, c)
                isev = np.array([any(e and u == w for e, w in zip(c.y["e"], c.y["t"])) for u in times])
                R.chk("pysurvival", same(c, est.predict(X), want[:, isev].sum(1)), "the risk of %s is not the summed hazard" % what, c)
            else:
                want = [leaf_value(c, l, v) for l, v in zip(leaves, vals)]
                bad = [i for i in range(len(d)) if not close(float(p[i]), float(want[i]), 1e-6)]
                R.chk("pywalk", not bad, "row %s of %s is predicted as %s but its leaf has %s" % (bad[:1], what, [p[i] for i in bad[:1]], [want[i] for i in bad[:1]]), c)
            if what == "the training data":
                check_leaves(R, c, est, t, rows)
        check_score(R, c, est, what, d, y, p)
    if c.task in CLASSIFY and c.frame and c.task != "f1-score":
        check_proba(R, c, est, t)
    if c.task in FAIR:
        p, g = np.asarray(est.predict(X_of(c, c.df))), c.df[c.sensitive].values
        use = np.ones(len(g), bool) if c.task == "group-fairness" else c.y == 1
        a, b = p[use & (g == 0)], p[use & (g == 1)]
        if len(a) and len(b):
            R.chk("pyfair", abs(a.mean() - b.mean()) <= c.params["discrimination_limit"] + 1e-6, "discrimination %r on the training data" % abs(a.mean() - b.mean()), c)
    if "linear" in c.task and c.frame and c.auto and c.r.random() < 0.3:  # other column names
        again = {m: "d" + m[1:] for m in c.df.columns}
        try:
            est.fit(c.df.rename(columns=again), c.y, categorical_columns=[again[m] for m in c.explicit] if c.explicit else None)
        except Exception as e:
            R.chk("pyrefit", False, "fitting the same data again with other column names raised %s: %s" % (type(e).__name__, e), c)
            return
    # the same estimator fitted again, after other data
    if c.r.random() < 0.5:
        try:
            fresh = cls(**c.given)
            fit(c, fresh, c.test, c.ytest)
            other = c.r.random() < 0.5
            fit(c, est, c.test if other else c.df, c.ytest if other else c.y)
            ref = fresh if other else cls(**c.given)
            if not other:
                fit(c, ref, c.df, c.y)
            if ref.is_fitted() != est.is_fitted():
                R.chk("pyrefit", False, "fitting again %s a tree but a new estimator %s" % ("finds" if est.is_fitted() else "finds not", "does" if ref.is_fitted() else "does not"), c)
            elif not ref.is_fitted():
                try:
                    est.get_tree()
                    R.chk("pyrefit", False, "there is no feasible tree, but the tree of the earlier fit is returned", c)
                except Exception:
                    pass
            elif ref.is_fitted():
                a, b = est.fit_result.score(), ref.fit_result.score()
                R.chk("pyrefit", close(a, b, 1e-6), "training score %r when fitted again but %r with a new estimator" % (a, b), c)
                check_fit(R, c, est)
        except ValueError:
            pass


def check_print(R, c, est, t):
    """The printed and the exported tree are the returned tree."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        est.print_tree()
    names = [str(v) for v in est.feature_names_in_] if hasattr(est, "feature_names_in_") else None
    got, want = [], []
    for line in out.getvalue().splitlines():
        text = line.lstrip("| ")
        level = (len(line) - len(text)) // 4
        got.append((level, text))

    def walk(n, level):
        if n.is_leaf_node():
            want.append((level, None, n.label))
        else:
            want.append((level, n.feature, False))
            walk(n.left_child, level + 1)
            want.append((level, n.feature, True))
            walk(n.right_child, level + 1)
    walk(t, 0)
    ok = len(got) == len(want)
    for (l, text), (m, f, v) in zip(got, want):
        if f is None:
            ok = ok and l == m and text == "Label: %s" % v
        else:
            col = "Feature %d" % f if names is None else names[f].split(" <= ")[0]
            ok = ok and l == m and text.startswith(col) and text.endswith(" satisfied") and text.endswith(" not satisfied") == (not v)
    R.chk("pyprint", ok, "the printed tree is not the returned tree:\n%s\nbut %s" % (out.getvalue(), want), c)
    if c.task not in CLASSIFY + ["regression", "cost-complex-regression"]:
        return
    with tempfile.TemporaryDirectory() as tmp:
        est.export_dot(os.path.join(tmp, "t.dot"))
        text = open(os.path.join(tmp, "t.dot"), encoding="utf-8").read()
    edges = {}
    for a, b, side in re.findall(r'^(\d+) -> (\d+) \[.*label="(True|False)"', text, re.M):
        edges.setdefault(int(a), {})[side] = int(b)

    def follow(n, k):
        m = re.search(r'^%d +\[label="([^"]*)"' % k, text, re.M)
        if n.is_leaf_node():
            return m is not None and k not in edges and (c.task in REGRESS or m.group(1) == str(n.label))
        return m is not None and set(edges.get(k, {})) == {"True", "False"} and follow(n.left_child, edges[k]["False"]) and follow(n.right_child, edges[k]["True"])
    R.chk("pyprint", follow(t, 0), "the exported tree is not the returned tree:\n%s" % text, c)


def split(t, rows, idx):
    if t.is_leaf_node():
        yield t, idx
        return
    yield from split(t.left_child, rows, [i for i in idx if not rows[i][t.feature]])
    yield from split(t.right_child, rows, [i for i in idx if rows[i][t.feature]])


def leaf_cost(c, idx, label):
    if c.task in ("accuracy", "cost-complex-accuracy"):
        return sum(1 for i in idx if c.y[i] != label)
    if c.task == "instance-cost-sensitive":
        return sum(c.y[i][label] for i in idx)
    return sum((c.y[i] - label) ** 2 for i in idx)


def best_leaf(c, idx):
    if c.task in ("accuracy", "cost-complex-accuracy", "instance-cost-sensitive"):
        return min(leaf_cost(c, idx, k) for k in range(c.k))
    m = sum(c.y[i] for i in idx) / len(idx)
    return sum((c.y[i] - m) ** 2 for i in idx)


def check_leaves(R, c, est, t, rows):
    minleaf = c.params.get("min_leaf_node_size", 5)
    parts = list(split(t, rows, list(range(len(rows)))))
    R.chk("pylimits", nodes(t) == 0 or all(len(i) >= minleaf for _, i in parts), "a leaf has fewer than %d training rows" % minleaf, c)
    if c.task not in ("accuracy", "regression", "instance-cost-sensitive", "cost-complex-accuracy"):
        return
    for leaf, idx in parts:
        if idx:
            R.chk("pyleaf", leaf_cost(c, idx, leaf.label) <= best_leaf(c, idx) + 1e-6 + 1e-6 * abs(best_leaf(c, idx)), "the label %s of a leaf is not the best for its rows %s" % (leaf.label, idx), c)
    if c.params["max_depth"] > 2:
        return
    per = c.params.get("cost_complexity", 0.0) * len(rows) if c.task == "cost-complex-accuracy" else 0.0
    got = sum(leaf_cost(c, idx, leaf.label) for leaf, idx in parts if idx) + per * nodes(t)
    memo = {}

    def opt(idx, dd, nn):
        key = (idx, dd, nn)
        if key not in memo:
            best = best_leaf(c, idx) if idx else (0.0 if minleaf == 0 else math.inf)
            if len(idx) < minleaf:
                best = math.inf
            if dd and nn:
                for f in range(len(rows[0])):
                    a = tuple(i for i in idx if not rows[i][f])
                    b = tuple(i for i in idx if rows[i][f])
                    if len(a) < max(1, minleaf) or len(b) < max(1, minleaf):
                        continue
                    for l in range(nn):
                        best = min(best, per + opt(a, dd - 1, l) + opt(b, dd - 1, nn - 1 - l))
            memo[key] = best
        return memo[key]
    want = opt(tuple(range(len(rows))), c.params["max_depth"], c.params.get("max_num_nodes") or 2 ** c.params["max_depth"] - 1)
    R.chk("pyopt", got <= want + 1e-4 + 6e-4 * abs(want), "training objective %r but %r is possible" % (got, want), c)


def check_score(R, c, est, what, d, y, p):
    if c.task in ("survival-analysis", "prescriptive-policy", "cost-sensitive") + tuple(FAIR):
        if c.task != "cost-sensitive":
            return
    args = (X_of(c, d), y)
    try:
        s = est.score(*args)
    except Exception as e:
        R.chk("pyscore", False, "score raised %s: %s" % (type(e).__name__, e), c)
        return
    if c.task in ("accuracy", "cost-complex-accuracy"):
        want = float(np.mean(p == y))
    elif c.task == "f1-score":
        tp, fp, fn = (int(np.sum((p == a) & (y == b))) for a, b in ((1, 1), (1, 0), (0, 1)))
        if tp + fp + fn == 0:
            return
        want = tp / (tp + 0.5 * (fp + fn))
    elif c.task == "instance-cost-sensitive":
        want = float(sum(y[i][p[i]] for i in range(len(y))))
    elif c.task == "cost-sensitive":
        return
    else:
        want = float(np.mean((np.asarray(p) - y) ** 2))
        if c.task in ("simple-linear-regression", "piecewise-linear-regression"):
            return
    R.chk("pyscore", close(float(s), want, 1e-5), "score() on %s is %r but the predictions give %r" % (what, s, want), c)


def check_proba(R, c, est, t):
    if set(c.y) != set(range(c.k)):
        return
    rows, test = binary_rows(est, c, c.df), binary_rows(est, c, c.test)
    probs = est.predict_proba(X_of(c, c.test))
    parts = list(split(t, rows, list(range(len(rows)))))
    for i, row in enumerate(test):
        path = []
        node = t
        idx = list(range(len(rows)))
        while not node.is_leaf_node():
            idx = [j for j in idx if rows[j][node.feature] == row[node.feature]]
            node = node.right_child if row[node.feature] else node.left_child
        want = [sum(1 for j in idx if c.y[j] == k) / len(idx) for k in range(c.k)]
        R.chk("pyproba", same(c, probs[i], want), "predict_proba of row %d of other data is %s but its leaf has %s" % (i, probs[i], want), c)


# ------------------------------------------------------------------------------------------------ invalid parameters
INVALID = [dict(max_depth=-1), dict(max_depth=21), dict(max_depth=2.5), dict(max_num_nodes=-1), dict(min_leaf_node_size=0), dict(time_limit=0.0), dict(time_limit=-1.0),
           dict(random_seed=-2), dict(upper_bound=-1.0)]


def check_invalid(R, c):
    R.evals += 1
    R.nontrivial += 1
    bad = dict(c.r.choice(INVALID + ([dict(n_thresholds=0), dict(n_categories=1), dict(continuous_binarize_strategy="none")] if c.task != "cost-sensitive" else [])
                          + ([dict(cost_complexity=-0.1), dict(cost_complexity=1.5)] if c.task in ("cost-complex-accuracy", "cost-complex-regression") else [])
                          + ([dict(feature_ordering="none")] if c.task in CLASSIFY else [])
                          + ([dict(discrimination_limit=-0.1), dict(discrimination_limit=1.1)] if c.task in FAIR else [])
                          + ([dict(lasso_penalty=-0.1), dict(ridge_penalty=-1.0)] if "linear" in c.task else [])))
    if c.task in FAIR:
        bad.pop("upper_bound", None)
    if "min_leaf_node_size" in bad and "linear" in c.task or not bad:
        return
    p = dict(c.params)
    p.update(bad)
    if "max_depth" in bad:
        p.pop("max_num_nodes", None)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            est = make_class(c.task)(**p)
            fit(c, est, c.df, c.y)
            code = 7
        except BaseException:
            code = 3
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    R.chk("pyinvalid", not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7), "%r was accepted" % bad, c)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--mode", default="all")
    ap.add_argument("--task", default="accuracy")
    ap.add_argument("--kinds")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--secs", type=float, default=10)
    ap.add_argument("--case", type=int)
    ap.add_argument("--max-fail", type=int, default=5)
    a = ap.parse_args()
    current = mmap.mmap(-1, 8)  # the case being run, for when the library ends the process
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            code = work(a, current)
        except BaseException:
            traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) in (0, 10, 2):
        return {0: 0, 10: 1, 2: 2}[os.WEXITSTATUS(st)]
    seed = struct.unpack("q", current[:8])[0]
    if not a.kinds or "crash" in a.kinds.split(","):
        c = gen(seed, a.task)
        print("FAIL kind=crash task=%s case=%d" % (a.task, seed))
        print("  the process was ended (status %d)\n  estimator: %s" % (st, c.text))
        print(c.table())
    print("SUMMARY evaluations=1 nontrivial=1 failures=1")
    return 1


def work(a, current):
    R = Run(a)
    base = random.Random("%d %s" % (a.seed, a.task)).getrandbits(48)
    end = time.time() + a.secs
    i = 0
    try:
        while True:
            seed = a.case if a.case is not None else base + i
            current[:8] = struct.pack("q", seed)
            c = gen(seed, a.task)
            if seed % 8 == 0:
                check_invalid(R, c)
            else:
                try:
                    check_case(R, c)
                except Stop:
                    raise
                except Exception as e:
                    if os.sep + "pystreed" + os.sep not in traceback.extract_tb(e.__traceback__)[-1].filename and "pystreed" not in str(e):
                        raise
                    R.chk("pyfit", False, "raised %s: %s" % (type(e).__name__, e), c)
            i += 1
            if a.case is not None or time.time() > end:
                break
    except Stop:
        pass
    print("SUMMARY evaluations=%d nontrivial=%d failures=%d" % (R.evals, R.nontrivial, R.fails))
    return 10 if R.fails else 0


if __name__ == "__main__":
    sys.exit(main())
