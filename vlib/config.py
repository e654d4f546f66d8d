"""What each property's check runs: the contract modules (deductive part) and the bounded stand-ins (run-time part)."""
TOTAL = ["accuracy", "cost-complex-accuracy", "cost-sensitive", "instance-cost-sensitive", "prescriptive-policy", "regression",
         "cost-complex-regression", "simple-linear-regression", "survival-analysis"]
FAIR = ["group-fairness", "equality-of-opportunity"]
ALL = TOTAL + ["f1-score"] + FAIR


def e2e(mode, kinds, tasks):
    return [dict(exe="e2e", args=["--mode", mode, "--task", t, "--kinds", ",".join(kinds), "--max-fail", "3"]) for t in tasks]


def unit(mode, kinds, tasks=("-",)):
    return [dict(exe="unit", args=["--mode", mode, "--task", t, "--kinds", ",".join(list(kinds) + ["crash"]), "--max-fail", "3"]) for t in tasks]


def py(kinds, tasks):
    return [dict(exe="pyapi", args=["--task", t, "--kinds", ",".join(list(kinds) + ["pyfit", "crash"]), "--max-fail", "3"]) for t in tasks]


def pre(kinds, *prefixes):
    return [p + k for p in prefixes for k in kinds]


OPT = ["feasible", "proven", "opt", "crash"]
SHAPE = ["shape", "depth", "nodes", "minleaf", "repeat", "forbidden", "crash"]
REP = ["repdepth", "repnodes", "repstring", "score", "value", "testscore", "crash"]

SUB = ["suboptimal", "subattain", "subnodes"]
FRONT = ["front", "frontdup", "frontreal", "frontdom"]
SETS = ["f1-score"] + FAIR
PYALL = ALL + ["piecewise-linear-regression"]
INTTASKS = ["accuracy", "regression", "cost-complex-accuracy"]

CHECKS = {
    "P01": dict(bounded=e2e("default", OPT, TOTAL) + e2e("all", OPT, TOTAL) + unit("subtree", SUB, TOTAL) + py(["pyopt"], ["accuracy", "regression", "instance-cost-sensitive"])),
    "P02": dict(bounded=e2e("all", SHAPE, ALL) + e2e("tune", pre(SHAPE, "tune") + ["tunelimits", "crash"], ALL) + py(["pylimits"], ["accuracy", "cost-complex-regression", "piecewise-linear-regression"])),
    "P03": dict(bounded=e2e("all", REP, ALL) + py(["pyscore", "pydepth", "pynodes"], ["accuracy", "f1-score", "regression", "instance-cost-sensitive", "cost-complex-accuracy"])),
    "P04": dict(bounded=e2e("predict", ["predict", "crash"], ALL) + py(["pywalk", "pyalone", "pyagain", "pynames", "pyrows", "pyproba", "pycategorical", "pyinput", "pyprint"], PYALL)),
    "P05": dict(bounded=unit("split", ["split", "splitsize", "splitter", "viewequal", "bitequal", "partition", "partlabel", "folds"], ["accuracy", "regression"])),
    "P06": dict(bounded=e2e("options", OPT, ALL) + unit("cache", ["cacheflag", "cacheopt", "cachenodes", "cachelb"], INTTASKS) + unit("subtree", SUB + FRONT, ["accuracy", "cost-complex-regression", "f1-score"])),
    "P07": dict(bounded=e2e("all", OPT + ["value"], ["f1-score"]) + e2e("options", OPT, ["f1-score"]) + unit("set", ["set", "setsize", "setlimit", "merge", "dominates"], SETS) + unit("subtree", FRONT, ["f1-score"])),
    "P08": dict(bounded=unit("counts", ["total", "leafsol", "counts", "sols", "label", "branchcost"], ALL)),
    "P09": dict(bounded=unit("subtree", ["bound"] + SUB, TOTAL + ["f1-score"]) + unit("cache", ["cachelb"], INTTASKS)),
    "P10": dict(bounded=e2e("all", OPT + ["fair"], FAIR) + e2e("options", OPT + ["fair"], FAIR) + py(["pyfair", "pyinput"], FAIR)),
    "P11": dict(bounded=e2e("all", ["leaf", "theta", "crash"], ALL) + py(["pyleaf"], ["accuracy", "regression", "instance-cost-sensitive"])),
    "P12": dict(bounded=unit("params", ["default", "readback", "copy", "range", "unknown", "combination", "commandline"]) + py(["pyparams", "pyinvalid"], ["accuracy", "cost-complex-accuracy", "f1-score", "regression", "group-fairness", "cost-sensitive", "instance-cost-sensitive", "prescriptive-policy", "survival-analysis", "piecewise-linear-regression", "simple-linear-regression"])),
    "P13": dict(bounded=e2e("tune", pre(OPT + SHAPE + REP + ["leaf", "limits", "fair", "predict"], "tune") + ["crash"], ALL) + unit("tune", ["tuneall", "tunebest", "tunefirst"], ALL)),
    "P14": dict(bounded=e2e("refit", pre(OPT + SHAPE + REP + ["leaf", "fair", "predict"], "again", "refit") + ["crash"], ALL) + py(["pyrefit"], ["accuracy", "regression", "simple-linear-regression", "survival-analysis"])),
    "P15": dict(bounded=unit("hazard", ["hazard", "monotone"]) + e2e("all", ["leaf", "theta", "opt", "crash"], ["survival-analysis"]) + unit("counts", ["leafsol", "sols", "label"], ["survival-analysis"]) + py(["pywalk", "pysurvival"], ["survival-analysis"])),
}
NOT_APPLICABLE = {}
for _c in CHECKS.values():
    _c.setdefault("level", "exploration")
ASSUMPTIONS = {"all": [
    "machine integers are treated as mathematical integers and doubles as reals in the verified functions (no overflow, no rounding)",
    "termination of the verified functions is not proved",
    "reference parameters of a verified function do not overlap unless the contract says so (checked at every verified call site)",
    "the standard-library models listed in the trusted base (vector, map, algorithms) are taken on trust",
    "contracts' preconditions are established by verified callers or by the data-structure invariants named in the contracts; other callers are covered by the bounded runs only"]}
