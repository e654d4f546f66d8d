#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON lines stay well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

TEST = "The one existing test compares the optimum of four tasks on a handful of fixed files with constants; "

prop("P01", "A completed search returns a tree with the optimal training objective",
 "When a search runs to completion, the tree it returns has a training objective that no other decision tree within the requested depth, node-count and leaf-size limits improves on, for every task whose objective is a single number (misclassifications, misclassifications or squared error with or without a per-branch cost, feature and misclassification costs, per-instance costs, policy value, survival loss).",
 ["inputs", "configurations"], "all binarized training sets, all single-objective tasks, all depth / node / leaf-size limits",
 TEST + "optimality is a statement about all trees on all data sets, and an off-by-one in a node budget, a pruning rule or a cached bound only loses the optimum on particular data.",
 ["src/solver/solver.cpp", "include/solver/solver.h", "include/solver/optimization_utils.h", "src/solver/terminal_solver.cpp", "include/model/node.h"],
 [("general-case search over features and node budgets", "src/solver/solver.cpp SolveSubTreeGeneralCase"),
  ("sub-problem dispatch, leaf solutions, pruning", "src/solver/solver.cpp SolveSubTree, SolveLeafNode, ComputeLowerBound, SubtractUBs, ReduceNodeBudget"),
  ("depth-two search", "src/solver/terminal_solver.cpp Solve, UpdateBestTwoNodeAssignment, UpdateBestThreeNodeAssignment"),
  ("dominance and combination of solutions", "include/solver/optimization_utils.h")],
 observe=["value of the returned tree", "exhaustive minimum over all trees"])

prop("P02", "Returned trees respect the depth, node-count and leaf-size limits",
 "Every tree returned by a fit has depth at most the requested maximum depth, at most the requested number of branching nodes, and every leaf receives at least the requested minimum number of training instances; a tree never branches on a feature the task forbids and never branches twice on the same feature along one path.",
 ["inputs", "configurations"], "all training sets, all tasks, all limits, tuned and untuned fits",
 TEST + "limits are respected or not per data set and per way the node budget is divided between the two children.",
 ["src/solver/solver.cpp", "src/solver/terminal_solver.cpp", "include/solver/tree.h", "include/model/node.h"],
 [("budget division between children", "src/solver/solver.cpp SolveSubTreeGeneralCase, ConstructOptimalTree, ReduceNodeBudget"),
  ("leaf size checks", "src/solver/solver.cpp SatisfiesMinimumLeafNodeSize; src/solver/terminal_solver.cpp"),
  ("node accounting", "include/model/node.h NumNodes; include/solver/tree.h Depth, NumNodes")],
 observe=["shape of the returned tree", "training instances reaching each leaf"])

prop("P03", "Reported score, depth and node count are those of the returned tree",
 "The score, depth and number of branching nodes that a result reports are exactly those obtained by taking the returned tree and evaluating it independently on the same data, on the training data after a fit and on any other data after a test run.",
 ["inputs", "configurations"], "all training and test sets, all tasks, all limits and search options",
 TEST + "they only look at the reported number and never at the tree, so a tree reconstructed differently from the value that was optimised is invisible.",
 ["include/solver/tree.h", "src/solver/solver.cpp", "include/solver/result.h", "src/solver/terminal_solver.cpp"],
 [("tree reconstruction from cached solutions", "src/solver/solver.cpp ConstructOptimalTree; src/solver/terminal_solver.cpp ConstructOptimalTree; include/solver/tree.h CreateD2TreeFromTreeNodes"),
  ("score evaluation on a tree", "include/solver/tree.h ComputeTrainScore, ComputeTestScore, ComputeTestTestScore"),
  ("result bookkeeping", "include/solver/result.h AddSolution, SetScore")],
 observe=["result scores / tree depths / node counts", "independent evaluation of the printed tree"])

prop("P04", "Predicting means walking the returned tree on the original features",
 "The prediction for an instance is the label of the leaf reached from the root by going to one fixed side when the tested original (un-preprocessed) feature is present and to the other when it is absent; in particular it depends on that instance alone and not on the other instances predicted in the same call or on internal re-encoding of features. The printed and the exported tree are that same tree.",
 ["inputs"], "all trees returned by a fit, all batches of instances to predict",
 TEST + "prediction is never called; feature inversion is only active for features present in more than half of the training rows.",
 ["include/solver/tree.h", "src/solver/solver.cpp", "src/model/feature_vector.cpp", "src/solver/data_splitter.cpp", "src/model/data.cpp", "pystreed/base.py", "pystreed/binarizer.py", "src/bindings.cpp"],
 [("classification of a batch by recursive splitting", "include/solver/tree.h Classify"),
  ("undoing the feature inversion", "include/solver/tree.h FlipFlippedFeatures; src/solver/solver.cpp PreprocessData, PostProcessTree"),
  ("feature flip / disable", "src/model/feature_vector.cpp FlipFeature, DisableFeature")],
 observe=["predict output", "walk of the printed tree over the raw row"])

prop("P05", "Splitting data is an exact partition",
 "Splitting a data set on a feature sends every instance to exactly one side, the side that matches its feature value, keeping labels, order and multiplicity and with sizes adding up; dividing data into train/test parts or folds likewise loses and duplicates nothing, every instance being in exactly one validation fold and never in the training and validation part of the same fold.",
 ["inputs", "histories"], "all data sets, features, fold counts, random seeds, repeated splits of the same branch",
 TEST + "a lost or duplicated row changes an optimum by one on some data only, and fold construction is not exercised at all.",
 ["src/model/data.cpp", "include/model/data.h", "src/solver/data_splitter.cpp", "src/model/feature_vector.cpp"],
 [("split on a feature", "src/model/data.cpp SplitData; src/solver/data_splitter.cpp Split"),
  ("train/test and k-fold partition", "src/model/data.cpp TrainTestSplitData, KFoldSplit"),
  ("feature membership representation", "src/model/feature_vector.cpp")],
 observe=["instances on each side of a split"])

prop("P06", "Search options change the work done, never the optimal value",
 "Switching the branch cache, the data-set cache, upper bounding, lower bounding, the similarity bound, the task-specific bound, the depth-two specialised solver or the feature ordering on or off, in any combination, never changes the training objective of the result; what a cache returns for a sub-problem and budget is always something that was established for that same sub-problem and budget.",
 ["configurations", "inputs", "histories"], "all combinations of search options, all data sets, all sequences of cache stores and lookups",
 TEST + "it runs a few option combinations on four files; a cache that confuses two sub-problems or budgets needs a particular sequence of stores and lookups.",
 ["src/solver/cache.cpp", "src/solver/branch_cache.cpp", "src/solver/dataset_cache.cpp", "include/solver/cache_entry.h", "src/model/branch.cpp", "src/solver/solver.cpp", "src/solver/feature_selector_gini.cpp", "src/utils/key_value_heap.cpp"],
 [("per-branch and per-data-set caches", "src/solver/branch_cache.cpp, src/solver/dataset_cache.cpp StoreOptimalBranchAssignment, RetrieveOptimalAssignment, RetrieveLowerBound, UpdateLowerBound"),
  ("cache key equality", "src/model/branch.cpp operator==; src/model/data.cpp operator=="),
  ("feature ordering visits every feature once", "include/solver/feature_selector.h; src/utils/key_value_heap.cpp")],
 observe=["optimal value under each option combination", "cache lookups after arbitrary stores"])

prop("P07", "Multi-criteria tasks return exactly the non-dominated solutions",
 "For tasks whose objective has several components (false negatives/false positives), the result contains, up to solutions of equal value, every attainable non-dominated combination within the limits, contains no combination that is dominated by another one attainable within the limits, and never lists the same value twice; the sets kept for sub-problems of the search have the same property.",
 ["inputs", "configurations"], "all data sets, depth and node limits, insertion orders of solutions",
 TEST + "one front value of one file is compared; a front that silently loses or keeps one point is only visible on particular data.",
 ["include/model/container.h", "include/tasks/f1score.h", "src/tasks/f1score.cpp", "src/solver/solver.cpp", "include/solver/optimization_utils.h"],
 [("Pareto container insertion and removal", "include/model/container.h InternalAdd, InternalAddD0, Dominates, StrictDominates"),
  ("combination of fronts", "src/solver/solver.cpp Merge; include/solver/optimization_utils.h CombineSols, AddSol"),
  ("componentwise dominance", "include/tasks/f1score.h Dominates")],
 observe=["list of returned solutions", "exhaustive front"])

prop("P08", "Depth-two statistics equal direct counting, also when updated incrementally",
 "The number of instances and the total cost that the small-tree solver attributes to every combination of two feature values and every label are exactly those obtained by going through the current instances, no matter which data sets the same solver processed before.",
 ["inputs", "histories"], "all sequences of data sets given to one solver instance, all feature pairs, all labels",
 TEST + "the incremental update path depends on the history of sub-problems; inclusion-exclusion errors cancel on most pairs of features.",
 ["src/solver/cost_combiner.cpp", "src/solver/cost_storage.cpp", "src/solver/counter.cpp", "src/solver/difference_computer.cpp", "src/model/feature_vector.cpp", "include/solver/cost_storage.h"],
 [("pair index", "src/solver/counter.cpp IndexSymmetricMatrix; src/solver/cost_storage.cpp IndexSymmetricMatrix; src/model/feature_vector.cpp ComputeFeaturePairIndices"),
  ("incremental difference", "src/solver/difference_computer.cpp ComputeDifference; src/solver/cost_combiner.cpp Initialize, UpdateCosts"),
  ("inclusion-exclusion", "src/solver/cost_combiner.cpp GetCounts, GetCostsXY, CalcSols")],
 observe=["solutions of the depth-two solver", "counts obtained by a direct pass"])

prop("P09", "Lower bounds used for pruning never exceed the true optimum",
 "Every lower bound used to discard a sub-problem (bounds derived from similar data sets seen earlier, from equivalent or clustered instances, from worst removable instances, or remembered from an earlier failed search) is at most the best objective attainable on that sub-problem within the budget it is applied to.",
 ["inputs", "histories"], "all data sets, budgets, and all archives of earlier sub-problems",
 TEST + "an inadmissible bound only cuts off the optimum on data where it is nearly tight.",
 ["src/solver/similarity_lowerbound.cpp", "src/solver/difference_computer.cpp", "src/tasks/accuracy/cost_complex_accuracy.cpp", "src/tasks/regression/cost_complex_regression.cpp", "src/tasks/instance_cost_sensitive.cpp", "src/tasks/optimization_task.cpp", "include/solver/cache_entry.h"],
 [("similarity bound", "src/solver/similarity_lowerbound.cpp ComputeLowerBound, UpdateArchive"),
  ("equivalent points and clustering bounds", "src/tasks/accuracy/cost_complex_accuracy.cpp; src/tasks/regression/cost_complex_regression.cpp ComputeLowerBound"),
  ("bound arithmetic", "src/tasks/optimization_task.cpp; include/tasks/*.h Subtract"),
  ("remembered bounds", "include/solver/cache_entry.h UpdateLowerBound; RetrieveLowerBound in both caches")],
 observe=["bound returned for a sub-problem", "exhaustive optimum of the sub-problem"])

prop("P10", "Fairness-constrained trees satisfy the limit and are optimal among those",
 "Every tree returned by the two fairness tasks has a training discrimination (difference in positive rate, or in true-positive rate, between the two groups) of at most the requested limit (up to rounding of the group shares), and no tree within the size limits that satisfies the limit misclassifies fewer training instances.",
 ["inputs", "configurations"], "all data sets with two groups, all limits and size limits",
 TEST + "the fairness tasks are never run by the test.",
 ["src/tasks/group_fairness.cpp", "include/tasks/group_fairness.h", "src/tasks/eq_opp.cpp", "include/tasks/eq_opp.h", "include/model/container.h", "src/solver/solver.cpp", "pystreed/group_fair.py", "src/bindings.cpp"],
 [("constraint check on partial and complete solutions", "include/tasks/group_fairness.h, include/tasks/eq_opp.h SatisfiesConstraint, Dominates"),
  ("group rates per leaf", "src/tasks/group_fairness.cpp, src/tasks/eq_opp.cpp GetLeafCosts"),
  ("root relaxation of the upper bound", "RelaxRootSolution; include/solver/optimization_utils.h AddRootRelaxSols")],
 observe=["group rates of the returned tree on the training data"])

prop("P11", "Every leaf carries the label or value that is best for its instances",
 "In every returned tree the label (or predicted value) of a leaf minimises the task's documented cost summed over the training instances that reach that leaf, among all labels the task allows: majority class, cheapest class under the cost matrix or the per-instance costs, mean for squared error, best treatment, maximum-likelihood hazard rate.",
 ["inputs"], "all data sets, all tasks with per-leaf separable costs, all leaves",
 TEST + "leaf values are never inspected.",
 ["include/tasks/accuracy/accuracy.h", "src/tasks/accuracy/cost_complex_accuracy.cpp", "src/tasks/cost_sensitive.cpp", "src/tasks/instance_cost_sensitive.cpp", "src/tasks/regression/regression.cpp", "src/tasks/regression/cost_complex_regression.cpp", "src/tasks/prescriptive_policy.cpp", "src/tasks/survival_analysis.cpp", "src/solver/solver.cpp"],
 [("leaf cost of a label", "src/tasks/*.cpp, include/tasks GetLeafCosts, GetInstanceLeafD2Costs, ComputeD2Costs"),
  ("choice of the best label", "src/solver/solver.cpp SolveLeafNode; src/tasks SolveLeafNode, GetLabel, Classify")],
 observe=["leaf labels of the returned tree", "cost of every alternative label on the leaf's instances"])

prop("P12", "Parameters are accepted exactly within their documented range",
 "Reading a parameter back gives exactly the value last set for it (or its default), setting one parameter changes no other, and a value outside the documented range or set of options, or an inconsistent combination of depth and node limits, never reaches the solver.",
 ["inputs", "histories"], "all sequences of parameter definitions, assignments and reads",
 TEST + "only in-range values are ever set.",
 ["src/utils/parameter_handler.cpp", "include/utils/parameter_handler.h", "src/solver/define_parameters.cpp", "pystreed/base.py", "src/bindings.cpp"],
 [("range and option checks on assignment", "src/utils/parameter_handler.cpp Set*Parameter, Define*Parameter"),
  ("cross-parameter consistency", "src/utils/parameter_handler.cpp CheckParameters")],
 observe=["value returned after a sequence of assignments", "process exit on bad value"])

prop("P13", "Tuning selects the best-scoring configuration and respects the limits",
 "A tuned fit evaluates every candidate configuration within the requested limits on disjoint validation folds, selects the first configuration whose average validation score is best for the task, and returns the tree that an untuned fit with the selected configuration returns on the full training data.",
 ["inputs", "configurations"], "all data sets, limits, random seeds and tasks",
 TEST + "tuning is never run by the test.",
 ["src/solver/solver.cpp", "src/tasks/optimization_task.cpp", "include/solver/tuning.h", "include/tasks/optimization_task.h", "src/model/data.cpp"],
 [("candidate enumeration", "src/tasks/optimization_task.cpp GetTuneRunConfiguration and task overrides"),
  ("selection of the best average score", "src/solver/solver.cpp HyperSolve; include/solver/tree.h InternalTestScore::GetAverage; CompareScore"),
  ("folds", "src/model/data.cpp KFoldSplit")],
 observe=["selected parameters", "returned tree"])

prop("P14", "A fit depends only on its data and parameters, not on earlier fits",
 "Solving a training set with a solver that has already solved, tuned or predicted on other data gives a result of the same training objective as a fresh solver would give, and solving the same set twice gives the same objective twice.",
 ["histories", "inputs"], "all sequences of solve / test / predict calls on one solver object",
 TEST + "each solver object is used for one data set; stale caches, bounds or statistics need a second one.",
 ["src/solver/solver.cpp", "src/solver/cost_combiner.cpp", "src/tasks/accuracy/cost_complex_accuracy.cpp", "src/tasks/regression/cost_complex_regression.cpp", "src/solver/data_splitter.cpp", "src/solver/similarity_lowerbound.cpp"],
 [("re-initialisation for new data", "src/solver/solver.cpp InitializeSolver, InitializeTest, ResetCache"),
  ("equality of training data", "src/model/data.cpp operator=="),
  ("per-task caches", "src/tasks/accuracy/cost_complex_accuracy.cpp, src/tasks/regression/cost_complex_regression.cpp InformTrainData")],
 observe=["training objective of each fit in a sequence"])

prop("P15", "Survival leaves use the right cumulative hazard and hazard ratio",
 "The baseline cumulative hazard used for a survival tree is the step function that, at any time, sums over the distinct earlier event times the events at that time divided by the instances still at risk, never decreasing and evaluated at the last step not after the query time (before the first event a small positive constant, one over one more than the number of instances); each leaf's reported rate is its (at least one half) number of events divided by the summed baseline hazard of its instances.",
 ["inputs"], "all multisets of (time, event) pairs including ties and queries before, at, between and after the recorded times",
 TEST + "one optimum of one survival file is compared, with no ties at the boundaries inspected.",
 ["src/tasks/survival_analysis.cpp", "include/tasks/survival_analysis.h"],
 [("hazard estimation and lookup", "src/tasks/survival_analysis.cpp"),
  ("leaf label and loss", "src/tasks/survival_analysis.cpp SolveLeafNode, ComputeD2Costs, GetInstanceLeafD2Costs")],
 observe=["leaf rates and losses of a survival tree"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
