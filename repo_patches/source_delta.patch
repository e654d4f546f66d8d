From 6aa12fb3085640bc4c3bc26a5d923d926a89f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:16 +0000
Subject: [PATCH 01/44] fix: recompute the depth-two result when only the node
 budget, upper bound or context differs

The depth-two solver returned the result of its previous call when it was
called again on the same data. That result depends on the upper bound, the
node budget and the branching costs of the context, so it could be stale.
---
 include/solver/cost_combiner.h | 2 +-
 src/solver/cost_combiner.cpp   | 9 ++++-----
 src/solver/terminal_solver.cpp | 3 +--
 3 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/solver/cost_combiner.h b/include/solver/cost_combiner.h
index edb648b..6f6e7b8 100644
--- a/include/solver/cost_combiner.h
+++ b/include/solver/cost_combiner.h
@@ -41,7 +41,7 @@ namespace STreeD {
 		CostCalculator() = delete;
 		CostCalculator(OT* task, int num_features, int num_labels, const std::vector<int>& feature_order);
 
-		bool Initialize(const ADataView& data, const Context& branch, int num_nodes);
+		void Initialize(const ADataView& data, const Context& branch, int num_nodes);
 		void InitializeReconstruct(const ADataView& data, const Context& branch, int feature);
 		int ProbeDifference(const ADataView& data) const;
 		void InitializeIndexInfos(int num_features);
diff --git a/src/solver/cost_combiner.cpp b/src/solver/cost_combiner.cpp
index b68025e..e2e4783 100644
--- a/src/solver/cost_combiner.cpp
+++ b/src/solver/cost_combiner.cpp
@@ -11,7 +11,7 @@ namespace STreeD {
 	}
 
 	template <class OT>
-	bool CostCalculator<OT>::Initialize(const ADataView& data, const typename CostCalculator<OT>::Context& context, int num_nodes) {
+	void CostCalculator<OT>::Initialize(const ADataView& data, const typename CostCalculator<OT>::Context& context, int num_nodes) {
 		const bool depth_same = (num_nodes == 1) == (this->num_nodes == 1);
 		const bool using_incremental_updates = this->data.IsInitialized() && depth_same;
 		//ADataView data_add(data.GetData(), data.NumLabels()), data_remove(data.GetData(), data.NumLabels());
@@ -19,7 +19,6 @@ namespace STreeD {
 			data_add.ResetReserve(data);
 			data_remove.ResetReserve(data);
 			BinaryDataDifferenceComputer::ComputeDifference(this->data, data, data_add, data_remove);
-			if (data_add.Size() == 0 && data_remove.Size() == 0 && (num_nodes == this->num_nodes || !OT::terminal_filter)) return false;
 		}
 		
 		this->data = data;
@@ -35,9 +34,9 @@ namespace STreeD {
 			
 			UpdateCosts(data, +1);
 		}
-		ResetBranchingCosts(); // TODO recompute even if no changes made, because context changes
-		UpdateBranchingCosts(data, context); // TODO recompute even if no changes made, because context changes
-		return true;
+		// Recompute the branching costs even if the data is the same, because the context can be different
+		ResetBranchingCosts();
+		UpdateBranchingCosts(data, context);
 	}
 
 	template <class OT>
diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index e902f8a..0770d62 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -24,8 +24,7 @@ namespace STreeD {
 	template <class OT>
 	TerminalResults<OT>& TerminalSolver<OT>::Solve(const ADataView& data, const typename TerminalSolver<OT>::Context& context, typename TerminalSolver<OT>::SolContainer& UB, int num_nodes) {
 		this->UB = UB;
-		bool changes_made = cost_calculator.Initialize(data, context, num_nodes);
-		if (!changes_made) return results;
+		cost_calculator.Initialize(data, context, num_nodes);
 		results.Clear();
 		if (cost_calculator.GetTotalCount() < solver_parameters->minimum_leaf_node_size) return results;
 		InitialiseChildrenInfo(context, data);
-- 
2.43.0


From dd1651aa170f1aae6bc7e2cbb0bbf0354170560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:16 +0000
Subject: [PATCH 02/44] fix: do not stop the depth-two search before the
 two-node trees are optimal

The search stopped as soon as a three-node tree had zero cost, and then stored
the incomplete two-node result as optimal.
---
 src/solver/terminal_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index 0770d62..36c4190 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -66,7 +66,7 @@ namespace STreeD {
 
 		for (int _f1 = 0; _f1 < _num_features; _f1++) {
 			int f1 = features[_f1];
-			if (SolutionsEqual<OT>(zero_sol, results.three_nodes_solutions)) break;
+			if (SolutionsEqual<OT>(zero_sol, results.two_nodes_solutions)) break;
 
 			for (int _f2 = _f1 + 1; _f2 < _num_features; _f2++) {
 				int f2 = features[_f2];
-- 
2.43.0


From 573b493c7203ecabbf516ddbc598ef0a10ab9dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:16 +0000
Subject: [PATCH 03/44] fix: keep features that cannot be split further in the
 depth-two search

A feature whose two sides are both smaller than twice the minimum leaf size
cannot be the root of a larger tree, but it can still be the child of another
feature.
---
 src/solver/terminal_solver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index 36c4190..c58ba39 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -56,7 +56,6 @@ namespace STreeD {
 			runtime_assert(total0 == cost_calculator.GetCount00(f1, f1));
 			
 			if (total0 < solver_parameters->minimum_leaf_node_size || total1 < solver_parameters->minimum_leaf_node_size) continue;
-			if (total0 < 2 * solver_parameters->minimum_leaf_node_size && total1 < 2 * solver_parameters->minimum_leaf_node_size) continue;
 			features.push_back(f1);
 		}
 		const int _num_features = int(features.size());
-- 
2.43.0


From 98aa56cae20389bd08a261092023b6ed505cc1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:56 +0000
Subject: [PATCH 04/44] fix: always load the data that is passed to Predict and
 TestPerformance

The test data of the previous call was reused when the new data had the same
number of instances per label, so the predictions and scores were those of the
previous data.
---
 src/solver/solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 7bc78dc..f6fa426 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1254,7 +1254,7 @@ namespace STreeD {
 
 	template <class OT>
 	std::shared_ptr<SolverResult> Solver<OT>::TestPerformance(const std::shared_ptr<SolverResult>& _result, const ADataView& _test_data) {
-		InitializeTest(_test_data, false);
+		InitializeTest(_test_data, true);
 		const SolverTaskResult<OT>* result = static_cast<const SolverTaskResult<OT>*>(_result.get());
 		auto solver_result = std::make_shared<SolverTaskResult<OT>>(*result);
 		for (size_t i = 0; i < result->NumSolutions(); i++) {
@@ -1266,7 +1266,7 @@ namespace STreeD {
 
 	template <class OT>
 	std::vector<typename OT::LabelType> Solver<OT>::Predict(const std::shared_ptr<Tree<OT>>& tree, const ADataView& _test_data) {
-		InitializeTest(_test_data, false);
+		InitializeTest(_test_data, true);
 		std::vector<typename OT::LabelType> labels(test_data.Size());
 		typename OT::ContextType context;
 		tree->Classify(&data_splitter, task, context, flipped_features, test_data, labels);
-- 
2.43.0


From 822d172b70fc55bf75ddbf76dbe94615102d174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:45:13 +0000
Subject: [PATCH 05/44] fix: compare the instances of two data views by
 identity

Two views of different data sets were considered equal when their instances
had the same identifiers, so a solver could reuse its cache for other data.
---
 src/model/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/data.cpp b/src/model/data.cpp
index a1a0988..9cd950e 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -350,7 +350,7 @@ namespace STreeD {
 			auto& v1 = GetInstancesForLabel(label);
 			auto& v2 = other.GetInstancesForLabel(label);
 			for (size_t i = 0; i < v1.size(); i++) {
-				if (v1[i]->GetID() != v2[i]->GetID()) return false;
+				if (v1[i] != v2[i]) return false;
 			}
 		}
 
-- 
2.43.0


From cceea6260a3682821539b6adcd675bb253d273c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:37 +0000
Subject: [PATCH 06/44] fix: do not store a lower bound for node budgets that
 were not solved

The depth-two solver only computes one-node trees when the node budget is one.
The missing results for two and three nodes were stored in the cache as a proof
that no better tree with two or three nodes exists.
---
 src/solver/solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index f6fa426..1de7037 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -563,7 +563,8 @@ namespace STreeD {
 				cache->UpdateLowerBound(data, branch, UB, 1, 1);
 			}
 		}
-		if (!cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
+		// With a node budget of one, the solutions for larger node budgets are not computed
+		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
 			auto& two_nodes_solutions = results.two_nodes_solutions;
 			if (!CheckEmptySol<OT>(two_nodes_solutions)) {
 				cache->StoreOptimalBranchAssignment(data, branch, two_nodes_solutions, 2, 2);
@@ -571,7 +572,7 @@ namespace STreeD {
 				cache->UpdateLowerBound(data, branch, UB, 2, 2);
 			}
 		}
-		if (!cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
+		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
 			auto& three_nodes_solutions = results.three_nodes_solutions;
 			if (!CheckEmptySol<OT>(three_nodes_solutions)) {
 				cache->StoreOptimalBranchAssignment(data, branch, three_nodes_solutions, 2, 3);
-- 
2.43.0


From 2c471bd18f9eaff0019061222b66678de954a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:43 +0000
Subject: [PATCH 07/44] fix: do not use the similarity lower bound with a
 minimum leaf size above one

The bound transfers the optimal tree of one data set to a similar data set. With
a minimum leaf size above one that tree may not be allowed there, so the bound
could exceed the optimum.
---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 1de7037..835ebed 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -268,7 +268,8 @@ namespace STreeD {
 			if (similarity_lower_bound_computer != nullptr) delete similarity_lower_bound_computer;
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
 				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size());
-			if (!solver_parameters.similarity_lb) similarity_lower_bound_computer->Disable();
+			// A tree that meets the minimum leaf node size on one data set may not meet it on a similar data set
+			if (!solver_parameters.similarity_lb || solver_parameters.minimum_leaf_node_size > 1) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
 		}
-- 
2.43.0


From c84e9d49517981bc99e2f71f05b4ab8404d44b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:34 +0000
Subject: [PATCH 08/44] fix: remove an invalid assumption from the sparsity
 lower bound

The bound assumed that every subproblem was searched up to the depth of the
previous iteration. Subproblems that were pruned in that iteration were not
searched, so the bound could exceed the cost of their best small tree.
---
 include/solver/solver.h | 1 -
 src/solver/solver.cpp   | 4 ----
 2 files changed, 5 deletions(-)

diff --git a/include/solver/solver.h b/include/solver/solver.h
index c080397..6307933 100644
--- a/include/solver/solver.h
+++ b/include/solver/solver.h
@@ -84,7 +84,6 @@ namespace STreeD {
 		DataSummary train_summary, test_summary;
 		DataSplitter data_splitter;
 		std::vector<int> feature_order;
-		int max_depth_finished;
 
 		Statistics stats;
 		Stopwatch stopwatch;
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 835ebed..3f3ac4b 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -106,7 +106,6 @@ namespace STreeD {
 		int max_num_nodes = int(parameters.GetIntegerParameter("max-num-nodes"));
 		int max_depth = std::min(int(parameters.GetIntegerParameter("max-depth")), max_num_nodes);
 		int max_depth_searched = int(parameters.GetIntegerParameter("max-depth"));
-		max_depth_finished = 0;
 		if (min_num_nodes == 1) {
 			// For each number of nodes that should be considered, find the optimal solution
 			for (int num_nodes = min_num_nodes; num_nodes <= max_num_nodes; num_nodes++) {
@@ -118,7 +117,6 @@ namespace STreeD {
 				max_depth = std::min(int(parameters.GetIntegerParameter("max-depth")), num_nodes);
 				auto sol = SolveSubTree(train_data, root_context, global_UB, max_depth, num_nodes);
 				max_depth_searched = max_depth;
-				max_depth_finished = int_log2(num_nodes + 1);
 				AddSols<OT>(task, 0, result, sol);
 				AddSols<OT>(global_UB, sol);
 				if constexpr (OT::total_order) {
@@ -155,7 +153,6 @@ namespace STreeD {
 					}
 				}
 				max_depth_searched = _max_depth;
-				max_depth_finished = _max_depth;
 				if (solver_parameters.verbose) {
 					progress_tracker.Done();
 					std::cout << " | " << std::setw(5) << stopwatch.TimeElapsedInSeconds() << " seconds ";
@@ -661,7 +658,6 @@ namespace STreeD {
 						break;
 					}
 				}
-				max_depth_searched = std::max(max_depth_searched, max_depth_finished - current_depth);
 				int min_nodes_to_use = max_depth_searched + 1;
 				
 				if (solutions.solution <= min_nodes_to_use * branching_costs + custom_lb.solution) {
-- 
2.43.0


From 41f0fcafceced8e4381a67966014bdd73ccf12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:19 +0000
Subject: [PATCH 09/44] fix: do not count the branching costs twice in the
 sparsity lower bound

The k-means bound of the cost-complex regression task already includes the
branching costs, so it cannot be added to the branching costs of the minimum
number of nodes.
---
 src/solver/solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 3f3ac4b..b30ee88 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -660,13 +660,16 @@ namespace STreeD {
 				}
 				int min_nodes_to_use = max_depth_searched + 1;
 				
-				if (solutions.solution <= min_nodes_to_use * branching_costs + custom_lb.solution) {
+				// Only add the custom lower bound if it does not already account for the branching costs
+				auto split_costs = min_nodes_to_use * branching_costs;
+				if constexpr (OT::combine_custom_lb_purification) { split_costs += custom_lb.solution; }
+				if (solutions.solution <= split_costs) {
 					// The previous solution is cheaper than splitting on at least min_nodes_to_use, so its a LB
 					AddSolsInv<OT>(lb, solutions);
 				} else {
 					// The previous solution is worse than splitting on at least min_nodes_to_use, so use the minimum
 					// number of nodes as the lower bound.
-					Node<OT> split_lb(0, min_nodes_to_use * branching_costs + custom_lb.solution, solutions.num_nodes_left, solutions.num_nodes_right);
+					Node<OT> split_lb(0, split_costs, solutions.num_nodes_left, solutions.num_nodes_right);
 					AddSolsInv<OT>(lb, split_lb);
 				}
 			}
-- 
2.43.0


From 35cb49d8885c0cc865d84ccf42ddf6652e4adf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:01 +0000
Subject: [PATCH 10/44] fix: allow a single leaf in the sparsity lower bound
 when leaves are expensive

When the leaf solution is not computed, the bound must not assume that at least
one branching node is needed.
---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index b30ee88..b5dedb1 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -649,7 +649,8 @@ namespace STreeD {
 					solutions = SolveLeafNode(data, context, ub);
 				}
 				int current_depth = branch.Depth();
-				int max_depth_searched = 0;
+				// If the leaf solution is not computed, then also trees without branching nodes are not exhausted yet
+				int max_depth_searched = OT::expensive_leaf ? -1 : 0;
 				for (int lower_max_depth = depth - 1; lower_max_depth > 0; lower_max_depth--) {
 					int lower_num_nodes = std::min(num_nodes, 1 << (lower_max_depth)-1);
 					if (cache->IsOptimalAssignmentCached(data, branch, lower_max_depth, lower_num_nodes)) {
-- 
2.43.0


From b47a5c538d2f8bee824fa083dee12a7312cb22eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:41 +0000
Subject: [PATCH 11/44] fix: keep duplicate features when the branching costs
 depend on the feature

A duplicate feature was removed even if branching on it was cheaper.
---
 src/solver/solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index b5dedb1..884b3f3 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1186,6 +1186,8 @@ namespace STreeD {
 			}
 			// Find duplicate features and turn them off
 			for (int f1 = 0; f1 < data.NumFeatures() - 1; f1++) {
+				// Features can have different branching costs, so duplicates are not interchangeable
+				if (OT::has_branching_costs && !OT::constant_branching_costs) break;
 				if (redundant_features[f1]) continue;
 				for (int f2 = f1 + 1; f2 < data.NumFeatures(); f2++) {
 					if (redundant_features[f2]) continue;
-- 
2.43.0


From 3813135c8e21df3761fcb7ceca49dde378d930c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:41 +0000
Subject: [PATCH 12/44] fix: keep duplicates of a feature that may not be
 branched on

The duplicates of the sensitive feature were removed, although the sensitive
feature itself cannot be used instead.
---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 884b3f3..27f29ea 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1188,7 +1188,8 @@ namespace STreeD {
 			for (int f1 = 0; f1 < data.NumFeatures() - 1; f1++) {
 				// Features can have different branching costs, so duplicates are not interchangeable
 				if (OT::has_branching_costs && !OT::constant_branching_costs) break;
-				if (redundant_features[f1]) continue;
+				// A feature that may not be branched on cannot replace its duplicates
+				if (redundant_features[f1] || !task->MayBranchOnFeature(f1)) continue;
 				for (int f2 = f1 + 1; f2 < data.NumFeatures(); f2++) {
 					if (redundant_features[f2]) continue;
 					bool same = true;
-- 
2.43.0


From 0ed72ad0c91ae3838b713a7db3d04e46ea44c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:41 +0000
Subject: [PATCH 13/44] fix: do not reconstruct depth-two trees with features
 that may not be branched on

---
 src/solver/terminal_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index c58ba39..51e5a4c 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -418,7 +418,7 @@ namespace STreeD {
 		Node<OT> temp_node;
 		if (node.num_nodes_left > 0 || node.num_nodes_right > 0) {
 			for (int f2 = 0; f2 < num_features; f2++) {
-				if (f2 == node.feature) continue;
+				if (f2 == node.feature || !task->MayBranchOnFeature(f2)) continue;
 
 				cost_calculator.GetCounts(counts, node.feature, f2);
 				
-- 
2.43.0


From 8af5c4596e34eb6def77704cd81c613108b56256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:25 +0000
Subject: [PATCH 14/44] fix: do not prune all solutions when the upper bound is
 empty

For tasks with more than one objective the pruning test checked every solution in
the upper bound, instead of every solution that would be pruned. With an empty
upper bound the test was always true. The search then discarded every solution,
for example when upper bounding is turned off.
---
 include/solver/optimization_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/solver/optimization_utils.h b/include/solver/optimization_utils.h
index 2c9e7cf..84a64e4 100644
--- a/include/solver/optimization_utils.h
+++ b/include/solver/optimization_utils.h
@@ -264,8 +264,9 @@ namespace STreeD {
 		if constexpr (OT::total_order) {
 			return LeftStrictDominatesRight<OT>(left.solution, right.solution);
 		} else {
-			for (const auto& assignment : left->GetSolutions()) {
-				if (!right->StrictDominatesInv(assignment)) { return false; }
+			if (left->Size() == 0 || right->Size() == 0) return false;
+			for (const auto& assignment : right->GetSolutions()) {
+				if (!left->StrictDominates(assignment)) { return false; }
 			}
 			return true;
 		}
-- 
2.43.0


From b42e8a4cc856b533b59114b9a17c973b5eca1b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:25 +0000
Subject: [PATCH 15/44] fix: do not use the similarity lower bound for
 partially ordered solutions

The cached solutions of such tasks are filtered by the upper bound, and in the root
node only the best score is kept. They do not bound the solutions of another data
set, so the optimal tree could be pruned.
---
 src/solver/solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 27f29ea..a02ae0e 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -266,7 +266,8 @@ namespace STreeD {
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
 				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size());
 			// A tree that meets the minimum leaf node size on one data set may not meet it on a similar data set
-			if (!solver_parameters.similarity_lb || solver_parameters.minimum_leaf_node_size > 1) similarity_lower_bound_computer->Disable();
+			// Partially ordered solutions are filtered by the UB, so the cached solutions of one data set are no bound for another data set
+			if (!solver_parameters.similarity_lb || solver_parameters.minimum_leaf_node_size > 1 || !OT::total_order) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
 		}
-- 
2.43.0


From d611ff25060114c08c7bd7726f3273ede786867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:25 +0000
Subject: [PATCH 16/44] fix: do not filter cached Pareto fronts with bounds of
 one parent

For tasks with more than one objective the upper bound of a subtree was derived
from the solutions of its parent. Solutions that exceed it were removed from the
subtree's front, but the front was cached and reused from other parents, where the
removed solutions can be needed. The subtraction of several lower bounds was also
not valid, since it combined the results for each of them by union.

Only use the solutions of the root node as upper bound for these tasks.
---
 src/solver/solver.cpp | 90 ++++---------------------------------------
 1 file changed, 7 insertions(+), 83 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index a02ae0e..06ec0d7 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -344,6 +344,9 @@ namespace STreeD {
 		auto orgUB = CopySol<OT>(UB); // Copy the original UB and keep it, in case this branch is infeasible. The original UB can then be stored as LB
 		auto infeasible_lb = InitializeSol<OT>();
 		int current_depth = branch.Depth();
+		// Partially ordered solutions are filtered by the UB before they are cached and reused from other branches.
+		// So except for the root node, the solutions of this node may not be used as UB for its subtrees
+		const auto& subtreeUB = OT::total_order || current_depth == 0 ? UB : orgUB;
 		const int max_size_subtree = std::min((1 << (max_depth - 1)) - 1, num_nodes - 1); //take the minimum between a full tree of max_depth or the number of nodes - 1
 		const int min_size_subtree = num_nodes - 1 - max_size_subtree;
 		typename Solver<OT>::SolContainer lb, left_lower_bound, right_lower_bound;
@@ -454,7 +457,7 @@ namespace STreeD {
 
 				// substract the right LB from the UB to get a UB for the left branch
 				auto leftUB = InitializeSol<OT>();
-				SubtractUBs(context, UB, right_lower_bound, solutions, branching_costs, leftUB);
+				SubtractUBs(context, subtreeUB, right_lower_bound, solutions, branching_costs, leftUB);
 				
 				// Solve the left branch
 				auto left_solutions = SolveSubTree(*left_data_ptr, *left_context_ptr, leftUB, left_depth, left_subtree_size);
@@ -469,7 +472,7 @@ namespace STreeD {
 
 				// substract the left solutions from the UB to get a UB for the right branch
 				auto rightUB = InitializeSol<OT>();
-				SubtractUBs(context, UB, left_solutions, solutions, branching_costs, rightUB);
+				SubtractUBs(context, subtreeUB, left_solutions, solutions, branching_costs, rightUB);
 
 				
 				// Solve the right branch
@@ -782,87 +785,8 @@ namespace STreeD {
 				updatedUB.solution = UB.solution;
 			}
 		} else {
-			const size_t MAX_SIZE = solver_parameters.UB_LB_max_size;
-			if (!solver_parameters.use_upper_bounding || !solver_parameters.subtract_ub || sols->Size() == 0) {
-				updatedUB = CopySol<OT>(UB);
-				if (solver_parameters.use_upper_bounding) {
-					// In the root nod of the search, feasible solutions can be relaxed by removing information that is related
-					// to constraint satisfaction from the solution
-					AddRootRelaxSols<OT>(task, branch, updatedUB, current_solutions);
-				}
-				return;
-			}
-			Node<OT> diffsol;
-
-			// Reduce size of UB
-			const Solver<OT>::SolContainer* UB_ptr = &UB;
-			Solver<OT>::SolContainer small_UB = InitializeSol<OT>();
-			if (UB->Size() >= MAX_SIZE) {
-				small_UB = InitializeSol<OT>();
-				small_UB->AddOrInvMerge(*(UB.get()), MAX_SIZE);
-				UB_ptr = &small_UB;
-			}
-
-			// Subtract branching costs
-			Solver<OT>::SolContainer branch_substract_UB = InitializeSol<OT>();
-			if (OT::has_branching_costs) {
-				for (size_t i = 0; i < (*UB_ptr)->Size(); i++) {
-					OT::Subtract((*UB_ptr)->GetSolutions()[i].solution, branching_costs, diffsol.solution);
-					branch_substract_UB->Add(diffsol);
-				}
-				UB_ptr = &branch_substract_UB;
-			}
-
-			// Reduce size of sols
-			const Solver<OT>::SolContainer* sols_ptr = &sols;
-			Solver<OT>::SolContainer small_sols = InitializeSol<OT>();
-			if (sols->Size() >= MAX_SIZE) {
-				small_sols->AddOrMerge(*(sols.get()), MAX_SIZE);
-				sols_ptr = &small_sols;
-			}
-
-			Solver<OT>::SolContainer corner_union = InitializeSol<OT>();
-			Solver<OT>::SolContainer sub_union = InitializeSol<OT>();
-			auto extreme_points = OT::ExtremePoints();
-			for (size_t j = 0; j < (*sols_ptr)->Size(); j++) {
-				Solver<OT>::SolContainer sub_ub = InitializeSol<OT>();
-				for (size_t i = 0; i < (*UB_ptr)->Size(); i++) {
-					OT::Subtract((*UB_ptr)->Get(i).solution, (*sols_ptr)->Get(j).solution, diffsol.solution);
-					//sub_ub->AddOrInvMerge(diffsol, MAX_SIZE);
-					sub_ub->Add(diffsol);
-				}
-				for (auto& ep : extreme_points) {
-					sub_ub->Add(Node<OT>(ep));
-				}
-
-				// Compute 'staircase corners'
-				Solver<OT>::SolContainer corners = InitializeSol<OT>();
-				for (size_t i = 0; i < sub_ub->Size(); i++) {
-					for (size_t k = i + 1; k < sub_ub->Size(); k++) {
-						OT::MergeInv(sub_ub->Get(i).solution, sub_ub->Get(k).solution, diffsol.solution);
-						//corners->AddOrInvMerge(diffsol, MAX_SIZE);
-						corners->Add(diffsol);
-					}
-				}
-				//corner_union->AddInvOrInvMerge(*(corners.get()), MAX_SIZE);
-				//sub_union->AddInvOrInvMerge(*(sub_ub.get()), MAX_SIZE);
-				
-				corner_union->AddInv(*(corners.get()));
-				sub_union->AddInv(*(sub_ub.get()));
-			}
-			// Compute 'staircase corners'
-			for (auto& ep : extreme_points) {
-				corner_union->Add(Node<OT>(ep));
-			}
-			for (size_t i = 0; i < corner_union->Size(); i++) {
-				for (size_t k = i + 1; k < corner_union->Size(); k++) {
-					OT::Merge(corner_union->Get(i).solution, corner_union->Get(k).solution, diffsol.solution);
-					updatedUB->AddInvOrInvMerge(diffsol, MAX_SIZE);
-				}
-			}
-			updatedUB->AddInvOrInvMerge(*(sub_union.get()), MAX_SIZE);
-			//updatedUB->AddOrInvMerge(*(UB_ptr->get()), MAX_SIZE);
-			
+			updatedUB = CopySol<OT>(UB);
+			if (!solver_parameters.use_upper_bounding) return;
 		}
 		// In the root nod of the search, feasible solutions can be relaxed by removing information that is related
 		// to constraint satisfaction from the solution
-- 
2.43.0


From 33bd60b0ae33594da007f7873693bf0c2f7809e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:25 +0000
Subject: [PATCH 17/44] fix: find the budget of a Pareto-optimal solution when
 its tree is constructed

The solutions that are cached for different budgets can differ for tasks with more
than one objective. The tree construction only looked in the first cached budget.
When the solution was not found there, it continued with an infeasible child and
crashed.
---
 src/solver/solver.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 06ec0d7..f23c7ac 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -928,6 +928,24 @@ namespace STreeD {
 			return Tree<OT>::CreateLabelNode(sol.label);
 		}
 
+		// The solution may be copied from the solutions of a smaller budget. Reconstruct it with the smallest budget for which it is found
+		if constexpr (!OT::total_order) {
+			auto find_budget = [&]() {
+				for (int depth = int_log2(sol.NumNodes() + 1); depth <= max_depth; depth++) {
+					for (int nodes = std::max(depth, sol.NumNodes()); nodes <= std::min(num_nodes, (1 << depth) - 1); nodes++) {
+						auto cached_sols = cache->RetrieveOptimalAssignment(data, context.GetBranch(), depth, nodes);
+						for (auto& cached_sol : cached_sols->GetSolutions()) {
+							if (!(cached_sol == sol)) continue;
+							max_depth = depth;
+							num_nodes = nodes;
+							return;
+						}
+					}
+				}
+			};
+			find_budget();
+		}
+
 		// Special D1 reconstruct
 		bool d1 = max_depth == 1 || num_nodes == 1 || sol.NumNodes() == 1;
 
@@ -1025,6 +1043,26 @@ namespace STreeD {
 			auto empty_final_sols = std::shared_ptr<Container<OT>>(nullptr);
 			Merge<true>(sol.feature, context, UB, left_sols, right_sols, branching_costs, empty_final_sols, &tree_node);
 
+			// The solutions for each budget are filtered by a different UB. If the solution is not found, try the other budgets
+			const int max_size_subtree = std::min((1 << (max_depth - 1)) - 1, num_nodes - 1);
+			auto retrieve_sols = [&](ADataView& subtree_data, const Context& subtree_context, SolContainer& subtree_UB, int size, int depth, int max_nodes) {
+				auto sols = size == 0 ? SolveLeafNode(subtree_data, subtree_context, subtree_UB)
+					: cache->RetrieveOptimalAssignment(subtree_data, subtree_context.GetBranch(), depth, size);
+				sols->FilterOnNumberOfNodes(max_nodes);
+				return sols;
+			};
+			for (int l = left_subtree_size; l <= max_size_subtree && !tree_node.left_child.IsFeasible(); l++) {
+				for (int r = right_subtree_size; r <= max_size_subtree && !tree_node.left_child.IsFeasible(); r++) {
+					left_size = l;
+					right_size = r;
+					left_depth = std::min(max_depth - 1, left_size);
+					right_depth = std::min(max_depth - 1, right_size);
+					left_sols = retrieve_sols(left_data, left_context, UBleft, left_size, left_depth, left_subtree_size);
+					right_sols = retrieve_sols(right_data, right_context, UBright, right_size, right_depth, right_subtree_size);
+					Merge<true>(sol.feature, context, UB, left_sols, right_sols, branching_costs, empty_final_sols, &tree_node);
+				}
+			}
+
 			runtime_assert(tree_node.left_child.IsFeasible());
 			runtime_assert(tree_node.right_child.IsFeasible());
 
-- 
2.43.0


From 6992c7c8e350d49f2103ad0ae9459d54098a4d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:56 +0000
Subject: [PATCH 18/44] fix: do not cache by data set when the branching costs
 depend on the branch

Branches with the same data can have different branching costs, because a feature
test is free or discounted after a related test. Their solutions were exchanged
through the data set cache, so the returned tree could be suboptimal. Use the
branch cache instead.
---
 include/solver/cache.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/solver/cache.h b/include/solver/cache.h
index 483f47a..eea58d7 100644
--- a/include/solver/cache.h
+++ b/include/solver/cache.h
@@ -19,6 +19,11 @@ namespace STreeD {
 			use_branch_caching(parameters.GetBooleanParameter("use-branch-caching")),
 			use_dataset_caching(parameters.GetBooleanParameter("use-dataset-caching")),
 			branch_cache(max_depth + 1), dataset_cache(datasize) {
+			// If the branching costs depend on the branch, branches with the same data can have different solutions
+			if (OT::has_branching_costs && !OT::constant_branching_costs && use_dataset_caching) {
+				use_branch_caching = true;
+				use_dataset_caching = false;
+			}
 			empty_sol = InitializeSol<OT>();
 			empty_lb = InitializeSol<OT>(true);
 		}
-- 
2.43.0


From d9bc080b02c6fddb2533047b540a5c86374315b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:56 +0000
Subject: [PATCH 19/44] fix: do not use the similarity lower bound when the
 branching costs depend on the branch

The bound uses the solution of another branch, where the same feature tests can be
more expensive.
---
 src/solver/solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index f23c7ac..ff19457 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -267,7 +267,9 @@ namespace STreeD {
 				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size());
 			// A tree that meets the minimum leaf node size on one data set may not meet it on a similar data set
 			// Partially ordered solutions are filtered by the UB, so the cached solutions of one data set are no bound for another data set
-			if (!solver_parameters.similarity_lb || solver_parameters.minimum_leaf_node_size > 1 || !OT::total_order) similarity_lower_bound_computer->Disable();
+			// If the branching costs depend on the branch, the costs on one data set are no bound for the costs on another data set
+			if (!solver_parameters.similarity_lb || solver_parameters.minimum_leaf_node_size > 1 || !OT::total_order
+				|| (OT::has_branching_costs && !OT::constant_branching_costs)) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
 		}
-- 
2.43.0


From b3b28bcba589e95c4c10ae287f90538508ef3365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:13 +0000
Subject: [PATCH 20/44] fix: include every excluded solution in the stored
 lower bound

When the upper bound prunes the leaf node or stops the search over the
remaining features, the stored lower bound must cover those solutions too.
Otherwise the bound can exceed the cost of a solution that was pruned.
---
 src/solver/solver.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index ff19457..c228a7a 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -405,7 +405,10 @@ namespace STreeD {
 			if (solver_parameters.use_lower_bounding && SolutionsEqual<OT>(branch_lb, solutions)) break;
 			if (solver_parameters.use_lower_bounding
 				&& solver_parameters.use_upper_bounding
-				&& LeftStrictDominatesRight<OT>(UB, branch_lb)) break;
+				&& LeftStrictDominatesRight<OT>(UB, branch_lb)) {
+				AddSols<OT>(infeasible_lb, branch_lb);
+				break;
+			}
 			int feature = feature_selector->PopNextFeature();
 			if (branch.HasBranchedOnFeature(feature) 
 				|| !task->MayBranchOnFeature(feature)
@@ -413,7 +416,10 @@ namespace STreeD {
 			auto branching_costs = GetBranchingCosts(data, context, feature);
 			// Break if the current UB is lower than the constant branching costs (if applicable)
 			if constexpr (Solver<OT>::sparse_objective) {
-				if (solver_parameters.use_upper_bounding && UB.solution < branching_costs) break;
+				if (solver_parameters.use_upper_bounding && UB.solution < branching_costs) {
+					AddSol<OT>(infeasible_lb, Node<OT>(branching_costs));
+					break;
+				}
 			}
 
 			// Split the data and skip if the split does not meet the minimum leaf node size requirements
@@ -520,6 +526,9 @@ namespace STreeD {
 		if (!CheckEmptySol<OT>(solutions)) {
 			cache->StoreOptimalBranchAssignment(data, branch, solutions, max_depth, num_nodes);
 		} else {
+			// The leaf node is also one of the solutions that is excluded by the UB
+			auto empty_UB = InitializeSol<OT>();
+			AddSols<OT>(infeasible_lb, SolveLeafNode(data, context, empty_UB));
 			if (SolutionsEqual<OT>(infeasible_lb, InitializeSol<OT>())) {
 				infeasible_lb = orgUB;
 			} else {
-- 
2.43.0


From a4e701f42c3f69507c48cb4523065397505356a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:09 +0000
Subject: [PATCH 21/44] fix: count the error within a group of instances in the
 similarity lower bound

Instances with the same features are merged into one weighted instance. Removing
such an instance also removes the spread of its labels around their mean.
---
 include/tasks/regression/cost_complex_regression.h |  1 +
 src/tasks/regression/cost_complex_regression.cpp   | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/tasks/regression/cost_complex_regression.h b/include/tasks/regression/cost_complex_regression.h
index f8330fd..a6d1a96 100644
--- a/include/tasks/regression/cost_complex_regression.h
+++ b/include/tasks/regression/cost_complex_regression.h
@@ -91,6 +91,7 @@ namespace STreeD {
 		*/
 		Node<CostComplexRegression> ComputeLowerBound(const ADataView& data, const Branch& branch, int max_depth, int num_nodes);
 
+		double GetWorstPerInstance(const AInstance* instance) const;
 		PairWorstCount<CostComplexRegression> ComputeSimilarityLowerBound(const ADataView& data_old, const ADataView& data_new) const;
 
 		void PreprocessData(AData& data, bool train);
diff --git a/src/tasks/regression/cost_complex_regression.cpp b/src/tasks/regression/cost_complex_regression.cpp
index 9a2db07..420b1d8 100644
--- a/src/tasks/regression/cost_complex_regression.cpp
+++ b/src/tasks/regression/cost_complex_regression.cpp
@@ -346,6 +346,14 @@ namespace STreeD {
 		return lb;
 	}
 
+	double CostComplexRegression::GetWorstPerInstance(const AInstance* instance) const {
+		double weight = instance->GetWeight();
+		double label = GetInstanceLabel<double>(instance);
+		// An instance may represent a group of instances. In that case, also count the error within the group
+		double error_within_group = std::max(0.0, GetYSQ(instance) - label * label / weight);
+		return weight * GetWorstPerLabel(label / weight) + error_within_group;
+	}
+
 	PairWorstCount<CostComplexRegression> CostComplexRegression::ComputeSimilarityLowerBound(const ADataView& data_old, const ADataView& data_new) const {
 		int total_diff = 0;
 		double worst_diff = 0;
@@ -368,7 +376,7 @@ namespace STreeD {
 				//the old data has something the new one does not
 				else if (id_new > id_old) {
 					total_diff += weight_old;
-					worst_diff += weight_old * GetWorstPerLabel(GetInstanceLabel<double>(old_instances[index_old]) / weight_old);
+					worst_diff += GetWorstPerInstance(old_instances[index_old]);
 					index_old++;
 				} else {//no difference
 					index_new ++;
@@ -384,7 +392,7 @@ namespace STreeD {
 			for (; index_old < size_old; index_old++) {
 				int weight_old = int(old_instances[index_old]->GetWeight());
 				total_diff += weight_old;
-				worst_diff += weight_old * GetWorstPerLabel(GetInstanceLabel<double>(old_instances[index_old]) / weight_old);
+				worst_diff += GetWorstPerInstance(old_instances[index_old]);
 			}
 		}
 		PairWorstCount<CostComplexRegression> result(worst_diff, total_diff);
-- 
2.43.0


From ee29f6d415d603435a87b07cec1565eb556b96c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:33 +0000
Subject: [PATCH 22/44] fix: do not reuse the upper bound of a previous run on
 the same data

The upper bound left by a previous run excludes every solution that is as good
as the previous one, so a second run could end without any solution.
---
 src/solver/solver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index c228a7a..d527f48 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -213,6 +213,9 @@ namespace STreeD {
 		// Inform the task about the solver parameters
 		task->UpdateParameters(parameters);
 
+		// Initialize the global UB with an empty solution (the UB of a previous run excludes solutions that are as good)
+		global_UB = InitializeSol<OT>();
+
 		// If the training data is the same, the cache does not need to be repopulated
 		// Except if the hyper tune configuration sets reset to true
 		if (!reset && org_train_data == _train_data) return;
@@ -235,9 +238,6 @@ namespace STreeD {
 		// Disable data split cache, if so configured
 		if (!solver_parameters.cache_data_splits) data_splitter.Disable();
 		data_splitter.Clear();
-
-		// Initialize the global UB with an empty solution
-		global_UB = InitializeSol<OT>();
 	}
 	
 	template <class OT>
-- 
2.43.0


From b78ced7662b1700eaa8ce3a017852ebf05479218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:23 +0000
Subject: [PATCH 23/44] fix: prevent division by zero when a sensitive group is
 empty

The group scores became NaN and the solver crashed on the reconstructed tree.
---
 src/tasks/eq_opp.cpp         | 3 +++
 src/tasks/group_fairness.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 4c9d978..cda6d25 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -14,6 +14,9 @@ namespace STreeD {
 			else
 				train_group0_size++;
 		}
+		// If a group is empty, it does not contribute to the discrimination (prevent division by zero)
+		train_group0_size = std::max(1, train_group0_size);
+		train_group1_size = std::max(1, train_group1_size);
 	}
 
 	void EqOpp::InformTestData(const ADataView& test_data, const DataSummary& test_summary) {
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index dc3d0fe..01c983f 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -14,6 +14,9 @@ namespace STreeD {
 					train_group0_size++;
 			}
 		}
+		// If a group is empty, it does not contribute to the discrimination (prevent division by zero)
+		train_group0_size = std::max(1, train_group0_size);
+		train_group1_size = std::max(1, train_group1_size);
 	}
 
 	void GroupFairness::InformTestData(const ADataView& test_data, const DataSummary& test_summary) {
-- 
2.43.0


From 62cf6f2803dff0ef4a5b819f112d882906f56592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:23 +0000
Subject: [PATCH 24/44] fix: do not change the original instance when the last
 group is merged

The merged group was written over the original instance, so preprocessing the
same data again counted the group twice.
---
 src/tasks/regression/cost_complex_regression.cpp      | 11 +++++++----
 .../regression/piecewise_simple_linear_regression.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/tasks/regression/cost_complex_regression.cpp b/src/tasks/regression/cost_complex_regression.cpp
index 420b1d8..747307d 100644
--- a/src/tasks/regression/cost_complex_regression.cpp
+++ b/src/tasks/regression/cost_complex_regression.cpp
@@ -133,11 +133,14 @@ namespace STreeD {
 			prev = current;
 		}
 		{
-			auto mutable_instance = train_data.GetMutableInstance(0, ix_first);
-			SetInstanceLabel<double>(mutable_instance, y);
-			auto reg_i = static_cast<Instance<double, RegExtraData>*>(mutable_instance);
+			// Do not change the original instance: it may be used again, for example in another fold
+			auto copy_instance = new Instance<double, RegExtraData>(*static_cast<const Instance<double, RegExtraData>*>(instances[ix_first]));
+			SetInstanceLabel<double>(copy_instance, y);
+			auto reg_i = static_cast<Instance<double, RegExtraData>*>(copy_instance);
 			reg_i->GetMutableExtraData().ysq = ysq;
-			mutable_instance->SetWeight(n);
+			copy_instance->SetWeight(n);
+			instances[ix_first] = copy_instance;
+			data.AddInstance(copy_instance);
 		}
 		instances.resize(ix_first+1);
 		train_data.ComputeSize();
diff --git a/src/tasks/regression/piecewise_simple_linear_regression.cpp b/src/tasks/regression/piecewise_simple_linear_regression.cpp
index fa00d82..4cb2ff3 100644
--- a/src/tasks/regression/piecewise_simple_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_simple_linear_regression.cpp
@@ -237,9 +237,10 @@ namespace STreeD {
 			prev = current;
 		}
 		{
-			auto mutable_instance = train_data.GetMutableInstance(0, ix_first);
-			SetInstanceLabel<double>(mutable_instance, y);
-			auto reg_i = static_cast<Instance<double, SimpleLinRegExtraData>*>(mutable_instance);
+			// Do not change the original instance: it may be used again, for example in another fold
+			auto copy_instance = new Instance<double, SimpleLinRegExtraData>(*static_cast<const Instance<double, SimpleLinRegExtraData>*>(instances[ix_first]));
+			SetInstanceLabel<double>(copy_instance, y);
+			auto reg_i = static_cast<Instance<double, SimpleLinRegExtraData>*>(copy_instance);
 			auto& ed = reg_i->GetMutableExtraData();
 			ed.ysq = ysq;
 			for (int f = 0; f < num_cont_features; f++) {
@@ -247,7 +248,9 @@ namespace STreeD {
 				ed.xsq[f] = xsq[f];
 				ed.yx[f] = yx[f];
 			}
-			mutable_instance->SetWeight(n);
+			copy_instance->SetWeight(n);
+			instances[ix_first] = copy_instance;
+			data.AddInstance(copy_instance);
 		}
 		instances.resize(ix_first+1);
 		train_data.ComputeSize();
-- 
2.43.0


From a9fbfe8d2d12b1817d41712fb7f73139593475aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:23 +0000
Subject: [PATCH 25/44] fix: clear the cached lower bounds when the training
 data changes

The lower bounds of the previous training data were used for the new data.
---
 include/tasks/accuracy/cost_complex_accuracy.h | 1 +
 src/tasks/accuracy/cost_complex_accuracy.cpp   | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/tasks/accuracy/cost_complex_accuracy.h b/include/tasks/accuracy/cost_complex_accuracy.h
index ff11e40..6014996 100644
--- a/include/tasks/accuracy/cost_complex_accuracy.h
+++ b/include/tasks/accuracy/cost_complex_accuracy.h
@@ -60,6 +60,7 @@ namespace STreeD {
 		*/
 		Node<CostComplexAccuracy> ComputeLowerBound(const ADataView& data, const Branch& branch, int max_depth, int num_nodes);
 		
+		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
 		void PreprocessData(AData& data, bool train);
 		void PreprocessTrainData(ADataView& train_data);
 		void PreprocessTestData(ADataView& test_data) {}
diff --git a/src/tasks/accuracy/cost_complex_accuracy.cpp b/src/tasks/accuracy/cost_complex_accuracy.cpp
index 7ce6610..613dc20 100644
--- a/src/tasks/accuracy/cost_complex_accuracy.cpp
+++ b/src/tasks/accuracy/cost_complex_accuracy.cpp
@@ -30,6 +30,14 @@ namespace STreeD {
 		}
 	}
 
+	void CostComplexAccuracy::InformTrainData(const ADataView& train_data, const DataSummary& train_summary) {
+		Classification::InformTrainData(train_data, train_summary);
+
+		for (auto& map : lower_bound_cache) {
+			map.clear();
+		}
+	}
+
 	void CostComplexAccuracy::PreprocessTrainData(ADataView& train_data) {
 		for (int k = 0; k < train_data.NumLabels(); k++) {
 			auto& instances = train_data.GetMutableInstancesForLabel(k);
-- 
2.43.0


From 4a5564de3f3abbf0921ac6eaaadf616ad1d805ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:23 +0000
Subject: [PATCH 26/44] fix: tune the cost complexity on data sets with fewer
 than ten instances

All configurations were skipped, and the best of zero configurations was used.
---
 src/tasks/accuracy/cost_complex_accuracy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tasks/accuracy/cost_complex_accuracy.cpp b/src/tasks/accuracy/cost_complex_accuracy.cpp
index 613dc20..24071de 100644
--- a/src/tasks/accuracy/cost_complex_accuracy.cpp
+++ b/src/tasks/accuracy/cost_complex_accuracy.cpp
@@ -180,6 +180,9 @@ namespace STreeD {
 			params.SetFloatParameter("cost-complexity", a);
 			config.AddConfiguration(params, "a = " + std::to_string(a));
 		}
+		if (config.GetNumberOfConfigs() == 0) { // If there are too few instances for the range above
+			config.AddConfiguration(default_config, "a = " + std::to_string(default_config.GetFloatParameter("cost-complexity")));
+		}
 		config.reset_solver = true;
 		config.skip_when_max_tree = true;
 		return config;
-- 
2.43.0


From 6f7d1ff065e0c88962a8f18a83be369bb26dbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:23 +0000
Subject: [PATCH 27/44] fix: tune on the original instances and initialize with
 the tuned parameters

The folds were made from the preprocessed data but hold the original instances,
so the instances that were merged in a group were lost. The final run also used
costs computed with the parameters before tuning. Do not read the node count of
a result without a solution.
---
 src/solver/solver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index d527f48..4676368 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -861,7 +861,7 @@ namespace STreeD {
 			std::vector<std::vector<ScoreType>> performances(n_configs, std::vector<ScoreType>(n_runs));
 
 			std::vector<ADataView> sub_train_datas, sub_test_datas;
-			ADataView::KFoldSplit<typename OT::LabelType>(train_data, sub_train_datas, sub_test_datas, rng, n_runs, false);
+			ADataView::KFoldSplit<typename OT::LabelType>(org_train_data, sub_train_datas, sub_test_datas, rng, n_runs, false);
 
 			for (int r = 0; r < n_runs; r++) {
 				int ix = 0;
@@ -899,7 +899,7 @@ namespace STreeD {
 						performances[c][r] = test_result->scores[test_result->best_index];
 					}
 					if(verbose) std::cout << " \tScore: " << OT::ScoreToString(performances[c][r]->score) << std::endl;
-					if (tuning_config.skip_when_max_tree && result->GetBestNodeCount() == max_num_nodes && c + 1 < n_configs) {
+					if (tuning_config.skip_when_max_tree && result->NumSolutions() > 0 && result->GetBestNodeCount() == max_num_nodes && c + 1 < n_configs) {
 						if (verbose) std::cout << "Reached maximum tree. Skipping configuration " << (c + 2) << " to " << n_configs << std::endl;
 						for (c++; c < n_configs;c++) {
 							performances[c][r] = performances[c - 1][r];
@@ -924,7 +924,8 @@ namespace STreeD {
 		}
 		stats.total_time += stopwatch.TimeElapsedInSeconds();
 		parameters.SetFloatParameter("time", stopwatch.TimeLeftInSeconds());
-		return Solve(train_data);
+		InitializeSolver(_train_data, true); // Initialize with the tuned parameters
+		return Solve(_train_data);
 	}
 
 
-- 
2.43.0


From aa89ae00b33562fbcd0be7177b0d774c70d6b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:03 +0000
Subject: [PATCH 28/44] fix: accept test data that does not contain every label

Predicting passes all rows with the same label, so the views of the test data
had fewer labels than the task expects and were read out of range.
---
 src/solver/solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 4676368..b31b7dd 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1219,6 +1219,8 @@ namespace STreeD {
 	template <class OT>
 	void Solver<OT>::PreprocessTestData(const ADataView& org_test_data, ADataView& test_data) {
 		test_data = org_test_data;
+		// The test data may lack labels of the training data, for example when predicting without knowing the labels
+		if (test_data.NumLabels() < NumLabels()) test_data.GetMutableInstances().resize(NumLabels());
 		if constexpr (OT::preprocess_train_test_data) {
 			task->PreprocessTestData(test_data);
 		}
-- 
2.43.0


From 4e39d08b788a8a15ed223b02a7db196ef0f7caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:40 +0000
Subject: [PATCH 29/44] fix: keep the label of each instance in stratified
 folds

---
 src/model/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/data.cpp b/src/model/data.cpp
index 9cd950e..2a6baf7 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -238,7 +238,7 @@ namespace STreeD {
 						auto begin = indices.begin() + begin_index;
 						auto end = indices.begin() + end_index;
 						if (fold == folds - 1) end = indices.end();
-						fold_label_indices[fold][0].insert(fold_label_indices[fold][0].end(), begin, end);
+						fold_label_indices[fold][y].insert(fold_label_indices[fold][y].end(), begin, end);
 						begin_index = end_index;
 					}
 				}
-- 
2.43.0


From 2cbac3c1b93300994b243c89dc65a9511918a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:41 +0000
Subject: [PATCH 30/44] fix: stratify regression data with fewer than ten
 instances

---
 src/model/data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/data.cpp b/src/model/data.cpp
index 2a6baf7..1d4ed8a 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -78,7 +78,7 @@ namespace STreeD {
 					return GetInstanceLabel<double>(i1) > GetInstanceLabel<double>(i2);
 				});
 				int i = 0;
-				int bin_size = int(instances.size()) / _num_labels;
+				int bin_size = std::max(1, int(instances.size()) / _num_labels);
 				for (auto& instance : instances) {
 					all_label_indices[std::min(i++ / bin_size, _num_labels-1)].push_back(instance->GetID());
 				}
@@ -195,7 +195,7 @@ namespace STreeD {
 					return GetInstanceLabel<double>(i1) > GetInstanceLabel<double>(i2);
 				});
 				int i = 0;
-				int bin_size = int(instances.size()) / _num_labels;
+				int bin_size = std::max(1, int(instances.size()) / _num_labels);
 				for (auto& instance : instances) {
 					all_label_indices[std::min(i++ / bin_size, _num_labels - 1)].push_back(instance->GetID());
 				}
-- 
2.43.0


From 6ebc8c7c028a14a4e8b8a853544879ba5745f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:08 +0000
Subject: [PATCH 31/44] fix: do not pass the upper bound to subtrees when upper
 bounding is disabled

The general search does not compare its solutions to the upper bound when
upper bounding is off, so a subtree that was dropped because of that bound
made the search store a suboptimal solution as optimal.
---
 src/solver/solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index b31b7dd..e265ca2 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -792,7 +792,7 @@ namespace STreeD {
 					OT::Subtract(UB.solution, sols.solution, updatedUB.solution);
 				}
 				OT::Subtract(updatedUB.solution, branching_costs, updatedUB.solution);
-			} else {
+			} else if (solver_parameters.use_upper_bounding) {
 				updatedUB.solution = UB.solution;
 			}
 		} else {
-- 
2.43.0


From 0ba14942edd74f49d8bf1587a9e43253dd1536e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:22 +0000
Subject: [PATCH 32/44] fix: refuse NaN as the value of a float parameter

---
 src/utils/parameter_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/parameter_handler.cpp b/src/utils/parameter_handler.cpp
index 4dd8551..7448248 100644
--- a/src/utils/parameter_handler.cpp
+++ b/src/utils/parameter_handler.cpp
@@ -319,7 +319,7 @@ namespace STreeD {
 
     void ParameterHandler::CheckFloatParameter(const std::string& parameter_name, double value) {
         if (parameters_float_.count(parameter_name) == 0) { std::cout << "Need to define float parameter " << parameter_name << " before it can be set!\n"; exit(1); }
-        if (parameters_float_[parameter_name].min_value > value || value > parameters_float_[parameter_name].max_value) {
+        if (!(parameters_float_[parameter_name].min_value <= value && value <= parameters_float_[parameter_name].max_value)) { // also refuse NaN
             std::cout << "The passed value " << value << " is not in the allowed range for float parameter " << parameter_name << "\n";
             std::cout << "The allowed range is [" << parameters_float_[parameter_name].min_value << ", " << parameters_float_[parameter_name].max_value << "]\n";
             exit(1);
-- 
2.43.0


From 748cdb2bc9e282acaa1f745730ed47dc93dca7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:46 +0000
Subject: [PATCH 33/44] fix: refuse missing and malformed values on the command
 line

A parameter without a value made the parser read past the arguments, and a
value that is not a number was silently read as zero or false.
---
 src/utils/parameter_handler.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/utils/parameter_handler.cpp b/src/utils/parameter_handler.cpp
index 7448248..d264a44 100644
--- a/src/utils/parameter_handler.cpp
+++ b/src/utils/parameter_handler.cpp
@@ -151,28 +151,36 @@ namespace STreeD {
         parameters_float_[parameter_name].current_value = new_value;
     }
 
+    // Read the value of a parameter, and refuse text that is not (entirely) a value of this type
+    template <typename T>
+    static void ParseValue(const std::string& name, const std::string& text, T& value) {
+        std::stringstream stream(text);
+        if (!(stream >> value) || !(stream >> std::ws).eof()) {
+            std::cout << "Parsing error: " << text << " is not a valid value for parameter " << name << std::endl;
+            exit(1);
+        }
+    }
+
     void ParameterHandler::ParseCommandLineArguments(int argc, char* argv[]) {
         for (int i = 1; i < argc; i += 2) {
             if (argv[i][0] != '-') { std::cout << "Parsing error: expected a parameter name with a '-' in the beggining, instead found this: " << argv[i][0] << std::endl; exit(1); }
+            if (i + 1 >= argc) { std::cout << "Parsing error: no value given for parameter " << argv[i] << std::endl; exit(1); }
             std::string name(argv[i] + 1); //skip the zero position character since it is expected to be a '-' character
 
             if (parameters_string_.count(name) == 1) {
                 std::string value = argv[i + 1];
                 SetStringParameter(name, value);
             } else if (parameters_integer_.count(name) == 1) {
-                //todo check if the string is actually an integer
                 int64_t value;
-                std::stringstream(argv[i + 1]) >> value;
+                ParseValue(name, argv[i + 1], value);
                 SetIntegerParameter(name, value);
             } else if (parameters_boolean_.count(name) == 1) {
-                //todo check if the string is actually a Boolean
                 bool value;
-                std::stringstream(argv[i + 1]) >> value;
+                ParseValue(name, argv[i + 1], value);
                 SetBooleanParameter(name, value);
             } else if (parameters_float_.count(name) == 1) {
-                //todo check if the string is actually a floating point number
                 double value;
-                std::stringstream(argv[i + 1]) >> value;
+                ParseValue(name, argv[i + 1], value);
                 SetFloatParameter(name, value);
             } else {
                 std::cout << "Unknown parameter: " << name << std::endl; exit(1);
-- 
2.43.0


From bcaf0cfaaedee8d60f7bc739299d8adb32757c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:54 +0000
Subject: [PATCH 34/44] fix: do not use the similarity lower bound for linear
 models

---
 include/tasks/regression/piecewise_linear_regression.h        | 1 +
 include/tasks/regression/piecewise_simple_linear_regression.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tasks/regression/piecewise_linear_regression.h b/include/tasks/regression/piecewise_linear_regression.h
index 914e83a..b0c9b0c 100644
--- a/include/tasks/regression/piecewise_linear_regression.h
+++ b/include/tasks/regression/piecewise_linear_regression.h
@@ -56,6 +56,7 @@ namespace STreeD {
 		static const bool element_branching_costs = false; // These costs are not per instance
 		static const bool constant_branching_costs = true; // These costs are constant
 		static const bool custom_similarity_lb = true;     // This task defines a custom sim. LB
+		static const bool element_additive = false;        // deactivates the similarity lower bound: the error of a removed instance is not bounded by the range of the labels
 		static const bool use_terminal = false;			   // This task does not use the terminal solver
 		static constexpr double worst = DBL_MAX;	// The worst solution is Inf.
 		static constexpr double best = 0;			// The best solutino is zero
diff --git a/include/tasks/regression/piecewise_simple_linear_regression.h b/include/tasks/regression/piecewise_simple_linear_regression.h
index efad5bf..8888c68 100644
--- a/include/tasks/regression/piecewise_simple_linear_regression.h
+++ b/include/tasks/regression/piecewise_simple_linear_regression.h
@@ -51,7 +51,7 @@ namespace STreeD {
 		static const bool element_branching_costs = false;
 		static const bool constant_branching_costs = true;
 		static const bool custom_similarity_lb = true; 
-		static const bool element_additive = true; 
+		static const bool element_additive = false; // deactivates the similarity lower bound: the error of a removed instance is not bounded by the range of the labels
 		static const bool use_terminal = true; 
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
 		static constexpr double worst = DBL_MAX;
-- 
2.43.0


From 81c7b0815bc5e33b1e76d39d4712b304af57dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:43 +0000
Subject: [PATCH 35/44] fix: bound the group shares of a removed instance in
 the fairness tasks by the smaller group

---
 include/tasks/eq_opp.h         | 4 +++-
 include/tasks/group_fairness.h | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 50d4db1..f772ff3 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -86,8 +86,10 @@ namespace STreeD {
 
 		void ComputeD2Costs(const EqOppSol& d2costs, int count, EqOppSol& costs) const { costs = d2costs; }
 		inline EqOppSol GetWorstPerLabel(int label) const {
+			// An instance with the positive label can be in either group
+			double worst_share = 1.0 / std::min(train_group0_size, train_group1_size);
 			return label ?
-				EqOppSol({ 1, 1.0 / train_group1_size, 1.0 / train_group0_size }) :
+				EqOppSol({ 1, worst_share, worst_share }) :
 				EqOppSol({ 1, 0.0, 0.0 });
 		}
 
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index ab14eae..aedecd9 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -86,9 +86,9 @@ namespace STreeD {
 
 		void ComputeD2Costs(const GroupFairnessSol& d2costs, int count, GroupFairnessSol& costs) const { costs = d2costs; }
 		inline GroupFairnessSol GetWorstPerLabel(int label) const { 
-			return label ?
-				GroupFairnessSol({ 1, 1.0 / train_group1_size, 1.0 / train_group0_size }) :
-				GroupFairnessSol({ 1, 1.0 / train_group0_size, 1.0 / train_group1_size });
+			// An instance can be in either group, whatever its label is
+			double worst_share = 1.0 / std::min(train_group0_size, train_group1_size);
+			return GroupFairnessSol({ 1, worst_share, worst_share });
 		}
 		
 		double ComputeTrainScore(const GroupFairnessSol& train_value) const;
-- 
2.43.0


From f4aaeff18736cabacd29e2c0403bc1e50a1ad57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:43 +0000
Subject: [PATCH 36/44] fix: charge the diagonal of the cost matrix in leaf
 nodes, as the terminal solver does

---
 src/tasks/cost_sensitive.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index 61e7ac7..98a8d17 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -140,7 +140,6 @@ namespace STreeD {
 	double CostSensitive::GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const { 
 		double error = 0;
 		for (int k = 0; k < data.NumLabels(); k++) {
-			if (k == label) continue;
 			error += data.NumInstancesForLabel(k) * cost_specifier.misclassification_costs[k][label];
 		}
 		return error;
-- 
2.43.0


From 428ed1854d6828948f226996c8f34e83aaa51186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:43 +0000
Subject: [PATCH 37/44] fix: leave the data frame of the caller as it is when
 fitting a group fairness tree

---
 pystreed/group_fair.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 7550238..ae041ac 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -89,6 +89,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         if isinstance(self.sensitive_feature, int):
             if self.sensitive_feature == 0: return X
             if isinstance(X, pd.DataFrame):
+                X = X.copy(deep=False) # Do not change the data of the caller
                 sensitive_feature = X.columns[self.sensitive_feature]
                 sensitive_column = X.pop(sensitive_feature) 
                 X.insert(0, sensitive_feature, sensitive_column) 
@@ -99,6 +100,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
             # assume pandas dataframe
             if not self.sensitive_feature in X.columns:
                  raise ValueError(f"Column {self.sensitive_feature} is not part of the data.")
+            X = X.copy(deep=False) # Do not change the data of the caller
             sensitive_column = X.pop(self.sensitive_feature) 
             X.insert(0, self.sensitive_feature, sensitive_column)
             return X
-- 
2.43.0


From fe39628b1e5c6175831a3715f38b41fb9162ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:43 +0000
Subject: [PATCH 38/44] fix: pass the categorical columns by name, not as the
 extra data

---
 pystreed/cost_sensitive_classification.py | 2 +-
 pystreed/group_fair.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystreed/cost_sensitive_classification.py b/pystreed/cost_sensitive_classification.py
index af60201..19092a6 100644
--- a/pystreed/cost_sensitive_classification.py
+++ b/pystreed/cost_sensitive_classification.py
@@ -88,7 +88,7 @@ class STreeDCostSensitiveClassifier(BaseSTreeDSolver):
         """
         self.n_classes_ = len(np.unique(y))
         self.cost_specifier_ = cost_specifier
-        return super().fit(X, y, categorical)
+        return super().fit(X, y, categorical=categorical)
         
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         if not hasattr(self, "_colors"):
diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index ae041ac..7c6f762 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -129,7 +129,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         """
         self.n_classes_ = len(np.unique(y))
         X = self._move_sensitive_feature_first(X)
-        return super().fit(X, y, categorical)
+        return super().fit(X, y, categorical=categorical)
     
     def predict(self, X):
         """
-- 
2.43.0


From da72c1c9d91226ff83d78eaa28caab70f7275fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:43 +0000
Subject: [PATCH 39/44] fix: pass the categorical columns on in the
 instance-cost-sensitive classifier

---
 pystreed/instance_cost_sensitive_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index a3f7b0b..805d7cc 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -130,7 +130,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         y, extra_data = self._check_data(y)
-        return super().fit(X, y, extra_data)
+        return super().fit(X, y, extra_data, categorical)
     
     def predict(self, X, extra_data=None):
         """
-- 
2.43.0


From 4988894941e5f76f20a07f3048861aebe13a8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:43 +0000
Subject: [PATCH 40/44] fix: drop the tree of the previous fit when no feasible
 tree is found

---
 pystreed/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystreed/base.py b/pystreed/base.py
index 3ba8afc..6ebabcb 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -281,6 +281,7 @@ class BaseSTreeDSolver(BaseEstimator):
         if not self.fit_result.is_feasible():
             warnings.warn("No feasible tree found.", stacklevel=2)
             delattr(self, "fit_result")
+            if hasattr(self, "tree_"): delattr(self, "tree_")
         else:
             self.tree_ = self._solver._get_tree(self.fit_result)
 
-- 
2.43.0


From b8ccb151f73334578e3a2b9b8f24bd052bb2dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:43 +0000
Subject: [PATCH 41/44] fix: determine the continuous columns again when
 refitting a piecewise linear regressor

---
 pystreed/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index d0d970d..dd43a73 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -251,6 +251,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         self.categorical_columns_ = categorical_columns
+        self.continuous_columns_ = None
         extra_data = self._get_continuous_columns(X, continuous_columns)
         if isinstance(y, pd.Series): self.label_name_ = y.name
         return super().fit(X, y, extra_data, categorical_columns)
-- 
2.43.0


From ed18a597928a3578cbbc1a8f5950ba80843cd941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:04 +0000
Subject: [PATCH 42/44] fix: allow for rounding errors when comparing the
 discrimination with its limit

---
 include/tasks/eq_opp.h         | 3 ++-
 include/tasks/group_fairness.h | 3 ++-
 src/tasks/eq_opp.cpp           | 4 ++--
 src/tasks/group_fairness.cpp   | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index f772ff3..c2b3c56 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -5,6 +5,7 @@ namespace STreeD {
 
 	struct EqOppSol {
 		static constexpr double gf_epsilon = 1e-4;
+		static constexpr double limit_epsilon = 1e-9; // The scores are sums of fractions, so allow for rounding errors
 		int misclassifications{ 0 };
 		double group0_score{ 0 };
 		double group1_score{ 0 };
@@ -161,7 +162,7 @@ namespace STreeD {
 
 		inline bool SatisfiesConstraint(const Node<EqOpp>& sol, const BranchContext& context) {
 			double disc = std::max(sol.solution.group0_score, sol.solution.group1_score) - 1;
-			return disc <= discrimination_limit;
+			return disc <= discrimination_limit + EqOppSol::limit_epsilon;
 		}
 
 		void RelaxRootSolution(Node<EqOpp>& sol) const;
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index aedecd9..bb3f426 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -5,6 +5,7 @@ namespace STreeD {
 
 	struct GroupFairnessSol {
 		static constexpr double gf_epsilon = 1e-4;
+		static constexpr double limit_epsilon = 1e-9; // The scores are sums of fractions, so allow for rounding errors
 		int misclassifications { 0 };
 		double group0_score { 0 };
 		double group1_score { 0 };
@@ -159,7 +160,7 @@ namespace STreeD {
 
 		inline bool SatisfiesConstraint(const Node<GroupFairness>& sol, const BranchContext& context) {
 			double disc = std::max(sol.solution.group0_score, sol.solution.group1_score) - 1;
-			return disc <= discrimination_limit;
+			return disc <= discrimination_limit + GroupFairnessSol::limit_epsilon;
 		}
 
 		void RelaxRootSolution(Node<GroupFairness>& sol) const;
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index cda6d25..9fd8fb3 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -74,7 +74,7 @@ namespace STreeD {
 	double EqOpp::ComputeTrainScore(const EqOppSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
 		double disc = std::max(train_value.group0_score, train_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::limit_epsilon)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -88,7 +88,7 @@ namespace STreeD {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
 		
 		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::limit_epsilon)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
 			return 0;
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 01c983f..6283e7f 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -73,7 +73,7 @@ namespace STreeD {
 	double GroupFairness::ComputeTrainScore(const GroupFairnessSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
 		double disc = std::max(train_value.group0_score, train_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::limit_epsilon)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -87,7 +87,7 @@ namespace STreeD {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
 		
 		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::limit_epsilon)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
 			return 0;
-- 
2.43.0


From 7782dab2e54a53b923c62ab2f37301f692377310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:04 +0000
Subject: [PATCH 43/44] fix: let the costs of cost-sensitive trees and policies
 exceed the largest integer

---
 include/solver/result.h             | 6 ++++--
 include/tasks/cost_sensitive.h      | 2 +-
 include/tasks/prescriptive_policy.h | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/solver/result.h b/include/solver/result.h
index 05dead3..505bf1e 100644
--- a/include/solver/result.h
+++ b/include/solver/result.h
@@ -55,7 +55,8 @@ namespace STreeD {
 		static std::shared_ptr<Score> GetWorst(OT* task) {
 			auto result = std::make_shared<InternalTrainScore>();
 			result->train_value = OT::worst;
-			result->train_test_value = OT::worst; // replace with test worst
+			if constexpr (std::is_same<TestSolType, int>::value) result->train_test_value = INT32_MAX;
+			else result->train_test_value = OT::worst; // replace with test worst
 			result->score = task->ComputeTrainTestScore(result->train_test_value);
 			return result;
 		}
@@ -88,7 +89,8 @@ namespace STreeD {
 
 		static std::shared_ptr<Score> GetWorst(OT* task) {
 			auto result = std::make_shared<InternalTestScore>();
-			result->test_test_value = OT::worst;  // replace with test worst
+			if constexpr (std::is_same<TestSolType, int>::value) result->test_test_value = INT32_MAX;
+			else result->test_test_value = OT::worst;  // replace with test worst
 			result->score = task->ComputeTestTestScore(result->test_test_value);
 			return result;
 		}
diff --git a/include/tasks/cost_sensitive.h b/include/tasks/cost_sensitive.h
index 96fb69c..fa083aa 100644
--- a/include/tasks/cost_sensitive.h
+++ b/include/tasks/cost_sensitive.h
@@ -48,7 +48,7 @@ namespace STreeD {
 		static const bool element_branching_costs = false;
 		static const bool terminal_compute_context = true;
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
-		static const int worst = INT32_MAX;
+		static constexpr double worst = DBL_MAX;
 		static const int best = 0;
 
 		CostSensitive(const ParameterHandler& parameters) : Classification(parameters) { UpdateParameters(parameters); }
diff --git a/include/tasks/prescriptive_policy.h b/include/tasks/prescriptive_policy.h
index 2e6f384..b581666 100644
--- a/include/tasks/prescriptive_policy.h
+++ b/include/tasks/prescriptive_policy.h
@@ -40,7 +40,7 @@ namespace STreeD {
 		static const bool total_order = true;
 		static const bool custom_leaf = false;
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
-		static const int worst = INT32_MAX;
+		static constexpr double worst = DBL_MAX;
 		static const int best = 0;
 
 		PrescriptivePolicy(const ParameterHandler& parameters);
-- 
2.43.0


From 290d24df1b3b4bbcf464de3beb1fefa1f5f4f966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:11 +0000
Subject: [PATCH 44/44] fix: look for an earlier declaration of a boolean
 parameter among the boolean parameters

---
 src/utils/parameter_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/parameter_handler.cpp b/src/utils/parameter_handler.cpp
index d264a44..0c88bbd 100644
--- a/src/utils/parameter_handler.cpp
+++ b/src/utils/parameter_handler.cpp
@@ -92,7 +92,7 @@ namespace STreeD {
         if (category_iterator == categories_.end()) { std::cout << "Category " << category_name << " does not exist, it needs to be defined before the " << parameter_name << " parameter can be assinged to it!\n"; exit(1); }
         if (parameter_name.size() == 0) { std::cout << "Empty strings are not allowed for parameter names!\n"; exit(1); }
         //test if we already declared the parameter - a parameter should not be declared twice
-        if (parameters_integer_.count(parameter_name) == 1) { std::cout << "Boolean parameter " << parameter_name << " already declared\n"; exit(1); }
+        if (parameters_boolean_.count(parameter_name) == 1) { std::cout << "Boolean parameter " << parameter_name << " already declared\n"; exit(1); }
 
         BooleanEntry entry;
         entry.name = parameter_name;
-- 
2.43.0

