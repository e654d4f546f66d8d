// Bounded end-to-end contract harness: runs the real solver on small random problems and compares
// every observable with an independent exhaustive oracle working on the raw rows.
#include "common.h"

template <class OT> void oneCase(u64 cs, const std::string& mode) {
	Rng r(cs); g_case = cs; alarm(90); Cfg g; Case c; bool cc = ccTask(g_task);
	int n = r.in(3, 14), m = r.in(1, 5); if (r.p(0.2)) n = r.in(12, 20), m = r.in(4, 6);
	g.depth = r.p(0.08) ? 1 : r.p(0.35) ? 2 : r.p(0.75) ? 3 : 4; if (r.p(0.02)) g.depth = 0; if (m >= 6 && g.depth > 3) g.depth = 3;
	genCase<OT>(r, c, g, n, m, TT<OT>::K(r));
	int full = (1 << g.depth) - 1; g.nodes = full; if (!cc && r.p(0.55) && full > 0) g.nodes = r.in(1, full); if (cc && g.cc < 1e-6 && r.p(0.4) && full > 0) g.nodes = r.in(1, full);
	if (r.p(0.35)) g.minleaf = r.in(1, 4);
	bool dflt = mode == "default" ? true : mode == "options" ? false : r.p(0.5);
	if (!dflt) { g.bc = r.p(0.6); g.dc = r.p(0.6); g.ub = r.p(0.7); g.lb = r.p(0.7); g.slb = r.p(0.6); g.tlb = r.p(0.6); g.term = r.p(0.6); g.gini = r.p(0.5); g.all = r.p(0.2) && g.nodes > 0; }
	for (auto& kv : g_override) { int v = std::stoi(kv.second); if (kv.first == "ub") g.ub = v; if (kv.first == "lb") g.lb = v; if (kv.first == "slb") g.slb = v; if (kv.first == "tlb") g.tlb = v; if (kv.first == "term") g.term = v; if (kv.first == "gini") g.gini = v; if (kv.first == "bc") g.bc = v; if (kv.first == "dc") g.dc = v; }
	typename TT<OT>::Mod mod; mod.c = &c; mod.cfg = &g; mod.all = (1u << n) - 1; setupModel<OT>(mod); mod.init();
	g_describe = [&]() { return descr(c, g); };
	g_eval++; double opt = brute<OT>(mod, g); if (g.nodes > 0 && n > 3) g_nontrivial++;
	if (mode == "options") { // the same problem under a grid of configurations: every one must reach the same optimum
		for (int k = 0; k < 6; k++) { Cfg h = g; h.bc = r.p(0.5); h.dc = r.p(0.5); h.ub = r.p(0.6); h.lb = r.p(0.6); h.slb = r.p(0.5); h.tlb = r.p(0.5); h.term = r.p(0.5); h.gini = r.p(0.5); h.all = false; if (k == 0) { h = Cfg(g); h.bc = h.dc = h.ub = h.lb = h.slb = h.tlb = h.term = h.gini = true; h.all = false; }
			mod.cfg = &h; std::default_random_engine rng(1); ParameterHandler p = mkParams(h); TT<OT>::params(p, c, h); Data<OT> d(c); Solver<OT> solver(p, &rng); TT<OT>::prep(solver, c); solver.PreprocessData(d.d, true); g_describe = [&]() { return descr(c, h); }; auto res = solver.Solve(d.v); checkResult<OT>(res, c, h, mod, opt, ""); } return; }
	std::default_random_engine rng(1); ParameterHandler p = mkParams(g); TT<OT>::params(p, c, g); Data<OT> d(c); 
	Solver<OT> solver(p, &rng); TT<OT>::prep(solver, c); solver.PreprocessData(d.d, true);
	if (mode == "tune") { 
		if (n < 8) return; p.SetBooleanParameter("hyper-tune", true); solver.UpdateParameters(p); auto res = solver.HyperSolve(d.v); const ParameterHandler& q = solver.GetParameters(); Cfg h = g; h.depth = int(q.GetIntegerParameter("max-depth")); h.nodes = int(q.GetIntegerParameter("max-num-nodes")); h.cc = q.GetFloatParameter("cost-complexity"); if (std::is_same<OT, SimpleLinearRegression>::value) h.ridge = q.GetFloatParameter("lasso-penalty");
		chk("tunelimits", h.depth <= g.depth && h.nodes <= g.nodes, "tuning chose depth " + S(h.depth) + " nodes " + S(h.nodes) + " outside the requested limits");
		mod.cfg = &h; g_describe = [&]() { return descr(c, h); }; double o2 = brute<OT>(mod, h); checkResult<OT>(res, c, h, mod, o2, "tune"); Case t; genTest<OT>(r, c, t, r.in(3, 12)); checkPredict<OT>(solver, res, t, h, mod, false, "tune"); return; }
	auto res = solver.Solve(d.v);
	checkResult<OT>(res, c, g, mod, opt, "");
	if (mode == "predict" || mode == "all" || mode == "default") { checkPredict<OT>(solver, res, c, g, mod, true, ""); for (int k = 0; k < 2; k++) { Case t; genTest<OT>(r, c, t, k == 0 ? n : r.in(3, 12)); g_describe = [&]() { return descr(c, g) + "  prediction rows:\n" + descr(t, g); }; checkPredict<OT>(solver, res, t, g, mod, !(std::is_same<OT, GroupFairness>::value || std::is_same<OT, EqOpp>::value || std::is_same<OT, SurvivalAnalysis>::value), ""); g_describe = [&]() { return descr(c, g); }; } }
	if (mode == "refit") { // histories on one solver object
		checkResult<OT>(solver.Solve(d.v), c, g, mod, opt, "again");
		Case c2; Cfg g2 = g; genCase<OT>(r, c2, g2, r.p(0.5) ? n : r.in(3, 14), m, c.K); g2.cc = g.cc; g2.disc = g.disc; g2.ridge = g.ridge; g2.teacher = g.teacher; g2.kmeans = g.kmeans; if (c2.rows[0].extra.size() != c.rows[0].extra.size()) for (auto& row : c2.rows) row.extra.resize(c.rows[0].extra.size(), 0.5);
		if (r.p(0.5) && c2.n == c.n) for (int i = 0; i < c.n; i++) { c2.rows[i].yi = c.rows[i].yi; }
		c2.M = c.M; c2.fc = c.fc; typename TT<OT>::Mod mod2; mod2.c = &c2; mod2.cfg = &g2; mod2.all = (1u << c2.n) - 1; setupModel<OT>(mod2); mod2.init(); double opt2 = brute<OT>(mod2, g2); g_describe = [&]() { return descr(c, g) + "  then fitted on:\n" + descr(c2, g2); };
		Data<OT> d2(c2); solver.PreprocessData(d2.d, true); auto res2 = solver.Solve(d2.v); checkResult<OT>(res2, c2, g2, mod2, opt2, "refit"); checkPredict<OT>(solver, res2, c2, g2, mod2, false, "refit"); Case t; genTest<OT>(r, c2, t, c2.n); checkPredict<OT>(solver, res2, t, g2, mod2, false, "refit");
	}
}
int main(int argc, char** argv) {
	Args a(argc, argv);
#define T(NAME, OT) if (a.task == NAME) loop(a, [&](u64 cs) { oneCase<OT>(cs, a.mode); });
	T("accuracy", Accuracy) T("cost-complex-accuracy", CostComplexAccuracy) T("cost-sensitive", CostSensitive) T("instance-cost-sensitive", InstanceCostSensitive) T("prescriptive-policy", PrescriptivePolicy)
	T("regression", Regression) T("cost-complex-regression", CostComplexRegression) T("simple-linear-regression", SimpleLinearRegression) T("survival-analysis", SurvivalAnalysis) T("f1-score", F1Score) T("group-fairness", GroupFairness) T("equality-of-opportunity", EqOpp)
	return finish();
}
