// Bounded contract harness for the parts of the solver: data splitting, depth-two statistics, bounds and sub-problem
// solutions, caches, solution sets, parameters, hazard function. Each contract is evaluated on the real functions against
// a direct computation from the raw rows (or from the definition).
#include "common.h"
#include "solver/data_splitter.h"
#include "solver/cost_combiner.h"
#include "solver/cache.h"
#include <sys/wait.h>
#include <fcntl.h>

template <class OT> struct Probe : Solver<OT> { // gives the harness the preprocessed training data of a solver
	Probe(ParameterHandler& p, std::default_random_engine* r) : Solver<OT>(p, r) {}
	ADataView& train() { return this->train_data; }
	void clock() { this->stopwatch.Initialise(600); }
};
template <class OT> std::vector<const AInstance*> raw(Data<OT>& d) { std::vector<const AInstance*> v; for (int i = 0; i < d.d.Size(); i++) v.push_back(d.d.GetInstance(i)); return v; }
typedef std::vector<std::vector<const AInstance*>> Lists;
static Lists lists(const ADataView& v) { Lists l; for (int k = 0; k < v.NumLabels(); k++) l.push_back(v.GetInstancesForLabel(k)); return l; }
static std::set<const AInstance*> asSet(const ADataView& v) { std::set<const AInstance*> s; for (int k = 0; k < v.NumLabels(); k++) for (auto i : v.GetInstancesForLabel(k)) s.insert(i); return s; }
static int total(const ADataView& v) { int n = 0; for (int k = 0; k < v.NumLabels(); k++) n += int(v.GetInstancesForLabel(k).size()); return n; }
static ADataView sub(const ADataView& v, std::function<bool(const AInstance*)> keep) { ADataView s(v.GetData(), v.NumLabels()); for (int k = 0; k < v.NumLabels(); k++) for (auto i : v.GetInstancesForLabel(k)) if (keep(i)) s.AddInstance(k, i); return s; }

// ---------------------------------------------------------------- splitting
template <class OT> void splitCase(u64 cs) {
	typedef typename TT<OT>::LT LT; Rng r(cs); g_case = cs; alarm(90); Cfg g; Case c; genCase<OT>(r, c, g, r.in(3, 24), r.in(1, 6), TT<OT>::K(r)); Data<OT> d(c); g_describe = [&]() { return descr(c, g); }; g_eval++; g_nontrivial++;
	auto check = [&](const ADataView& v, int f, const ADataView& l, const ADataView& q, const char* what) {
		Lists el(v.NumLabels()), er(v.NumLabels()); for (int k = 0; k < v.NumLabels(); k++) for (auto i : v.GetInstancesForLabel(k)) (c.rows[i->GetID()].x[f] ? er : el)[k].push_back(i);
		chk("split", lists(l) == el, std::string(what) + ": the absent side is not the instances without feature " + S(f)); chk("split", lists(q) == er, std::string(what) + ": the present side is not the instances with feature " + S(f));
		chk("splitsize", l.Size() == total(l) && q.Size() == total(q) && l.Size() + q.Size() == total(v), std::string(what) + ": sizes " + S(l.Size()) + "+" + S(q.Size()) + " of " + S(total(v))); };
	std::vector<ADataView> pool{ d.v };
	for (int k = 0; k < 6; k++) { ADataView v = pool[r.in(0, int(pool.size()) - 1)]; int f = r.in(0, c.m - 1); ADataView l, q; if (r.p(0.5)) v.GetBitSetView(); v.SplitData(f, l, q); check(v, f, l, q, "SplitData"); pool.push_back(l); pool.push_back(q); }
	for (int k = 0; k < 8; k++) { ADataView a = pool[r.in(0, int(pool.size()) - 1)], b = pool[r.in(0, int(pool.size()) - 1)]; if (a.Size() && b.Size()) chk("viewequal", (a == b) == (lists(a) == lists(b)), "views compare wrongly"); chk("bitequal", (a.GetBitSetView() == b.GetBitSetView()) == (asSet(a) == asSet(b)), "bit views compare wrongly"); chk("bitequal", !(asSet(a) == asSet(b)) || std::hash<ADataViewBitSet>()(a.GetBitSetView()) == std::hash<ADataViewBitSet>()(b.GetBitSetView()), "equal views hash differently"); }
	// the splitter, with its cache, on training and test data
	Case t; genTest<OT>(r, c, t, r.in(3, 12)); Data<OT> dt(t); if (dt.v.NumLabels() != d.v.NumLabels()) return; 
	DataSplitter sp(6); if (r.p(0.3)) sp.Disable(); bool test = false; const Case* cur = &c;
	for (int k = 0; k < 10; k++) { bool te = r.p(0.3); if (r.p(0.1)) sp.Clear(te); Branch b; ADataView v = te ? dt.v : d.v; const Case& cc = te ? t : c; int len = r.in(0, std::min(3, c.m));
		std::vector<int> fs; for (int f = 0; f < c.m; f++) fs.push_back(f); for (int j = 0; j < len; j++) { int q = r.in(j, c.m - 1); std::swap(fs[j], fs[q]); int f = fs[j]; bool right = r.p(0.5); ADataView L, R; sp.Split(v, b, f, L, R, te);
			Lists el(v.NumLabels()), er(v.NumLabels()); for (int kk = 0; kk < v.NumLabels(); kk++) for (auto i : v.GetInstancesForLabel(kk)) (cc.rows[i->GetID()].x[f] ? er : el)[kk].push_back(i);
			chk("splitter", lists(L) == el && lists(R) == er, "the cached split on feature " + S(f) + " differs from the direct one (" + (te ? "test" : "train") + " data)"); chk("splitsize", L.Size() == total(L) && R.Size() == total(R), "sizes of a cached split"); v = right ? R : L; Branch nb; if (right) Branch::RightChildBranch(b, f, nb); else Branch::LeftChildBranch(b, f, nb); b = nb; } }
	// train/test and folds
	auto part = [&](const ADataView& all, const ADataView& tr, const ADataView& te, const char* what) { auto A = asSet(all), B = asSet(tr), C = asSet(te); bool ok = total(tr) + total(te) == total(all) && int(B.size()) == total(tr) && int(C.size()) == total(te); for (auto i : A) ok = ok && (B.count(i) + C.count(i) == 1); for (auto i : B) ok = ok && A.count(i); for (auto i : C) ok = ok && A.count(i);
		chk("partition", ok, std::string(what) + ": the two parts are not a partition of the data (" + S(total(tr)) + " + " + S(total(te)) + " of " + S(total(all)) + ")"); chk("splitsize", tr.Size() == total(tr) && te.Size() == total(te), std::string(what) + ": sizes");
		if (std::is_same<LT, int>::value) for (const ADataView* v : { &tr, &te }) for (int k = 0; k < v->NumLabels(); k++) for (auto i : v->GetInstancesForLabel(k)) chk("partlabel", GetInstanceLabel<LT>(i) == LT(k), std::string(what) + ": an instance changed label"); };
	ADataView src = r.p(0.8) ? d.v : pool[r.in(0, int(pool.size()) - 1)]; bool strat = r.p(0.5); std::default_random_engine eng(u32(r.next())); ADataView tr, te; double pct = r.in(1, 9) / 10.0;
	ADataView::TrainTestSplitData<LT>(src, tr, te, &eng, pct, strat); part(src, tr, te, strat ? "stratified train/test split" : "train/test split");
	int folds = r.in(2, 10); std::vector<ADataView> trs, tes; strat = r.p(0.5); ADataView::KFoldSplit<LT>(src, trs, tes, &eng, folds, strat); chk("folds", int(trs.size()) == folds && int(tes.size()) == folds, "number of folds"); std::map<const AInstance*, int> in;
	for (int k = 0; k < int(std::min(trs.size(), tes.size())); k++) { part(src, trs[k], tes[k], "fold"); for (auto i : asSet(tes[k])) in[i]++; } bool once = int(in.size()) == total(src); for (auto& kv : in) once = once && kv.second == 1; chk("folds", once, "an instance is not in exactly one of the " + S(folds) + " validation folds");
}

// ---------------------------------------------------------------- depth-two statistics
static double val(int v) { return v; } static double val(double v) { return v; }
template <class T> bool sameSol(const T& a, const T& b) { return a == b; }
static bool sameSol(const double& a, const double& b) { return near(a, b, 1e-6); }
static bool sameSol(const F1ScoreSol& a, const F1ScoreSol& b) { return a.false_negatives == b.false_negatives && a.false_positives == b.false_positives; }
static bool sameSol(const GroupFairnessSol& a, const GroupFairnessSol& b) { return a.misclassifications == b.misclassifications && near(a.group0_score, b.group0_score) && near(a.group1_score, b.group1_score); }
static bool sameSol(const EqOppSol& a, const EqOppSol& b) { return a.misclassifications == b.misclassifications && near(a.group0_score, b.group0_score) && near(a.group1_score, b.group1_score); }
template <class OT> std::string solStr(const typename OT::SolType& s) { std::ostringstream o; if constexpr (std::is_arithmetic<typename OT::SolType>::value) o << s; else o << "(vector)"; return o.str(); }

template <class OT> void countsCase(u64 cs) {
	Rng r(cs); g_case = cs; alarm(90); Cfg g; Case c; genCase<OT>(r, c, g, r.in(4, 20), r.in(2, 6), TT<OT>::K(r)); g.depth = 2; g.nodes = 3; g_describe = [&]() { return descr(c, g); }; g_eval++; g_nontrivial++;
	std::default_random_engine rng(1); ParameterHandler p = mkParams(g); TT<OT>::params(p, c, g); Data<OT> d(c); Probe<OT> solver(p, &rng); TT<OT>::prep(solver, c); solver.PreprocessData(d.d, true); solver.InitializeSolver(d.v);
	OT* task = solver.GetTask(); const ADataView& tv = solver.train(); int m = tv.NumFeatures(), K = tv.NumLabels();
	CostCalculator<OT> cc(task, m, K, solver.GetFeatureOrder()); ADataView prev = tv;
	for (int step = 0; step < 5; step++) {
		int kind = r.in(0, 3); ADataView v; typename Solver<OT>::Context ctx; int fa = r.in(0, m - 1); bool side = r.p(0.5); double q = 0.2 + 0.75 * r.u();
		if (kind == 0) v = sub(tv, [&](const AInstance*) { return r.p(q); }); else if (kind == 1) v = prev; else if (kind == 2) v = sub(prev.Size() > 3 ? prev : tv, [&](const AInstance*) { return r.p(0.85); });
		else { v = sub(tv, [&](const AInstance* i) { return i->IsFeaturePresent(fa) == side; }); typename Solver<OT>::Context root; if (side) task->GetRightContext(tv, root, fa, ctx); else task->GetLeftContext(tv, root, fa, ctx); }
		if (v.Size() == 0) continue; int nn = r.p(0.25) ? 1 : r.in(2, 3); int rec = r.p(0.2) ? r.in(0, m - 1) : -1;
		if (rec >= 0) cc.InitializeReconstruct(v, ctx, rec); else cc.Initialize(v, ctx, nn); prev = v;
		auto weight = [&](const AInstance* i) { return int(OT::use_weights ? i->GetWeight() : 1.0); };
		auto part = [&](int f1, int b1, int f2, int b2, int label, int& count, typename OT::SolType& sol, typename OT::SolLabelType& lab) { count = 0; typename OT::SolD2Type tot{}, t{}; for (int k = 0; k < K; k++) for (auto i : v.GetInstancesForLabel(k)) { if (f1 >= 0 && i->IsFeaturePresent(f1) != b1) continue; if (f2 >= 0 && i->IsFeaturePresent(f2) != b2) continue; count += weight(i); task->GetInstanceLeafD2Costs(i, k, label, t, 1); tot += t; } task->ComputeD2Costs(tot, count, sol); if (count > 0) lab = cc.GetLabel(label, tot, count); };
		std::string at = "step " + S(step) + (rec >= 0 ? " (reconstruct " + S(rec) + ")" : " (" + S(nn) + " nodes)"); int cnt0; typename OT::SolType s0; typename OT::SolLabelType l0{};
		part(-1, 0, -1, 0, 0, cnt0, s0, l0); chk("total", cc.GetTotalCount() == cnt0, at + ": total count " + S(cc.GetTotalCount()) + " but there are " + S(cnt0));
		for (int l = 0; l < K; l++) { typename OT::SolType s; typename OT::SolLabelType lo{}; cc.CalcLeafSol(s, l, lo); part(-1, 0, -1, 0, l, cnt0, s0, l0); chk("leafsol", sameSol(s, s0), at + ": leaf cost for label " + S(l) + " " + solStr<OT>(s) + " but directly " + solStr<OT>(s0)); }
		for (int f1 = 0; f1 < m; f1++) for (int f2 = 0; f2 < m; f2++) {
			if (f1 != f2 && ((rec < 0 && nn == 1) || (rec >= 0 && f1 != rec && f2 != rec))) continue;
			std::string where = at + " features " + S(f1) + "," + S(f2); Counts a, b; cc.GetCounts(a, f1, f2); IndexInfo ix; cc.GetIndexInfo(f1, f2, ix); cc.GetCounts(b, ix); int e[2][2]; typename OT::SolType es[2][2]; typename OT::SolLabelType el[2][2];
			for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { if (f1 == f2 && x != y) { e[x][y] = 0; continue; } part(f1, x, f2, y, 0, e[x][y], es[x][y], el[x][y]); }
			bool ok = a.count00 == e[0][0] && a.count11 == e[1][1] && (f1 == f2 || (a.count01 == e[0][1] && a.count10 == e[1][0])); chk("counts", ok, where + ": counts " + S(a.count00) + " " + S(a.count01) + " " + S(a.count10) + " " + S(a.count11) + " but directly " + S(e[0][0]) + " " + S(e[0][1]) + " " + S(e[1][0]) + " " + S(e[1][1]));
			ok = b.count00 == e[0][0] && b.count11 == e[1][1] && (f1 == f2 || (b.count01 == e[0][1] && b.count10 == e[1][0])); chk("counts", ok, where + ": indexed counts differ from direct counting"); 
			ok = cc.GetCount00(f1, f2) == e[0][0] && cc.GetCount11(f1, f2) == e[1][1] && (f1 == f2 || (cc.GetCount01(f1, f2) == e[0][1] && cc.GetCount10(f1, f2) == e[1][0])); chk("counts", ok, where + ": single counts differ from direct counting");
			for (int l = 0; l < K; l++) { for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) { if (f1 == f2 && x != y) continue; int q2; part(f1, x, f2, y, l, q2, es[x][y], el[x][y]); }
				Sols<OT> s, t; cc.CalcSols(a, s, l, f1, f2); cc.CalcSols(b, t, l, ix); typename OT::SolType x00, x11; cc.CalcSol00(x00, l, f1, f2); cc.CalcSol11(x11, l, f1, f2); std::string wl = where + " label " + S(l);
				chk("sols", sameSol(s.sol00, es[0][0]) && sameSol(t.sol00, es[0][0]) && sameSol(x00, es[0][0]), wl + ": cost of neither: " + solStr<OT>(s.sol00) + " / " + solStr<OT>(t.sol00) + " / " + solStr<OT>(x00) + " directly " + solStr<OT>(es[0][0])); chk("sols", sameSol(s.sol11, es[1][1]) && sameSol(t.sol11, es[1][1]) && sameSol(x11, es[1][1]), wl + ": cost of both: " + solStr<OT>(s.sol11) + " / " + solStr<OT>(t.sol11) + " directly " + solStr<OT>(es[1][1]));
				if (f1 != f2) { chk("sols", sameSol(s.sol01, es[0][1]) && sameSol(t.sol01, es[0][1]), wl + ": cost of second only: " + solStr<OT>(s.sol01) + " / " + solStr<OT>(t.sol01) + " directly " + solStr<OT>(es[0][1])); chk("sols", sameSol(s.sol10, es[1][0]) && sameSol(t.sol10, es[1][0]), wl + ": cost of first only: " + solStr<OT>(s.sol10) + " / " + solStr<OT>(t.sol10) + " directly " + solStr<OT>(es[1][0])); }
				if constexpr (std::is_same<typename OT::SolLabelType, double>::value) { if (e[0][0]) chk("label", near(cc.GetLabel00(l, f1, f2), el[0][0], 1e-5), wl + ": leaf value"); if (e[1][1]) chk("label", near(cc.GetLabel11(l, f1, f2), el[1][1], 1e-5), wl + ": leaf value"); if (f1 != f2 && e[0][1]) chk("label", near(cc.GetLabel01(l, f1, f2), el[0][1], 1e-5), wl + ": leaf value"); if (f1 != f2 && e[1][0]) chk("label", near(cc.GetLabel10(l, f1, f2), el[1][0], 1e-5), wl + ": leaf value"); }
			}
			if constexpr (OT::has_branching_costs) { if (f1 != f2) { ADataView L = sub(v, [&](const AInstance* i) { return !i->IsFeaturePresent(f1); }), R = sub(v, [&](const AInstance* i) { return i->IsFeaturePresent(f1); }); typename Solver<OT>::Context cl, cr; task->GetLeftContext(v, ctx, f1, cl); task->GetRightContext(v, ctx, f1, cr); auto n = [&](const ADataView& w) { int s = 0; for (int k = 0; k < K; k++) for (auto i : w.GetInstancesForLabel(k)) s += weight(i); return s; };
				if (!ctx.GetBranch().HasBranchedOnFeature(f1) && !ctx.GetBranch().HasBranchedOnFeature(f2) && L.Size() && R.Size()) { chk("branchcost", sameSol(cc.GetBranchingCosts0(n(L), f1, f2), solver.GetBranchingCosts(L, cl, f2)), where + ": branching cost left"); chk("branchcost", sameSol(cc.GetBranchingCosts1(n(R), f1, f2), solver.GetBranchingCosts(R, cr, f2)), where + ": branching cost right"); } }
				else if (!ctx.GetBranch().HasBranchedOnFeature(f1)) chk("branchcost", sameSol(cc.GetBranchingCosts(f1), solver.GetBranchingCosts(v, ctx, f1)), where + ": branching cost"); }
		}
	}
}

// ---------------------------------------------------------------- sub-problems: bounds and solutions under arbitrary histories
template <class OT> void subtreeCase(u64 cs) {
	Rng r(cs); g_case = cs; alarm(90); Cfg g; Case c; int n = r.in(4, 16), m = r.in(2, 5); genCase<OT>(r, c, g, n, m, TT<OT>::K(r)); g.depth = r.p(0.3) ? 2 : r.p(0.7) ? 3 : 4; g.nodes = (1 << g.depth) - 1; if (r.p(0.25)) g.minleaf = r.in(1, 3);
	if (r.p(0.6)) { g.bc = r.p(0.6); g.dc = r.p(0.7); g.ub = r.p(0.8); g.lb = r.p(0.85); g.slb = r.p(0.8); g.tlb = r.p(0.7); g.term = r.p(0.5); g.gini = r.p(0.5); }
	typename TT<OT>::Mod mod; mod.c = &c; mod.cfg = &g; mod.all = (1u << n) - 1; setupModel<OT>(mod); mod.init(); g_describe = [&]() { return descr(c, g); }; g_eval++;
	std::default_random_engine rng(1); ParameterHandler p = mkParams(g); TT<OT>::params(p, c, g); Data<OT> d(c); auto ins = raw(d); Probe<OT> solver(p, &rng); TT<OT>::prep(solver, c); solver.PreprocessData(d.d, true);
	std::vector<int> flip(m), usable; for (int f = 0; f < m; f++) { bool eq = true, ne = true; for (int i = 0; i < n; i++) { if (ins[i]->IsFeaturePresent(f) == c.rows[i].x[f]) ne = false; else eq = false; } flip[f] = ne; if (eq || ne) usable.push_back(f); }
	bool full = r.p(0.35) && !TT<OT>::vec; if (full) solver.Solve(d.v); else { solver.clock(); solver.InitializeSolver(d.v); } OT* task = solver.GetTask(); if (usable.empty()) return; g_nontrivial++;
	typename std::conditional<TT<OT>::vec, BruteVec, Brute>::type B; B.run(&mod, g);
	int ops = r.in(4, 14); std::string hist = full ? "    (after a complete search)\n" : ""; std::vector<std::vector<int>> us; // known solutions of the whole problem
	g_describe = [&]() { return descr(c, g) + "  history of sub-problem calls:\n" + hist; };
	for (int o = 0; o < ops; o++) {
		int len = r.in(TT<OT>::vec ? 1 : 0, g.depth - 1); ADataView v = solver.train(); typename Solver<OT>::Context ctx; u32 mask = mod.all; std::vector<int> path; std::string ps;
		for (int j = 0; j < len; j++) { int f = usable[r.in(0, int(usable.size()) - 1)]; bool right = r.p(0.5); if (std::find(path.begin(), path.end(), f) != path.end() || !mod.mayBranch(f)) continue; ADataView L, R; v.SplitData(f, L, R); if (!L.Size() || !R.Size()) continue; typename Solver<OT>::Context nc; if (right) task->GetRightContext(v, ctx, f, nc); else task->GetLeftContext(v, ctx, f, nc); ADataView nv = right ? R : L; v = nv; ctx = nc; path.push_back(f); ps += (right ? " +" : " -") + S(f);
			for (int i = 0; i < n; i++) if (bool(c.rows[i].x[f] ^ flip[f]) != right) mask &= ~(1u << i); }
		if (TT<OT>::vec && path.empty()) continue;
		int left = g.depth - int(path.size()), dd = r.in(1, left), nn = r.in(dd, (1 << dd) - 1); if (mod.leafWeight(mask) < std::max(1, g.minleaf)) continue;
		std::string what = "path" + ps + " depth " + S(dd) + " nodes " + S(nn); bool query = r.p(0.35);
		if constexpr (!TT<OT>::vec) { std::vector<int> pp = path; double opt = B.opt(mask, dd, nn, pp); if (opt >= INF) continue; double eps = 1e-6 * g_unit + 5e-4 * std::abs(opt);
			auto lbCheck = [&](const char* when) { auto lb = InitializeLB<OT>(); solver.ComputeLowerBound(v, ctx, lb, dd, nn); chk("bound", double(lb.solution) <= opt + eps, std::string(when) + ": lower bound " + S(double(lb.solution)) + " exceeds the optimum " + S(opt) + " for " + what); };
			if (query) { hist += "    bound for " + what + "\n"; lbCheck("query"); continue; }
			auto UB = InitializeSol<OT>(); double ub = 1e300; if (g.ub && r.p(0.6)) { ub = r.p(0.4) ? opt + r.in(-2, 2) : opt * (0.5 + r.u()); if (ub < 0) ub = 0; UB = Node<OT>(typename OT::SolType(ub)); ub = double(UB.solution); }
			hist += "    solve " + what + " upper bound " + S(ub) + " (optimum " + S(opt) + ")\n"; ADataView w = v; auto res = solver.SolveSubTree(w, ctx, UB, dd, nn);
			if (ub > opt + eps) chk("suboptimal", res.IsFeasible() && nearOpt<OT>(double(res.solution), opt), "solved to " + S(double(res.solution)) + " but the optimum is " + S(opt) + " for " + what); else if (res.IsFeasible()) chk("subattain", double(res.solution) >= opt - eps, "solved to " + S(double(res.solution)) + " below the optimum " + S(opt) + " for " + what);
			if (res.IsFeasible()) chk("subnodes", res.NumNodes() <= nn, "more nodes than the budget for " + what); lbCheck("after solving");
		} else if constexpr (std::is_same<OT, F1Score>::value) { const VSet& opt = B.opt(mask, dd, nn); if (opt.empty()) continue; auto leq = [](const F1ScoreSol& a, const std::vector<int>& b) { return a.false_negatives <= b[0] && a.false_positives <= b[1]; };
			// solutions that a known solution of the whole problem strictly dominates are of no interest to any later call; the set of known solutions only grows
			auto moot = [&](const std::vector<int>& e) { for (auto& u : us) if (u != e && u[0] <= e[0] && u[1] <= e[1]) return true; return false; };
			auto lbCheck = [&](const char* when) { auto lb = InitializeLB<OT>(); solver.ComputeLowerBound(v, ctx, lb, dd, nn); for (auto& e : opt) { if (moot(e)) continue; bool ok = false; for (auto& s : lb->GetSolutions()) if (leq(s.solution, e)) ok = true; chk("bound", ok, std::string(when) + ": the bound excludes the attainable (" + S(e[0]) + "," + S(e[1]) + ") for " + what); } };
			if (query) { hist += "    bound for " + what + "\n"; lbCheck("query"); continue; }
			if (g.ub && r.p(0.3)) { us.push_back({ r.in(0, n / 2 + 1), r.in(0, n / 2 + 1) }); hist += "    known solution (" + S(us.back()[0]) + "," + S(us.back()[1]) + ")\n"; }
			auto UB = InitializeSol<OT>(); for (auto& u : us) AddSol<OT>(UB, Node<OT>(F1ScoreSol{ u[0], u[1] }));
			hist += "    solve " + what + "\n"; ADataView w = v; auto res = solver.SolveSubTree(w, ctx, UB, dd, nn); std::multiset<std::vector<int>> got; if (res) for (auto& s : res->GetSolutions()) got.insert({ s.solution.false_negatives, s.solution.false_positives });
			for (auto& e : opt) if (!moot(e)) chk("front", got.count(e) > 0, "the non-dominated (" + S(e[0]) + "," + S(e[1]) + ") is missing for " + what);
			for (auto& e : got) { chk("frontdup", got.count(e) == 1, "value listed twice for " + what); bool ok = false; for (auto& x : opt) if (x[0] <= e[0] && x[1] <= e[1]) ok = true; chk("frontreal", ok, "value (" + S(e[0]) + "," + S(e[1]) + ") is not attainable for " + what); if (us.empty()) chk("frontdom", opt.count(e) > 0, "the dominated or unattainable (" + S(e[0]) + "," + S(e[1]) + ") is returned for " + what); for (auto& y : got) chk("frontdom", y == e || !(y[0] <= e[0] && y[1] <= e[1]), "a dominated value is returned for " + what); }
			lbCheck("after solving"); }
	}
}

// ---------------------------------------------------------------- caches
template <class OT> void cacheCase(u64 cs) {
	typedef typename OT::SolType ST; Rng r(cs); g_case = cs; alarm(90); Cfg g; Case c; int m = r.in(2, 5); genCase<OT>(r, c, g, r.in(4, 12), m, TT<OT>::K(r)); g.bc = r.p(0.6); g.dc = r.p(0.7) || !g.bc; g.depth = 4; g.nodes = 15; Data<OT> d(c); ParameterHandler p = mkParams(g); TT<OT>::params(p, c, g);
	std::string hist; g_describe = [&]() { return descr(c, g) + "  cache history:\n" + hist; }; g_eval++; g_nontrivial++; Cache<OT> cache(p, g.depth, d.v.Size());
	struct Cand { int d, n; ST v; }; std::map<std::set<const AInstance*>, std::vector<Cand>> uni;
	struct Pos { Branch b; ADataView v; int len; }; std::vector<Pos> pos; for (int k = 0; k < 8; k++) { Pos q; q.v = d.v; q.len = 0; int len = r.in(0, 3); for (int j = 0; j < len; j++) { int f = r.in(0, m - 1); if (q.b.HasBranchedOnFeature(f)) continue; ADataView L, R; q.v.SplitData(f, L, R); if (!L.Size() || !R.Size()) continue; bool right = r.p(0.5); Branch nb; if (right) Branch::RightChildBranch(q.b, f, nb); else Branch::LeftChildBranch(q.b, f, nb); q.b = nb; ADataView nv = right ? R : L; q.v = nv; q.len++; } pos.push_back(q); }
	auto cands = [&](const ADataView& v) -> std::vector<Cand>& { auto s = asSet(v); auto it = uni.find(s); if (it != uni.end()) return it->second; auto& l = uni[s]; l.push_back({ 0, 0, ST(r.in(30, 50)) }); int k = r.in(0, 6); for (int j = 0; j < k; j++) { int dd = r.in(1, 4), nn = r.in(dd, (1 << dd) - 1); l.push_back({ dd, nn, ST(r.in(0, 49)) }); } return l; };
	auto best = [&](const ADataView& v, int dd, int nn) { std::vector<Cand> b; for (auto& x : cands(v)) if (x.d <= dd && x.n <= nn) { if (b.empty() || x.v < b[0].v) b.assign(1, x); else if (x.v == b[0].v) b.push_back(x); } return b[r.in(0, int(b.size()) - 1)]; };
	int ops = r.in(5, 40);
	for (int o = 0; o < ops; o++) { Pos& q = pos[r.in(0, int(pos.size()) - 1)]; int dd = r.in(1, 4 - q.len), nn = r.in(dd, (1 << dd) - 1); Cand b = best(q.v, dd, nn); std::ostringstream w; w << "branch [" << q.b << "] depth " << dd << " nodes " << nn << " (optimum " << b.v << ")"; int op = r.in(0, 9);
		if (op <= 2) { if (cache.IsOptimalAssignmentCached(q.v, q.b, dd, nn)) continue; Node<OT> s; s.Set(b.n ? 0 : INT32_MAX, b.n ? OT::worst_label : typename OT::SolLabelType(), b.v, b.n ? (b.n - 1) / 2 : 0, b.n ? b.n - 1 - (b.n - 1) / 2 : 0); hist += "    store " + w.str() + " using " + S(b.n) + " nodes\n"; cache.StoreOptimalBranchAssignment(q.v, q.b, s, dd, nn); }
		else if (op <= 4) { if (cache.IsOptimalAssignmentCached(q.v, q.b, dd, nn)) continue; Node<OT> s; s.solution = ST(r.p(0.5) ? double(b.v) : r.in(0, int(b.v))); hist += "    lower bound " + S(double(s.solution)) + " for " + w.str() + "\n"; cache.UpdateLowerBound(q.v, q.b, s, dd, nn); }
		else if (op == 5) { for (auto& t : pos) if (t.b != q.b && t.b.Depth() == q.b.Depth() && asSet(t.v) == asSet(q.v)) { hist += "    transfer to " + w.str() + "\n"; cache.TransferAssignmentsForEquivalentBranches(t.v, t.b, q.v, q.b); break; } }
		else { hist += "    look up " + w.str() + "\n"; bool is = cache.IsOptimalAssignmentCached(q.v, q.b, dd, nn); auto s = cache.RetrieveOptimalAssignment(q.v, q.b, dd, nn); bool got = !CheckEmptySol<OT>(s); chk("cacheflag", is == got, "cached flag " + S(is) + " but retrieval " + (got ? "succeeds" : "fails") + " for " + w.str()); if (got) { chk("cacheopt", near(double(s.solution), double(b.v)), "retrieved optimum " + S(double(s.solution)) + " for " + w.str()); chk("cachenodes", s.NumNodes() <= nn, "retrieved solution has " + S(s.NumNodes()) + " nodes for " + w.str()); }
			auto l = cache.RetrieveLowerBound(q.v, q.b, dd, nn); chk("cachelb", double(l.solution) <= double(b.v) + 1e-6, "retrieved lower bound " + S(double(l.solution)) + " for " + w.str()); }
	}
}

// ---------------------------------------------------------------- solution sets
template <class OT> struct SolV; template <> struct SolV<F1Score> { static Vec of(const F1ScoreSol& s) { return { double(s.false_negatives), double(s.false_positives) }; } static F1ScoreSol mk(Rng& r) { return { r.in(0, 7), r.in(0, 7) }; } };
template <> struct SolV<GroupFairness> { static Vec of(const GroupFairnessSol& s) { return { double(s.misclassifications), s.group0_score, s.group1_score }; } static GroupFairnessSol mk(Rng& r) { return { r.in(0, 4), r.in(0, 4) / 8.0, r.in(0, 4) / 8.0 }; } };
template <> struct SolV<EqOpp> { static Vec of(const EqOppSol& s) { return { double(s.misclassifications), s.group0_score, s.group1_score }; } static EqOppSol mk(Rng& r) { return { r.in(0, 4), r.in(0, 4) / 8.0, r.in(0, 4) / 8.0 }; } };
static bool vle(const Vec& a, const Vec& b) { for (size_t i = 0; i < a.size(); i++) if (a[i] > b[i]) return false; return true; }
template <class OT> void containerCase(u64 cs) {
	Rng r(cs); g_case = cs; alarm(90); std::string hist; g_describe = [&]() { return "  solution-set history:\n" + hist; }; g_eval++; g_nontrivial++; bool inv = r.p(0.3); int lim = r.p(0.3) ? r.in(1, 5) : 0; bool minv = r.p(0.5); Container<OT> co; std::vector<Vec> added; int ops = r.in(1, 25);
	auto vs = [](const Vec& v) { std::string s = "("; for (double x : v) s += S(x) + " "; return s + ")"; };
	for (int o = 0; o < ops; o++) { auto s = SolV<OT>::mk(r); int nn = r.in(0, 5); Node<OT> nd; nd.Set(nn ? 0 : INT32_MAX, nn ? OT::worst_label : 0, s, nn ? nn - 1 : 0, 0); Vec v = SolV<OT>::of(s); added.push_back(v); hist += "    add " + vs(v) + (inv ? " inverse" : "") + (lim ? (minv ? " or inverse-merge " : " or merge ") + S(lim) : "") + "\n";
		if (!lim) { if (inv) co.AddInv(nd); else co.Add(nd); } else if (minv) co.AddOrInvMerge(nd, lim); else co.AddOrMerge(nd, lim);
		std::multiset<Vec> got; for (auto& x : co.GetSolutions()) got.insert(SolV<OT>::of(x.solution)); chk("setsize", co.Size() == got.size(), "size");
		if (!lim) { std::set<Vec> want; for (auto& a : added) { bool dom = false; for (auto& b : added) if (a != b && (inv ? vle(a, b) : vle(b, a))) dom = true; if (!dom) want.insert(a); } chk("set", got == std::multiset<Vec>(want.begin(), want.end()), "the set holds " + S(got.size()) + " values but there are " + S(want.size()) + " non-dominated ones"); }
		else { chk("setlimit", int(co.Size()) <= lim, "size limit " + S(lim)); if (!minv) for (auto& a : added) { bool ok = false; for (auto& b : got) if (vle(b, a)) ok = true; chk("merge", ok, "the merged set no longer covers " + vs(a)); } else for (auto& b : got) { bool ok = false; for (auto& a : added) if (vle(a, b)) ok = true; chk("merge", ok, "the merged set contains " + vs(b) + " which nothing added reaches"); } }
		Node<OT> q; q.Set(INT32_MAX, 0, SolV<OT>::mk(r), 0, 0); Vec qv = SolV<OT>::of(q.solution); bool d1 = false, d2 = false, i1 = false, i2 = false; for (auto& b : got) { d1 = d1 || vle(b, qv); d2 = d2 || (vle(b, qv) && b != qv); i1 = i1 || vle(qv, b); i2 = i2 || (vle(qv, b) && b != qv); }
		chk("dominates", co.Dominates(q, false) == d1 && co.StrictDominates(q) == d2 && co.DominatesInv(q, false) == i1 && co.StrictDominatesInv(q) == i2, "dominance of the set over " + vs(qv)); }
}

// ---------------------------------------------------------------- parameters
struct PI { const char* name; long long dflt, lo, hi; }; struct PF { const char* name; double dflt, lo, hi; }; struct PB { const char* name; bool dflt; }; struct PS { const char* name; const char* dflt; std::vector<std::string> allowed; bool opt; };
static const std::vector<PI> INTS = { { "max-depth", 3, 0, 20 }, { "max-num-nodes", 7, 0, INT32_MAX }, { "max-num-features", INT32_MAX, 1, INT32_MAX }, { "num-instances", INT32_MAX, 1, INT32_MAX }, { "num-extra-cols", 0, 0, INT32_MAX }, { "min-leaf-node-size", 1, 1, INT32_MAX }, { "random-seed", 4, -1, INT32_MAX }, { "duplicate-factor", 1, 1, INT32_MAX } };
static const std::vector<PF> FLOATS = { { "time", 3600, 0, INT32_MAX }, { "train-test-split", 0, 0, 1 }, { "upper-bound", INT32_MAX, 0, DBL_MAX }, { "discrimination-limit", 1, 0, 1 }, { "cost-complexity", 0, 0, 1 }, { "lasso-penalty", 0, 0, 1e12 }, { "ridge-penalty", 0, 0, 1e12 } };
static const std::vector<PB> BOOLS = { { "hyper-tune", false }, { "verbose", true }, { "all-trees", false }, { "stratify", true }, { "use-terminal-solver", true }, { "use-similarity-lower-bound", true }, { "use-upper-bound", true }, { "use-lower-bound", true }, { "use-task-lower-bound", true }, { "use-branch-caching", false }, { "use-dataset-caching", true } };
static const std::vector<PS> STRS = { { "task", "accuracy", { "accuracy", "cost-complex-accuracy", "f1-score", "group-fairness", "survival-analysis", "regression", "cost-complex-regression", "piecewise-linear-regression", "simple-linear-regression", "equality-of-opportunity", "cost-sensitive", "prescriptive-policy", "instance-cost-sensitive" }, false }, { "file", "", {}, false }, { "test-file", "", {}, true }, { "feature-ordering", "in-order", { "in-order", "gini" }, false }, { "cost-file", "", {}, true }, { "ppg-teacher-method", "DM", { "DM", "IPW", "DR" }, true }, { "regression-bound", "equivalent", { "equivalent", "kmeans" }, true } };
struct PState { std::map<std::string, long long> i; std::map<std::string, double> f; std::map<std::string, bool> b; std::map<std::string, std::string> s; };
static PState dfltState() { PState s; for (auto& x : INTS) s.i[x.name] = x.dflt; for (auto& x : FLOATS) s.f[x.name] = x.dflt; for (auto& x : BOOLS) s.b[x.name] = x.dflt; for (auto& x : STRS) s.s[x.name] = x.dflt; return s; }
static std::string diff(const ParameterHandler& p, const PState& s) { for (auto& x : s.i) if (p.GetIntegerParameter(x.first) != x.second) return x.first + " reads " + S(p.GetIntegerParameter(x.first)) + " instead of " + S(x.second); for (auto& x : s.f) if (p.GetFloatParameter(x.first) != x.second) return x.first + " reads " + S(p.GetFloatParameter(x.first)) + " instead of " + S(x.second); for (auto& x : s.b) if (p.GetBooleanParameter(x.first) != x.second) return x.first + " reads the wrong value"; for (auto& x : s.s) if (p.GetStringParameter(x.first) != x.second) return x.first + " reads '" + p.GetStringParameter(x.first) + "' instead of '" + x.second + "'"; return ""; }
static bool accepted(std::function<void()> f) { fflush(stdout); pid_t pid = fork(); if (pid == 0) { alarm(30); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); g_done = true; signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); try { f(); } catch (...) { _exit(3); } _exit(0); } int st = 0; waitpid(pid, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 0; }
static void paramsCase(u64 cs) {
	Rng r(cs); g_case = cs; alarm(90); std::string hist; g_describe = [&]() { return "  parameter history:\n" + hist; }; g_eval++; g_nontrivial++; ParameterHandler p = ParameterHandler::DefineParameters(); PState s = dfltState(); chk("default", diff(p, s) == "", "default: " + diff(p, s));
	int ops = r.in(1, 12); for (int o = 0; o < ops; o++) { int k = r.in(0, 3); ParameterHandler q = p; PState before = s; std::string name; bool valid = true; std::function<void(ParameterHandler&)> set; std::string shown;
		if (k == 0) { auto& x = INTS[r.in(0, int(INTS.size()) - 1)]; name = x.name; long long cand[] = { x.lo, x.hi, x.lo - 1, x.hi + 1, x.lo + 1, x.hi - 1, (long long)r.in(-3, 30), (long long)r.in(1, 1000), -(1LL << 40), (1LL << 40) }; long long v = cand[r.in(0, 9)]; valid = v >= x.lo && v <= x.hi; set = [=](ParameterHandler& h) { h.SetIntegerParameter(name, v); }; if (valid) s.i[name] = v; shown = S(v); }
		else if (k == 1) { auto& x = FLOATS[r.in(0, int(FLOATS.size()) - 1)]; name = x.name; double cand[] = { x.lo, x.hi, x.lo - 1e-9, x.hi * (1 + 1e-9), r.u(), r.u() * 2, -1.0, 1e13, std::nan(""), x.lo - 1e-12, double(r.in(0, 9)) }; double v = cand[r.in(0, 10)]; valid = v >= x.lo && v <= x.hi; set = [=](ParameterHandler& h) { h.SetFloatParameter(name, v); }; if (valid) s.f[name] = v; shown = S(v); }
		else if (k == 2) { auto& x = BOOLS[r.in(0, int(BOOLS.size()) - 1)]; name = x.name; bool v = r.p(0.5); set = [=](ParameterHandler& h) { h.SetBooleanParameter(name, v); }; s.b[name] = v; shown = S(v); }
		else { auto& x = STRS[r.in(0, int(STRS.size()) - 1)]; name = x.name; static const std::vector<std::string> bad = { "", "x", "Gini", "gini ", "dm", "accurac", "kmeans2", "all" }; std::string v = !x.allowed.empty() && r.p(0.6) ? x.allowed[r.in(0, int(x.allowed.size()) - 1)] : bad[r.in(0, int(bad.size()) - 1)]; valid = x.allowed.empty() || std::find(x.allowed.begin(), x.allowed.end(), v) != x.allowed.end() || (x.opt && v == ""); set = [=](ParameterHandler& h) { h.SetStringParameter(name, v); }; if (valid) s.s[name] = v; shown = "'" + v + "'"; }
		if (r.p(0.03)) { std::string un = name + "-x"; chk("unknown", !accepted([&]() { ParameterHandler h = p; h.SetIntegerParameter(un, 1); }), "an unknown parameter is accepted"); }
		hist += "    set " + name + " = " + shown + (valid ? "" : " (outside its documented range)") + "\n";
		if (valid) { set(p); chk("readback", diff(p, s) == "", "after setting " + name + ": " + diff(p, s)); chk("copy", diff(q, before) == "", "a copy changed: " + diff(q, before)); } else chk("range", !accepted([&]() { ParameterHandler h = p; set(h); }), name + " = " + shown + " is accepted"); }
	int dep = r.in(0, 20), full = (1 << dep) - 1; long long cn[] = { full, full - 1, full + 1, full + 5LL, 0, (long long)r.in(0, 40) }; long long nodes = cn[r.in(0, 5)]; if (nodes < 0) nodes = 0; double ccs[] = { 0, 0, 1e-7, 1e-6, 0.01, 0.5 }; double cc = ccs[r.in(0, 5)]; bool ok = nodes <= full && (nodes == full || cc < 1e-6); ParameterHandler h = p; h.SetIntegerParameter("max-depth", dep); h.SetIntegerParameter("max-num-nodes", nodes); h.SetFloatParameter("cost-complexity", cc); hist += "    check depth " + S(dep) + " nodes " + S(nodes) + " cost-complexity " + S(cc) + "\n";
	if (ok) { h.CheckParameters(); g_counts["combination"]++; } else chk("combination", !accepted([&]() { h.CheckParameters(); }), "an inconsistent combination of depth, nodes and cost-complexity is accepted");
	if (r.p(0.3)) { // the command line sets the same values
		std::vector<std::string> a{ "prog" }; PState e = dfltState(); int k = r.in(1, 5); for (int j = 0; j < k; j++) { int t = r.in(0, 3); if (t == 0) { auto& x = INTS[r.in(0, int(INTS.size()) - 1)]; long long v = std::max(x.lo, std::min<long long>(x.hi, r.in(0, 20))); a.push_back(std::string("-") + x.name); a.push_back(S(v)); e.i[x.name] = v; } else if (t == 1) { auto& x = FLOATS[r.in(0, int(FLOATS.size()) - 1)]; double v = r.in(0, 4) / 4.0; a.push_back(std::string("-") + x.name); a.push_back(S(v)); e.f[x.name] = v; } else if (t == 2) { auto& x = BOOLS[r.in(0, int(BOOLS.size()) - 1)]; bool v = r.p(0.5); a.push_back(std::string("-") + x.name); a.push_back(S(v)); e.b[x.name] = v; } else { auto& x = STRS[r.in(0, int(STRS.size()) - 1)]; std::string v = x.allowed.empty() ? "some/file" : x.allowed[r.in(0, int(x.allowed.size()) - 1)]; a.push_back(std::string("-") + x.name); a.push_back(v); e.s[x.name] = v; } }
		std::vector<char*> av; for (auto& x : a) av.push_back(const_cast<char*>(x.c_str())); av.push_back(nullptr); ParameterHandler ph = ParameterHandler::DefineParameters(); ph.ParseCommandLineArguments(int(a.size()), av.data()); for (auto& x : a) hist += " " + x; chk("commandline", diff(ph, e) == "", "command line: " + diff(ph, e));
		std::vector<std::string> bad = a; int how = r.in(0, 3); auto& xi = INTS[r.in(0, int(INTS.size()) - 1)]; auto& xf = FLOATS[r.in(0, int(FLOATS.size()) - 1)]; static const char* junk[] = { "", "x", "1x", "--1", "1,5", "nan?" };
		if (how == 0) bad.push_back(std::string("-") + xi.name); else if (how == 1) { bad.push_back(std::string("-") + xi.name); bad.push_back(r.p(0.5) ? S(xi.lo - 1) : junk[r.in(0, 5)]); } else if (how == 2) { bad.push_back(std::string("-") + xf.name); bad.push_back(r.p(0.5) ? S(xf.lo - 1) : junk[r.in(0, 5)]); } else { bad.push_back("-no-such-parameter"); bad.push_back("1"); }
		hist += "\n    malformed:"; for (auto& x : bad) hist += " '" + x + "'"; chk("commandline", !accepted([&]() { std::vector<char*> v; for (auto& x : bad) v.push_back(const_cast<char*>(x.c_str())); v.push_back(nullptr); ParameterHandler h2 = ParameterHandler::DefineParameters(); h2.ParseCommandLineArguments(int(bad.size()), v.data()); }), "a malformed command line is accepted"); }
}

// ---------------------------------------------------------------- hazard function
static void hazardCase(u64 cs) {
	Rng r(cs); g_case = cs; alarm(90); Cfg g; Case c; c.n = r.in(1, 20); c.m = 1; c.rows.assign(c.n, Row()); double ce = r.u(); bool ties = r.p(0.7); for (auto& row : c.rows) { row.x.assign(1, r.p(0.5)); row.ev = r.p(ce); row.yd = ties ? r.in(1, 8) : 0.5 + 10 * r.u(); } Data<SurvivalAnalysis> d(c); g_describe = [&]() { return descr(c, g); }; g_eval++; if (c.n > 3) g_nontrivial++;
	SurvM mod; mod.c = &c; mod.cfg = &g; mod.all = 0; auto h = SurvivalAnalysis::ComputeHazardFunction(d.v.GetInstancesForLabel(0)); std::vector<double> q{ 0, 0.25, 100 }; for (auto& row : c.rows) { q.push_back(row.yd); q.push_back(row.yd + 0.01); q.push_back(row.yd - 0.01); } for (int k = 0; k < 5; k++) q.push_back(12 * r.u()); std::sort(q.begin(), q.end()); double last = 0;
	for (double t : q) { double v = h(t), e = mod.haz(t); chk("hazard", near(v, e, 1e-9), "cumulative hazard at " + S(t) + " is " + S(v) + " instead of " + S(e)); chk("monotone", v >= last - 1e-12 && v > 0, "the hazard decreases before " + S(t)); last = v; }
}

// ---------------------------------------------------------------- tuning: the selected configuration is the first with the best average score
template <class OT> void tuneCase(u64 cs) {
	Rng r(cs); g_case = cs; alarm(120); Cfg g; Case c; int n = r.in(10, 24); bool cc = ccTask(g_task); genCase<OT>(r, c, g, n, r.in(2, 4), TT<OT>::K(r)); g.depth = r.p(0.5) ? 2 : 3; g.nodes = (1 << g.depth) - 1; if (!cc && r.p(0.4)) g.nodes = r.in(1, g.nodes); g_describe = [&]() { return descr(c, g); }; g_eval++;
	std::default_random_engine rng(u32(r.in(1, 1000))); ParameterHandler p = mkParams(g); TT<OT>::params(p, c, g); p.SetBooleanParameter("hyper-tune", true); p.SetBooleanParameter("verbose", true); Data<OT> d(c); std::ostringstream out; std::streambuf* old = std::cout.rdbuf(out.rdbuf()); std::vector<std::vector<int>> folds; std::shared_ptr<SolverResult> res; ParameterHandler q = p; TuneRunConfiguration tc;
	{ Solver<OT> solver(p, &rng); TT<OT>::prep(solver, c); solver.PreprocessData(d.d, true); res = solver.HyperSolve(d.v); q = solver.GetParameters(); } std::cout.rdbuf(old);
	// read the progress report: one line per evaluated (phase, fold, configuration), then the configuration that was picked
	std::istringstream in(out.str()); std::string line; std::map<int, std::map<int, std::map<int, double>>> sc; std::map<int, std::map<int, std::map<int, std::string>>> txt; std::map<int, std::string> picked; std::map<int, std::map<int, std::string>> desc; std::map<int, int> nconf; std::map<int, std::set<int>> skip; int ph = 0, run = 0, cf = 0; bool parsed = true;
	while (std::getline(in, line)) { int a, b, e, f, x, y; if (sscanf(line.c_str(), "Tune phase %d/%d Split %d/%d Config %d/%d", &a, &b, &e, &f, &x, &y) == 6) { ph = a; run = e; cf = x; nconf[a] = y; size_t t1 = line.find('\t'), t2 = line.find("\tScore: "); if (t1 == std::string::npos || t2 == std::string::npos) { parsed = false; break; } desc[a][x] = line.substr(t1 + 1, t2 - t1 - 2); txt[a][x][e] = line.substr(t2 + 8); sc[a][x][e] = std::stod(line.substr(t2 + 8)); } else if (line.find("Reached maximum tree. Skipping configuration") == 0) { for (int k = cf + 1; k <= nconf[ph]; k++) { sc[ph][k][run] = sc[ph][cf][run]; txt[ph][k][run] = txt[ph][cf][run]; } } else { size_t t = line.find("Best config : "); if (t != std::string::npos) picked[ph] = line.substr(t + 14); } }
	if (!parsed || picked.empty()) return; g_nontrivial++;
	for (auto& P : picked) { auto& S1 = sc[P.first]; int nc = nconf[P.first]; int runs = 0; for (auto& x : S1) runs = std::max(runs, int(x.second.size())); bool complete = int(S1.size()) == nc; for (auto& x : S1) complete = complete && int(x.second.size()) == runs; chk("tuneall", complete, "not every configuration was evaluated on every fold"); if (!complete) continue;
		std::vector<double> avg(nc + 1); for (int k = 1; k <= nc; k++) { double s = 0; for (auto& x : S1[k]) s += x.second; avg[k] = s / runs; }
		// the picked configuration is named by its description; several configurations can share one
		std::vector<int> who; for (int k = 1; k <= nc; k++) if (desc[P.first].count(k) && desc[P.first][k] == P.second) who.push_back(k); if (who.size() != 1) continue; int w = who[0];
		if (std::isnan(avg[w])) continue; for (int k = 1; k <= nc; k++) { double tol = 1e-4 * std::max({ 1e-6, std::abs(avg[k]), std::abs(avg[w]) }) + 2e-6 * g_unit; if (std::abs(avg[k] - avg[w]) > tol && !std::isnan(avg[k])) chk("tunebest", !OT::CompareScore(avg[k], avg[w]), "configuration '" + P.second + "' with average " + S(avg[w]) + " was picked but '" + desc[P.first][k] + "' has " + S(avg[k]));
			if (k < w && std::is_same<typename TT<OT>::LT, int>::value && txt[P.first][k] == txt[P.first][w] && desc[P.first].count(k) && !(std::is_same<OT, InstanceCostSensitive>::value)) chk("tunefirst", false, "configuration '" + P.second + "' was picked although the earlier '" + desc[P.first][k] + "' has the same scores"); } g_counts["tunefirst"]++;
	}
}

int main(int argc, char** argv) {
	Args a(argc, argv); std::string t = a.task;
#define T(FN, NAME, OT) if (t == NAME) loop(a, [&](u64 cs) { FN<OT>(cs); });
#define TOTALS(FN) T(FN, "accuracy", Accuracy) T(FN, "cost-complex-accuracy", CostComplexAccuracy) T(FN, "cost-sensitive", CostSensitive) T(FN, "instance-cost-sensitive", InstanceCostSensitive) T(FN, "prescriptive-policy", PrescriptivePolicy) T(FN, "regression", Regression) T(FN, "cost-complex-regression", CostComplexRegression) T(FN, "simple-linear-regression", SimpleLinearRegression) T(FN, "survival-analysis", SurvivalAnalysis)
#define VECS(FN) T(FN, "f1-score", F1Score) T(FN, "group-fairness", GroupFairness) T(FN, "equality-of-opportunity", EqOpp)
	if (a.mode == "split") { T(splitCase, "accuracy", Accuracy) T(splitCase, "regression", Regression) }
	if (a.mode == "counts") { TOTALS(countsCase) VECS(countsCase) }
	if (a.mode == "subtree") { TOTALS(subtreeCase) T(subtreeCase, "f1-score", F1Score) }
	if (a.mode == "cache") { T(cacheCase, "accuracy", Accuracy) T(cacheCase, "regression", Regression) T(cacheCase, "cost-complex-accuracy", CostComplexAccuracy) }
	if (a.mode == "set") { VECS(containerCase) }
	if (a.mode == "params") loop(a, paramsCase);
	if (a.mode == "hazard") loop(a, hazardCase);
	if (a.mode == "tune") { TOTALS(tuneCase) VECS(tuneCase) }
	return finish();
}
