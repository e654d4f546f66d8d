#pragma once
// Shared by the harnesses: random small problems, independent oracles working on the raw rows, reporting.
#include "base.h"
#include "solver/solver.h"
#include "tasks/tasks.h"
#include <cstdio>
#include <functional>
#include <csignal>
#include <unistd.h>

using namespace STreeD;
typedef unsigned int u32; typedef unsigned long long u64;

struct Rng { u64 s; Rng(u64 x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { for (int i = 0; i < 4; i++) next(); }
	u64 next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 2685821657736338717ULL; }
	int in(int a, int b) { return a + int((next() >> 33) % u64(b - a + 1)); }
	bool p(double q) { return (next() >> 11) * (1.0 / 9007199254740992.0) < q; }
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); } };

struct Row { std::vector<bool> x; int yi{ 0 }; double yd{ 0 }; std::vector<double> extra; int k{ 0 }, kopt{ 0 }, ev{ 0 }; double mu{ 0 }, py{ 0 }; };
struct Cfg { int depth{ 2 }, nodes{ 3 }, minleaf{ 1 }; bool bc{ true }, dc{ true }, ub{ true }, lb{ true }, slb{ true }, tlb{ true }, term{ true }, gini{ true }, all{ false }, kmeans{ false };
	double cc{ 0 }, disc{ 1 }, ridge{ 0 }; int teacher{ 0 };
	std::string str() const { std::ostringstream o; o << "max-depth=" << depth << " max-num-nodes=" << nodes << " min-leaf-node-size=" << minleaf << " branch-cache=" << bc << " dataset-cache=" << dc
		<< " upper-bound=" << ub << " lower-bound=" << lb << " similarity-bound=" << slb << " task-bound=" << tlb << " terminal=" << term << " gini=" << gini << " all-trees=" << all
		<< " kmeans=" << kmeans << " cost-complexity=" << cc << " discrimination-limit=" << disc << " lasso-penalty(ridge)=" << ridge << " teacher=" << teacher; return o.str(); } };
struct Case { int n{ 0 }, m{ 0 }, K{ 2 }; std::vector<Row> rows; std::vector<std::vector<double>> M; std::vector<FeatureCostSpecifier> fc; };

static std::map<std::string, std::string> g_override; static std::string g_task; static u64 g_case; static int g_fail = 0; static long g_eval = 0, g_nontrivial = 0; static std::set<std::string> g_only; static int g_maxfail = 1; static std::string g_desc; static std::function<std::string()> g_describe;
static std::map<std::string, long> g_counts;
static void fail(const std::string& kind, const std::string& what) {
	if (!g_only.empty() && !g_only.count(kind)) return;
	g_fail++;
	printf("FAIL kind=%s task=%s case=%llu\n  %s\n%s\n", kind.c_str(), g_task.c_str(), g_case, what.c_str(), g_describe ? g_describe().c_str() : "");
	fflush(stdout);
	if (g_fail >= g_maxfail) { printf("SUMMARY evaluations=%ld nontrivial=%ld failures=%d\n", g_eval, g_nontrivial, g_fail); fflush(stdout); _exit(1); }
}
static void chk(const char* kind, bool ok, const std::string& what) { g_counts[kind]++; if (!ok) fail(kind, what); }
template <class T> std::string S(const T& t) { std::ostringstream o; o << std::setprecision(12) << t; return o.str(); }
// the unit of the costs of the current case: sums of costs are exact up to rounding in that unit
static double g_unit = 1.0;
static bool near(double a, double b, double tol = 1e-6) { return a == b || (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= tol * std::max({ g_unit, std::abs(a), std::abs(b) }); }

// ---------------------------------------------------------------- oracle cost models (raw rows)
typedef std::vector<double> Vec; // objective vector; single objective has length one
struct Model { // independent description of a task's objective
	const Case* c; const Cfg* cfg; u32 all;
	virtual ~Model() {}
	virtual void init() {}
	virtual double branch(u32 mask, int f, const std::vector<int>& path) const { return 0; }
	virtual bool pathDependent() const { return false; }
	virtual bool mayBranch(int f) const { return true; }
	virtual int leafWeight(u32 mask) const { return __builtin_popcount(mask); }
};
static int cnt(const Case& c, u32 mask, int label) { int r = 0; for (int i = 0; i < c.n; i++) if (mask >> i & 1 && c.rows[i].yi == label) r++; return r; }

struct ScalarModel : Model { virtual double leafBest(u32 mask) const = 0; };
struct LabelModel : ScalarModel { virtual double leafCost(u32 mask, int label) const = 0; int numLabels{ 2 };
	double leafBest(u32 mask) const override { double b = DBL_MAX; for (int l = 0; l < numLabels; l++) b = std::min(b, leafCost(mask, l)); return b; } };

static const double INF = 1e100;
struct Brute { // exhaustive optimum over all trees within the limits
	const ScalarModel* M; const Case* c; const Cfg* cfg; std::map<std::tuple<u32, int, int, u32>, double> memo; std::vector<u32> fm;
	double opt(u32 mask, int d, int n, std::vector<int>& path) {
		if (M->leafWeight(mask) < std::max(1, cfg->minleaf)) return INF;
		u32 pk = 0; if (M->pathDependent()) for (int f : path) pk |= 1u << f;
		n = std::min(n, (1 << std::min(d, 20)) - 1);
		auto key = std::make_tuple(mask, d, n, pk); auto it = memo.find(key); if (it != memo.end()) return it->second;
		double best = M->leafBest(mask);
		if (d > 0 && n > 0) for (int f = 0; f < c->m; f++) {
			if (!M->mayBranch(f)) continue;
			u32 r = mask & fm[f], l = mask & ~fm[f]; if (!r || !l) continue;
			double b = M->branch(mask, f, path); path.push_back(f);
			for (int nl = 0; nl < n; nl++) { double x = opt(l, d - 1, nl, path); if (x >= INF) continue; double y = opt(r, d - 1, n - 1 - nl, path); if (y >= INF) continue; best = std::min(best, b + x + y); }
			path.pop_back();
		}
		return memo[key] = best;
	}
	double run(const ScalarModel* m, const Cfg& g) { M = m; c = m->c; cfg = &g; fm.assign(c->m, 0); memo.clear(); for (int i = 0; i < c->n; i++) for (int f = 0; f < c->m; f++) if (c->rows[i].x[f]) fm[f] |= 1u << i;
		std::vector<int> p; int d = std::min(g.depth, g.nodes); return opt(m->all, d, g.nodes, p); }
};
typedef std::set<std::vector<int>> VSet;
static void pareto(VSet& s) { std::vector<std::vector<int>> v(s.begin(), s.end()); s.clear(); for (auto& a : v) { bool dom = false; for (auto& b : v) if (&a != &b) { bool le = true; for (size_t i = 0; i < a.size(); i++) if (b[i] > a[i]) le = false; if (le && b != a) dom = true; } if (!dom) s.insert(a); } }
struct VecModel : Model { virtual std::vector<int> leafVec(u32 mask, int label) const = 0; };
struct BruteVec { const VecModel* M; const Case* c; const Cfg* cfg; std::map<std::tuple<u32, int, int>, VSet> memo; std::vector<u32> fm;
	const VSet& opt(u32 mask, int d, int n) {
		n = std::min(n, (1 << std::min(d, 20)) - 1);
		auto key = std::make_tuple(mask, d, n); auto it = memo.find(key); if (it != memo.end()) return it->second;
		VSet s; if (__builtin_popcount(mask) >= std::max(1, cfg->minleaf)) {
			for (int l = 0; l < 2; l++) s.insert(M->leafVec(mask, l));
			if (d > 0 && n > 0) for (int f = 0; f < c->m; f++) { if (!M->mayBranch(f)) continue; u32 r = mask & fm[f], l = mask & ~fm[f]; if (!r || !l) continue;
				for (int nl = 0; nl < n; nl++) { const VSet& a = opt(l, d - 1, nl); const VSet& b = opt(r, d - 1, n - 1 - nl); for (auto& x : a) for (auto& y : b) { auto z = x; for (size_t i = 0; i < z.size(); i++) z[i] += y[i]; s.insert(z); } } }
			pareto(s); }
		return memo[key] = s; }
	VSet run(const VecModel* m, const Cfg& g) { M = m; c = m->c; cfg = &g; fm.assign(c->m, 0); memo.clear(); for (int i = 0; i < c->n; i++) for (int f = 0; f < c->m; f++) if (c->rows[i].x[f]) fm[f] |= 1u << i; return opt(m->all, std::min(g.depth, g.nodes), g.nodes); }
};

// ---------------------------------------------------------------- concrete models
struct AccM : LabelModel { void init() override { numLabels = c->K; } double leafCost(u32 m, int l) const override { return __builtin_popcount(m) - cnt(*c, m, l); } };
struct CCAccM : AccM { double branch(u32, int, const std::vector<int>&) const override { return cfg->cc * c->n; } };
struct CSM : LabelModel { int fp{ 0 }; void init() override { numLabels = c->K; }
	double leafCost(u32 m, int l) const override { double r = 0; for (int k = 0; k < c->K; k++) r += cnt(*c, m, k) * c->M[k][l]; return r; }
	int spec(int f) const { for (size_t i = 0; i < c->fc.size(); i++) if (f >= c->fc[i].binary_begin && f <= c->fc[i].binary_end) return int(i); return -1; }
	double unit(int f, const std::vector<int>& path) const { int s = spec(f); bool grp = false; for (int g : path) { if (spec(g) == s) return 0; if (c->fc[spec(g)].group_name == c->fc[s].group_name) grp = true; } return grp ? c->fc[s].discount_cost : c->fc[s].feature_cost; }
	double branch(u32 m, int f, const std::vector<int>& path) const override { return __builtin_popcount(m) * unit(f, path); }
	bool pathDependent() const override { return true; } };
struct ICSM : LabelModel { void init() override { numLabels = c->K; } double leafCost(u32 m, int l) const override { double r = 0; for (int i = 0; i < c->n; i++) if (m >> i & 1) r += c->rows[i].extra[l]; return r; } };
struct PPGM : LabelModel { std::vector<std::vector<double>> s; void init() override { numLabels = c->K; s.assign(c->n, std::vector<double>(c->K)); double mn = 1;
		for (int i = 0; i < c->n; i++) for (int k = 0; k < c->K; k++) { auto& r = c->rows[i]; bool mz = std::abs(r.mu) <= 1e-6; double v = 0;
			if (cfg->teacher == 0) v = -r.extra[k]; else if (cfg->teacher == 1) v = mz ? 0 : -(k == r.k ? r.py / r.mu : 0); else v = mz ? 0 : -(r.extra[k] + (k == r.k ? (r.py - r.extra[r.k]) / r.mu : 0));
			s[i][k] = v; mn = std::min(mn, v); } for (auto& r : s) for (auto& v : r) v -= mn; }
	double leafCost(u32 m, int l) const override { double r = 0; for (int i = 0; i < c->n; i++) if (m >> i & 1) r += s[i][l]; return r; } };
static double sse(const Case& c, u32 m) { double s = 0, n = 0; for (int i = 0; i < c.n; i++) if (m >> i & 1) s += c.rows[i].yd, n++; double mu = s / n, r = 0; for (int i = 0; i < c.n; i++) if (m >> i & 1) r += (c.rows[i].yd - mu) * (c.rows[i].yd - mu); return r; }
struct RegM : ScalarModel { double leafBest(u32 m) const override { return sse(*c, m); } };
struct CCRegM : RegM { double branch(u32, int, const std::vector<int>&) const override { return cfg->cc * sse(*c, all); } };
struct SLRM : ScalarModel { std::vector<double> var; int P{ 1 }; void init() override { P = int(c->rows[0].extra.size()); var.assign(P, 0); for (int f = 0; f < P; f++) { double s = 0, q = 0; for (auto& r : c->rows) s += r.extra[f], q += r.extra[f] * r.extra[f]; var[f] = (q - s * s / c->n) / c->n; } }
	double branch(u32, int, const std::vector<int>&) const override { return cfg->cc * sse(*c, all); }
	double leafBest(u32 m) const override { double best = DBL_MAX; for (int f = 0; f < P; f++) { double n = 0, xs = 0, ys = 0; for (int i = 0; i < c->n; i++) if (m >> i & 1) n++, xs += c->rows[i].extra[f], ys += c->rows[i].yd; double xm = xs / n, ym = ys / n, sxx = 0, sxy = 0; for (int i = 0; i < c->n; i++) if (m >> i & 1) { double dx = c->rows[i].extra[f] - xm; sxx += dx * dx; sxy += dx * (c->rows[i].yd - ym); }
			double rp = cfg->ridge * var[f], den = sxx + rp, a = n * den < 1e-3 ? 0 : sxy / den, b = ym - a * xm, e = rp * a * a; for (int i = 0; i < c->n; i++) if (m >> i & 1) { double r = c->rows[i].yd - a * c->rows[i].extra[f] - b; e += r * r; } best = std::min(best, e); } return std::max(0.0, best); } };
struct SurvM : ScalarModel { std::vector<double> H; void init() override { H.assign(c->n, 0); for (int i = 0; i < c->n; i++) H[i] = haz(c->rows[i].yd); }
	double haz(double t) const { std::set<double> ts; for (auto& r : c->rows) if (r.ev && r.yd <= t + 1e-6) ts.insert(r.yd); double s = 0; for (double u : ts) { int d = 0, a = 0; for (auto& r : c->rows) { if (r.yd >= u) a++; if (r.yd == u && r.ev) d++; } s += double(d) / a; } return ts.empty() ? 1.0 / (c->n + 1) : s; }
	double theta(u32 m) const { double h = 0, e = 0; for (int i = 0; i < c->n; i++) if (m >> i & 1) h += H[i], e += c->rows[i].ev; return std::max(0.5, e) / h; }
	double leafBest(u32 m) const override { double th = theta(m), e = 0, l = 0; for (int i = 0; i < c->n; i++) if (m >> i & 1 && c->rows[i].ev) e++, l -= std::log(H[i]); return std::max(0.0, l - e * std::log(th)); }
	double leafAt(const Case& d, const std::vector<double>& h, u32 m, double th) const { double e = 0, l = 0, hs = 0; for (int i = 0; i < d.n; i++) if (m >> i & 1) { hs += h[i]; if (d.rows[i].ev) e++, l -= std::log(h[i]); } return std::max(0.0, l - e * (std::log(th) + 1) + th * hs); } };
struct F1M : VecModel { std::vector<int> leafVec(u32 m, int l) const override { int n1 = cnt(*c, m, 1), n0 = cnt(*c, m, 0); return l ? std::vector<int>{0, n0} : std::vector<int>{ n1, 0 }; } };
struct FairM : VecModel { bool eq{ false }; bool mayBranch(int f) const override { return f > 0; }
	std::vector<int> leafVec(u32 m, int l) const override { int mis = __builtin_popcount(m) - cnt(*c, m, l); int g0 = 0, g1 = 0; for (int i = 0; i < c->n; i++) if (m >> i & 1 && (!eq || c->rows[i].yi == 1)) (c->rows[i].x[0] ? g1 : g0)++;
		return l ? std::vector<int>{mis, g0, 0, 0, g1} : std::vector<int>{ mis, 0, g1, g0, 0 }; } }; // mis; score0 = [1]/G0 + [2]/G1 ; score1 = [3]/G0 + [4]/G1

// ---------------------------------------------------------------- task traits
template <class OT> struct TT;
#define SCALAR(OTN, MODEL) typedef MODEL Mod; static const bool vec = false;
static void genFeatures(Rng& r, Case& c) {
	for (auto& row : c.rows) row.x.resize(c.m);
	for (int f = 0; f < c.m; f++) { int kind = r.in(0, 9); double dens = kind <= 4 ? 0.5 : kind <= 6 ? 0.8 : kind == 7 ? 0.25 : 0.5; int src = f > 0 ? r.in(0, f - 1) : 0;
		for (int i = 0; i < c.n; i++) c.rows[i].x[f] = (kind == 8 && f > 0) ? c.rows[i].x[src] : (kind == 9 && f > 0) ? !c.rows[i].x[src] : r.p(dens); if (kind >= 8 && r.p(0.5)) { int i = r.in(0, c.n - 1); c.rows[i].x[f] = !c.rows[i].x[f]; } }
	if (r.p(0.35)) for (int i = 1; i < c.n; i++) if (r.p(0.35)) c.rows[i].x = c.rows[r.in(0, i - 1)].x;
}
static void genLabels(Rng& r, Case& c) { int mode = r.in(0, 3); int a = r.in(0, c.m - 1), b = r.in(0, c.m - 1), d = r.in(0, c.m - 1); double noise = r.u() * 0.4; for (auto& row : c.rows) { int v = mode == 0 ? 0 : mode == 1 ? (row.x[a] ^ row.x[b]) : mode == 2 ? (row.x[a] && row.x[b]) + (c.K > 2 && row.x[d]) : (row.x[a] ^ row.x[b] ^ row.x[d]); if (mode == 0 || r.p(noise)) v = r.in(0, c.K - 1); row.yi = v % c.K; }
	if (c.n >= c.K) for (int k = 0; k < c.K; k++) { bool has = false; for (auto& row : c.rows) if (row.yi == k) has = true; if (!has && k == c.K - 1) c.rows[r.in(0, c.n - 1)].yi = k; } }
static void genTargets(Rng& r, Case& c) { int mode = r.in(0, 2); std::vector<double> w(c.m); for (auto& x : w) x = r.in(-3, 3); for (auto& row : c.rows) { double y = mode == 0 ? r.in(-4, 4) : 0; for (int f = 0; f < c.m; f++) y += row.x[f] * w[f]; if (mode == 2) y += r.u() * 2; row.yd = y; } }
struct ClassBase { typedef int LT; static int label(const Row& r) { return r.yi; } static int K(Rng& r) { return r.p(0.6) ? 2 : 3; } static void gen(Rng& r, Case& c, Cfg&) { genLabels(r, c); } static void params(ParameterHandler&, const Case&, const Cfg&) {} template <class Sv> static void prep(Sv&, const Case&) {} };
template <> struct TT<Accuracy> : ClassBase { SCALAR(Accuracy, AccM) static ExtraData ed(const Row&) { return {}; } };
template <> struct TT<CostComplexAccuracy> : ClassBase { SCALAR(CostComplexAccuracy, CCAccM) static CCAccExtraData ed(const Row&) { return {}; } static void gen(Rng& r, Case& c, Cfg& g) { genLabels(r, c); static const double a[] = { 0.003, 0.01, 0.04, 0.07, 0.13, 0.26 }; g.cc = a[r.in(0, 5)]; } };
// costs come in any unit: now and then in a very small one
static double unitOf(Rng& r) { static u64 last = 0; const double u = r.p(0.06) ? 1073741824.0 : 1.0; g_unit = last == g_case ? std::max(g_unit, u) : u; last = g_case; return u; }
template <> struct TT<CostSensitive> : ClassBase { SCALAR(CostSensitive, CSM) static ExtraData ed(const Row&) { return {}; }
	static void gen(Rng& r, Case& c, Cfg&) { genLabels(r, c); bool diag = r.p(0.3); const double u = unitOf(r); c.M.assign(c.K, std::vector<double>(c.K, 0)); for (int i = 0; i < c.K; i++) for (int j = 0; j < c.K; j++) if (i != j || diag) c.M[i][j] = (i == j ? r.in(0, 4) : r.in(1, 20)) / 2.0 * u;
		int f = 0, s = 0; bool cheap = r.p(0.7); while (f < c.m) { int e = std::min(c.m - 1, f + r.in(0, 1)); double fc = u * (cheap ? r.in(0, 8) / 16.0 : r.in(0, 8) / 2.0); c.fc.emplace_back(fc, fc * r.in(0, 2) / 2.0, std::string(1, char('A' + r.in(0, 2))), f, e); f = e + 1; s++; } }
	template <class Sv> static void prep(Sv& s, const Case& c) { s.GetTask()->UpdateCostSpecifier(CostSpecifier(c.M, c.fc)); } };
template <> struct TT<InstanceCostSensitive> : ClassBase { SCALAR(InstanceCostSensitive, ICSM) static InstanceCostSensitiveData ed(const Row& r) { auto v = r.extra; return InstanceCostSensitiveData(v); }
	static void gen(Rng& r, Case& c, Cfg&) { genLabels(r, c); bool zero = r.p(0.4); const double u = unitOf(r); for (auto& row : c.rows) { row.extra.resize(c.K); for (int k = 0; k < c.K; k++) row.extra[k] = zero && k == row.yi ? 0 : r.in(0, 24) / 4.0 * u; } if (r.p(0.3)) for (auto& row : c.rows) row.yi = 0; }
	static void params(ParameterHandler& p, const Case& c, const Cfg&) { p.SetIntegerParameter("num-extra-cols", c.K); } };
template <> struct TT<PrescriptivePolicy> : ClassBase { SCALAR(PrescriptivePolicy, PPGM) static PPGData ed(const Row& r) { auto yh = r.extra; std::vector<double> cf(r.extra.size(), 0.0); return PPGData(r.k, r.py, r.mu, yh, r.kopt, cf); }
	static void gen(Rng& r, Case& c, Cfg& g) { genLabels(r, c); g.teacher = r.in(0, 2); const double u = unitOf(r); for (auto& row : c.rows) { row.extra.resize(c.K); for (auto& v : row.extra) v = r.in(-8, 16) / 4.0 * u; row.k = row.yi; row.py = r.in(-4, 12) / 4.0 * u; row.mu = r.in(1, 4) / 4.0; row.kopt = r.in(0, c.K - 1); } }
	static void params(ParameterHandler& p, const Case&, const Cfg& g) { static const char* t[] = { "DM", "IPW", "DR" }; p.SetStringParameter("ppg-teacher-method", t[g.teacher]); } };
struct RegBase { typedef double LT; static double label(const Row& r) { return r.yd; } static int K(Rng&) { return 1; } static void gen(Rng& r, Case& c, Cfg&) { genTargets(r, c); } static void params(ParameterHandler&, const Case&, const Cfg&) {} template <class Sv> static void prep(Sv&, const Case&) {} };
template <> struct TT<Regression> : RegBase { SCALAR(Regression, RegM) static ExtraData ed(const Row&) { return {}; } };
template <> struct TT<CostComplexRegression> : RegBase { SCALAR(CostComplexRegression, CCRegM) static RegExtraData ed(const Row& r) { return {}; } static void gen(Rng& r, Case& c, Cfg& g) { genTargets(r, c); static const double a[] = { 0.0, 0.001, 0.01, 0.04, 0.1, 0.2 }; g.cc = a[r.in(0, 5)]; g.kmeans = r.p(0.4); } };
template <> struct TT<SimpleLinearRegression> : RegBase { SCALAR(SimpleLinearRegression, SLRM) static SimpleLinRegExtraData ed(const Row& r) { return SimpleLinRegExtraData(r.extra); } static void gen(Rng& r, Case& c, Cfg& g) { genTargets(r, c); int P = r.in(1, 2); for (auto& row : c.rows) { row.extra.resize(P); for (auto& v : row.extra) v = r.in(-6, 6) / 2.0; if (r.p(0.7)) row.yd += row.extra[0] * (row.x[0] ? 1 : -1); } static const double a[] = { 0.0, 0.01, 0.05 }; g.cc = a[r.in(0, 2)]; g.ridge = r.in(0, 3) / 2.0; }
	static void params(ParameterHandler& p, const Case&, const Cfg& g) { p.SetFloatParameter("lasso-penalty", g.ridge); } };
template <> struct TT<SurvivalAnalysis> : RegBase { SCALAR(SurvivalAnalysis, SurvM) static SAData ed(const Row& r) { return SAData(r.ev, -1.0); } static void gen(Rng& r, Case& c, Cfg&) { double ce = r.u() * 0.7; std::vector<double> w(c.m); for (auto& x : w) x = r.in(0, 3); for (auto& row : c.rows) { row.ev = r.p(1 - ce); double y = r.in(1, 5); for (int f = 0; f < c.m; f++) y += row.x[f] * w[f]; row.yd = r.p(0.3) ? y + r.u() : y; } } };
template <> struct TT<F1Score> : ClassBase { typedef F1M Mod; static const bool vec = true; static ExtraData ed(const Row&) { return {}; } static int K(Rng&) { return 2; } };
struct FairBase : ClassBase { typedef FairM Mod; static const bool vec = true; static ExtraData ed(const Row&) { return {}; } static int K(Rng&) { return 2; }
	static void gen(Rng& r, Case& c, Cfg& g) { genLabels(r, c); static const double a[] = { 0.001, 0.0303, 0.1013, 0.1502, 0.2503, 0.4003, 1.0 }; g.disc = a[r.in(0, 6)]; c.rows[0].x[0] = false; c.rows[1].x[0] = true; c.rows[0].yi = c.rows[1].yi = 1; c.rows[2].yi = 0; }
	static void params(ParameterHandler& p, const Case&, const Cfg& g) { p.SetFloatParameter("discrimination-limit", g.disc); } };
template <> struct TT<GroupFairness> : FairBase {};
template <> struct TT<EqOpp> : FairBase {};
template <class OT> void setupModel(typename TT<OT>::Mod& m) {}
template <> void setupModel<EqOpp>(FairM& m) { m.eq = true; }

template <class OT> struct Data { AData d; ADataView v; Data(const Case& c) { typedef typename TT<OT>::LT LT; std::vector<std::vector<const AInstance*>> per; if (std::is_same<LT, double>::value) per.resize(1);
		for (int i = 0; i < c.n; i++) { LT l = TT<OT>::label(c.rows[i]); auto* in = new Instance<LT, typename OT::ET>(i, c.rows[i].x, l, TT<OT>::ed(c.rows[i])); d.AddInstance(in); int k = std::is_same<LT, double>::value ? 0 : int(l); if (int(per.size()) <= k) per.resize(k + 1); per[k].push_back(in); }
		d.SetNumFeatures(c.m); v = ADataView(&d, per, {}); } };

static ParameterHandler mkParams(const Cfg& g) { ParameterHandler p = ParameterHandler::DefineParameters(); p.SetIntegerParameter("max-depth", g.depth); p.SetIntegerParameter("max-num-nodes", g.nodes); p.SetIntegerParameter("min-leaf-node-size", g.minleaf); p.SetBooleanParameter("use-branch-caching", g.bc); p.SetBooleanParameter("use-dataset-caching", g.dc); p.SetBooleanParameter("use-upper-bound", g.ub); p.SetBooleanParameter("use-lower-bound", g.lb); p.SetBooleanParameter("use-similarity-lower-bound", g.slb); p.SetBooleanParameter("use-task-lower-bound", g.tlb); p.SetBooleanParameter("use-terminal-solver", g.term); p.SetStringParameter("feature-ordering", g.gini ? "gini" : "in-order"); p.SetBooleanParameter("all-trees", g.all); p.SetFloatParameter("cost-complexity", g.cc); p.SetStringParameter("regression-bound", g.kmeans ? "kmeans" : "equivalent"); p.SetBooleanParameter("verbose", false); p.SetFloatParameter("time", 600); p.SetIntegerParameter("random-seed", 1); p.CheckParameters(); return p; }

static std::string descr(const Case& c, const Cfg& g) { std::ostringstream o; o << "  options: " << g.str() << "\n  rows (features | label | extra):\n"; for (auto& r : c.rows) { o << "    "; for (int f = 0; f < c.m; f++) o << r.x[f]; o << " | " << r.yi << " " << r.yd << " |"; for (auto e : r.extra) o << " " << e; o << " ev=" << r.ev << " k=" << r.k << " kopt=" << r.kopt << " y=" << r.py << " mu=" << r.mu << "\n"; } for (auto& r : c.M) { o << "    cost row:"; for (auto v : r) o << " " << v; o << "\n"; } for (auto& f : c.fc) o << "    " << f.ToString() << "\n"; return o.str(); }

// ---------------------------------------------------------------- tree evaluation on raw rows
template <class OT> struct TreeEval { const Case* c; const typename TT<OT>::Mod* mod; const Tree<OT>* root; int depth{ 0 }, nodes{ 0 }; bool shapeOk{ true }, minleafOk{ true }, repeatOk{ true }, forbidOk{ true }, rangeOk{ true }; std::string why; double pathlen{ 0 };
	struct Leaf { u32 mask; const Tree<OT>* t; std::vector<int> path; }; struct Br { u32 mask; int f; std::vector<int> path; }; std::vector<Leaf> leaves; std::vector<Br> brs; std::vector<const Tree<OT>*> leafOf;
	void go(const Tree<OT>* t, u32 mask, std::vector<int>& path, int minleaf) { depth = std::max(depth, int(path.size())); pathlen += __builtin_popcount(mask);
		if (t->label != OT::worst_label) { leaves.push_back({ mask, t, path }); if (mod->leafWeight(mask) < minleaf) minleafOk = false; for (int i = 0; i < c->n; i++) if (mask >> i & 1) leafOf[i] = t; if (t->left_child || t->right_child) shapeOk = false; return; }
		if (!t->left_child || !t->right_child) { shapeOk = false; return; } nodes++; int f = t->feature; if (f < 0 || f >= c->m) { rangeOk = false; return; } if (std::find(path.begin(), path.end(), f) != path.end()) repeatOk = false; if (!mod->mayBranch(f)) forbidOk = false;
		u32 fm = 0; for (int i = 0; i < c->n; i++) if (c->rows[i].x[f]) fm |= 1u << i; brs.push_back({ mask, f, path }); path.push_back(f); go(t->left_child.get(), mask & ~fm, path, minleaf); go(t->right_child.get(), mask & fm, path, minleaf); path.pop_back(); }
	TreeEval(const Case& cc, const typename TT<OT>::Mod& m, const Tree<OT>* r, int minleaf) : c(&cc), mod(&m), root(r) { leafOf.assign(cc.n, nullptr); std::vector<int> p; go(r, (1u << cc.n) - 1, p, minleaf); } };

// objective of a concrete tree, computed from the raw rows and leaf labels
template <class OT> double leafValue(const typename TT<OT>::Mod& m, const Case& c, u32 mask, const Tree<OT>* t) { return m.leafCost(mask, t->label); }
template <> double leafValue<Regression>(const RegM& m, const Case& c, u32 mask, const Tree<Regression>* t) { double e = 0; for (int i = 0; i < c.n; i++) if (mask >> i & 1) e += (c.rows[i].yd - t->label) * (c.rows[i].yd - t->label); return e; }
template <> double leafValue<CostComplexRegression>(const CCRegM& m, const Case& c, u32 mask, const Tree<CostComplexRegression>* t) { double e = 0; for (int i = 0; i < c.n; i++) if (mask >> i & 1) e += (c.rows[i].yd - t->label) * (c.rows[i].yd - t->label); return e; }
template <> double leafValue<SimpleLinearRegression>(const SLRM& m, const Case& c, u32 mask, const Tree<SimpleLinearRegression>* t) { double e = 0; for (int i = 0; i < c.n; i++) if (mask >> i & 1) { double p = t->label.b0; for (size_t f = 0; f < t->label.b.size(); f++) p += t->label.b[f] * c.rows[i].extra[f]; e += (c.rows[i].yd - p) * (c.rows[i].yd - p); } for (size_t f = 0; f < t->label.b.size(); f++) e += m.cfg->ridge * m.var[f] * t->label.b[f] * t->label.b[f]; return e; }
template <> double leafValue<SurvivalAnalysis>(const SurvM& m, const Case& c, u32 mask, const Tree<SurvivalAnalysis>* t) { std::vector<double> h(c.n); for (int i = 0; i < c.n; i++) h[i] = m.haz(c.rows[i].yd); return m.leafAt(c, h, mask, t->label); }
// expected score on a data set (train: same rows) from leaf structure
template <class OT> double scoreOf(const typename TT<OT>::Mod& m, const Case& d, const TreeEval<OT>& e, bool train);
static double misScore(double mis, int n) { return (n - mis) / double(n); }
template <class OT> double misOf(const Case& d, const TreeEval<OT>& e) { double mis = 0; for (int i = 0; i < d.n; i++) if (e.leafOf[i]->label != d.rows[i].yi) mis++; return mis; }
template <> double scoreOf<Accuracy>(const AccM& m, const Case& d, const TreeEval<Accuracy>& e, bool) { return misScore(misOf<Accuracy>(d, e), d.n); }
template <> double scoreOf<CostComplexAccuracy>(const CCAccM& m, const Case& d, const TreeEval<CostComplexAccuracy>& e, bool) { return misScore(misOf<CostComplexAccuracy>(d, e), d.n); }
template <> double scoreOf<CostSensitive>(const CSM& m, const Case& d, const TreeEval<CostSensitive>& e, bool) { double v = 0; for (int i = 0; i < d.n; i++) v += m.c->M[d.rows[i].yi][e.leafOf[i]->label]; for (auto& b : e.brs) v += __builtin_popcount(b.mask) * m.unit(b.f, b.path);
	double tot = 0; std::set<int> sd; std::set<std::string> gd; for (size_t i = 0; i < m.c->fc.size(); i++) { tot += gd.count(m.c->fc[i].group_name) ? m.c->fc[i].discount_cost : m.c->fc[i].feature_cost; gd.insert(m.c->fc[i].group_name); } double mx = 0; for (auto& r : m.c->M) for (double x : r) mx = std::max(mx, x); int big = 0; for (int k = 0; k < m.c->K; k++) big = std::max(big, cnt(d, (1u << d.n) - 1, k)); return v / d.n / (tot + (1.0 - double(big) / d.n) * mx); }
template <> double scoreOf<InstanceCostSensitive>(const ICSM& m, const Case& d, const TreeEval<InstanceCostSensitive>& e, bool) { double v = 0; for (int i = 0; i < d.n; i++) v += d.rows[i].extra[e.leafOf[i]->label]; return v; }
template <> double scoreOf<PrescriptivePolicy>(const PPGM& m, const Case& d, const TreeEval<PrescriptivePolicy>& e, bool) { double v = 0; for (int i = 0; i < d.n; i++) v += d.rows[i].kopt != e.leafOf[i]->label; return misScore(v, d.n); }
template <> double scoreOf<Regression>(const RegM& m, const Case& d, const TreeEval<Regression>& e, bool) { double v = 0; for (int i = 0; i < d.n; i++) { double r = d.rows[i].yd - e.leafOf[i]->label; v += r * r; } return v / d.n; }
template <> double scoreOf<CostComplexRegression>(const CCRegM& m, const Case& d, const TreeEval<CostComplexRegression>& e, bool) { double v = 0; for (int i = 0; i < d.n; i++) { double r = d.rows[i].yd - e.leafOf[i]->label; v += r * r; } return v / d.n; }
template <> double scoreOf<SimpleLinearRegression>(const SLRM& m, const Case& d, const TreeEval<SimpleLinearRegression>& e, bool) { double v = 0; for (auto& l : e.leaves) v += leafValue<SimpleLinearRegression>(m, d, l.mask, l.t); return v / d.n; }
template <> double scoreOf<SurvivalAnalysis>(const SurvM& m, const Case& d, const TreeEval<SurvivalAnalysis>& e, bool) { double v = 0; for (auto& l : e.leaves) v += leafValue<SurvivalAnalysis>(m, d, l.mask, l.t); return v / d.n; }
static double f1(int fn, int fp, int pos) { int tp = pos - fn; return tp / (tp + 0.5 * (fp + fn)); }
template <> double scoreOf<F1Score>(const F1M& m, const Case& d, const TreeEval<F1Score>& e, bool) { int fn = 0, fp = 0, pos = 0; for (int i = 0; i < d.n; i++) { pos += d.rows[i].yi; int p = e.leafOf[i]->label; fn += d.rows[i].yi && !p; fp += !d.rows[i].yi && p; } return f1(fn, fp, pos); }
template <class OT> double fairDisc(const FairM& m, const Case& d, const TreeEval<OT>& e) { int G0 = 0, G1 = 0, p0 = 0, p1 = 0; for (int i = 0; i < d.n; i++) { if (m.eq && !d.rows[i].yi) continue; bool g = d.rows[i].x[0]; (g ? G1 : G0)++; if (e.leafOf[i]->label == 1) (g ? p1 : p0)++; } return std::abs(p0 / double(G0) - p1 / double(G1)); }
template <class OT> double fairScore(const FairM& m, const Case& d, const TreeEval<OT>& e) { return fairDisc<OT>(m, d, e) <= m.cfg->disc + 1e-9 ? misScore(misOf<OT>(d, e), d.n) : 0; }
template <> double scoreOf<GroupFairness>(const FairM& m, const Case& d, const TreeEval<GroupFairness>& e, bool) { return fairScore<GroupFairness>(m, d, e); }
template <> double scoreOf<EqOpp>(const FairM& m, const Case& d, const TreeEval<EqOpp>& e, bool) { return fairScore<EqOpp>(m, d, e); }
template <class OT> typename OT::LabelType expectPred(const Row& r, const Tree<OT>* t) { return t->label; }
template <> double expectPred<SimpleLinearRegression>(const Row& r, const Tree<SimpleLinearRegression>* t) { double p = t->label.b0; for (size_t f = 0; f < t->label.b.size(); f++) p += t->label.b[f] * r.extra[f]; return p; }

template <class OT> void genCase(Rng& r, Case& c, Cfg& g, int n, int m, int K) { c.n = n; c.m = m; c.K = K; c.rows.assign(n, Row()); genFeatures(r, c); TT<OT>::gen(r, c, g); }
static bool ccTask(const std::string& t) { return t == "cost-complex-accuracy" || t == "cost-complex-regression" || t == "simple-linear-regression"; }

template <class OT> double brute(const typename TT<OT>::Mod& m, const Cfg& g) {
	if constexpr (!TT<OT>::vec) { Brute b; return b.run(&m, g); }
	else { BruteVec b; VSet s = b.run(&m, g); double best = -1; const Case& c = *m.c;
		if constexpr (std::is_same<OT, F1Score>::value) { int pos = cnt(c, m.all, 1); for (auto& v : s) best = std::max(best, f1(v[0], v[1], pos)); }
		else { int G0 = 0, G1 = 0; for (auto& r : c.rows) { if (m.eq && !r.yi) continue; (r.x[0] ? G1 : G0)++; } for (auto& v : s) { double s0 = v[1] / double(G0) + v[2] / double(G1), s1 = v[3] / double(G0) + v[4] / double(G1); if (std::max(s0, s1) - 1 <= g.disc + 1e-9) best = std::max(best, misScore(v[0], c.n)); } }
		return best; } }

static u64 caseSeed(const std::string& task, u64 seed, u64 i) { u64 h = 1469598103934665603ULL; for (char ch : task) h = (h ^ u64(ch)) * 1099511628211ULL; return (h ^ (seed * 0x9E3779B97F4A7C15ULL)) + i * 0xD1B54A32D192ED03ULL; }

// real-valued objectives: the search compares values with a relative precision of 1e-4
template <class OT> bool nearOpt(double v, double opt) { if (near(v, opt, 1e-5)) return true; return std::is_same<typename OT::SolType, double>::value && v >= opt && v <= opt + 5e-4 * std::abs(opt); }
// checks one solver result against the oracle
template <class OT> void checkResult(const std::shared_ptr<SolverResult>& res, const Case& c, const Cfg& g, const typename TT<OT>::Mod& mod, double opt, const char* pre, bool checkOpt = true) {
	std::string P = pre; auto* r = static_cast<SolverTaskResult<OT>*>(res.get());
	if (!TT<OT>::vec && opt >= INF) { chk((P + "feasible").c_str(), r->NumSolutions() == 0, "no tree satisfies the limits but the solver returned one"); return; }
	if (TT<OT>::vec && opt < 0) { chk((P + "feasible").c_str(), r->NumSolutions() == 0, "no tree satisfies the limits/constraint but the solver returned one: " + (r->NumSolutions() ? r->tree_strings[0] : "")); return; }
	chk((P + "feasible").c_str(), r->NumSolutions() > 0, "a feasible tree exists (value " + S(opt) + ") but the solver returned none"); if (r->NumSolutions() == 0) return;
	chk((P + "proven").c_str(), r->IsProvenOptimal(), "not marked optimal without a time-out");
	auto tree = r->trees[r->best_index]; TreeEval<OT> e(c, mod, tree.get(), std::max(1, g.minleaf)); std::string ts = tree->ToString();
	chk((P + "shape").c_str(), e.shapeOk && e.rangeOk, "malformed tree " + ts); if (!e.shapeOk || !e.rangeOk) return;
	chk((P + "depth").c_str(), e.depth <= g.depth, "depth limit exceeded: " + ts);
	chk((P + "nodes").c_str(), e.nodes <= g.nodes, "node limit exceeded: " + ts);
	chk((P + "minleaf").c_str(), e.minleafOk, "minimum leaf size violated: " + ts);
	chk((P + "repeat").c_str(), e.repeatOk, "feature repeated on a path: " + ts);
	chk((P + "forbidden").c_str(), e.forbidOk, "branches on a forbidden feature: " + ts);
	chk((P + "repdepth").c_str(), r->GetBestDepth() == e.depth && tree->Depth() == e.depth, "reported depth " + S(r->GetBestDepth()) + " but tree " + ts);
	chk((P + "repnodes").c_str(), r->GetBestNodeCount() == e.nodes && tree->NumNodes() == e.nodes, "reported node count " + S(r->GetBestNodeCount()) + " but tree " + ts);
	chk((P + "repstring").c_str(), r->tree_strings[r->best_index] == ts || (!g_only.empty()), "tree string " + r->tree_strings[r->best_index] + " but tree " + ts);
	double sc = scoreOf<OT>(mod, c, e, true);
	chk((P + "score").c_str(), near(r->scores[r->best_index]->score, sc), "reported score " + S(r->scores[r->best_index]->score) + " but the tree scores " + S(sc) + ": " + ts);
	if constexpr (!TT<OT>::vec) { double v = 0; for (auto& l : e.leaves) v += leafValue<OT>(mod, c, l.mask, l.t); for (auto& b : e.brs) v += mod.branch(b.mask, b.f, b.path);
		// survival: the search scores an event-free leaf at its maximum likelihood (0), the reported loss uses the rate with half an event
		double ov = v; if constexpr (std::is_same<OT, SurvivalAnalysis>::value) { ov = 0; for (auto& l : e.leaves) ov += mod.leafBest(l.mask); }
		chk((P + "opt").c_str(), !checkOpt || nearOpt<OT>(ov, opt), "tree objective " + S(ov) + " but the optimum is " + S(opt) + ": " + ts);
		double lb = 0; for (auto& l : e.leaves) lb += mod.leafBest(l.mask); double lv = 0; for (auto& l : e.leaves) lv += leafValue<OT>(mod, c, l.mask, l.t); chk((P + "leaf").c_str(), std::is_same<OT, SurvivalAnalysis>::value || near(lv, lb, 1e-5), "leaf labels cost " + S(lv) + " but best labels cost " + S(lb) + ": " + ts);
		auto* its = static_cast<InternalTrainScore<OT>*>(r->scores[r->best_index].get()); chk((P + "value").c_str(), near(double(its->train_value), v), "reported objective " + S(double(its->train_value)) + " but tree objective " + S(v) + ": " + ts);
		if constexpr (std::is_same<OT, SurvivalAnalysis>::value) for (auto& l : e.leaves) chk((P + "theta").c_str(), near(l.t->label, mod.theta(l.mask)), "leaf rate " + S(l.t->label) + " expected " + S(mod.theta(l.mask)) + ": " + ts);
	} else { chk((P + "opt").c_str(), near(sc, opt), "tree score " + S(sc) + " but the best attainable is " + S(opt) + ": " + ts);
		if constexpr (!std::is_same<OT, F1Score>::value) chk((P + "fair").c_str(), fairDisc<OT>(mod, c, e) <= g.disc + 1e-9, "discrimination " + S(fairDisc<OT>(mod, c, e)) + " exceeds the limit: " + ts); }
}
template <class OT> void checkPredict(Solver<OT>& solver, const std::shared_ptr<SolverResult>& res, const Case& t, const Cfg& g, const typename TT<OT>::Mod& mod, bool perf, const char* pre, Data<OT>* live = nullptr) {
	std::string P = pre; auto* r = static_cast<SolverTaskResult<OT>*>(res.get()); if (r->NumSolutions() == 0) return; auto tree = r->trees[r->best_index]; TreeEval<OT> e(t, mod, tree.get(), 0);
	Data<OT>* d = live ? live : new Data<OT>(t); if (!live) solver.PreprocessData(d->d, false);
	auto pred = solver.Predict(tree, d->v); bool ok = int(pred.size()) == t.n; std::string why = "size";
	for (int i = 0; ok && i < t.n; i++) { auto x = expectPred<OT>(t.rows[i], e.leafOf[i]); if (!near(double(pred[i]), double(x))) { ok = false; why = "row " + S(i) + " predicted " + S(pred[i]) + " but the tree walk gives " + S(x); } }
	chk((P + "predict").c_str(), ok, why + ": " + tree->ToString());
	if (!live) { // predicting without labels: the caller passes rows of one (dummy) label only
		Case u = t; for (auto& row : u.rows) row.yi = 0; Data<OT>* du = new Data<OT>(u); static std::vector<Data<OT>*> keepu; keepu.push_back(du); if (keepu.size() > 64) { delete keepu.front(); keepu.erase(keepu.begin()); }
		solver.PreprocessData(du->d, false); auto pu = solver.Predict(tree, du->v); bool same = pu.size() == pred.size(); for (size_t i = 0; same && i < pu.size(); i++) same = near(double(pu[i]), double(pred[i])); chk((P + "predict").c_str(), same, "predictions depend on whether labels are given: " + tree->ToString()); }
	if (perf) { auto tr = solver.TestPerformance(res, d->v); double sc = scoreOf<OT>(mod, t, e, false); chk((P + "testscore").c_str(), near(tr->scores[r->best_index]->score, sc), "test score " + S(tr->scores[r->best_index]->score) + " but the tree scores " + S(sc) + ": " + tree->ToString()); }
	if (!live) { /* kept alive on purpose: the solver caches views */ static std::vector<Data<OT>*> keep; keep.push_back(d); if (keep.size() > 64) { delete keep.front(); keep.erase(keep.begin()); } }
}
template <class OT> void genTest(Rng& r, const Case& c, Case& t, int n) { Cfg dummy; t = Case(); t.n = n; t.m = c.m; t.K = c.K; t.rows.assign(n, Row()); for (auto& row : t.rows) { row.x.resize(c.m); for (int f = 0; f < c.m; f++) row.x[f] = r.p(0.5); } auto M = c.M; auto fc = c.fc; size_t P = c.rows[0].extra.size(); TT<OT>::gen(r, t, dummy); t.M = M; t.fc = fc; for (auto& row : t.rows) if (row.extra.size() != P) row.extra.resize(P, 0.5);
	for (int i = 0; i < std::min(n, c.K); i++) if (std::is_same<typename TT<OT>::LT, int>::value) t.rows[i].yi = i % c.K; }

static bool g_done = false;
static void onexit() { if (!g_done) { printf("FAIL kind=crash task=%s case=%llu\n  the solver ended the process\n", g_task.c_str(), g_case); if (g_describe) printf("%s\n", g_describe().c_str()); fflush(stdout); _exit(1); } }
static void onsig(int s) { printf(s == SIGALRM ? "FAIL kind=hang task=%s case=%llu\n  the solver did not finish this small problem within 90 seconds (signal %d)\n" : "FAIL kind=crash task=%s case=%llu\n  the solver crashed with signal %d\n", g_task.c_str(), g_case, s); if (g_describe) printf("%s\n", g_describe().c_str()); fflush(stdout); _exit(1); }
struct Args { std::string task{ "accuracy" }, mode{ "all" }; u64 seed{ 1 }; long count{ 1000000000 }; double secs{ 10 }; long long only{ -1 };
	Args(int argc, char** argv) { for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i], v = argv[i + 1]; if (a == "--task") task = v; else if (a == "--mode") mode = v; else if (a == "--seed") seed = std::stoull(v); else if (a == "--count") count = std::stol(v); else if (a == "--secs") secs = std::stod(v); else if (a == "--case") only = std::stoll(v); else if (a == "--set") { size_t q = v.find('='); g_override[v.substr(0, q)] = v.substr(q + 1); } else if (a == "--max-fail") g_maxfail = std::stoi(v); else if (a == "--kinds") { std::stringstream ss(v); std::string k; while (std::getline(ss, k, ',')) g_only.insert(k); } }
		signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGALRM, onsig); atexit(onexit); g_task = task; } };
template <class F> void loop(const Args& a, F one) {
	auto t0 = std::chrono::steady_clock::now(); if (a.only >= 0) { one(u64(a.only)); return; }
	for (long i = 0; i < a.count; i++) { if ((i & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > a.secs) break; one(caseSeed(g_task, a.seed, i) & 0x7fffffffffffffffULL); }
}
static int finish() { printf("COUNTS"); for (auto& kv : g_counts) printf(" %s=%ld", kv.first.c_str(), kv.second); printf("\nSUMMARY evaluations=%ld nontrivial=%ld failures=%d\n", g_eval, g_nontrivial, g_fail); g_done = true; return g_fail ? 1 : 0; }
