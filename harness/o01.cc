// O01: downhill simplex
#include "num.h"
#include <TooN/optimization/downhill_simplex.h>
// functions of n variables: 0 convex quadratic, 1 Rosenbrock chain, 2 sum of absolute values, 3 quartic, 4 a staircase (ties), 5 linear (no minimum), 6 constant
struct Obj { int n, kind; RM q; RV m; LD c; LD S = 1, F = 1, wall = INFINITY; mutable std::vector<std::pair<RV, LD>> calls; mutable bool log = false;
	// F times the function of x/S; infinite where some coordinate is beyond the wall
	LD value(const RV& y) const { RV x = y; for (auto& t : x) { t /= S; if (!(t < wall)) return INFINITY; } double s = 0; int n_ = n; if (kind == 0) { for (int i = 0; i < n_; i++) { double t = 0; for (int j = 0; j < n_; j++) t += (double)q(i, j) * (double)(x[j] - m[j]); s += t * t; } } else if (kind == 1) { for (int i = 0; i + 1 < n_; i++) { double a = 1 - x[i], b = x[i + 1] - x[i] * x[i]; s += a * a + 10 * b * b; } if (n_ == 1) s = (x[0] - 1) * (x[0] - 1); } else if (kind == 2) for (int i = 0; i < n_; i++) s += std::fabs(x[i] - m[i]) * (i + 1); else if (kind == 3) for (int i = 0; i < n_; i++) { double t = x[i] - m[i]; s += t * t * t * t + t * t; } else if (kind == 4) for (int i = 0; i < n_; i++) s += std::floor(std::fabs((double)(x[i] - m[i]))); else if (kind == 5) for (int i = 0; i < n_; i++) s += (i + 1) * (double)x[i]; return (double)((s + c) * F); }
	template<class V> double operator()(const V& v) const { RV x = rv(v); LD f = value(x); if (log) calls.push_back({x, f}); return f; } };
template<int N, class P> struct Sx {
	typedef DownhillSimplex<N, P> D; int n; D& d; const Obj& f; LD e = eps<P>() * 64;
	bool near(const RV& a, const RV& b, LD size) { for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= e * size)) return false; return true; }
	static RM simplex(D& d) { return rm(d.get_simplex()); }
	void consistent(const char* what) { const D& c = d; RM s = simplex(d); RV v = rv(c.get_values()); if (s.r != n + 1 || s.c != n || (int)v.size() != n + 1) FAIL(what << ": size of the simplex"); for (int i = 0; i <= n; i++) { RV x(n); for (int j = 0; j < n; j++) x[j] = s(i, j); LD y = (P)f.value(x); if (!(v[i] == y)) FAIL(what << ": value " << v[i] << " of vertex " << i << " but the function there is " << y); } int b = c.get_best(), w = c.get_worst(); if (b < 0 || b > n || w < 0 || w > n || v[b] != *std::min_element(v.begin(), v.end()) || v[w] != *std::max_element(v.begin(), v.end())) FAIL(what << ": best " << b << " and worst " << w << " of " << show(v)); }
	void started(const RV& c, P spread, const char* what) { RM s = simplex(d); LD size = norm2(c) + std::fabs(spread); for (int i = 0; i <= n; i++) for (int j = 0; j < n; j++) { LD want = c[j]; int k = -1; (void)k; CLOSE(s(i, j), want + (i == j ? spread : 0), (i == j ? e * size : 0), what << ": vertex " << i << " of the new simplex"); } consistent(what); }
	// one step, judged by the points at which the function was evaluated
	void step(Gen& g, bool it) {
		RM s = simplex(d); RV v = rv(d.get_values()); LD worst = *std::max_element(v.begin(), v.end()), best = *std::min_element(v.begin(), v.end()), size = maxabs(s) * 4 * (1 + std::fabs(d.alpha)) * (1 + std::fabs(d.rho)); f.calls.clear(); f.log = true; bool more = true; if (it) more = d.iterate(f); else d.find_next_point(f); f.log = false;
		RM t = simplex(d); RV u = rv(d.get_values()); auto& c = f.calls; auto row = [&](const RM& m, int i) { RV x(n); for (int j = 0; j < n; j++) x[j] = m(i, j); return x; }; if (c.empty()) FAIL("a step evaluates nothing"); bool ok = false; std::string shape; consistent("after a step"); if (!(*std::min_element(u.begin(), u.end()) <= best)) FAIL("the best value rose from " << best << " to " << *std::min_element(u.begin(), u.end()));
		for (int w = 0; w <= n && !ok; w++) if (v[w] == worst) { // any of equally bad vertices may count as the worst
			RV x0(n); for (int i = 0; i <= n; i++) if (i != w) for (int j = 0; j < n; j++) x0[j] += s(i, j) / n; RV xw = row(s, w), xr(n), xe(n), xc(n); for (int j = 0; j < n; j++) { LD vv = x0[j] - xw[j]; xr[j] = x0[j] + d.alpha * vv; xe[j] = x0[j] + d.rho * d.alpha * vv; xc[j] = x0[j] + d.gamma * vv; }
			if (!near(c[0].first, xr, size)) continue; LD fr = (P)c[0].second, second = -INFINITY; for (int i = 0; i <= n; i++) if (i != w) second = std::max(second, v[i]); size_t used = 1; 
			auto replaced = [&](const RV& x, LD y) { for (int i = 0; i <= n; i++) if (i == w ? !(near(row(t, i), x, size) && u[i] == y) : !(row(t, i) == row(s, i) && u[i] == v[i])) return false; return c.size() == used; };
			auto shrunk = [&] { for (int b = 0; b <= n; b++) if (v[b] == best) { bool good = true; size_t k = used; for (int i = 0; i <= n && good; i++) { RV x(n); for (int j = 0; j < n; j++) x[j] = s(b, j) + d.sigma * (s(i, j) - s(b, j)); if (i == b) good = row(t, i) == row(s, i) && u[i] == v[i]; else good = near(row(t, i), x, size) && k++ < c.size(); } if (good && k == c.size()) return true; } return false; };
			if (fr < best) { shape = "expansion"; if (c.size() < 2 || !near(c[1].first, xe, size)) continue; used = 2; LD fe = (P)c[1].second; ok = (fe <= fr && replaced(xe, fe)) || (fe >= fr && replaced(xr, fr)); }
			else { bool tie = fr == second; if (fr < second || tie) { shape = "reflection"; ok = replaced(xr, fr); } 
				if (!ok && (fr >= second)) { if (fr < worst) { shape = "contraction"; if (c.size() < 2 || !near(c[1].first, xc, size)) continue; used = 2; LD fc = (P)c[1].second; ok = (fc <= fr && replaced(xc, fc)); if (!ok && fc >= fr) { shape = "shrink"; ok = shrunk(); } } else { shape = "shrink"; ok = shrunk(); } } }
		}
		if (!ok) { std::ostringstream o; for (auto& k : c) o << show(k.first) << " (" << k.second << ") "; FAIL("the step from " << s << " with values " << show(v) << " to " << t << " with values " << show(u) << " by evaluating " << o.str() << "is none of those documented"); }
		g.tag(shape);
		if (it) { LD span = 0, scale = 0; int b = d.get_best(), w = d.get_worst(); for (int j = 0; j < n; j++) { span += (t(b, j) - t(w, j)) * (t(b, j) - t(w, j)); scale += t(b, j) * t(b, j); } span = std::sqrt(span); scale = std::sqrt(scale); bool small = span < d.epsilon * scale || span < d.zero_epsilon, edge = std::fabs(span - d.epsilon * scale) <= 1e-5L * d.epsilon * scale || std::fabs(span - d.zero_epsilon) <= 1e-5L * d.zero_epsilon; if (!edge && more == small) FAIL("iterate returned " << more << " with a span of " << span << " at a distance of " << scale << " from zero"); if (d.finished() == more) FAIL("iterate returns " << more << ", as finished does"); }
	}
};
Obj gen_obj(Gen& g, int n, int kinds) { Obj f; f.n = n; f.kind = g.range(0, kinds - 1); f.m = RV(n); for (auto& x : f.m) x = g.pick(2) ? g.small(3) : (LD)(double)g.uniform(-3, 3); f.c = g.pick(3) ? 0 : g.small(5); f.q = RM(n, n); int c = g.pick(3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f.q(i, j) = i == j ? (c == 0 ? 1 : (LD)(double)g.uniform(0.5, 3)) : c == 2 ? (LD)(double)(g.uniform(-0.4, 0.4) / n) : 0; return f; }
template<int N, class P> void history(Gen& g, int n) {
	Obj f = gen_obj(g, n, 7); if (g.chance(15)) { int q = std::is_same_v<P, float> ? 5 : 60; f.S = std::ldexp(1.0L, (int)(3.3 * g.range(-q, q))); f.F = std::ldexp(1.0L, (int)(3.3 * g.range(-q, q))); g.note("S", f.S); g.note("F", f.F); g.tag("extreme scale"); } RV c(n); for (auto& x : c) x = (P)(f.S * (g.pick(3) == 0 ? g.small(4) : g.uniform(-5, 5))); if (g.chance(15)) { f.wall = g.uniform(-3, 6); g.note("infinite beyond", f.wall); g.tag("infinite beyond a wall"); } P spread = (P)(g.pick(3) == 0 ? 1 : f.S * (g.pick(4) ? 1 : -1) * g.logpos(1e-3, 10)); g.note("function", f.kind); g.note("minimum", show(f.m)); g.note("q", f.q); g.note("start", show(c)); g.note("spread", spread);
	Vector<N> cv(n); put(cv, c); bool dflt = spread == 1 && g.flag(); DownhillSimplex<N, P> d = dflt ? DownhillSimplex<N, P>(f, cv) : DownhillSimplex<N, P>(f, cv, spread); Sx<N, P> s{n, d, f}; s.started(c, spread, "construction"); if (d.alpha != 1 || d.rho != 2 || d.gamma != P(.5) || d.sigma != P(.5) || std::fabs(d.epsilon - std::sqrt(std::numeric_limits<P>::epsilon())) > 1e-3L * d.epsilon || d.zero_epsilon != P(1e-20)) FAIL("default parameters");
	if (g.chance(25)) { d.alpha = (P)g.uniform(0.5, 1.5); d.rho = (P)g.uniform(1.2, 3); d.gamma = (P)g.uniform(0.2, 0.8); d.sigma = (P)g.uniform(0.2, 0.8); g.note("alpha", d.alpha); g.note("rho", d.rho); g.note("gamma", d.gamma); g.note("sigma", d.sigma); g.tag("own parameters"); } if (g.chance(25)) { d.epsilon = (P)g.logpos(1e-4, 1); g.note("epsilon", d.epsilon); } if (g.chance(10)) { d.zero_epsilon = (P)g.logpos(1e-3, 10); g.note("zero_epsilon", d.zero_epsilon); }
	int len = g.range(1, 60), shapes = 0; for (int k = 0; k < len; k++) { int op = g.pick(30); if (op == 0) { RV b(n); RM t = s.simplex(d); int bi = d.get_best(); for (int j = 0; j < n; j++) b[j] = t(bi, j); P sp = (P)(f.S * g.logpos(1e-2, 2)); d.restart(f, sp); s.started(b, sp, "restart"); g.tag("restart at the best point"); } else if (op == 1) { RV b(n); for (auto& x : b) x = (P)(f.S * g.uniform(-2, 2)); P sp = (P)(f.S * g.logpos(1e-2, 2)); Vector<N> bv(n); put(bv, b); d.restart(f, bv, sp); s.started(b, sp, "restart elsewhere"); } else { s.step(g, op < 20); shapes++; } if (maxabs(s.simplex(d)) > 1e12 * f.S) break; }
	g.nontrivial(shapes > 1 && f.kind < 6);
}
template<int N, class P> void converge(Gen& g, int n) {
	Obj f = gen_obj(g, n, 4); if (f.kind == 1) f.c = 0; if (f.kind == 2) f.kind = 0; RV c(n); for (auto& x : c) x = (P)(g.pick(3) == 0 ? g.small(4) : g.uniform(-5, 5)); P spread = (P)g.logpos(0.1, 5); g.note("function", f.kind); g.note("minimum", show(f.m)); g.note("q", f.q); g.note("start", show(c)); g.note("spread", spread);
	Vector<N> cv(n); put(cv, c); DownhillSimplex<N, P> d(f, cv, spread); LD first = f.value(c), low = f.c; int steps = 0, restarts = 0; P last = INFINITY;
	for (; restarts < 50; restarts++) { int k = 0; while (d.iterate(f)) { steps++; if (++k > 3000) FAIL("does not stop after 3000 steps"); } P now = d.get_values()[d.get_best()]; if (now > last) FAIL("restarting raised the best value from " << last << " to " << now); if (restarts > 2 && last - now <= 1e-12 * (first - low)) break; last = now; d.restart(f, (P)(spread * (restarts % 2 ? 0.5 : -0.3))); }
	LD got = d.get_values()[d.get_best()] - low; if (!(got <= 1e-6L * (first - low) + 100 * eps<P>() * (std::fabs(low) + n))) FAIL("best value " << got << " above the minimum after " << steps << " steps and " << restarts << " restarts, started " << first - low << " above it"); g.nontrivial(steps > 5);
}
PROP(simplex_static, 3) { switch (g.pick(4)) { case 0: history<1, double>(g, 1); break; case 1: history<2, double>(g, 2); break; case 2: history<3, double>(g, 3); break; case 3: history<5, double>(g, 5); break; } }
PROP(simplex_dynamic, 2) { history<-1, double>(g, g.size(1, 5, 12)); }
PROP(simplex_float, 1) { history<2, float>(g, 2); }
PROP(converge_static, 1) { switch (g.pick(3)) { case 0: converge<1, double>(g, 1); break; case 1: converge<2, double>(g, 2); break; case 2: converge<3, double>(g, 3); break; } }
PROP(converge_dynamic, 1) { converge<-1, double>(g, g.range(1, 4)); }
