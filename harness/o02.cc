// O02: nonlinear conjugate gradients
#include "num.h"
#include <TooN/TooN.h>
#include <TooN/optimization/conjugate_gradient.h>
// smooth functions with gradients: 0 quadratic, 1 quartic, 2 sum of cosh, 3 chained Rosenbrock, 4 barrier (not a number where a coordinate is not positive), 5 log-sum
struct Obj {
	int n, kind; RM q; RV m; double c; LD S = 1, F = 1; LD wall = INFINITY; bool inf = false; // F times the function of x/S; infinite rather than not a number where it is not defined
	template<class P> P lin(int i, const std::vector<P>& x) const { P t = 0; for (int j = 0; j < n; j++) t += (P)q(i, j) * (x[j] - (P)m[j]); return t; }
	template<class P> P value(std::vector<P> x) const { for (auto& t : x) t /= (P)S; P v = x[0] < (P)wall ? (P)F * base(x) : std::numeric_limits<P>::quiet_NaN(); return inf && v != v ? std::numeric_limits<P>::infinity() : v; }
	template<class P> P base(const std::vector<P>& x) const { P s = 0; if (kind == 3) { for (int i = 0; i + 1 < n; i++) { P a = 1 - x[i], b = x[i + 1] - x[i] * x[i]; s += a * a + 10 * b * b; } if (n == 1) s = (x[0] - 1) * (x[0] - 1); return s + (P)c; } for (int i = 0; i < n; i++) { P t = lin<P>(i, x); switch (kind) { case 0: s += t * t; break; case 1: s += t * t + t * t * t * t; break; case 2: s += std::cosh(t) - 1; break; case 4: s += x[i] - (P)m[i] * std::log(x[i]); break; case 5: s += std::log(1 + t * t); break; } } return s + (P)c; }
	template<class P> std::vector<P> grad(std::vector<P> x) const { for (auto& t : x) t /= (P)S; x = gbase(x); for (auto& t : x) t *= (P)(F / S); return x; }
	template<class P> std::vector<P> gbase(const std::vector<P>& x) const { std::vector<P> g(n); if (kind == 3) { for (int i = 0; i + 1 < n; i++) { P a = 1 - x[i], b = x[i + 1] - x[i] * x[i]; g[i] += -2 * a - 40 * b * x[i]; g[i + 1] += 20 * b; } if (n == 1) g[0] = 2 * (x[0] - 1); return g; } for (int i = 0; i < n; i++) { if (kind == 4) { g[i] = 1 - (P)m[i] / x[i]; continue; } P t = lin<P>(i, x), d = kind == 0 ? 2 * t : kind == 1 ? 2 * t + 4 * t * t * t : kind == 2 ? std::sinh(t) : 2 * t / (1 + t * t); for (int j = 0; j < n; j++) g[j] += d * (P)q(i, j); } return g; }
};
template<class P, class V> std::vector<P> sv(const V& v) { std::vector<P> r(v.size()); for (int i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
template<int N, class P> struct CG {
	typedef ConjugateGradient<N, P> C;
	static Obj gen(Gen& g, int n) {
		Obj f; f.n = n; f.kind = g.range(0, 5); f.m = RV(n); for (auto& x : f.m) x = f.kind == 4 ? (LD)(P)g.logpos(0.1, 10) : g.pick(2) ? g.small(3) : (LD)(P)g.uniform(-3, 3); f.c = g.pick(3) ? 0 : g.small(5); f.q = RM(n, n); RM a = gen_orth(g, n); for (int i = 0; i < n; i++) { LD s = g.pick(3) ? g.logpos(0.3, 3) : 1; for (int j = 0; j < n; j++) f.q(i, j) = (P)(a(i, j) * s); } return f;
	}
	static void run(Gen& g, int n) {
		Obj f = gen(g, n); RV start(n); int sk = g.pick(4); for (int i = 0; i < n; i++) start[i] = (P)(sk == 0 ? g.small(4) : sk == 1 ? f.m[i] + (LD)g.small(2) / 2 : g.uniform(-4, 4)); if (f.kind == 4) for (auto& x : start) x = (P)(std::fabs(x) + 0.01L); if (sk == 3 && g.chance(30)) for (int i = 0; i < n; i++) start[i] = f.m[i];
		if (g.chance(15)) { f.wall = std::max<LD>(start[0], -1e30) + g.logpos(1e-3, 3); g.note("wall", f.wall); g.tag("not defined beyond a wall"); }
		if ((f.kind == 4 || f.wall < INFINITY) && g.flag()) { f.inf = true; g.tag("infinite where it is not defined"); } if (g.chance(15)) { bool fl = std::is_same_v<P, float>; f.S = std::ldexp(1.0L, (int)(3.3 * (fl ? g.range(-2, 2) : g.range(-20, 20)))); f.F = f.S * f.S * std::ldexp(1.0L, (int)(3.3 * (fl ? g.range(-3, 3) : g.range(-30, 8)))); for (auto& x : start) x = (P)(x * f.S); g.note("S", f.S); g.note("F", f.F); g.tag("extreme scale"); }
		g.note("function", f.kind); g.note("minimum", show(f.m)); g.note("q", f.q); g.note("c", f.c); g.note("start", show(start)); auto fn = [&](const auto& v) -> P { return f.value(sv<P>(v)); }; auto df = [&](const auto& v) { auto r = f.grad(sv<P>(v)); Vector<N, P> o((int)r.size()); for (int i = 0; i < n; i++) o[i] = r[i]; return o; };
		Vector<N, P> s(n); put(s, start); bool given = g.flag(); Vector<N, P> d0 = df(s); C c = given ? C(s, fn, d0) : C(s, fn, df); P y0 = fn(s); LD e = eps<P>(); if (c.y != y0 || rv(c.x) != start || rv(c.g) != rv(d0) || rv(c.h) != rv(d0) || c.iterations != 0 || c.max_iterations != 100 * n || c.size != n) FAIL("state after construction");
		if (g.chance(20)) c.max_iterations = g.range(0, 6); bool tuned = g.chance(20) || f.F / (f.S * f.S) < (std::is_same_v<P, float> ? 0.3L : 1e-3L) /* the first step would not change the value */; if (tuned) { c.bracket_initial_lambda = (P)(g.logpos(1e-4, 1e2) * f.S * f.S / f.F); g.note("lambda", c.bracket_initial_lambda); } g.note("max_iterations", c.max_iterations); bool more = true; int k = 0; LD best = y0; (void)best;
		while (more) {
			RV ox = rv(c.x), oh = rv(c.h), og = rv(c.g); P oy = c.y; int it = c.iterations; more = c.iterate(fn, df); k++; 
			if (!(c.y <= oy)) FAIL("iteration " << k << " raised the objective from " << oy << " to " << c.y); if (c.old_y != oy || rv(c.old_x) != ox) FAIL("iteration " << k << ": old_x and old_y are not the previous point and value"); if (c.iterations != it + 1) FAIL("iteration " << k << " is counted as " << c.iterations);
			P fy = f.value(sv<P>(c.x)); std::vector<LD> xl(n); for (int i = 0; i < n; i++) xl[i] = c.x[i]; LD gn = 0; auto gx = f.grad(xl); LD xn = 0; for (int i = 0; i < n; i++) { gn += std::fabs(gx[i]) * (std::fabs(c.x[i]) + std::fabs(ox[i])); xn += std::fabs(c.x[i]); } CLOSE(c.y, fy, 16 * e * (gn + std::fabs(fy)), "iteration " << k << ": value and function at " << c.x);
			LD dd = 0, dh = 0, hh = 0; for (int i = 0; i < n; i++) { LD d = c.x[i] - ox[i]; dd += d * d; dh += d * oh[i]; hh += oh[i] * oh[i]; } if (dd > 0) { if (dh > 0) FAIL("iteration " << k << " moved uphill along h"); LD t = dh / hh; for (int i = 0; i < n; i++) CLOSE(c.x[i] - ox[i], t * oh[i], 16 * e * (std::fabs(c.x[i]) + std::fabs(ox[i]) + xn), "iteration " << k << ": the step is not along h"); }
			if (f.kind < 3 && f.wall == INFINITY && !std::is_same_v<P, float> && oy - c.y >= 1e-6L * (f.F + std::fabs(oy) + std::fabs(f.F * f.c))) { LD s0 = 0, s1 = 0; for (int i = 0; i < n; i++) s0 += og[i] * oh[i], s1 += gx[i] * oh[i]; CLOSE(s1, 0, 1e-2L * std::fabs(s0), "iteration " << k << ": slope left along h, which was " << s0); g.tag("line minimum checked"); }
			LD lim = c.tolerance * (std::fabs(c.y) + std::fabs(oy) + c.epsilon), diff = 2 * std::fabs(c.y - oy); bool stop = c.iterations >= c.max_iterations || diff <= lim; bool edge = c.iterations < c.max_iterations && std::fabs(diff - lim) <= 8 * e * (std::fabs(c.y) + std::fabs(oy)); if (!edge && more == stop) FAIL("iterate returned " << more << " after iteration " << c.iterations << " of " << c.max_iterations << ", value " << c.y << " after " << oy);
			if (c.finished() == more) FAIL("finished returns " << !more << " when iterate returned " << more);
			if (more) { auto ng = f.grad(sv<P>(c.x)); LD num = 0, den = 0, mag = 0; for (int i = 0; i < n; i++) { if (c.g[i] != ng[i]) FAIL("gradient after iteration " << k); num += (LD)ng[i] * ng[i] - (LD)og[i] * ng[i]; mag += (LD)ng[i] * ng[i] + std::fabs((LD)og[i] * ng[i]); den += og[i] * og[i]; } LD ga = num / den; for (int i = 0; i < n; i++) CLOSE(c.h[i], ng[i] + ga * oh[i], 16 * e * n * (std::fabs(ng[i]) + mag / den * std::fabs(oh[i])) + std::numeric_limits<P>::min(), "conjugate direction after iteration " << k << ", coordinate " << i); if (rv(c.old_g) != og || rv(c.old_h) != oh) FAIL("old_g and old_h after iteration " << k); for (int i = 0; i < n; i++) if (c.minus_h[i] != -c.h[i]) FAIL("minus_h after iteration " << k); }
			if (k > c.max_iterations + 1) FAIL("goes on beyond the maximum number of iterations");
		}
		g.tag("iterations more than 3", k > 3); g.nontrivial(k > 1);
		if (c.max_iterations > 6 && !tuned && f.kind < 3 && f.wall == INFINITY) { std::vector<LD> mm(n); for (int i = 0; i < n; i++) mm[i] = f.m[i] * f.S; LD low = f.value(mm), first = f.value(std::vector<LD>(start.begin(), start.end())); LD got = f.value(std::vector<LD>([&] { std::vector<LD> z(n); for (int i = 0; i < n; i++) z[i] = c.x[i]; return z; }())); LD lim = (std::is_same_v<P, float> ? 1e-3L : 1e-6L) * (first - low) + 50 * c.tolerance * (std::fabs(low) + 1e-3L * f.F + c.epsilon); if (!(got - low <= lim)) FAIL("stopped " << got - low << " above the minimum after " << c.iterations << " iterations, started " << first - low << " above it"); g.tag("converged"); }
	}
	static RM gen_orth(Gen& g, int n) { RM a = RM::eye(n); int k = g.range(0, 2 * n); for (int t = 0; t < k && n > 1; t++) { int i = g.range(0, n - 1), j = g.range(0, n - 2); if (j >= i) j++; LD th = g.uniform(-3, 3), co = std::cos(th), si = std::sin(th); for (int q = 0; q < n; q++) { LD u = a(i, q), v = a(j, q); a(i, q) = co * u - si * v; a(j, q) = si * u + co * v; } } return a; }
};
#ifndef NOFLOAT
PROP(cg_float, 1) { if (g.flag()) CG<2, float>::run(g, 2); else CG<Dynamic, float>::run(g, g.range(1, 4)); }
#endif
PROP(cg_static, 2) { switch (g.pick(3)) { case 0: CG<1, double>::run(g, 1); break; case 1: CG<2, double>::run(g, 2); break; case 2: CG<4, double>::run(g, 4); break; } }
PROP(cg_dynamic, 2) { CG<Dynamic, double>::run(g, g.size(1, 8, 20)); }
