// F01: numerical derivatives
#include "num.h"
#include <TooN/functions/derivatives.h>
// a smooth function of n variables with known derivatives: sum of terms of four shapes
struct Term { int kind; LD c; std::vector<int> p; RV a; LD b; };
struct Fn {
	int n; std::vector<Term> t;
	template<class V> auto operator()(const V& x) const -> std::decay_t<decltype(x[0])> { typedef std::decay_t<decltype(x[0])> P; P s = 0; for (auto& q : t) s += value<P>(q, x); return s; }
	template<class P, class V> static P lin(const Term& q, const V& x) { P s = (P)q.b; for (size_t i = 0; i < q.a.size(); i++) s += (P)q.a[i] * x[i]; return s; }
	template<class P, class V> static P value(const Term& q, const V& x) {
		if (q.kind == 0) { P m = (P)q.c; for (size_t i = 0; i < q.p.size(); i++) for (int k = 0; k < q.p[i]; k++) m *= x[i]; return m; }
		P u = lin<P>(q, x); return q.kind == 1 ? (P)q.c * std::exp(u) : q.kind == 2 ? (P)q.c * std::sin(u) : (P)q.c / (1 + u * u);
	}
	// value of the d-th derivative of the outer function
	static LD outer(const Term& q, LD u, int d) { if (q.kind == 1) return q.c * std::exp(u); if (q.kind == 2) return q.c * (d == 0 ? std::sin(u) : d == 1 ? std::cos(u) : -std::sin(u)); LD w = 1 + u * u; return d == 0 ? q.c / w : d == 1 ? -2 * u * q.c / (w * w) : q.c * (6 * u * u - 2) / (w * w * w); }
	static LD mono(const Term& q, const RV& x, std::vector<int> d) { LD m = q.c; for (size_t i = 0; i < q.p.size(); i++) { int e = q.p[i]; for (int k = 0; k < d[i]; k++) m *= e--; if (m == 0) return 0; for (int k = 0; k < e; k++) m *= x[i]; } return m; }
	LD d1(const RV& x, int i) const { LD s = 0; for (auto& q : t) if (q.kind == 0) { std::vector<int> d(n); d[i]++; s += mono(q, x, d); } else s += outer(q, lin<LD>(q, x), 1) * q.a[i]; return s; }
	LD d2(const RV& x, int i, int j) const { LD s = 0; for (auto& q : t) if (q.kind == 0) { std::vector<int> d(n); d[i]++; d[j]++; s += mono(q, x, d); } else s += outer(q, lin<LD>(q, x), 2) * q.a[i] * q.a[j]; return s; }
	// size of what is summed up, with the rounding of the arguments
	LD mag(const RV& x) const { LD s = 0; for (auto& q : t) if (q.kind == 0) { LD m = std::fabs(q.c); for (int i = 0; i < n; i++) for (int k = 0; k < q.p[i]; k++) m *= std::max<LD>(std::fabs(x[i]), 1) * 1.1L; s += 4 * m; } else { LD u = lin<LD>(q, x), au = std::fabs(q.b), step = 0; for (int i = 0; i < n; i++) { au += std::fabs(q.a[i] * x[i]); step += std::fabs(q.a[i]) * std::max<LD>(std::fabs(x[i]), 1) * 1e-3L; } s += std::fabs(q.kind == 1 ? q.c * std::exp(u + step) : q.c) * (2 + au); } return s; }
	friend std::ostream& operator<<(std::ostream& o, const Fn& f) { for (auto& q : f.t) { o << (&q == &f.t[0] ? "" : " + ") << q.c; if (q.kind == 0) { for (int i = 0; i < f.n; i++) if (q.p[i]) o << "*x" << i << "^" << q.p[i]; } else { o << (q.kind == 1 ? "*exp(" : q.kind == 2 ? "*sin(" : "/(1+sq(") << q.b; for (int i = 0; i < f.n; i++) if (q.a[i] != 0) o << "+" << q.a[i] << "*x" << i; o << (q.kind == 3 ? "))" : ")"); } } return o; }
};
template<class P> Fn gen_fn(Gen& g, int n, const RV& x) {
	Fn f; f.n = n; int k = g.range(1, 4); LD s = std::max<LD>(1, maxabs(x));
	for (int i = 0; i < k; i++) { Term q; q.kind = g.pick(4); q.c = (P)(g.pick(3) ? g.small(4) : g.uniform(-10, 10)); q.b = (P)g.uniform(-1, 1); q.p.assign(n, 0); q.a.assign(n, 0);
		if (q.kind == 0) { int d = g.range(0, 4); for (int j = 0; j < d; j++) q.p[g.range(0, n - 1)]++; }
		else for (int j = 0; j < n; j++) if (g.pick(4)) { q.a[j] = (P)(g.pick(3) ? g.small(2) : g.uniform(-2, 2)); q.a[j] = (P)(q.a[j] / s); } // varies on the scale of its largest variable, as the step sizes do
		f.t.push_back(q); }
	return f;
}
template<class P> RV gen_point(Gen& g, int n) { RV x(n); int k = g.pick(4); double s = k == 3 ? g.logpos(10, 1e7) : 0; for (auto& v : x) v = (P)(k == 0 ? g.small(5) : k == 1 ? g.uniform(-3, 3) : (g.flag() ? 1 : -1) * (k == 2 ? g.logpos(1e-3, 100) : s * g.uniform(0.2, 1))); return x; }

static LD K1 = 1e6, K2 = 1e6, EDGE = 1e-2L, EDGE2 = 5e-2L;
template<int N, class P> void derive(Gen& g, int n) {
	RV x = gen_point<P>(g, n); Fn f = gen_fn<P>(g, n, x); g.note("f", f); g.note("x", show(x)); LD m = f.mag(x) * eps<P>();
	with_vec<N, P, N < 0 ? VK_DYN | VK_DSLICE | VK_CONST : VK_STATIC | VK_SSLICE | VK_CONST | VK_COL>(g, x, [&](auto& v) {
		bool nz = false; RV gr = rv(numerical_gradient(f, v)); RM ge = rm(numerical_gradient_with_errors(f, v)); if ((int)gr.size() != n || ge.r != n || ge.c != 2) FAIL("size of the gradient");
		for (int i = 0; i < n; i++) { LD s = std::max<LD>(1, std::fabs(x[i])), d = f.d1(x, i), lim = m * 1e3L / s; nz = nz || d != 0; double r = std::fabs(gr[i] - d) / lim;  r = std::fabs(gr[i] - d) / (ge(i, 1) + lim ); 
			CLOSE(gr[i], d, K1 * lim, "derivative with respect to variable " << i); if (ge(i, 0) != gr[i]) FAIL("gradient with errors differs from the gradient: " << ge << " against " << show(gr)); if (!(ge(i, 1) >= 0) || !(std::fabs(gr[i] - d) <= 1e5L * (ge(i, 1) + lim))) FAIL("error estimate " << ge(i, 1) << " of " << gr[i] << ", which should be " << d); }
		if (std::is_same_v<P, float>) { g.nontrivial(nz); return; }
		RM h = rm(numerical_hessian(f, v)); auto he = numerical_hessian_with_errors(f, v); RM h1 = rm(he.first), he1 = rm(he.second); if (h.r != n || h.c != n) FAIL("size of the Hessian");
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD s = std::max<LD>(1, std::fabs(x[std::min(i, j)])), d = f.d2(x, i, j), lim = m * 1e6L / (s * s); nz = nz || d != 0; double r = std::fabs(h(i, j) - d) / lim; int o = i == j ? 2 : 4;  r = std::fabs(h(i, j) - d) / (he1(i, j) + lim ); 
			CLOSE(h(i, j), d, K2 * lim, "second derivative with respect to variables " << i << " and " << j); if (h1(i, j) != h(i, j)) FAIL("Hessian with errors differs from the Hessian: " << h1 << " against " << h); if (!(he1(i, j) >= 0) || !(std::fabs(h(i, j) - d) <= 1e5L * (he1(i, j) + lim))) FAIL("error estimate " << he1(i, j) << " of " << h(i, j) << ", which should be " << d); if (h(i, j) != h(j, i)) FAIL("Hessian not symmetric: " << h); }
		g.nontrivial(nz); g.tag("three or more variables", n > 2);
	});
}
PROP(derivatives_static, 2) { switch (g.pick(3)) { case 0: derive<1, double>(g, 1); break; case 1: derive<2, double>(g, 2); break; case 2: derive<3, double>(g, 3); break; } }
PROP(derivatives_dynamic, 2) { derive<Dynamic, double>(g, g.range(1, 6)); }
// a function that is not defined beyond a plane close by: the first steps fall off its edge
template<int N, class P> void edge(Gen& g, int n) {
	int kind = g.pick(3); RV x(n), a(n); for (auto& v : x) v = (P)(g.pick(3) == 0 ? g.small(2) : g.uniform(-2, 2)); for (auto& v : a) v = (P)(g.pick(4) ? g.uniform(-2, 2) : 0); int lead = g.pick(n); a[lead] = g.flag() ? 1 : -1; P c = (P)g.uniform(0.5, 3), d = (P)g.logpos(1e-5, 1); 
	g.note("kind", kind); g.note("x", show(x)); g.note("a", show(a)); g.note("c", c); g.note("distance", d); g.tag("edge closer than the first step", d < 1e-3); Vector<N, P> v(n); put(v, x); 
	auto f = [&](const auto& y) -> P { P t = d; for (int i = 0; i < n; i++) t += (P)a[i] * (y[i] - (P)x[i]); return kind == 0 ? c * std::log(t) : kind == 1 ? c * std::sqrt(t) : c * t * std::log(t); };
	LD l = std::log((LD)d), d1 = kind == 0 ? c / (LD)d : kind == 1 ? c / 2 / std::sqrt((LD)d) : c * (l + 1), m1 = kind == 2 ? c * (1 + std::fabs(l)) : d1, d2 = kind == 0 ? -c / ((LD)d * d) : kind == 1 ? -c / 4 / ((LD)d * std::sqrt((LD)d)) : c / (LD)d;
	RV gr = rv(numerical_gradient(f, v)); RM ge = rm(numerical_gradient_with_errors(f, v)), h = rm(numerical_hessian(f, v)); auto he = numerical_hessian_with_errors(f, v); if (rm(he.first).a != h.a) FAIL("Hessian with errors differs from the Hessian"); LD am = maxabs(RM(1, 1)); for (auto t : a) am = std::max(am, std::fabs(t));
	for (int i = 0; i < n; i++) { CLOSE(gr[i], d1 * a[i], EDGE * m1 * am, "derivative with respect to variable " << i); if (ge(i, 0) != gr[i]) FAIL("gradient with errors differs from the gradient"); for (int j = 0; j < n; j++) CLOSE(h(i, j), d2 * a[i] * a[j], EDGE2 * std::fabs(d2) * am * am, "second derivative with respect to variables " << i << " and " << j); }
	g.nontrivial();
}
PROP(derivatives_near_edge, 1) { switch (g.pick(3)) { case 0: edge<1, double>(g, 1); break; case 1: edge<2, double>(g, 2); break; case 2: edge<Dynamic, double>(g, g.range(1, 5)); break; } }
