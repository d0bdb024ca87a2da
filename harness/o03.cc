// O03: line searches
#include "num.h"
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/brent.h>
// unimodal functions of t = x - m with their minimum, c, at t = 0; flat(e) is how far from the minimum f can be told apart from c, at best, when values carry an error of e
struct Uni { int kind; LD m, k, k2, c; LD S = 1, F = 1, lo = -INFINITY, hi = INFINITY; // F times the function of x/S, and infinite outside lo to hi

	template<class P> P operator()(P x) const { if (!(x > lo && x < hi)) return std::numeric_limits<P>::infinity(); P t = (x - (P)(m * S)) / (P)S, v = 0, K = (P)k; switch (kind) { case 0: v = K * t * t; break; case 1: v = K * (t * t * t * t + t * t); break; case 2: v = t > 0 ? K * t : -(P)k2 * t; break; case 3: v = std::exp(K * t) - 1 - K * t; break; case 4: v = std::cosh(K * t) - 1; break; case 5: v = 1 - std::cos(K * t); break; case 6: v = K * t * t * std::sqrt(std::abs(t)); break; case 7: v = t > 0 ? K * t * t : (P)k2 * t * t; break; case 8: v = std::sqrt(1 + K * t * t) - 1; break; } return (v + (P)c) * (P)F; }
	LD flat(LD e) const { switch (kind) { case 0: return std::sqrt(e / k); case 1: return std::sqrt(e / k); case 2: return e / std::min(k, k2); case 3: case 4: case 5: return 2 * std::sqrt(e) / k; case 6: return std::pow(e / k, 0.4L); case 7: return std::sqrt(e / std::min(k, k2)); default: return 2 * std::sqrt(e / k); } }
	LD far() const { switch (kind) { case 3: case 4: return 5 / k; case 5: return 3.1L / k; default: return 1e30L; } }
	LD builtin() const { return kind == 3 || kind == 4 || kind == 5 || kind == 8 ? 1 : 0; } // intermediate values of this size
};
template<class P> void search(Gen& g) {
	Uni u; u.kind = g.range(0, 8); LD scale = g.pick(2) ? 1 : g.logpos(1e-2, 1e2); u.m = (P)(g.pick(3) == 0 ? g.small(3) : g.pick(2) ? g.uniform(-1, 1) : (g.flag() ? 1 : -1) * g.logpos(1e-2, 1e3)); u.k = (P)(g.pick(3) ? g.logpos(1e-2, 1e2) : 1); u.k2 = (P)g.logpos(1e-2, 1e2); u.c = (P)(g.pick(3) ? 0 : g.uniform(-2, 2));
	if (g.chance(20)) { int q = std::is_same_v<P, float> ? 8 : 60; u.S = std::ldexp(1.0L, (int)(3.3 * g.range(-q, q))); u.F = std::ldexp(1.0L, (int)(3.3 * g.range(-q, q))); g.tag("extreme scale"); g.note("S", u.S); g.note("F", u.F); }
	LD l = std::min(scale * g.logpos(1e-2, 10), u.far()), r = std::min(scale * g.logpos(1e-2, 10), u.far()); P a = (P)(u.m - l), c = (P)(u.m + r), b; int kb = g.pick(4);
	if (kb == 0) b = (P)u.m; else if (kb == 1) b = (a + c) / 2; else if (kb == 2) b = (P)(a + (c - a) * ((3 - std::sqrt(5.0L)) / 2)); else b = (P)(u.m + (g.flag() ? r : -l) * g.uniform(0, 0.9));
	a = (P)(a * u.S); b = (P)(b * u.S); c = (P)(c * u.S); if (g.chance(15)) { LD M = (P)(u.m * u.S); if (g.flag()) u.hi = (P)std::max<LD>(M, b) + (c - std::max<LD>(M, b)) * g.uniform(0.01, 1); if (g.flag() || !(u.hi < INFINITY)) u.lo = (P)std::min<LD>(M, b) - (std::min<LD>(M, b) - a) * g.uniform(0.01, 1); g.note("lo", u.lo); g.note("hi", u.hi); g.tag("infinite near the end"); }
	int evals = 0, limit; bool outside = false; if (!(a < b && b < c && u(b) < u(a) && u(b) < u(c))) { b = (P)(u.m * u.S); if (g.flag()) b = (P)((u.m + 1e-3L * r) * u.S); } auto f = [&](P x) { evals++; if (!(x >= a && x <= c)) outside = true; return u(x); }; P fb = u(b); if (!(a < b && b < c && u(a) > fb && fb < u(c))) g.discard();
	limit = g.pick(4) == 0 ? g.range(1, 30) : g.pick(3) == 0 ? 100 : 2000; int tk = g.pick(4); P tol = (P)(tk < 2 ? std::sqrt(std::numeric_limits<P>::epsilon()) : g.logpos(1e-6, 1e-1)), eps0 = std::numeric_limits<P>::epsilon(); bool dflt = tk == 0; P epsb = tk == 3 ? (P)(g.logpos(1e-8, 1e-2) * u.S) : eps0; bool brent = g.flag(); int form = g.pick(2);
	g.note("search", brent ? "brent" : "golden"); g.note("function", u.kind); g.note("minimum", u.m); g.note("k", u.k); g.note("k2", u.k2); g.note("c", u.c); g.note("a", a); g.note("b", b); g.note("c", c); g.note("limit", limit); g.note("tolerance", dflt ? -1 : tol); g.note("epsilon", epsb); g.tag(brent ? "brent" : "golden"); g.nontrivial(b != (P)(u.m * u.S));
	Vector<2, P> res; int extra = 0;
	if (brent) { if (tk == 3) res = brent_line_search(a, b, c, fb, f, limit, tol, epsb); else if (dflt) res = brent_line_search(a, b, c, fb, f, limit); else res = brent_line_search(a, b, c, fb, f, limit, tol); }
	else if (form) { if (dflt) res = golden_section_search(a, b, c, fb, f, limit); else res = golden_section_search(a, b, c, fb, f, limit, tol); }
	else { extra = 1; if (dflt) res = golden_section_search(a, b, c, f, limit); else res = golden_section_search(a, b, c, f, limit, tol); }
	P x = res[0], v = res[1]; if (outside) FAIL("evaluates the function outside the bracket"); if (!(x >= a && x <= c)) FAIL("returns " << x << ", which is outside the bracket"); if (v != u(x)) FAIL("returns the value " << v << " but the function there is " << u(x)); if (!(v <= fb)) FAIL("returns the value " << v << ", higher than " << fb << " at the middle of the bracket");
	if (evals > limit + extra) FAIL("evaluates the function " << evals << " times though limited to " << limit << " iterations"); bool full = evals - extra >= limit; g.tag("stopped by the limit", full);
	if (!full) { LD e = std::numeric_limits<P>::epsilon(), noise = u.flat(8 * e * (std::fabs(u.c) + u.builtin())) + 4 * e * std::fabs(u.m) + std::pow((LD)std::numeric_limits<P>::min() / std::min<LD>(u.F, 1), 0.4L), es = epsb / u.S; LD t = brent ? 2 * (std::fabs(u.m) * 2.5L * tol + es * 2) : 5 * std::fabs(u.m) * tol; LD ratio = brent ? 1 : (LD)std::min(b - a, c - b) / (c - a); /* golden section keeps the proportions of its bracket: the short part has to be told apart, too */ bool clear = (brent ? std::fabs(u.m) * tol + es : std::fabs(u.m) * tol * ratio) > 4 * noise; g.tag("tolerance coarser than the resolution of the function", clear); if (clear) CLOSE(x / u.S, u.m, t + 8 * noise, "position of the minimum after " << evals << " evaluations"); g.tag("converged"); }
	else if (limit >= 2000 && (brent || std::fabs(u.m) > 1e-6)) FAIL("did not converge in " << limit << " iterations");
}
PROP(line_search_double, 3) { search<double>(g); }
PROP(line_search_float, 1) { search<float>(g); }
PROP(line_search_long_double, 1) { search<long double>(g); }
