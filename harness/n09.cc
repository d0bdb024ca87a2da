// N09: matrix exponential, square root and logarithm
#include "num.h"
#include <TooN/helpers.h>
#include <TooN/gaussian_elimination.h>
#ifndef PART
#define PART 0
#endif
const int XK_STATIC = MK_STATIC | MK_STATICCOL | MK_SSLICE | MK_T | MK_WRAP, XK_DYN = MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE | MK_DWRAP;
template<int N> constexpr int kinds() { return N > 0 ? XK_STATIC | XK_DYN : XK_DYN; }
// exponential and the size of the rounding error of scaling and squaring
inline RM exp_ref(const RM& b, LD e, LD& tol) {
	int n = b.r; LD nm = norminf(b); int s = nm > 1 ? (int)std::ceil(std::log2((double)nm)) + 1 : 0; RM r = expm(scale(b, std::pow(2.L, -s))); LD m = norminf(r), err = (n + 10) * e * m;
	for (int i = 0; i < s; i++) { err = 2 * m * err + (n + 2) * e * m * m; r = mul(r, r); m = norminf(r); }
	tol = 10 * err; return expm(b);
}
inline RM gen_exponent(Gen& g, int n, LD lo, LD hi) {
	static const char* nm[] = { "dense", "symmetric", "skew", "nilpotent", "diagonal", "small integer", "rank one", "sparse", "negative definite", "block rotation", "zero", "upper triangular" };
	int k = g.pick(12); g.tag(std::string("exponent ") + nm[k]); RM a(n, n); for (auto& x : a.a) x = g.uniform(-1, 1);
	switch (k) {
		case 1: a = add(a, T(a)); break;
		case 2: a = add(a, T(a), -1); break;
		case 3: for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a(i, j) = 0; if (g.flag()) { RM q = gen_orth(g, n); a = mul(q, mul(a, T(q))); } break;
		case 4: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) a(i, j) = 0; break;
		case 5: for (auto& x : a.a) x = g.small(2); break;
		case 6: { RM u = gen_dense(g, n, 1), v = gen_dense(g, 1, n); a = mul(u, v); break; }
		case 7: for (auto& x : a.a) if (g.chance(60)) x = 0; break;
		case 8: a = scale(mul(T(a), a), -1); break;
		case 9: a = RM(n, n); for (int i = 0; i + 1 < n; i += 2) { LD t = g.uniform(-3, 3); a(i, i + 1) = -t; a(i + 1, i) = t; } break;
		case 10: a = RM(n, n); break;
		case 11: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(i, j) = 0; break;
		default: break;
	}
	LD m = norminf(a); if (m > 0 && !(k == 5 && m <= hi && g.flag())) a = scale(a, g.logpos(lo, hi) / m); return a;
}
template<int N, class P> void exp_case(Gen& g, int n) {
	RM b = roundto<P>(gen_exponent(g, n, 1e-6, sizeof(P) == 4 ? 15 : 30)); g.note("B", show(b)); g.nontrivial(n > 1 && norminf(b) > 0); LD nm = norminf(b); g.tag(nm <= 1 ? "norm up to 1" : nm <= 8 ? "norm 1 to 8" : "norm above 8"); g.tag("norm at a power of two", nm > 1 && std::log2(nm) == std::floor(std::log2(nm)));
	LD e = eps<P>(), tol, tn; RM x = exp_ref(b, e, tol); RM y = exp_ref(scale(b, -1), e, tn);
	with_mat<N, N, P, kinds<N>()>(g, b, [&](auto& m) { auto r = exp(m); if (r.num_rows() != n || r.num_cols() != n) FAIL("size of the result"); same(rm(r), x, tol, "exp(B)"); same(rm(m), b, 0, "matrix passed"); });
	if (g.chance(40)) { // commuting exponents: B and a polynomial of B
		LD p = g.uniform(-1, 1), q = g.chance(50) ? 0 : g.uniform(-1, 1) / std::max((LD)1, nm); RM c = roundto<P>(scale(b, p)); if (q != 0) c = add(c, scale(mul(b, b), q)); c = roundto<P>(c); if (norminf(c) > 30 || norminf(add(b, c)) > 30) return; Matrix<N, N, P> B(n, n), Cm(n, n); put(B, b); put(Cm, c); g.note("C", show(c)); LD tc, ts; RM xc = exp_ref(c, e, tc); RM xs = exp_ref(add(b, c), e, ts); LD extra = 4 * n * e * (nm * norminf(c) + nm + norminf(c)) * norminf(x) * norminf(xc); same(rm(Matrix<N, N, P>(exp(B) * exp(Cm))), rm(Matrix<N, N, P>(exp(Matrix<N, N, P>(B + Cm)))), tol * norminf(xc) + tc * norminf(x) + tol * tc + ts + extra, "exp(B) exp(C) for commuting B and C, against exp(B + C)"); g.tag("commuting exponents");
	}
	else if (g.chance(40)) { Matrix<N, N, P> B(n, n); put(B, b); same(rm(Matrix<N, N, P>(exp(B) * exp(Matrix<N, N, P>(-1 * B)))), RM::eye(n), tol * norminf(y) + tn * norminf(x) + tol * tn + 2 * n * e * norminf(x) * norminf(y), "exp(B) exp(-B)"); g.tag("inverse"); }
}
// exponents of large norm whose exponential is known: diagonal and rotation blocks
template<int N, class P> void large_case(Gen& g, int n) {
	RM b(n, n), x = RM::eye(n), t(n, n); LD e = eps<P>(), top = sizeof(P) == 4 ? 15 : 30, c = 0; g.tag("large exponent"); g.nontrivial(true);
	for (int i = 0; i < n; i++) { if (i + 1 < n && g.flag()) { LD a = (P)g.logmag(1, sizeof(P) == 4 ? 1e3 : 1e8); b(i, i + 1) = -a; b(i + 1, i) = a; x(i, i) = x(i + 1, i + 1) = std::cos(a); x(i + 1, i) = std::sin(a); x(i, i + 1) = -x(i + 1, i); c = std::max(c, std::fabs(a)); i++; } else { LD d = g.chance(10) ? 0 : g.flag() ? (P)-g.logpos(1, sizeof(P) == 4 ? 1e4 : 1e12) : (P)g.uniform(0, top); b(i, i) = d; x(i, i) = std::exp(d); } }
	g.note("B", show(b)); LD nm = norminf(b); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD m = std::fabs(x(i, i)); for (int k = 0; k < n; k++) m = std::max(m, std::fabs(x(i, k))); t(i, j) = m * std::expm1(20 * e * (nm + 10)); }
	with_mat<N, N, P, kinds<N>()>(g, b, [&](auto& m) { RM r = rm(exp(m)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CLOSE(r(i, j), x(i, j), t(i, j) + std::numeric_limits<P>::min(), "element " << i << "," << j << " of exp(B)"); });
}
// matrices with a known principal logarithm
template<int N, class P> void log_case(Gen& g, int n) {
	bool spd = g.chance(30); RM a, b, h; LD e = eps<P>();
	if (spd) { RV w(n), lw(n), hw(n); LD x = g.logpos(1, sizeof(P) == 4 ? 100 : 1e10), sc = g.flag() ? 1 : g.logpos(1e-5, 1e5); for (int i = 0; i < n; i++) w[i] = sc * (g.flag() ? g.flag() ? 1 : x : g.logpos(1, x + 1)); RM q = g.chance(25) ? RM::eye(n) : gen_orth(g, n); a = roundto<P>(from_svd(q, w, q)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(i, j) = a(j, i); RV ev; RM vec; jacobi(a, ev, vec); bool pd = true; for (int i = 0; i < n; i++) { pd = pd && ev[i] > 0; lw[i] = std::log(ev[i]); hw[i] = std::sqrt(ev[i]); } if (!pd) { g.discard(); } b = from_svd(T(vec), lw, T(vec)); h = from_svd(T(vec), hw, T(vec)); g.tag("positive definite"); }
	else { b = gen_exponent(g, n, 1e-6, 2.5); a = roundto<P>(expm(b)); h = expm(scale(b, 0.5)); }
	g.note("A", show(a)); g.nontrivial(n > 1 && maxabs(add(a, RM::eye(n), -1)) > 0); LD na = norminf(a), ni = norminf(inv(a)), kappa = na * ni; g.tag(kappa < 10 ? "condition up to 10" : kappa < 1e3 ? "condition 10 to 1000" : "condition above 1000");
	LD u = 100 * n * n * e * kappa, hn = norminf(h);
	with_mat<N, N, P, kinds<N>()>(g, a, [&](auto& m) {
		if (g.flag()) { auto r = sqrt(m); RM s = rm(r); same(mul(s, s), a, 2 * u * hn * hn, "square of sqrt(A)"); same(s, h, u * hn, "sqrt(A), the principal root"); g.tag("square root"); }
		else { auto r = log(m); RM s = rm(r); LD bt = u * (4 + norminf(b)); same(s, b, bt, "log(A)"); LD tol; exp_ref(roundto<P>(b), e, tol); same(rm(exp(r)), a, tol + 2 * bt * na, "exp(log(A))"); g.tag("logarithm"); }
		same(rm(m), a, 0, "matrix passed");
	});
}
#if PART == 0
PROP(exp_large, 1) { switch (g.pick(3)) { case 0: large_case<3, double>(g, 3); break; case 1: large_case<2, float>(g, 2); break; case 2: large_case<Dynamic, double>(g, g.range(1, 5)); break; } }
PROP(exp_static, 3) { switch (g.pick(5)) { case 0: exp_case<1, double>(g, 1); break; case 1: exp_case<2, double>(g, 2); break; case 2: exp_case<3, double>(g, 3); break; case 3: exp_case<4, double>(g, 4); break; case 4: exp_case<3, float>(g, 3); break; } }
#endif
#if PART == 1
PROP(exp_dynamic, 3) { int n = g.size(1, 6, 12); if (g.chance(20)) exp_case<Dynamic, float>(g, n); else exp_case<Dynamic, double>(g, n); }
#endif
#if PART == 2
PROP(log_static, 3) { switch (g.pick(5)) { case 0: log_case<1, double>(g, 1); break; case 1: log_case<2, double>(g, 2); break; case 2: log_case<3, double>(g, 3); break; case 3: log_case<5, double>(g, 5); break; case 4: log_case<3, float>(g, 3); break; } }
#endif
#if PART == 3
PROP(log_dynamic, 3) { int n = g.size(1, 6, 12); if (g.chance(20)) log_case<Dynamic, float>(g, n); else log_case<Dynamic, double>(g, n); }
#endif
