// N08: eigendecomposition of symmetric matrices
#include "num.h"
#include <TooN/SymEigen.h>
#ifndef PART
#define PART 0
#endif
const int EK_STATIC = MK_STATIC | MK_STATICCOL | MK_SSLICE | MK_T | MK_WRAP | MK_CONST | MK_SSLICECOL, EK_ALL = EK_STATIC | MK_DYN | MK_DSLICE | MK_DWRAP, EK_DYN = MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE | MK_DWRAP | MK_CONST;
inline RM spectrum(Gen& g, int n, const RV& w) { RM q = gen_orth(g, n); if (g.chance(30)) { RM p(n, n); std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i; for (int i = n - 1; i > 0; i--) std::swap(o[i], o[g.pick(i + 1)]); for (int i = 0; i < n; i++) p(i, o[i]) = 1; q = p; } return from_svd(q, w, q); }
inline RM gen_sym(Gen& g, int n, bool dbl) {
	static const char* nm[] = { "dense", "small integer", "diagonal", "zero", "multiple of the identity", "nearly a multiple of the identity", "repeated eigenvalues", "close eigenvalues", "graded eigenvalues", "rank deficient", "positive semidefinite", "nearly diagonal", "sparse", "block", "mixed spectrum", "tiny or huge" };
	int k = g.pick(16); g.tag(std::string("matrix ") + nm[k]); RM a = gen_dense(g, n, n); a = add(a, T(a)); RV w(n); int E = dbl ? 16 : 7;
	switch (k) {
		case 1: case 12: for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a(i, j) = a(j, i) = k == 12 && g.chance(65) ? 0 : g.small(4); break;
		case 2: a = RM(n, n); for (int i = 0; i < n; i++) a(i, i) = g.flag() ? g.small(3) : g.uniform(-5, 5); break;
		case 3: a = RM(n, n); if (g.flag()) a(g.pick(n), 0) = 0; break;
		case 4: a = scale(RM::eye(n), g.logmag(1e-3, 1e3)); break;
		case 5: { LD e = std::pow(10.L, -g.range(1, E + 2)); a = add(scale(RM::eye(n), g.chance(20) ? 0 : g.logmag(1e-1, 1e1)), scale(a, e)); break; }
		case 6: { LD x = g.uniform(-3, 3), y = g.uniform(-3, 3); for (auto& v : w) v = g.flag() ? x : g.flag() ? y : (LD)g.small(2); a = spectrum(g, n, w); break; }
		case 7: { LD x = g.flag() ? 1 : g.uniform(-3, 3); for (auto& v : w) v = x + (g.flag() ? 0 : g.flag() ? g.small(3) : g.small(5) * std::pow(10.L, -g.range(1, E))); a = spectrum(g, n, w); break; }
		case 8: for (auto& v : w) v = (g.flag() ? 1 : -1) * std::pow(10.L, -g.range(0, dbl ? 12 : 5)); a = spectrum(g, n, w); break;
		case 9: for (auto& v : w) v = g.chance(60) ? 0 : g.uniform(-3, 3); a = spectrum(g, n, w); break;
		case 10: { int q = g.range(1, n + 1); RM b(q, n); bool f = g.flag(); for (auto& v : b.a) v = f ? g.small(3) : g.uniform(-1, 1); a = mul(T(b), b); break; }
		case 11: { LD e = std::pow(10.L, -g.range(1, E + 4)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) a(i, j) *= e; if (g.flag()) for (int i = 0; i < n; i++) a(i, i) = g.small(2); break; }
		case 13: { int s = g.pick(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && (i == s || j == s)) a(i, j) = 0; break; }
		case 14: for (auto& v : w) v = g.logmag(1e-3, 1e3); a = spectrum(g, n, w); break;
		case 15: a = scale(a, g.logpos(dbl ? 1e-30 : 1e-8, dbl ? 1e30 : 1e8)); break;
		default: break;
	}
	if (g.chance(15)) { LD s = std::pow(10.L, g.small(dbl ? 12 : 4)); a = scale(a, s); }
	return a;
}
template<int N, class P, class D> void examine(Gen& g, D& d, const RM& a, const RV& ev) {
	int n = a.r; LD e = eps<P>(), mx = std::max(std::fabs(ev[0]), std::fabs(ev[n - 1])), t = 40 * (n + 2) * e, at = t * mx + std::numeric_limits<P>::min() * 100;
	const D& cd = d; RM E = g.flag() ? rm(d.get_evectors()) : rm(cd.get_evectors()); RV L = g.flag() ? rv(d.get_evalues()) : rv(cd.get_evalues());
	if (E.r != n || E.c != n || (int)L.size() != n) FAIL("results are " << E.r << "x" << E.c << " and " << L.size());
	for (int i = 0; i < n; i++) { if (i && !(L[i] >= L[i - 1])) FAIL("eigenvalues are not in ascending order: " << show(L)); CLOSE(L[i], ev[i], at, "eigenvalue " << i); }
	orthonormal_cols(T(E), t, "E"); same(from_svd(T(E), L, T(E)), a, 2 * at, "sum of the eigenvalues times the outer products of the rows of the eigenvector matrix");
	bool pos = true, neg = true; for (LD x : L) { pos = pos && x > 0; neg = neg && x < 0; } LD mn = mx; for (LD x : ev) mn = std::min(mn, std::fabs(x)); bool sure = mn > 2 * at;
	if (cd.is_posdef() != pos || cd.is_negdef() != neg) FAIL("definiteness reported as " << cd.is_posdef() << "/" << cd.is_negdef() << " for the eigenvalues " << show(L));
	g.tag(sure ? (ev[0] > 0 ? "positive definite" : ev[n - 1] < 0 ? "negative definite" : "indefinite") : "singular");
	{ LD p = 1, ps = 0, top = 1, low = 1; for (int i = 0; i < n; i++) { p *= ev[i]; top *= std::max((LD)1, std::fabs(ev[i]) + at); low *= std::min((LD)1, std::max(at, std::fabs(ev[i]))); LD q = at; for (int k = 0; k < n; k++) if (k != i) q *= std::fabs(ev[k]) + at; ps += q; } if (top < std::numeric_limits<P>::max() * 1e-3L && low > std::numeric_limits<P>::min() * 1e3L) CLOSE(cd.get_determinant(), p, 2 * ps + std::fabs(p) * t, "determinant"); }
	for (int rep = 0; rep < 2; rep++) {
		bool dflt = rep == 0; LD cond = dflt ? 1e9L : (LD)(double)g.logpos(2, sizeof(P) == 4 ? 1e5 : 1e12); g.note("condition", (double)cond); std::vector<int> keep(n); int kept = 0; bool clear = true; LD smin = mx;
		for (int i = 0; i < n; i++) { LD s = std::fabs(ev[i]), lo = s - 2 * at, hi = s + 2 * at; if (lo * cond > mx * (1 + 1e-6L)) { keep[i] = 1; kept++; smin = std::min(smin, std::fabs(L[i])); } else if (hi * cond < mx * (1 - 1e-6L) || mx == 0) ; else clear = false; }
		g.tag(clear ? "clear cut-off" : "eigenvalue at the cut-off"); if (!clear) continue; g.tag("truncated", kept < n); RV inv(n, 0); for (int i = 0; i < n; i++) if (keep[i]) inv[i] = 1 / L[i]; RM X = from_svd(T(E), inv, T(E)); if (!kept) smin = 1; LD xt = 20 * n * e / smin;
		if (xt * 1e6L > std::numeric_limits<P>::max()) continue;
		{ RV w = rv(cd.get_inv_diag((double)cond)); if ((int)w.size() != n) FAIL("size of get_inv_diag"); for (int i = 0; i < n; i++) CLOSE(w[i], inv[i], 8 * e * std::fabs(inv[i]), "get_inv_diag element " << i); }
		same(rm(dflt ? cd.get_pinv() : cd.get_pinv((double)cond)), X, xt, "get_pinv()");
		if (kept == n && mx / smin * e * n < 1e-3L) same(mul(X, a), RM::eye(n), 200 * n * n * e * mx / smin, "inverse times matrix");
		if (dflt) { // solving
			int k = g.size(1, 4, 40); RM b = roundto<P>(gen_rm(g, n, k, g.pick(2))); g.note("B", show(b)); RM Y = mul(X, b); LD yt = 20 * n * n * e / smin * maxabs(b) + std::numeric_limits<P>::min();
			if (g.flag()) { RV v(n); for (int i = 0; i < n; i++) v[i] = b(i, 0); with_vec<N, P, VK_ALL>(g, v, [&](auto& w) { auto x = cd.backsub(w); if (x.size() != n) FAIL("size of the solution"); for (int i = 0; i < n; i++) CLOSE(x[i], Y(i, 0), yt, "backsub(Vector) element " << i); same(rv(w), v, 0, "vector passed"); }); }
			else { Matrix<N, Dynamic, P> B(n, k); put(B, b); same(rm(cd.backsub(B)), Y, yt, "backsub(Matrix)"); }
		}
		// roots of matrices without negative eigenvalues
		if (L[0] < 0) continue;
		if (dflt) { RM R = rm(cd.get_sqrtm()); LD rt = 10 * t * std::sqrt(mx) + std::numeric_limits<P>::min(); same(mul(T(R), R), a, 2 * at + 2 * n * rt * std::sqrt(mx), "square of get_sqrtm()"); same(R, T(R), rt, "get_sqrtm() (symmetric)"); RV re; RM rq; jacobi(R, re, rq); for (LD x : re) if (x < -n * rt) FAIL("get_sqrtm() has the eigenvalue " << (double)x); g.tag("square root"); }
		{ bool ok = true; RV iq(n, 0); LD qm = 0; LD sm = std::sqrt(mx); for (int i = 0; i < n; i++) { LD lo = std::sqrt(std::max((LD)0, ev[i] - 2 * at)), hi = std::sqrt(std::max((LD)0, ev[i] + 2 * at)); if (lo * cond > sm * (1 + 1e-6L)) { iq[i] = 1 / std::sqrt(L[i]); qm = std::max(qm, iq[i]); } else if (hi * cond < sm * (1 - 1e-6L) || mx == 0) ; else ok = false; } g.tag("root cut-off", ok); if (ok) { RM Q = from_svd(T(E), iq, T(E)); same(rm(dflt ? cd.get_isqrtm() : cd.get_isqrtm((double)cond)), Q, 20 * n * e * qm, "get_isqrtm()"); } }
	}
}
template<int N, class P, int MASK> void sym_case(Gen& g, int n) {
	RM a = gen_sym(g, n, sizeof(P) == 8); a = roundto<P>(a); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(i, j) = a(j, i); if (sizeof(P) == 4) { LD x = maxabs(a); if (x > 1e5 || (x > 0 && x < 1e-5)) { a = roundto<P>(scale(a, 1 / x)); x = 1; } }
	{ a = roundto<P>(scale(a, extreme<P>(g))); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(i, j) = a(j, i); } g.note("A", show(a)); bool triv = n < 2; g.nontrivial(!triv && maxabs(a) > 0); RV ev; RM q; jacobi(a, ev, q); std::sort(ev.begin(), ev.end());
	with_mat<N, N, P, MASK>(g, a, [&](auto& x) {
		switch (g.pick(4)) {
			case 0: { SymEigen<N, P> d(n); Matrix<N, N, P> o(n, n); o = Identity; o[0] *= 5; d.compute(o); d.compute(x); examine<N, P>(g, d, a, ev); g.tag("object used again"); break; }
			case 1: { SymEigen<N, P> d(x); SymEigen<N, P> q(d); examine<N, P>(g, q, a, ev); examine<N, P>(g, d, a, ev); g.tag("copied object"); break; }
			case 2: if constexpr (N > 0) { SymEigen<N, P> d; d.compute(x); examine<N, P>(g, d, a, ev); break; } // fall through
			default: { SymEigen<N, P> d(x); examine<N, P>(g, d, a, ev); }
		}
		same(rm(x), a, 0, "matrix passed");
	});
}
#if PART == 0
PROP(sym_2, 3) { if (g.chance(25)) sym_case<2, float, EK_STATIC>(g, 2); else sym_case<2, double, EK_STATIC>(g, 2); }
#endif
#if PART == 1
PROP(sym_3, 5) { if (g.chance(25)) sym_case<3, float, EK_STATIC>(g, 3); else sym_case<3, double, EK_STATIC>(g, 3); }
#endif
#if PART == 2
PROP(sym_static, 2) { switch (g.pick(3)) { case 0: sym_case<1, double, EK_ALL>(g, 1); break; case 1: sym_case<4, double, EK_ALL>(g, 4); break; case 2: sym_case<6, double, EK_ALL>(g, 6); break; } }
#endif
#if PART == 3
PROP(sym_dynamic, 4) { int n = g.size(1, 10, 30); if (g.chance(20)) sym_case<Dynamic, float, EK_DYN>(g, n); else sym_case<Dynamic, double, EK_DYN>(g, n); }
#endif
