// N06: SVD (LAPACK)
#include "num.h"
#include <TooN/SVD.h>
#ifndef PART
#define PART 0
#endif
template<int R, int C> constexpr int mats() { return R > 0 && C > 0 ? (MK_STATIC | MK_STATICCOL | MK_DYN | MK_SSLICE | MK_T | MK_CONST) : (MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE | MK_DWRAP | MK_CONST); }
template<int R, int C, class P, class S> void examine(Gen& g, S& d, const RM& a, const RV& sv) {
	LD e = eps<P>(), s0 = sv[0]; int r = a.r, c = a.c, m = std::min(r, c), M = std::max(r, c); LD t = 30 * (M + 2) * e, at = t * s0 + std::numeric_limits<P>::min() * 100;
	RM U = rm(d.get_U()), V = rm(d.get_VT()); RV D = rv(d.get_diagonal());
	if (U.r != r || U.c != m || V.r != m || V.c != c || (int)D.size() != m) FAIL("factors are " << U.r << "x" << U.c << ", " << D.size() << ", " << V.r << "x" << V.c);
	orthonormal_cols(U, t, "U"); orthonormal_cols(T(V), t, "V");
	for (int i = 0; i < m; i++) { if (!(D[i] >= 0)) FAIL("singular value " << i << " is " << (double)D[i]); if (i && !(D[i] <= D[i - 1])) FAIL("singular values are not in descending order"); CLOSE(D[i], sv[i], at, "singular value " << i); }
	same(from_svd(U, D, T(V)), a, at * 2, "U D V^T");
	LD p = 1, ps = 0, top = 1; for (int i = 0; i < m; i++) { p *= sv[i]; top = std::max(top, p); LD q = at; for (int k = 0; k < m; k++) if (k != i) q *= sv[k] + at; ps += q; } if (ordinary<P>(a) && top < std::numeric_limits<P>::max() * 1e-3L) CLOSE(d.determinant(), p, 2 * ps + std::fabs(p) * t + 1e-35L, "determinant");
	// conditioned inverses
	for (int rep = 0; rep < 2; rep++) {
		bool dflt = g.flag(); LD cond = dflt ? 1e9L : (LD)(P)g.logpos(2, sizeof(P) == 4 ? 1e5 : 1e12); g.note("condition", (double)cond); int keep = 0; bool clear = true; for (int i = 0; i < m; i++) { LD lo = sv[i] - 2 * at, hi = sv[i] + 2 * at; if (lo * cond > s0 * (1 + 1e-6L)) keep++; else if (hi * cond < s0 * (1 - 1e-6L) || s0 == 0) ; else clear = false; }
		g.tag(clear ? "clear cut-off" : "singular value at the cut-off"); if (!clear) continue; g.tag("truncated", keep < m);
		int rk = dflt ? d.rank() : d.rank((P)cond); if (rk != keep) FAIL("rank(" << (double)cond << ") is " << rk << " instead of " << keep << " for the singular values " << show(sv));
		RV inv(m, 0); for (int i = 0; i < keep; i++) inv[i] = 1 / D[i]; RM X = from_svd(T(V), inv, U); LD smin = keep ? D[keep - 1] : 1, xt = 20 * M * e / smin;
		same(rm(dflt ? d.get_pinv() : d.get_pinv((P)cond)), X, xt, "get_pinv()");
		typename std::remove_reference<decltype(d.get_diagonal())>::type dummy(m); (void)dummy; { Vector<(R < C ? R : C)> w(m); d.get_inv_diag(w, (P)cond); for (int i = 0; i < m; i++) CLOSE(w[i], inv[i], 8 * e * inv[i], "get_inv_diag element " << i); }
		int k = g.size(1, 4, 40); RM b = roundto<P>(gen_rm(g, r, k, g.pick(2))); g.note("B", show(b)); RM Y = mul(X, b); LD yt = 20 * M * r * e / smin * maxabs(b) + 1e-300L;
		switch (g.pick(3)) {
			case 0: { RV v(r); for (int i = 0; i < r; i++) v[i] = b(i, 0); with_vec<R, P, VK_ALL>(g, v, [&](auto& w) { auto x = dflt ? d.backsub(w) : d.backsub(w, (P)cond); if (x.size() != c) FAIL("size of the solution"); for (int i = 0; i < c; i++) CLOSE(x[i], Y(i, 0), yt, "backsub(Vector) element " << i); same(rv(w), v, 0, "vector passed"); }); break; }
			case 1: { Matrix<R, Dynamic, P> B(r, k); put(B, b); same(rm(dflt ? d.backsub(B) : d.backsub(B, (P)cond)), Y, yt, "backsub(Matrix)"); break; }
			default: { RM b3 = roundto<P>(gen_rm(g, r, 3, 1)); RM Z = mul(X, b3); with_mat<R, 3, P, MK_ALL>(g, b3, [&](auto& B) { same(rm(dflt ? d.backsub(B) : d.backsub(B, (P)cond)), Z, 20 * M * r * e / smin * maxabs(b3) + 1e-300L, "backsub(Matrix)"); same(rm(B), b3, 0, "matrix passed"); }); }
		}
		if (keep == m) { // full rank: left or right inverse
			LD k2 = s0 / smin; if (k2 * e * M < 1e-3L) { RM I = r >= c ? mul(X, a) : mul(a, X); same(I, RM::eye(m), 100 * M * M * e * k2, "pseudo-inverse times matrix"); }
		}
	}
}
template<int R, int C, class P> void svd_case(Gen& g, int r, int c) {
	RM a = gen_rect(g, r, c); int m = std::min(r, c);
	if (g.chance(35)) { // spectra with a gap around the cut-offs
		RV s(m); for (auto& x : s) { int k = g.pick(5); x = k == 0 ? 1 : k == 1 ? 0 : (LD)std::pow(10., -g.range(0, sizeof(P) == 4 ? 5 : 13)) * g.uniform(1, 9); } LD sc = std::pow(10., g.small(sizeof(P) == 4 ? 3 : 9)); for (auto& x : s) x *= sc; a = from_svd(gen_orth(g, r), s, gen_orth(g, c)); g.tag("spectrum around the cut-off"); }
	if (sizeof(P) == 4) { LD x = maxabs(a); if (x > 1e6 || (x > 0 && x < 1e-6)) a = scale(a, 1 / x); } a = roundto<P>(scale(a, extreme<P>(g))); g.note("A", show(a)); g.nontrivial(maxabs(a) > 0 && m > 1); g.tag(r == c ? "square" : r > c ? "tall" : "wide");
	RV sv = singular_values(a);
	with_mat<R, C, P, mats<R, C>()>(g, a, [&](auto& x) {
		switch (g.pick(4)) {
			case 0: { SVD<R, C, P> d(r, c); Matrix<R, C, P> o(r, c); o = Ones; o(0, 0) = 5; d.compute(o); d.compute(x); examine<R, C, P>(g, d, a, sv); g.tag("object used again"); break; }
			case 1: { SVD<R, C, P> d(x); SVD<R, C, P> q(d); examine<R, C, P>(g, q, a, sv); examine<R, C, P>(g, d, a, sv); g.tag("copied object"); break; }
			case 2: if constexpr (R > 0 && C > 0) { SVD<R, C, P> d; d.compute(x); examine<R, C, P>(g, d, a, sv); break; } // fall through
			default: { SVD<R, C, P> d(x); examine<R, C, P>(g, d, a, sv); }
		}
		same(rm(x), a, 0, "matrix passed");
		if constexpr (R == C) { if (r == c && g.chance(10)) { SQSVD<R, P> d(x); examine<R, C, P>(g, d, a, sv); if constexpr (R < 0) { SQSVD<R, P> q(r); q.compute(x); examine<R, C, P>(g, q, a, sv); } g.tag("SQSVD"); } }
	});
}
#if PART == 0
PROP(svd_square, 3) { switch (g.pick(3)) { case 0: svd_case<1, 1, double>(g, 1, 1); break; case 1: svd_case<2, 2, double>(g, 2, 2); break; case 2: svd_case<4, 4, double>(g, 4, 4); break; } }
#endif
#if PART == 1
PROP(svd_rect, 3) { switch (g.pick(4)) { case 0: svd_case<4, 2, double>(g, 4, 2); break; case 1: svd_case<2, 5, double>(g, 2, 5); break; case 2: svd_case<3, 1, double>(g, 3, 1); break; case 3: svd_case<3, 2, float>(g, 3, 2); break; } }
#endif
#if PART == 2
PROP(svd_dynamic, 6) { int r = g.size(1, 8, 30), c = g.size(1, 8, 30); if (g.chance(20)) svd_case<Dynamic, Dynamic, float>(g, r, c); else svd_case<Dynamic, Dynamic, double>(g, r, c); }
#endif
#if PART == 3
PROP(svd_semi, 2) { int n = g.range(1, 6); if (g.flag()) svd_case<Dynamic, 3, double>(g, n, 3); else svd_case<3, Dynamic, double>(g, 3, n); }
#endif
