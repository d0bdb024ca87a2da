// N05: QR decompositions, for matrices with at least as many columns as rows (the documented domain).
#include "num.h"
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#ifndef PART
#define PART 0
#endif
template<int R, int C> constexpr int mats() { return R > 0 && C > 0 ? (MK_STATIC | MK_STATICCOL | MK_DYN | MK_SSLICE | MK_T | MK_CONST) : (MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE | MK_DWRAP | MK_CONST); }
// common to both: Q square orthogonal, R upper triangular (exact zeros below), A P = Q R column by column
template<class P> void examine(const RM& a, const RM& q, const RM& r, const std::vector<int>& perm, const char* what) {
	LD e = eps<P>(); int n = a.r; std::string w = what;
	if (q.r != n || q.c != n) FAIL(w << ": Q is " << q.r << "x" << q.c); if (r.r != n || r.c != a.c) FAIL(w << ": R is " << r.r << "x" << r.c);
	for (auto x : q.a) if (!std::isfinite((double)x)) FAIL(w << ": Q has the entry " << (double)x); for (auto x : r.a) if (!std::isfinite((double)x)) FAIL(w << ": R has the entry " << (double)x);
	orthonormal_cols(q, 20 * (n + 2) * e, w + ": Q"); orthonormal_cols(T(q), 20 * (n + 2) * e, w + ": Q^T");
	for (int i = 0; i < n; i++) for (int j = 0; j < std::min(i, a.c); j++) if (r(i, j) != 0) FAIL(w << ": R(" << i << "," << j << ") below the diagonal is " << (double)r(i, j));
	RM p = mul(q, r);
	for (int j = 0; j < a.c; j++) { LD t = 30 * n * e * colnorm(a, perm[j]) + std::numeric_limits<P>::min() * n * 100; for (int i = 0; i < n; i++) CLOSE(p(i, j), a(i, perm[j]), t, w << ": entry (" << i << "," << j << ") of Q R for A=" << a); }
}
template<int R, int C, class P> void qr_case(Gen& g, int r, int c) {
	RM a = gen_rect(g, r, c); if (sizeof(P) == 4) { LD m = maxabs(a); if (m > 1e6 || (m > 0 && m < 1e-6)) a = scale(a, 1 / m); } a = roundto<P>(scale(a, extreme<P>(g))); g.note("A", show(a)); g.nontrivial(r > 1 && maxabs(a) > 0); g.tag(r == c ? "square" : "wide");
	std::vector<int> id(c); for (int i = 0; i < c; i++) id[i] = i;
	with_mat<R, C, P, mats<R, C>()>(g, a, [&](auto& m) {
		{ QR<R, C, P> d(m); examine<P>(a, rm(d.get_Q()), rm(d.get_R()), id, "QR"); QR<R, C, P> d2(d); same(rm(d2.get_R()), rm(d.get_R()), 0, "R of a copy"); same(rm(d2.get_Q()), rm(d.get_Q()), 0, "Q of a copy"); }
		same(rm(m), a, 0, "matrix passed");
	});
	if constexpr (!std::is_same<P, long double>::value) with_mat<R, C, P, mats<R, C>()>(g, a, [&](auto& m) {
		{ QR_Lapack<R, C, P> d(m); auto& p = d.get_P(); for (int i = 0; i < c; i++) if (p[i] != i) FAIL("get_P() without pivoting"); examine<P>(a, rm(d.get_Q()), rm(d.get_R()), id, "QR_Lapack"); }
		{ QR_Lapack<R, C, P> d(m, true); std::vector<int> p(c); std::vector<char> seen(c, 0); if (d.get_P().size() != c) FAIL("size of get_P()"); for (int i = 0; i < c; i++) { p[i] = d.get_P()[i]; if (p[i] < 0 || p[i] >= c || seen[p[i]]) FAIL("get_P() is not a permutation"); seen[p[i]] = 1; if (p[i] != i) g.tag("columns permuted"); }
			RM x = rm(d.get_R()); examine<P>(a, rm(d.get_Q()), x, p, "QR_Lapack with pivoting");
			for (int i = 0; i + 1 < r; i++) if (!(std::fabs(x(i + 1, i + 1)) <= std::fabs(x(i, i)) * (1 + 100 * std::sqrt(eps<P>())) + 100 * r * eps<P>() * std::fabs(x(0, 0)))) FAIL("diagonal of R is not sorted: " << (double)x(i, i) << " before " << (double)x(i + 1, i + 1)); }
		same(rm(m), a, 0, "matrix passed");
	});
}
#if PART == 0
PROP(qr_static, 4) { switch (g.pick(6)) { case 0: qr_case<1, 1, double>(g, 1, 1); break; case 1: qr_case<2, 2, double>(g, 2, 2); break; case 2: qr_case<3, 3, double>(g, 3, 3); break; case 3: qr_case<3, 5, double>(g, 3, 5); break; case 4: qr_case<1, 4, double>(g, 1, 4); break; case 5: qr_case<6, 6, double>(g, 6, 6); break; } }
#endif
#if PART == 1
PROP(qr_dynamic, 6) { int r = g.size(1, 8, 20), c = g.range(r, r + 8); if (g.chance(25)) qr_case<Dynamic, Dynamic, float>(g, r, c); else qr_case<Dynamic, Dynamic, double>(g, r, c); }
PROP(qr_float, 1) { qr_case<3, 4, float>(g, 3, 4); }
PROP(qr_semi, 2) { if (g.flag()) qr_case<3, Dynamic, double>(g, 3, g.range(3, 9)); else qr_case<Dynamic, 5, double>(g, g.range(1, 5), 5); }
PROP(qr_large, 1) { int r = g.range(20, 40), c = g.range(r, 50); qr_case<Dynamic, Dynamic, double>(g, r, c); }
#endif
