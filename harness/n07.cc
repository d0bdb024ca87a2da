// N07: Golub-Reinsch SVD
#include "num.h"
#include <TooN/GR_SVD.h>
#include <algorithm>
#ifndef PART
#define PART 0
#endif
const int GK = MK_STATIC | MK_STATICCOL | MK_SSLICE | MK_T | MK_CONST;
struct Tol { LD e, t, at; };
template<class P> Tol tolerances(int r, int c, LD s0) { LD e = eps<P>(), t = 60 * (std::max(r, c) + 2) * e; return Tol{ e, t, t * s0 + std::numeric_limits<P>::min() * 100 }; }
inline RV sorted(RV v) { std::sort(v.begin(), v.end(), [](LD a, LD b) { return a > b; }); return v; }
template<class P> void check_values(const RV& D, const RV& sv, const Tol& o) { for (size_t i = 0; i < D.size(); i++) if (!(D[i] >= 0)) FAIL("singular value " << i << " is " << (double)D[i]); RV S = sorted(D); for (size_t i = 0; i < S.size(); i++) CLOSE(S[i], i < sv.size() ? sv[i] : 0, o.at, "singular value " << i << " in descending order"); }
// columns of a factor that belong to non-zero singular values
inline void orthonormal_used(const RM& q, const RV& D, LD at, LD t, const char* what, int need) { std::vector<int> u; for (int j = 0; j < q.c; j++) if (need == q.c || D[j] > 10 * at) u.push_back(j); RM s(q.r, (int)u.size()); for (int i = 0; i < q.r; i++) for (int j = 0; j < (int)u.size(); j++) s(i, j) = q(i, u[j]); LD k = 1; if (need != q.c) { LD mn = 1e300L, mx = 0; for (int j : u) { mn = std::min(mn, D[j]); mx = std::max(mx, D[j]); } if (!u.empty()) k = mx / mn; } if (!u.empty()) orthonormal_cols(s, t * k, what); }
template<int R, int C, class P, class S> void examine(Gen& g, S& d, const RM& a, const RV& sv, bool ordered) {
	int r = R, c = C; LD s0 = sv[0]; Tol o = tolerances<P>(r, c, s0); LD e = o.e, at = o.at;
	RM U = rm(d.get_U()), V = rm(d.get_V()); RV D = rv(d.get_diagonal());
	if (U.r != r || U.c != c || V.r != c || V.c != c || (int)D.size() != c) FAIL("factors are " << U.r << "x" << U.c << ", " << D.size() << ", " << V.r << "x" << V.c);
	orthonormal_cols(V, o.t, "V"); orthonormal_used(U, D, at, o.t, "U", std::min(r, c));
	check_values<P>(D, sv, o); same(from_svd(U, D, V), a, at * 2, "U D V^T");
	if (ordered) for (int i = 1; i < c; i++) if (D[i] > D[i - 1]) FAIL("singular values are not in descending order after reorder()");
	LD big = D[0], sml = D[0]; for (LD x : D) { big = std::max(big, x); sml = std::min(sml, x); } int at_i = d.get_smallest_singular_value_index();
	if (d.get_largest_singular_value() != big || d.get_smallest_singular_value() != sml || at_i < 0 || at_i >= c || D[at_i] != sml) FAIL("largest/smallest singular value reported as " << d.get_largest_singular_value() << "/" << d.get_smallest_singular_value() << " at " << at_i << " of " << show(D));
	bool dflt = g.flag(); LD cond = dflt ? 1e9L : (LD)(P)g.logpos(2, sizeof(P) == 4 ? 1e5 : 1e12); g.note("condition", (double)cond); int keep = 0; bool clear = true;
	for (int i = 0; i < c; i++) { LD s = i < (int)sv.size() ? sv[i] : 0, lo = s - 2 * at, hi = s + 2 * at; if (lo * cond > s0 * (1 + 1e-6L)) keep++; else if (hi * cond < s0 * (1 - 1e-6L) || s0 == 0) ; else clear = false; }
	g.tag(clear ? "clear cut-off" : "singular value at the cut-off"); if (!clear) return; g.tag("truncated", keep < c);
	RV so = sorted(D), inv(c, 0); LD smin = keep ? so[keep - 1] : 1; for (int i = 0; i < c; i++) if (keep && D[i] >= smin && D[i] > 0) inv[i] = 1 / D[i]; RM X = from_svd(V, inv, U); LD xt = 20 * std::max(r, c) * e / smin;
	{ Vector<C, P> w; d.get_inv_diag(w, (P)cond); for (int i = 0; i < c; i++) CLOSE(w[i], inv[i], 8 * e * inv[i], "get_inv_diag element " << i); }
	same(rm(dflt ? d.get_pinv() : d.get_pinv((P)cond)), X, xt, "get_pinv()");
	RM b3 = roundto<P>(gen_rm(g, r, 3, g.pick(2))); g.note("B", show(b3)); RM Z = mul(X, b3); LD yt = 20 * std::max(r, c) * r * e / smin * maxabs(b3) + 1e-300L;
	if (g.flag()) { RV v(r); for (int i = 0; i < r; i++) v[i] = b3(i, 0); with_vec<R, P, VK_ALL>(g, v, [&](auto& w) { auto x = dflt ? d.backsub(w) : d.backsub(w, (P)cond); if (x.size() != c) FAIL("size of the solution"); for (int i = 0; i < c; i++) CLOSE(x[i], Z(i, 0), yt, "backsub(Vector) element " << i); same(rv(w), v, 0, "vector passed"); }); }
	else with_mat<R, 3, P, GK>(g, b3, [&](auto& B) { same(rm(dflt ? d.backsub(B) : d.backsub(B, (P)cond)), Z, yt, "backsub(Matrix)"); same(rm(B), b3, 0, "matrix passed"); });
	// independent of the factors: Moore-Penrose solution of a well conditioned full rank problem
	int m = std::min(r, c); if (keep == m && s0 / smin * e * std::max(r, c) < 1e-3L) { LD k2 = s0 / smin; RM I = r >= c ? mul(X, a) : mul(a, X); same(I, RM::eye(m), 200 * std::max(r, c) * std::max(r, c) * e * k2, "pseudo-inverse times matrix"); }
}
template<int R, int C, class P, bool U, bool V, class M> void partial(Gen& g, M& x, const RM& a, const RV& sv) {
	GR_SVD<R, C, P, U, V> d(x); Tol o = tolerances<P>(R, C, sv[0]); g.tag("without a factor"); int thrown = 0, n = 0;
	if (g.flag()) d.reorder(); RV D = rv(d.get_diagonal()); check_values<P>(D, sv, o);
	if constexpr (!U) { n++; try { d.get_U(); } catch (int) { thrown++; } } else { RM q = rm(d.get_U()); orthonormal_used(q, D, o.at, o.t, "U", std::min(R, C)); RM p = mul(T(a), q); if (R >= C) for (int j = 0; j < C; j++) CLOSE(colnorm(p, j), D[j], 3 * o.at, "length of A^T times column " << j << " of U"); }
	if constexpr (!V) { n++; try { d.get_V(); } catch (int) { thrown++; } } else { RM q = rm(d.get_V()); orthonormal_cols(q, o.t, "V"); RM p = mul(a, q); for (int j = 0; j < C; j++) CLOSE(colnorm(p, j), D[j], 3 * o.at, "length of A times column " << j << " of V"); }
	if (thrown != n) FAIL("a factor that was not computed is handed out");
}
template<int R, int C, class P> void gr_case(Gen& g) {
	RM a = gen_rect(g, R, C); int m = std::min(R, C);
	if (g.chance(25)) { RV s(m); for (auto& x : s) { int k = g.pick(5); x = k == 0 ? 1 : k == 1 ? 0 : (LD)std::pow(10., -g.range(0, sizeof(P) == 4 ? 5 : 13)) * g.uniform(1, 9); } LD sc = std::pow(10., g.small(sizeof(P) == 4 ? 3 : 9)); for (auto& x : s) x *= sc; a = from_svd(gen_orth(g, R), s, gen_orth(g, C)); g.tag("spectrum around the cut-off"); }
	else if (g.chance(25)) { // bidiagonal and other matrices that meet the special branches
		a = RM(R, C); for (int i = 0; i < m; i++) { a(i, i) = g.chance(30) ? 0 : g.flag() ? g.small(3) : g.uniform(-2, 2); if (i + 1 < C) a(i, i + 1) = g.chance(30) ? 0 : g.flag() ? g.small(3) : g.uniform(-2, 2); } if (g.flag()) { RM b(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) b(i, j) = a(R - 1 - i, C - 1 - j); a = b; } g.tag("bidiagonal"); }
	if (sizeof(P) == 4) { LD x = maxabs(a); if (x > 1e4 || (x > 0 && x < 1e-2)) { a = scale(a, 1 / x); x = 1; } for (auto& y : a.a) if (std::fabs(y) < 1e-7L * x) y = 0; } a = roundto<P>(scale(a, extreme<P>(g, true))); g.note("A", show(a)); g.nontrivial(maxabs(a) > 0 && m > 1); g.tag(R == C ? "square" : R > C ? "tall" : "wide");
	RV sv = singular_values(a);
	with_mat<R, C, P, GK>(g, a, [&](auto& x) {
		switch (g.pick(5)) {
			case 0: partial<R, C, P, true, false>(g, x, a, sv); break;
			case 1: if (g.flag()) partial<R, C, P, false, true>(g, x, a, sv); else partial<R, C, P, false, false>(g, x, a, sv); break;
			default: { GR_SVD<R, C, P> d(x); bool ro = g.flag(); if (ro) { d.reorder(); g.tag("reordered"); } examine<R, C, P>(g, d, a, sv, ro); if (ro && g.chance(20)) { GR_SVD<R, C, P> q(d); q.reorder(); examine<R, C, P>(g, q, a, sv, true); } }
		}
		same(rm(x), a, 0, "matrix passed");
	});
}
#if PART == 0
PROP(gr_square, 4) { switch (g.pick(4)) { case 0: gr_case<1, 1, double>(g); break; case 1: gr_case<2, 2, double>(g); break; case 2: gr_case<3, 3, double>(g); break; case 3: gr_case<6, 6, double>(g); break; } }
#endif
#if PART == 1
PROP(gr_tall, 4) { switch (g.pick(4)) { case 0: gr_case<3, 1, double>(g); break; case 1: gr_case<4, 2, double>(g); break; case 2: gr_case<5, 3, double>(g); break; case 3: gr_case<8, 7, double>(g); break; } }
#endif
#if PART == 2
PROP(gr_wide, 2) { switch (g.pick(3)) { case 0: gr_case<1, 3, double>(g); break; case 1: gr_case<2, 4, double>(g); break; case 2: gr_case<4, 5, double>(g); break; } }
#endif
#if PART == 3
PROP(gr_float, 2) { switch (g.pick(3)) { case 0: gr_case<4, 4, float>(g); break; case 1: gr_case<4, 2, float>(g); break; case 2: gr_case<3, 3, long double>(g); break; } }
#endif
