// N03: Cholesky decompositions
#include "num.h"
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#ifndef PART
#define PART 0
#endif
const int VM = VK_ALL;
template<int N> constexpr int mats() { return N > 0 ? (MK_STATIC | MK_STATICCOL | MK_SSLICE | MK_T | MK_WRAP | MK_CONST | MK_SSLICECOL) : (MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE | MK_DWRAP | MK_CONST); }
// symmetric positive definite, condition number within kmax
template<class P> RM gen_spd(Gen& g, int n, LD kmax) {
	RM a(n, n);
	switch (g.pick(6)) {
		case 0: { RM b = gen_dense(g, n, n); a = mul(b, T(b)); for (int i = 0; i < n; i++) a(i, i) += 0.5L; g.tag("Gram matrix"); break; }
		case 1: { RV s(n); for (auto& x : s) x = g.logpos(1, (double)kmax); LD sc = sizeof(P) == 4 ? g.logpos(1e-2, 1e2) : g.logpos(1e-6, 1e6); for (auto& x : s) x *= sc; RM q = gen_orth(g, n); a = from_svd(q, s, q); g.tag("prescribed spectrum"); break; }
		case 2: { RM l = RM::eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) l(i, j) = g.small(2); RV d(n); for (auto& x : d) x = g.range(1, 5); a = from_svd(l, d, l); g.tag("integer"); break; }
		case 3: for (int i = 0; i < n; i++) a(i, i) = g.logpos(1e-3, 1e3); g.tag("diagonal"); break;
		case 4: { for (int i = 0; i < n; i++) { a(i, i) = g.range(2, 9); if (i) a(i, i - 1) = a(i - 1, i) = g.uniform(-0.9, 0.9); } g.tag("tridiagonal"); break; }
		case 5: { RM b = gen_dense(g, n, n); a = mul(b, T(b)); for (int i = 0; i < n; i++) a(i, i) += 0.3L; for (int i = 0; i < n; i++) { LD s = g.logpos(0.1, 10); for (int j = 0; j < n; j++) { a(i, j) *= s; a(j, i) *= s; } } g.tag("scaled"); break; }
	}
	a = scale(a, extreme<P>(g)); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(j, i) = a(i, j);
	return roundto<P>(a);
}
template<class P> bool definite(const RM& a, LD& kap) { RV ev; RM v; jacobi(a, ev, v); kap = ev[0] > 0 ? ev.back() / ev[0] : INFINITY; return kap * a.r * eps<P>() * 1e3L < 1; }
template<class M> RM lower_only(Gen& g, const M& a) { RM x = a; int k = g.pick(3); for (int i = 0; i < x.r; i++) for (int j = i + 1; j < x.c; j++) x(i, j) = k == 0 ? a(i, j) : k == 1 ? (LD)NAN : (LD)g.small(50); return x; }
template<int N, class P, bool LAP, class C> void examine(Gen& g, C& c, const RM& a, LD kap, int n) {
	LD e = eps<P>(), m = maxabs(a), d = det(a);
	RM L = rm(c.get_L()); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (L(i, j) != 0) FAIL("get_L() is not lower triangular"); same(mul(L, T(L)), a, 20 * n * e * m, "L L^T");
	if (c.rank() != n) FAIL("rank of a positive definite matrix is " << c.rank()); if (ordinary<P>(a)) CLOSE(c.determinant(), d, 50 * n * n * e * kap * std::fabs(d), "determinant");
	if constexpr (!LAP) { RM U = rm(c.get_unscaled_L()), D = rm(c.get_D()); for (int i = 0; i < n; i++) { if (U(i, i) != 1) FAIL("diagonal of the unscaled L"); for (int j = 0; j < n; j++) { if (j > i && U(i, j) != 0) FAIL("unscaled L not triangular"); if (i != j && D(i, j) != 0) FAIL("D not diagonal"); } } same(mul(mul(U, D), T(U)), a, 20 * n * e * m, "L D L^T"); }
	RM x = inv(a); LD xt = 50 * n * n * e * kap * maxabs(x); same(rm(c.get_inverse()), x, xt, "inverse");
	int k = g.size(1, 5, 40); RM b = roundto<P>(gen_rm(g, n, k, g.pick(2))); g.note("B", show(b)); RV v(n); RM b1(n, 1); for (int i = 0; i < n; i++) v[i] = b1(i, 0) = b(i, 0);
	with_vec<N, P, VM>(g, v, [&](auto& w) { auto s = c.backsub(w); RM X(n, 1); for (int i = 0; i < n; i++) X(i, 0) = s[i]; check_solution<P>(a, b1, X, "backsub(Vector)"); LD q = 0, t = maxabs(v); RV y = mul(x, v); q = dot(v, y); CLOSE(c.mahalanobis(w), q, n * xt * t * t + 10 * n * e * t * maxabs(y) * n, "mahalanobis"); same(rv(w), v, 0, "vector passed"); });
	if constexpr (N > 0) { if (g.flag()) { RM b3 = roundto<P>(gen_rm(g, n, 3, 1)); with_mat<N, 3, P, MK_ALL>(g, b3, [&](auto& B) { check_solution<P>(a, b3, rm(c.backsub(B)), "backsub(Matrix)"); same(rm(B), b3, 0, "matrix passed"); }); } }
	if constexpr (N > 0) { if (g.flag()) { with_mat<N, 1, P, MK_STATIC | MK_STATICCOL | MK_DYN>(g, b1, [&](auto& B) { check_solution<P>(a, b1, rm(c.backsub(B)), "backsub(one-column Matrix)"); }); } }
	with_mat<Dynamic, Dynamic, P, MK_ALL>(g, b, [&](auto& B) { check_solution<P>(a, b, rm(c.backsub(B)), "backsub(Matrix<>)"); same(rm(B), b, 0, "matrix passed"); });
}
template<int N, class P, bool LAP> void chol(Gen& g, int n) {
	typedef std::conditional_t<LAP, Lapack_Cholesky<N, P>, Cholesky<N, P>> C;
	RM a = gen_spd<P>(g, n, sizeof(P) == 4 ? 100 : 1e8); LD kap; g.note("A", show(a)); if (!definite<P>(a, kap)) return; g.nontrivial(n > 1); RM in = lower_only(g, a);
	with_mat<N, N, P, mats<N>()>(g, in, [&](auto& m) {
		switch (g.pick(4)) {
			case 0: { RM o = gen_spd<P>(g, n, 100); Matrix<N, N, P> om(n, n); put(om, o); C c(om); c.compute(m); examine<N, P, LAP>(g, c, a, kap, n); break; } // one object used again
			case 1: { if constexpr (N < 0) { C c(n); c.compute(m); examine<N, P, LAP>(g, c, a, kap, n); } else { C c; c.compute(m); examine<N, P, LAP>(g, c, a, kap, n); } break; }
			case 2: { C c(m); C d(c); examine<N, P, LAP>(g, d, a, kap, n); break; }
			default: { C c(m); examine<N, P, LAP>(g, c, a, kap, n); }
		}
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((LD)m(i, j) != in(i, j) && !std::isnan(in(i, j))) FAIL("decomposed matrix changed");
	});
	// the precision of the decomposition may differ from the matrix's
	if (g.chance(15)) { if constexpr (sizeof(P) == 4) { Matrix<N, N, double> m(n, n); put(m, a); C c(m); examine<N, P, LAP>(g, c, a, kap, n); } }
}
#if PART == 0
PROP(chol_static, 3) { switch (g.pick(4)) { case 0: chol<1, double, false>(g, 1); break; case 1: chol<2, double, false>(g, 2); break; case 2: chol<3, double, false>(g, 3); break; case 3: chol<6, double, false>(g, 6); break; } }
#endif
#if PART == 1
PROP(chol_float, 1) { if (g.flag()) chol<3, float, false>(g, 3); else { int n = g.range(1, 6); chol<Dynamic, float, false>(g, n); } }
PROP(chol_dynamic, 3) { int n = g.size(1, 12, 30); chol<Dynamic, double, false>(g, n); }
// singular semi-definite matrices with exact pivots: rank, zero determinant, factors
PROP(chol_semidefinite, 3) {
	int n = g.range(1, 8); RM l = RM::eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) l(i, j) = g.small(2); RV d(n); int r = 0; for (auto& x : d) { x = g.chance(40) ? 0 : 1 << g.pick(3); r += x != 0; } RM a = from_svd(l, d, l); g.note("A", show(a)); g.nontrivial(r < n); g.tag("rank deficient", r < n); g.tag("zero matrix", r == 0);
	Matrix<> m = dmat(lower_only(g, a)); Cholesky<> c(m); if (c.rank() != r) FAIL("rank of " << a << " is " << c.rank() << " instead of " << r); LD dt = 1; for (auto x : d) dt *= x; if (c.determinant() != dt) FAIL("determinant is " << c.determinant() << " instead of " << (double)dt);
	RM U = rm(c.get_unscaled_L()), D = rm(c.get_D()); same(mul(mul(U, D), T(U)), a, 0, "L D L^T"); RM L = rm(c.get_L()); same(mul(L, T(L)), a, 1e-13L * (1 + maxabs(a)) * n, "L L^T"); if (n == 3) { Matrix<3> s; put(s, a); Cholesky<3> cs(s); if (cs.rank() != r) FAIL("rank (static size)"); }
}
#endif
#if PART == 2
PROP(lapack_static, 3) { switch (g.pick(4)) { case 0: chol<1, double, true>(g, 1); break; case 1: chol<2, double, true>(g, 2); break; case 2: chol<3, double, true>(g, 3); break; case 3: chol<6, double, true>(g, 6); break; } }
#endif
#if PART == 3
PROP(lapack_float, 1) { if (g.flag()) chol<3, float, true>(g, 3); else { int n = g.range(1, 6); chol<Dynamic, float, true>(g, n); } }
PROP(lapack_dynamic, 3) { int n = g.size(1, 12, 30); chol<Dynamic, double, true>(g, n); }
// failure: not positive definite
PROP(lapack_indefinite, 2) {
	int n = g.range(1, 8), k = g.pick(n); RM a = gen_spd<double>(g, n, 100); bool zero = g.flag(); LD kap; if (!definite<double>(a, kap)) return; for (int i = 0; i < n; i++) if (zero || i == k) a(i, k) = a(k, i) = zero ? 0 : -a(k, k); g.note("A", show(a)); g.nontrivial();
	// leading block of size k is definite, the one of size k+1 is not
	Matrix<> m = dmat(lower_only(g, a)); Lapack_Cholesky<Dynamic> c(m); if (c.rank() != k) FAIL("rank() is " << c.rank() << " for a matrix whose leading " << k + 1 << "x" << k + 1 << " block is the first that is not positive definite"); 
	if (k == n - 1) { RM L = rm(c.get_L()); RM l(k, k), b(k, k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { l(i, j) = L(i, j); b(i, j) = a(i, j); } same(mul(l, T(l)), b, 1e-12L * (1 + maxabs(a)), "leading block of L L^T"); }
	if (zero && k != n - 1) { g.finding = "lapack-cholesky-rank"; FAIL("Lapack_Cholesky::rank() of a semi-definite matrix with a zero row and column " << k << " is " << k << " instead of " << n - 1); }
}
#endif
