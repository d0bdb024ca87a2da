// N02: Gaussian elimination and Gauss-Jordan reduction
#include "num.h"
#include "abort.h"
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#ifndef PART
#define PART 0
#endif
template<class P> bool solvable(Gen& g, const RM& a) { bool ok = rcond(a) > 1e3L * a.r * eps<P>(); g.tag(ok ? "non-singular" : "singular or nearly", true); return ok; }
template<class P> RM gen_a(Gen& g, int n) { RM a = gen_square(g, n); a = scale(a, extreme<P>(g)); return roundto<P>(a); }
// right-hand sides, sometimes of the matrix's own magnitude
template<class P> RM gen_b(Gen& g, const RM& a, int n, int k) { RM b = gen_rm(g, n, k, g.pick(2)); LD m = maxabs(a); if (!ordinary<P>(a) && g.flag()) b = scale(b, m); return roundto<P>(b); }
template<int N, class P> void ge_vec(Gen& g, int n) {
	RM a = gen_a<P>(g, n), b = gen_b<P>(g, a, n, 1); g.note("A", show(a)); g.note("b", show(b)); if (!solvable<P>(g, a)) return; g.nontrivial(n > 1);
	Matrix<N, N, P> A(n, n); put(A, a); Vector<N, P> v(n); for (int i = 0; i < n; i++) v[i] = P(b(i, 0));
	auto x = gaussian_elimination(A, v); static_assert(std::is_same<decltype(x), Vector<N, P>>::value, "type"); if (x.size() != n) FAIL("size"); RM X(n, 1); for (int i = 0; i < n; i++) X(i, 0) = x[i];
	check_solution<P>(a, b, X, "gaussian_elimination(Matrix, Vector)"); same(rm(A), a, 0, "matrix passed"); for (int i = 0; i < n; i++) if (v[i] != b(i, 0)) FAIL("right-hand side passed changed");
}
template<int N, int K, class P> void ge_mat(Gen& g, int n, int k) {
	RM a = gen_a<P>(g, n), b = gen_b<P>(g, a, n, k); if (g.chance(20) && k == n) b = RM::eye(n); g.note("A", show(a)); g.note("B", show(b)); if (!solvable<P>(g, a)) return; g.nontrivial(n > 1);
	Matrix<N, N, P> A(n, n); put(A, a); Matrix<N, K, P> B(n, k); put(B, b); auto X = gaussian_elimination(A, B); check_solution<P>(a, b, rm(X), "gaussian_elimination(Matrix, Matrix)"); same(rm(A), a, 0, "matrix passed"); same(rm(B), b, 0, "right-hand sides passed");
}
template<int R, int C, class P> void gj(Gen& g, int n, int k) {
	RM a = gen_a<P>(g, n), b = gen_b<P>(g, a, n, k); if (g.chance(40) && k == n) b = RM::eye(n); g.note("A", show(a)); g.note("B", show(b)); LD rc = rcond(a); if (rc < 1e4L * n * eps<P>()) { g.tag("singular or nearly"); return; } g.nontrivial(n > 1);
	RM m(n, n + k), X; solve(a, b, X); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) m(i, j) = a(i, j); for (int j = 0; j < k; j++) m(i, n + j) = b(i, j); }
	with_mat<R, C, P, MK_ALL & ~MK_CONST>(g, m, [&](auto& M) {
		if constexpr (!std::is_const<std::remove_reference_t<decltype(M)>>::value) {
			gauss_jordan(M); LD ga = std::max<LD>(1, growth(a) / (maxabs(a) + 1e-300L));
			for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((LD)M(i, j) != (i == j ? 1 : 0)) FAIL("left block is not the identity at " << i << "," << j << ": " << M(i, j));
			for (int j = 0; j < k; j++) { LD xm = 0; for (int i = 0; i < n; i++) xm = std::max(xm, std::fabs(X(i, j))); LD tol = 50 * n * n * eps<P>() * ga / rc * xm; for (int i = 0; i < n; i++) if (!(std::fabs(M(i, n + j) - X(i, j)) <= tol)) FAIL("entry (" << i << "," << j << ") of inverse(A) B is " << M(i, n + j) << " instead of " << (double)X(i, j) << " (tolerance " << (double)tol << ")"); }
		}
	}, true);
}
#if PART == 0
PROP(ge_vector_static, 3) { switch (g.pick(5)) { case 0: ge_vec<1, double>(g, 1); break; case 1: ge_vec<2, double>(g, 2); break; case 2: ge_vec<3, double>(g, 3); break; case 3: ge_vec<5, double>(g, 5); break; case 4: ge_vec<4, float>(g, 4); break; } }
PROP(ge_vector_dynamic, 3) { int n = g.size(1, 12, 30); if (g.chance(25)) ge_vec<Dynamic, float>(g, std::min(n, 6)); else ge_vec<Dynamic, double>(g, n); }
PROP(ge_sizes, 1) { // mismatched run-time sizes are rejected, matching ones never
	int n = g.range(1, 6), k = g.range(1, 6), c = g.chance(50) ? n : g.range(1, 6); RM a = gen_dense(g, n, c); for (int i = 0; i < std::min(n, c); i++) a(i, i) += 3; Matrix<> A = dmat(a); bool bad = n != k || n != c; g.nontrivial(bad); g.note("A rows", n); g.note("A cols", c); g.note("b", k);
	if (g.flag()) { Vector<> b(k); b = Ones; if (aborts([&] { gaussian_elimination(A, b); }) != bad) FAIL("gaussian_elimination of a " << n << "x" << c << " matrix and a vector of " << k << (bad ? " is not rejected" : " is rejected")); }
	else { Matrix<> b(k, 2); b = Ones(k, 2); if (aborts([&] { gaussian_elimination(A, b); }) != bad) FAIL("gaussian_elimination of a " << n << "x" << c << " matrix and right-hand sides of " << k << " rows" << (bad ? " is not rejected" : " is rejected")); }
}
#endif
#if PART == 1
PROP(ge_matrix_static, 3) { switch (g.pick(5)) { case 0: ge_mat<2, 3, double>(g, 2, 3); break; case 1: ge_mat<3, 3, double>(g, 3, 3); break; case 2: ge_mat<4, 1, double>(g, 4, 1); break; case 3: ge_mat<3, 2, float>(g, 3, 2); break; case 4: { int k = g.size(1, 5, 40); ge_mat<4, Dynamic, double>(g, 4, k); break; } } }
PROP(ge_matrix_dynamic, 3) { int n = g.size(1, 10, 30), k = g.flag() ? n : g.size(1, 6, 40); if (g.chance(25)) ge_mat<Dynamic, Dynamic, float>(g, std::min(n, 6), k); else if (g.chance(20)) ge_mat<Dynamic, 2, double>(g, n, 2); else ge_mat<Dynamic, Dynamic, double>(g, n, k); }
#endif
#if PART == 2
PROP(gj_static, 3) { switch (g.pick(4)) { case 0: gj<2, 4, double>(g, 2, 2); break; case 1: gj<3, 6, double>(g, 3, 3); break; case 2: gj<4, 5, double>(g, 4, 1); break; case 3: gj<3, 5, float>(g, 3, 2); break; } }
PROP(gj_dynamic, 3) { int n = g.size(1, 10, 30), k = g.flag() ? n : g.size(0, 6, 40); if (g.chance(25)) { n = std::min(n, 6); gj<Dynamic, Dynamic, float>(g, n, k); } else gj<Dynamic, Dynamic, double>(g, n, k); }
#endif
