// N01: determinants.  Built with and without the switch to LAPACK.
#include "num.h"
#include <TooN/determinant.h>
#ifndef PART
#define PART 0
#endif
template<class P> LD tolerance(const RM& a) { return 200 * a.r * a.r * eps<P>() * det_sensitivity(a) + 1e-290L; }
template<int N, class P, class M> void check(Gen& g, const M& m, const RM& a, LD d, LD tol) {
	CLOSE(determinant_gaussian_elimination(m), d, tol, "determinant_gaussian_elimination of " << a);
	CLOSE(determinant(m), d, tol, "determinant of " << a);
#ifdef TOON_DETERMINANT_LAPACK
	CLOSE(determinant_LU(m), d, tol, "determinant_LU of " << a);
#endif
	same(rm(m), a, 0, "argument of determinant");
}
template<int N, class P> void det_n(Gen& g, int n) {
	RM a = roundto<P>(gen_square(g, n)); if (sizeof(P) == 4) for (auto& x : a.a) if (std::fabs(x) > 1e3L) x /= 1e3L; if (g.chance(10)) { int e = g.range(1, (sizeof(P) == 4 ? 20 : 200) / n); a = scale(a, std::pow(10.L, g.flag() ? e : -e)); g.tag("extreme magnitude"); } a = roundto<P>(a); g.note("A", show(a));
	LD d = det(a), tol = tolerance<P>(a); g.nontrivial(n > 1 && std::fabs(d) > 10 * tol); g.tag("determinant clearly non-zero", std::fabs(d) > 10 * tol);
	with_mat<N, N, P, MK_ALL>(g, a, [&](auto& m) { check<N, P>(g, m, a, d, tol); });
	if (g.chance(30) && n > 1) { // row exchange and transposition, from the same object
		Matrix<N, N, P> m(n, n); put(m, a); int i = g.pick(n), j = g.pick(n); if (i == j) return; LD before = determinant(m); LD t = determinant(m.T()); CLOSE(t, before, 2 * tol, "determinant of the transpose"); Vector<N, P> x = m[i]; m[i] = m[j]; m[j] = x; CLOSE(determinant(m), -before, 2 * tol, "determinant after exchanging two rows");
	}
}
#if PART == 0
PROP(det_static, 3) { switch (g.pick(7)) { case 0: det_n<1, double>(g, 1); break; case 1: det_n<2, double>(g, 2); break; case 2: det_n<3, double>(g, 3); break; case 3: det_n<4, double>(g, 4); break; case 4: det_n<6, double>(g, 6); break; case 5: det_n<2, float>(g, 2); break; case 6: det_n<5, float>(g, 5); break; } }
#endif
#if PART == 1
PROP(det_dynamic, 4) { int n = g.size(1, 12, 30); if (g.chance(25)) det_n<Dynamic, float>(g, std::min(n, 7)); else det_n<Dynamic, double>(g, n); }
PROP(det_integer, 2) { // exact: small integers stay exactly representable
	int n = g.range(1, 5); RM a(n, n); for (auto& x : a.a) x = g.small(g.flag() ? 2 : 6); g.note("A", show(a));
	// integer determinant by permanent-style expansion
	std::function<LD(std::vector<int>, int)> ex = [&](std::vector<int> cols, int r) -> LD { if (r == n) return 1; LD s = 0; for (size_t k = 0; k < cols.size(); k++) if (a(r, cols[k]) != 0) { auto c = cols; c.erase(c.begin() + k); s += (k % 2 ? -1 : 1) * a(r, cols[k]) * ex(c, r + 1); } return s; };
	std::vector<int> c(n); for (int i = 0; i < n; i++) c[i] = i; LD d = ex(c, 0); g.nontrivial(d != 0 && n > 1); Matrix<> m = dmat(a); if (std::fabs(determinant(m) - d) > 1e-7) FAIL("determinant of " << a << " is " << determinant(m) << " instead of " << d); if (std::fabs(determinant_gaussian_elimination(m) - d) > 1e-7) FAIL("determinant by elimination");
}
PROP(det_large, 1) { int n = g.range(30, 40); RM a = gen_dense(g, n, n); for (int i = 0; i < n; i++) a(i, i) += 3; if (g.flag()) { int i = g.pick(n), j = g.pick(n); for (int k = 0; k < n; k++) std::swap(a(i, k), a(j, k)); } a = roundto<double>(a); LD d = det(a); g.nontrivial(); Matrix<> m = dmat(a); CLOSE(determinant(m), d, 1e-9L * std::fabs(d) + 1e-12L * det_sensitivity(a) , "determinant of a " << n << "x" << n << " matrix"); CLOSE(determinant(m.T()), d, 1e-9L * std::fabs(d) + 1e-12L * det_sensitivity(a), "determinant of the transpose"); }
PROP(det_product, 1) { int n = g.range(1, 6); RM a = roundto<double>(gen_square(g, n)), b = gen_rm(g, n, n, 0); RM c = mul(a, b); LD bound = 400 * n * n * eps<double>() * (det_sensitivity(c) + det_sensitivity(a) * std::fabs(det(b)) + det_sensitivity(b) * std::fabs(det(a))) + 1e-290L; Matrix<> A = dmat(a), B = dmat(b); LD l = determinant(A * B), r = (LD)determinant(A) * determinant(B); g.nontrivial(std::fabs(r) > bound); CLOSE(l, r, bound, "det(AB) and det(A)det(B)"); }
PROP(mixed_size_kinds, 1) { int n = 3; RM a = roundto<double>(gen_square(g, n)); LD d = det(a), tol = tolerance<double>(a); g.nontrivial(std::fabs(d) > tol); Matrix<3, Dynamic> s(3, 3); put(s, a); CLOSE(determinant(s), d, tol, "Matrix<3,Dynamic>"); Matrix<Dynamic, 3, double, ColMajor> t(3, 3); put(t, a); CLOSE(determinant(t), d, tol, "Matrix<Dynamic,3>"); CLOSE(determinant_gaussian_elimination(s), d, tol, "elimination, Matrix<3,Dynamic>"); Matrix<4, 5> big; big = Zeros; auto v = big.slice<1, 1, 3, 3>(); put(v, a); CLOSE(determinant(big.slice<1, 1, 3, 3>()), d, tol, "slice"); CLOSE(determinant(big.slice(1, 1, 3, 3)), d, tol, "dynamic slice"); }
#endif
