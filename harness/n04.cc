// N04: LU decomposition
#include "num.h"
#include <TooN/LU.h>
#ifndef PART
#define PART 0
#endif
// does x = columns (or rows) of a in some order, within tol?
static bool permuted(const RM& a, const RM& x, LD tol, bool cols) {
	int n = a.r; std::vector<int> match(n, -1); RM A = cols ? T(a) : a, X = cols ? T(x) : x;
	auto eq = [&](int i, int j) { for (int k = 0; k < n; k++) if (!(std::fabs(A(i, k) - X(j, k)) <= tol)) return false; return true; };
	std::function<bool(int, std::vector<char>&)> aug = [&](int i, std::vector<char>& seen) { for (int j = 0; j < n; j++) if (!seen[j] && eq(i, j)) { seen[j] = 1; if (match[j] < 0 || aug(match[j], seen)) { match[j] = i; return true; } } return false; };
	for (int i = 0; i < n; i++) { std::vector<char> seen(n, 0); if (!aug(i, seen)) return false; }
	return true;
}
template<int N, class P, class L, class W> void call_v(L& lu, const W& w, const RM& a, const RM& b, int n, LD sc) { auto x = lu.backsub(w); RM X(n, 1); for (int i = 0; i < n; i++) X(i, 0) = x[i]; if (x.size() != n) FAIL("size of the solution"); check_solution<P>(a, b, X, "backsub(Vector)", 100 * sc); for (int i = 0; i < n; i++) if ((LD)w[i] != b(i, 0)) FAIL("right-hand side passed changed"); }
template<int N, class P, class L> void examine(Gen& g, L& lu, const RM& a, int n) {
	LD rc = rcond(a), d = det(a), ga = std::max(growth(a), maxabs(a)), gt = std::max(growth(T(a)), maxabs(a)); bool ok = rc > 1e3L * n * eps<P>(); g.tag(ok ? "non-singular" : "singular or nearly"); g.nontrivial(ok && n > 1);
	LD sens = std::max(det_sensitivity(a), det_sensitivity(T(a))); if (ordinary<P>(a) && (n <= 6 || sizeof(P) > 4)) CLOSE(lu.determinant(), d, 300 * n * n * eps<P>() * sens + 1e-35L, "determinant");
	bool zero_line = false; for (int i = 0; i < n; i++) { LD r = 0, c = 0; for (int j = 0; j < n; j++) { r += std::fabs(a(i, j)); c += std::fabs(a(j, i)); } if (r == 0 || c == 0) zero_line = true; }
	if (ok && lu.get_info() != 0) FAIL("get_info() is " << lu.get_info() << " for a non-singular matrix"); if (zero_line && lu.get_info() == 0) FAIL("get_info() does not flag a matrix with a zero row or column");
	if (ok) {
		for (int t = 0; t < 2; t++) { // right-hand sides
			int k = g.size(1, 5, 40); RM b = roundto<P>(gen_rm(g, n, k, g.pick(2))); g.note("B", show(b));
			RM at = a; LD sc = std::max(gt, ga) / std::max(ga, (LD)1e-300L);
			switch (g.pick(3)) {
				case 0: { RM b1(n, 1); RV v(n); for (int i = 0; i < n; i++) v[i] = b1(i, 0) = b(i, 0); with_vec<N, P, VK_ALL & ~VK_CSLICE>(g, v, [&](auto& w) { call_v<N, P>(lu, w, a, b1, n, sc); }); break; }
				case 1: { Matrix<N, Dynamic, P> B(n, k); put(B, b); auto X = lu.backsub(B); check_solution<P>(a, b, rm(X), "backsub(Matrix<N,Dynamic>)", 100 * sc); same(rm(B), b, 0, "right-hand sides passed"); break; }
				default: { RM b3 = roundto<P>(gen_rm(g, n, 3, 1)); with_mat<N, 3, P, MK_ALL & ~MK_DYN & ~MK_DYNCOL & ~MK_DSLICE & ~MK_DTSLICE & ~MK_DWRAP & ~MK_SEMI>(g, b3, [&](auto& B) { auto X = lu.backsub(B); check_solution<P>(a, b3, rm(X), "backsub(Matrix)", 100 * sc); same(rm(B), b3, 0, "right-hand sides passed"); }, false); }
			}
		}
		auto I = lu.get_inverse(); RM x = rm(I);
		RM xr = inv(a); same(x, xr, 500 * n * n * eps<P>() / rc * maxabs(xr) * std::max(gt, ga) / maxabs(a), "inverse");
	}
	// the packed factors
	RM p = rm(lu.get_lu()), lo(n, n), up(n, n), l1(n, n), u1(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { (j <= i ? lo : up)(i, j) = p(i, j); (j < i ? l1 : u1)(i, j) = p(i, j); } for (int i = 0; i < n; i++) { up(i, i) = 1; l1(i, i) = 1; }
	LD tol = 100 * n * eps<P>() * std::max(ga, gt); bool actual = permuted(a, mul(lo, up), tol, true), documented = permuted(a, mul(l1, u1), tol, false);
	if (!actual && !documented) FAIL("the packed factors " << p << " multiply back to no row or column permutation of " << a);
	if (g.chance(5) && !documented) { g.finding = "lu-packing"; FAIL("get_lu(): unit lower times upper factor is not a row permutation of the matrix; lower times unit upper is a column permutation of it: " << p << " from " << a); }
}
template<int N, class P> void lu_n(Gen& g, int n) {
	RM a = gen_square(g, n); a = roundto<P>(scale(a, extreme<P>(g))); if (g.chance(10)) { int i = g.pick(n); for (int j = 0; j < n; j++) (g.flag() ? a(i, j) : a(i, j)) = 0; } g.note("A", show(a));
	with_mat<N, N, P, MK_ALL>(g, a, [&](auto& m) {
		LU<N, P> lu(m); same(rm(m), a, 0, "decomposed matrix"); 
		if (g.chance(30)) { RM b = roundto<P>(gen_square(g, n)); Matrix<N, N, P> o(n, n); put(o, b); LU<N, P> other(o); if (g.flag()) other.get_inverse(); other.compute(m); examine<N, P>(g, other, a, n); } // reuse of one object
		else if (g.chance(20)) { LU<N, P> cp(lu); examine<N, P>(g, cp, a, n); }
		else examine<N, P>(g, lu, a, n);
	});
}
#if PART == 0
PROP(lu_static_double, 3) { switch (g.pick(4)) { case 0: lu_n<1, double>(g, 1); break; case 1: lu_n<2, double>(g, 2); break; case 2: lu_n<3, double>(g, 3); break; case 3: lu_n<6, double>(g, 6); break; } }
#endif
#if PART == 1
PROP(lu_static_float, 1) { switch (g.pick(2)) { case 0: lu_n<2, float>(g, 2); break; case 1: lu_n<4, float>(g, 4); break; } }
#endif
#if PART == 2
PROP(lu_dynamic, 3) { int n = g.size(1, 12, 30); lu_n<Dynamic, double>(g, n); }
#endif
#if PART == 3
PROP(lu_dynamic_float, 1) { int n = g.size(1, 6, 30); lu_n<Dynamic, float>(g, n); }
#endif
