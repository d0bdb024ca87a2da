// Generated matrices for the numerical checks, and reference quantities for their tolerances.
#pragma once
#include "kinds.h"
// kinds of square matrix; never discards
inline RM gen_square(Gen& g, int n) {
	int k = g.pick(14); static const char* nm[] = { "dense", "small integer", "permuted diagonal", "upper triangular", "lower triangular", "rank deficient", "zero leading pivots", "row scaled", "column scaled", "symmetric", "sparse", "prescribed spectrum", "two-sided scaled", "near singular" };
	g.tag(std::string("matrix ") + nm[k]); RM a = gen_dense(g, n, n);
	switch (k) {
		case 0: break;
		case 1: for (auto& x : a.a) x = g.small(5); break;
		case 2: { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[g.pick(i + 1)]); a = RM(n, n); for (int i = 0; i < n; i++) a(i, p[i]) = g.flag() ? g.range(1, 9) * (g.flag() ? 1 : -1) : g.logmag(1e-2, 1e2); break; }
		case 3: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a(i, j) = 0; break;
		case 4: for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) a(i, j) = 0; break;
		case 5: { int r = g.range(0, n - 1); RM u = gen_dense(g, n, r ? r : 1), v = gen_dense(g, r ? r : 1, n); if (g.flag()) { for (auto& x : u.a) x = g.small(3); for (auto& x : v.a) x = g.small(3); } a = r ? mul(u, v) : RM(n, n); break; }
		case 6: { int z = g.range(1, n); for (int i = 0; i < z; i++) for (int j = 0; j < z && i + j < n; j++) if (g.chance(70)) a(i, j) = 0; for (int i = 0; i < n; i++) if (g.chance(40)) a(i, i) = 0; break; }
		case 7: for (int i = 0; i < n; i++) { LD s = g.logpos(1e-6, 1e6); for (int j = 0; j < n; j++) a(i, j) *= s; } break;
		case 8: for (int j = 0; j < n; j++) { LD s = g.logpos(1e-6, 1e6); for (int i = 0; i < n; i++) a(i, j) *= s; } break;
		case 9: a = add(a, T(a)); break;
		case 10: for (auto& x : a.a) if (g.chance(60)) x = 0; else if (g.flag()) x = g.small(4); break;
		case 11: { RV s(n); for (auto& x : s) x = g.logpos(1e-4, 1e4); a = from_svd(gen_orth(g, n), s, gen_orth(g, n)); break; }
		case 12: for (int i = 0; i < n; i++) { LD s = g.logpos(1e-3, 1e3), t = g.logpos(1e-3, 1e3); for (int j = 0; j < n; j++) { a(i, j) *= s; a(j, i) *= t; } } break;
		case 13: { LD d = g.logpos(1e-9, 1e-2); if (n > 1) { int p = g.pick(n), q = g.pick(n); if (p != q) for (int j = 0; j < n; j++) a(p, j) = a(q, j) + d * a(p, j); } break; }
	}
	return a;
}
// now and then a factor far from one: squares of the elements leave the range of P, the elements, their reciprocals and reasonable multiples do not
template<class P> LD extreme(Gen& g, bool mild = false) {
	if (!g.chance(12) || (mild && sizeof(P) == 4)) return 1; g.tag("extreme magnitude"); int lo = sizeof(P) == 4 ? 12 : 100, hi = sizeof(P) == 4 ? 23 : 200; if (mild) lo = 40, hi = 80; int e = g.range(lo, hi); return std::pow(10.L, g.flag() ? e : -e);
}
// are products of n of the elements far from the limits of P?
template<class P> bool ordinary(const RM& a) { LD m = maxabs(a); return m == 0 || std::max(a.r, a.c) * std::fabs(std::log10(m)) < (sizeof(P) == 4 ? 25 : 200); }
// |L||U| of LU with partial pivoting (rows in the original order): the size of the backward error
inline RM lu_abs(RM a) {
	int n = a.r; std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
	for (int k = 0; k < n; k++) {
		int m = k; for (int i = k + 1; i < n; i++) if (std::fabs(a(i, k)) > std::fabs(a(m, k))) m = i;
		if (m != k) { std::swap(p[m], p[k]); for (int j = 0; j < n; j++) std::swap(a(m, j), a(k, j)); }
		if (a(k, k) == 0) continue;
		for (int i = k + 1; i < n; i++) { a(i, k) /= a(k, k); for (int j = k + 1; j < n; j++) a(i, j) -= a(i, k) * a(k, j); }
	}
	RM s(n, n);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD t = 0; for (int k = 0; k <= std::min(i, j); k++) t += (k == i ? 1 : std::fabs(a(i, k))) * std::fabs(a(k, j)); s(p[i], j) = t; }
	return s;
}
// size of the largest intermediate of elimination
inline LD growth(const RM& a) { return maxabs(lu_abs(a)); }
// how far the determinant can move under a backward error of 1 unit of |L||U|, to first order (Hadamard)
inline LD det_sensitivity(const RM& a) {
	int n = a.r; RM s = lu_abs(a); LD best = -1;
	for (int o = 0; o < 2; o++) {
		RM x = o ? T(a) : a, y = o ? T(s) : s; RV nr(n), ns(n); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { nr[i] += x(i, j) * x(i, j); ns[i] += y(i, j) * y(i, j); } nr[i] = std::sqrt(nr[i]); ns[i] = std::sqrt(ns[i]); }
		LD t = 0; for (int i = 0; i < n; i++) { LD p = ns[i]; for (int k = 0; k < n; k++) if (k != i) p *= std::max(nr[k], ns[k] * 1e-3L); t += p; }
		if (best < 0 || t < best) best = t;
	}
	return best;
}
// normwise residual tolerance of a backward stable solve
template<class P> void check_solution(const RM& a, const RM& b, const RM& x, const std::string& what, LD c = 50) {
	if (x.r != a.c || x.c != b.c) FAIL(what << ": solution is " << x.r << "x" << x.c);
	RM r = add(mul(a, x), b, -1); int n = a.r; LD ga = std::max(growth(a), maxabs(a));
	for (int j = 0; j < b.c; j++) { LD xm = 0, bm = 0; for (int i = 0; i < n; i++) { xm = std::max(xm, std::fabs(x(i, j))); bm = std::max(bm, std::fabs(b(i, j))); } LD tol = c * n * eps<P>() * (n * ga * xm + bm); for (int i = 0; i < n; i++) if (!(std::fabs(r(i, j)) <= tol)) FAIL(what << ": residual " << (double)r(i, j) << " in row " << i << " of right-hand side " << j << " exceeds " << (double)tol << " (A=" << a << " b=" << b << " x=" << x << ")"); }
}
// reciprocal condition in the infinity norm; 0 when singular
inline LD rcond(const RM& a) { RM x; if (!solve(a, RM::eye(a.r), x)) return 0; LD k = norminf(a) * norminf(x); return k > 0 && std::isfinite((double)k) ? 1 / k : 0; }
// kinds of r x c matrix, including the degenerate ones decompositions stumble over
inline RM gen_rect(Gen& g, int r, int c) {
	static const char* nm[] = { "dense", "small integer", "upper triangular", "identity-like", "zero", "rank deficient", "graded columns", "repeated columns", "zero columns", "prescribed spectrum", "scaled", "nearly upper triangular", "graded rows", "sparse", "lower triangular", "near rank deficient" };
	int k = g.pick(16), m = std::min(r, c); g.tag(std::string("matrix ") + nm[k]); RM a = gen_dense(g, r, c);
	switch (k) {
		case 1: for (auto& x : a.a) x = g.small(5); break;
		case 2: case 11: { LD e = k == 2 ? 0 : std::pow(10.L, -g.range(1, 20)); for (int i = 0; i < r; i++) for (int j = 0; j < std::min(i, c); j++) a(i, j) *= e; if (g.flag()) for (int i = 0; i < m; i++) a(i, i) = g.small(2); break; }
		case 3: a = RM(r, c); for (int i = 0; i < m; i++) a(i, i) = g.flag() ? 1 : g.small(3); break;
		case 4: a = RM(r, c); if (g.flag()) a(g.pick(r), g.pick(c)) = g.logmag(1e-3, 1e3); break;
		case 5: { int q = g.range(1, m); RM u(r, q), v(q, c); bool f = g.flag(); for (auto& x : u.a) x = f ? g.small(3) : g.uniform(-1, 1); for (auto& x : v.a) x = f ? g.small(3) : g.uniform(-1, 1); a = mul(u, v); break; }
		case 6: for (int j = 0; j < c; j++) { LD s = g.logpos(1e-8, 1e8); for (int i = 0; i < r; i++) a(i, j) *= s; } break;
		case 7: { int p = g.pick(c); LD s = g.flag() ? 1 : -2; for (int j = 0; j < c; j++) if (g.flag()) for (int i = 0; i < r; i++) a(i, j) = s * a(i, p); break; }
		case 8: for (int j = 0; j < c; j++) if (g.flag()) for (int i = 0; i < r; i++) a(i, j) = 0; break;
		case 9: { RV s(m); for (auto& x : s) x = g.chance(20) ? 0 : g.chance(30) ? 1 : (double)g.logpos(1e-4, 1e4); RM u = gen_orth(g, r), v = gen_orth(g, c); a = from_svd(u, s, v); break; }
		case 10: { LD s = g.logpos(1e-12, 1e12); a = scale(a, s); break; }
		case 12: for (int i = 0; i < r; i++) { LD s = g.logpos(1e-6, 1e6); for (int j = 0; j < c; j++) a(i, j) *= s; } break;
		case 13: for (auto& x : a.a) if (g.chance(65)) x = 0; else if (g.flag()) x = g.small(4); break;
		case 14: for (int i = 0; i < r; i++) for (int j = i + 1; j < c; j++) a(i, j) = 0; break;
		case 15: { int p = g.pick(c), q = g.pick(c); LD d = std::pow(10.L, -g.range(3, 17)); if (p != q) for (int i = 0; i < r; i++) a(i, p) = a(i, q) + d * a(i, p); break; }
		default: break;
	}
	return a;
}
inline LD colnorm(const RM& a, int j) { LD s = 0; for (int i = 0; i < a.r; i++) s += a(i, j) * a(i, j); return std::sqrt(s); }
inline void orthonormal_cols(const RM& q, LD tol, const std::string& what) { same(mul(T(q), q), RM::eye(q.c), tol, what + "^T " + what); }
