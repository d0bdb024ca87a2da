// V07: diagonal matrices act like the dense matrices they stand for.
#include "kinds.h"
#ifndef PART
#define PART 0
#endif
static RM dense(const RV& d) { RM m(d.size(), d.size()); for (int i = 0; i < m.r; i++) m(i, i) = d[i]; return m; }
template<class P> RV gd(Gen& g, int n) { RV d(n); for (auto& x : d) x = std::is_integral<P>::value ? g.small(9) : g.small(40) / 4.0; return d; }
// one case in four has finite values at the edges of the type
template<class P> RV ge(Gen& g, int n) { if (std::is_integral<P>::value || !g.chance(25)) return gd<P>(g, n); RV d(n); bool all = g.flag(); for (auto& x : d) x = all || g.flag() ? (LD)edge_value<P>(g, false) : g.small(9); return d; }
// now and then infinities and NaN too
template<class P> RV gx(Gen& g, int n) { RV d = ge<P>(g, n); if (!std::is_integral<P>::value && g.chance(12)) for (auto& x : d) if (g.chance(40)) x = (LD)edge_value<P>(g, true); return d; }
static bool equal(LD a, LD b) { return a == b || (a != a && b != b); }
static void kept(const RV& a, const RV& b, const char* what) { for (size_t i = 0; i < b.size(); i++) if (!equal(a[i], b[i])) FAIL(what << " changed"); }
template<class A> using elem_t = typename std::decay<A>::type;
template<class V> void nearv(const V& r, const RV& w, const char* what) { typedef elem_t<decltype(r[0])> P; if (r.size() != (int)w.size()) FAIL(what << ": size"); for (int i = 0; i < r.size(); i++) if (!nearly_value<P>(r[i], (P)w[i])) FAIL(what << ": element " << i << " is " << r[i] << " instead of " << (double)w[i]); }
template<class M> void nearm(const M& r, const RM& w, const char* what) { typedef elem_t<decltype(r(0, 0))> P; if (r.num_rows() != w.r || r.num_cols() != w.c) FAIL(what << ": shape"); for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) if (!nearly_value<P>(r(i, j), (P)w(i, j))) FAIL(what << ": entry (" << i << "," << j << ") is " << r(i, j) << " instead of " << (double)w(i, j)); }
template<class P> RM gdm(Gen& g, int r, int c) { RM d(r, c); for (auto& x : d.a) x = std::is_integral<P>::value ? g.small(9) : g.small(40) / 4.0; return d; }
static void nt(Gen& g, const RV& d) { bool b = false; for (size_t i = 1; i < d.size(); i++) if (d[i] != d[0]) b = true; g.nontrivial(b); }

// present a diagonal matrix with diagonal d in a generated form
template<int N, class P, class F> void with_diag(Gen& g, const RV& d, F&& f) {
	int n = d.size(); int k = g.pick(N > 0 ? 8 : 6);
	static const char* nm[] = { "DiagonalMatrix<>", "DiagonalMatrix<>(const)", "slice.as_diagonal()", "column.as_diagonal()", "const vector.as_diagonal()", "resizable.as_diagonal()", "DiagonalMatrix<N>", "static vector.as_diagonal()" };
	g.tag(std::string("form ") + nm[k]); g.note("form", nm[k]);
	switch (k) {
		case 0: { DiagonalMatrix<Dynamic, P> D(n); for (int i = 0; i < n; i++) D[i] = (P)d[i]; f(D); break; }
		case 1: { Vector<Dynamic, P> v(n); put(v, d); const DiagonalMatrix<Dynamic, P> D(v); f(D); break; }
		case 2: { Vector<Dynamic, P> w(n + 2); for (int i = 0; i < n + 2; i++) w[i] = (P)JUNK; auto s = w.slice(1, n); put(s, d); f(s.as_diagonal()); if (w[0] != (P)JUNK || w[n + 1] != (P)JUNK) FAIL("outside of the slice changed"); break; }
		case 3: { Matrix<Dynamic, Dynamic, P> m(n, 3); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) m(i, j) = (P)JUNK; auto t = m.T(); auto s = t[1]; put(s, d); f(s.as_diagonal()); break; }
		case 4: { Vector<Dynamic, P> v(n); put(v, d); const Vector<Dynamic, P>& c = v; f(c.as_diagonal()); break; }
		case 5: { Vector<Resizable, P> v(n); put(v, d); f(v.as_diagonal()); break; }
		case 6: if constexpr (N > 0) { DiagonalMatrix<N, P> D; for (int i = 0; i < n; i++) D[i] = (P)d[i]; f(D); } break;
		case 7: if constexpr (N > 0) { Vector<N, P> v; put(v, d); f(v.as_diagonal()); } break;
	}
}
template<class P> RM gem(Gen& g, int r, int c) { RM d(r, c); d.a = ge<P>(g, r * c); return d; }
template<class P> void unchanged(const P& D, const RV& d) { for (size_t i = 0; i < d.size(); i++) if (!equal(D[i], d[i])) FAIL("the diagonal itself changed"); }
const int VK = VK_STATIC | VK_DYN | VK_DSLICE | VK_COL | VK_RESIZ | VK_CONST;
template<int N, class P, class P2> void times_vector(Gen& g, int n) {
	RV d = gx<P>(g, n), x = gx<P2>(g, n), w(n); for (int i = 0; i < n; i++) w[i] = d[i] * x[i]; nt(g, d); g.note("d", show(d)); g.note("v", show(x)); bool left = g.flag(); g.tag(left ? "D*v" : "v*D");
	with_diag<N, P>(g, d, [&](const auto& D) { with_vec<N, P2, VK>(g, x, [&](auto& v) {
		if (left) { auto r = D * v; nearv(r, w, "D*v"); } else { auto r = v * D; nearv(r, w, "v*D"); }
		kept(rv(v), x, "operand v"); unchanged(D, d);
	}); });
}
template<int R, int C, class P, class P2, int K> void times_matrix(Gen& g, int r, int c) {
	bool left = g.flag(); int n = left ? r : c; RV d = gx<P>(g, n); RM x(r, c); x.a = gx<P2>(g, r * c); RM w(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) w(i, j) = left ? d[i] * x(i, j) : x(i, j) * d[j]; nt(g, d); g.note("d", show(d)); g.note("m", show(x)); g.tag(left ? "D*M" : "M*D");
	with_mat<R, C, P2, K>(g, x, [&](auto& m) {
		if (left) with_diag<R, P>(g, d, [&](const auto& D) { auto r = D * m; nearm(r, w, "D*M"); unchanged(D, d); });
		else with_diag<C, P>(g, d, [&](const auto& D) { auto r = m * D; nearm(r, w, "M*D"); unchanged(D, d); });
		kept(rm(m).a, x.a, "operand M");
	});
}
#if PART == 0
PROP(vector_double, 2) { if (g.flag()) times_vector<3, double, double>(g, 3); else times_vector<Dynamic, double, double>(g, g.size(0, 10, 40)); }
PROP(vector_mixed, 1) { if (g.flag()) times_vector<4, int, double>(g, 4); else times_vector<Dynamic, double, float>(g, g.size(1, 8, 40)); }
#endif
#if PART == 1
PROP(matrix_static, 2) { times_matrix<3, 2, double, double, MK_STATIC | MK_STATICCOL | MK_T | MK_SSLICE | MK_DSLICE | MK_CONST>(g, 3, 2); }
#endif
#if PART == 2
PROP(matrix_dynamic, 2) { times_matrix<Dynamic, Dynamic, double, double, MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE | MK_CONST>(g, g.size(0, 7, 40), g.size(0, 7, 40)); }
PROP(matrix_mixed, 1) { if (g.flag()) times_matrix<2, 4, double, int, MK_STATIC | MK_SEMI | MK_SEMICOL | MK_DYN>(g, 2, 4); else times_matrix<4, 4, float, double, MK_STATIC | MK_STATICCOL>(g, 4, 4); }
#endif
#if PART == 3
PROP(diag_diag, 2) {
	int n = g.flag() ? 3 : g.size(1, 8, 40); RV a = gx<double>(g, n), b = gx<double>(g, n), w(n); for (int i = 0; i < n; i++) w[i] = a[i] * b[i]; nt(g, a); g.note("a", show(a)); g.note("b", show(b)); g.tag("D*E");
	auto body = [&](const auto& A, const auto& B) { auto P = A * B; for (int i = 0; i < n; i++) if (!nearly_value<double>(P[i], (double)w[i])) FAIL("D*E: entry " << i << " is " << P[i] << " instead of " << (double)w[i]); if (P.my_vector.size() != n) FAIL("size"); nearv(P.diagonal_slice(), w, "diagonal of D*E"); Matrix<> m(n, n); m = Ones; m = P; bool fin = true; for (auto z : w) fin = fin && std::isfinite((double)z); if (fin) nearm(m, dense(w), "D*E as a matrix"); unchanged(A, a); unchanged(B, b); };
	DiagonalMatrix<> A1(n); for (int i = 0; i < n; i++) A1[i] = a[i];
	if (n == 3 && g.flag()) { DiagonalMatrix<3> A(vec<3>(a)); Vector<3> bv = vec<3>(b); switch (g.pick(4)) { case 0: { const DiagonalMatrix<3> B(bv); body(A, B); break; } case 1: { const Vector<3>& cb = bv; body(A, cb.as_diagonal()); break; } case 2: body(A1, bv.as_diagonal()); break; case 3: { DiagonalMatrix<> B(dvec(b)); body(A, B); break; } } }
	else { Vector<> bv = dvec(b); switch (g.pick(2)) { case 0: body(A1, bv.as_diagonal()); break; case 1: { const DiagonalMatrix<> B(bv); body(A1, B); break; } } }
}
PROP(unary, 2) {
	int n = g.flag() ? 3 : g.size(1, 8, 40); RV d = ge<double>(g, n); bool inv = g.flag(); if (inv) for (auto& x : d) if (x == 0) x = 0.5; RV w = d; for (auto& x : w) x = inv ? 1 / x : -x; for (auto& x : w) x = (double)x; nt(g, d); g.note("d", show(d)); g.tag(inv ? "D.inverse()" : "-D");
	auto chk = [&](const auto& D) { if (inv) { auto I = D.inverse(); for (int i = 0; i < n; i++) if (!nearly_value<double>(I[i], (double)w[i])) FAIL("inverse: entry " << i << " is " << I[i] << " instead of " << (double)w[i]); auto P = I * D; for (int i = 0; i < n; i++) if (std::isfinite(w[i]) && std::fabs(w[i]) > 1e-300L) CLOSE(P[i], 1, 1e-15, "D.inverse()*D"); } else { auto N = -D; for (int i = 0; i < n; i++) if (!same_value<double>(N[i], (double)w[i])) FAIL("-D: entry " << i); } unchanged(D, d); };
	if (n == 3) with_diag<3, double>(g, d, chk); else with_diag<Dynamic, double>(g, d, chk);
}
#endif
#if PART == 4
PROP(as_matrix, 2) {
	// assignment to a matrix of every form clears the rest
	int n = g.flag() ? 3 : g.size(1, 7, 40); RV d = ge<double>(g, n); RM z = gdm<double>(g, n, n); nt(g, d); g.note("d", show(d)); g.tag("M = D");
	if (n == 3) with_mat<3, 3, double, MK_STATIC | MK_STATICCOL | MK_T | MK_SSLICE | MK_DSLICE | MK_DYN | MK_SEMI>(g, z, [&](auto& m) { with_diag<3, double>(g, d, [&](const auto& D) { m = D; same(rm(m), dense(d), 0, "M = D"); unchanged(D, d); }); }, true);
	else with_mat<Dynamic, Dynamic, double, MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE>(g, z, [&](auto& m) { with_diag<Dynamic, double>(g, d, [&](const auto& D) { m = D; same(rm(m), dense(d), 0, "M = D"); unchanged(D, d); }); }, true);
}
PROP(construct, 2) {
	int n = g.range(1, 7); RV d = gd<double>(g, n), d3 = gd<double>(g, 3); nt(g, d); g.note("d", show(d)); g.tag("construction and copies");
	Vector<> v = dvec(d); DiagonalMatrix<> A(v); v *= 2; for (int i = 0; i < n; i++) if (A[i] != d[i]) FAIL("a diagonal matrix constructed from a vector shares its elements"); 
	DiagonalMatrix<> B(A); A[0] = 99; if (B[0] != d[0]) FAIL("copy of a diagonal matrix is not independent"); B.diagonal_slice()[n - 1] = 55; if (B[n - 1] != 55) FAIL("diagonal_slice does not alias");
	DiagonalMatrix<> E(n); for (int i = 0; i < n; i++) E[i] = 1; E = B; for (int i = 0; i < n - 1; i++) if (E[i] != d[i]) FAIL("assignment of a diagonal matrix");
	DiagonalMatrix<3> S(vec<3>(d3)); const DiagonalMatrix<3> CS(S); same(rv(CS.diagonal_slice()), d3, 0, "const diagonal_slice"); Matrix<3> M(S), M2 = CS; same(rm(M), dense(d3), 0, "Matrix(D)"); same(rm(M2), dense(d3), 0, "Matrix = D");
	DiagonalMatrix<3> F(Data((double)d3[0], (double)d3[1], (double)d3[2])); same(rv(F.diagonal_slice()), d3, 0, "D(Data)"); F = vec<3>(d3) * 2; for (int i = 0; i < 3; i++) if (F[i] != d3[i] * 2) FAIL("D = vector expression");
	DiagonalMatrix<3, float> H(vec<3>(d3)); for (int i = 0; i < 3; i++) if (H[i] != d3[i]) FAIL("float diagonal from double vector");
	DiagonalMatrix<> K(E.diagonal_slice()); for (int i = 0; i < n - 1; i++) if (K[i] != d[i]) FAIL("D(diagonal_slice)");
}
PROP(sharing, 2) {
	// a vector seen as a diagonal shares its elements, both ways
	int n = g.range(2, 6); RV x = gd<double>(g, n); g.nontrivial(); g.note("v", show(x)); g.tag("as_diagonal shares");
	auto body = [&](auto& v) { auto D = v.as_diagonal(); const auto& cv = v; auto CD = cv.as_diagonal();
		for (int s = 0; s < 6; s++) { int i = g.pick(n); double y = g.small(40) / 4.0; x[i] = y; switch (g.pick(4)) { case 0: v[i] = y; break; case 1: D[i] = y; break; case 2: D.diagonal_slice()[i] = y; break; case 3: v.as_diagonal()[i] = y; break; } 
			same(rv(v), x, 0, "vector"); for (int j = 0; j < n; j++) { if (D[j] != x[j]) FAIL("diagonal view element " << j); if (CD[j] != x[j]) FAIL("const diagonal view element " << j); } Matrix<> m(n, n); m = D; same(rm(m), dense(x), 0, "matrix of the view"); } };
	switch (g.pick(3)) { case 0: { Vector<> v = dvec(x); body(v); break; } case 1: { Matrix<> m(n, n + 1); m = Zeros; auto t = m.T(); auto v = t[n]; put(v, x); body(v); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m(i, j) != 0) FAIL("other columns changed"); break; } case 2: { Matrix<> m(n, n); m = Zeros; auto v = m.diagonal_slice(); put(v, x); body(v); same(rm(m), dense(x), 0, "matrix whose diagonal is viewed"); break; } }
}
PROP(chains, 1) {
	// M := D*M, M*D, D*M*E in place
	int n = g.range(1, 6), c = g.range(1, 6); RV d = gd<double>(g, n), e = gd<double>(g, c); RM x = gdm<double>(g, n, c); nt(g, d); g.tag("in place"); g.note("d", show(d)); g.note("m", show(x)); Matrix<> m = dmat(x); Vector<> dv = dvec(d), ev = dvec(e);
	RM w = x; switch (g.pick(4)) { case 0: m = dv.as_diagonal() * m; w = mul(dense(d), x); break; case 1: m = m * ev.as_diagonal(); w = mul(x, dense(e)); break; case 2: m = dv.as_diagonal() * m * ev.as_diagonal(); w = mul(mul(dense(d), x), dense(e)); break; case 3: m += dv.as_diagonal() * m; w = add(x, mul(dense(d), x)); break; }
	same(rm(m), w, 0, "in place");
	dv = dv.as_diagonal() * dv; for (int i = 0; i < n; i++) if (dv[i] != d[i] * d[i]) FAIL("v = v.as_diagonal()*v");
}
#endif
