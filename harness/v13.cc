// V13: everything built on vectors and matrices stops the program when it is handed
// operands of the wrong run-time size, and accepts the right ones.  Each case builds the
// objects of one call with generated sizes; whether they fit is decided by the table of
// what the call means, and the call must abort, or return, accordingly.
#include "common.h"
#include "abort.h"
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/determinant.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/optimization/downhill_simplex.h>
#include <TooN/optimization/conjugate_gradient.h>
#ifndef PART
#define PART 0
#endif
using namespace TooN;
namespace {
volatile double sink;
void judge(Gen& g, bool bad, const std::function<void()>& f, const std::string& what) {
	g.note("call", what); g.live(what); g.tag(bad ? "must abort" : "must succeed"); g.nontrivial(bad);
	bool a = aborts(f);
	if (a && !bad) FAIL("valid call aborted: " << what);
	if (!a && bad) FAIL("call with operands of the wrong size was not stopped: " << what);
}
template<class... A> std::string str(A... a) { std::ostringstream o; ((o << a), ...); return o.str(); }
// a size: the right one, or another close by (of which the smallest is one)
int other(Gen& g, int n) { if (n < 1) return g.range(1, 9); switch (g.pick(5)) { case 0: case 1: return n; case 2: return n + 1; case 3: return n > 1 ? n - 1 : n + 2; default: return g.range(0, 9); } }
Vector<> vec(int n) { Vector<> v(n); for (int i = 0; i < n; i++) v[i] = 0.5 + 0.25 * i; return v; }
// symmetric and positive definite where square, of full rank where not
Matrix<> mat(int r, int c) { Matrix<> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = 1.0 / (1 + i + j) + (i == j ? 3 : 0); return m; }
// the same matrix as part of a larger one, or read through another layout
template<class F> void as(Gen& g, int r, int c, F f) {
	switch (g.pick(4)) {
		case 0: { Matrix<> m = mat(r, c); f(m); break; }
		case 1: { Matrix<> big(r + 2, c + 1); big = Zeros; auto s = big.slice(1, 0, r, c); s = mat(r, c); f(s); break; }
		case 2: { Matrix<Dynamic, Dynamic, double, ColMajor> m = mat(r, c); f(m); break; }
		case 3: { Matrix<> t = mat(c, r); auto s = t.T(); f(s); break; }
	}
}
template<class F> void asv(Gen& g, int n, F f) {
	switch (g.pick(3)) {
		case 0: { Vector<> v = vec(n); f(v); break; }
		case 1: { Vector<> big(n + 2); big = Zeros; auto s = big.slice(1, n); s = vec(n); f(s); break; }
		case 2: { Matrix<> m(n, 3); m = Zeros; auto s = m.T()[1]; s = vec(n); f(s); break; }
	}
}
}
#if PART == 0
// ---- decompositions: of matrices which are not square, or not of the static size, or not of the size before
PROP(make, 4) {
	int n = g.range(1, 5), r = other(g, n), c = other(g, g.flag() ? r : n); if (r == 0 && c == 0) c = 1; std::string s = str(" of a ", r, "x", c, " matrix"), t = str(" to one made for ", n); bool sq = r == c;
	switch (g.pick(17)) {
		case 0: { Matrix<> m = mat(r, c); judge(g, !sq, [&] { Cholesky<> d(m); sink = d.rank(); }, "Cholesky<>" + s); break; }
		case 1: { Matrix<> m = mat(r, c); judge(g, !sq, [&] { Lapack_Cholesky<Dynamic> d(m); sink = d.rank(); }, "Lapack_Cholesky<>" + s); break; }
		case 2: as(g, r, c, [&](auto& m) { judge(g, !sq, [&] { LU<> d(m); sink = d.determinant(); }, "LU<>" + s); }); break;
		case 3: { Matrix<> m = mat(r, c); judge(g, !sq, [&] { SymEigen<> d(m); sink = d.get_evalues()[0]; }, "SymEigen<>" + s); break; }
		case 4: { Cholesky<> d(mat(n, n)); Matrix<> m = mat(r, c); judge(g, !sq || r != n, [&] { d.compute(m); sink = d.determinant(); }, "Cholesky<>: compute" + s + t); break; }
		case 5: { Lapack_Cholesky<Dynamic> d(mat(n, n)); Matrix<> m = mat(r, c); judge(g, !sq || r != n, [&] { d.compute(m); sink = d.determinant(); }, "Lapack_Cholesky<>: compute" + s + t); break; }
		case 6: { LU<> d(mat(n, n)); as(g, r, c, [&](auto& m) { judge(g, !sq || r != n, [&] { d.compute(m); sink = d.determinant(); }, "LU<>: compute" + s + t); }); break; }
		case 7: { SymEigen<> d(mat(n, n)); Matrix<> m = mat(r, c); judge(g, !sq || r != n, [&] { d.compute(m); sink = d.get_evalues()[0]; }, "SymEigen<>: compute" + s + t); break; }
		case 8: { SymEigen<> d(n); Matrix<> m = mat(r, c); judge(g, !sq || r != n, [&] { d.compute(m); sink = d.get_evalues()[0]; }, "SymEigen<>(size): compute" + s + t); break; }
		case 9: { int k = std::max(1, other(g, n)); SVD<> d(n, k); as(g, r, c, [&](auto& m) { judge(g, r != n || c != k, [&] { d.compute(m); sink = d.determinant(); }, str("SVD<>(", n, ", ", k, "): compute") + s); }); break; }
		case 10: as(g, r, c, [&](auto& m) { judge(g, r != 3 || c != 2, [&] { SVD<3, 2> d(m); sink = d.get_diagonal()[0]; }, "SVD<3,2>" + s); }); break;
		case 11: as(g, r, c, [&](auto& m) { judge(g, r != 3 || c != 3, [&] { LU<3> d(m); sink = d.determinant(); }, "LU<3>" + s); }); break;
		case 12: as(g, r, c, [&](auto& m) { judge(g, r != 2 || c != 4, [&] { SVD<2, 4> d(m); sink = d.get_diagonal()[0]; }, "SVD<2,4>" + s); }); break;
		case 13: { Cholesky<> d(n); Matrix<> m = mat(r, c); judge(g, !sq || r != n, [&] { d.compute(m); sink = d.determinant(); }, "Cholesky<>(size): compute" + s + t); break; }
		case 14: as(g, r, c, [&](auto& m) { judge(g, r != 3 || c != 4, [&] { QR<3, 4> d(m); sink = d.get_R()(0, 0); }, "QR<3,4>" + s); }); break;
		case 15: as(g, r, c, [&](auto& m) { judge(g, r != 3 || c != 2, [&] { QR_Lapack<3, 2> d(m); sink = d.get_R()(0, 0); }, "QR_Lapack<3,2>" + s); }); break;
		case 16: as(g, r, c, [&](auto& m) { judge(g, r != 4 || c != 4, [&] { SymEigen<4> d(m); sink = d.get_evalues()[0]; }, "SymEigen<4>" + s); }); break;
	}
}
PROP(square_only, 2) {
	int r = g.range(1, 5), c = other(g, r); std::string s = str(" of a ", r, "x", c, " matrix"); bool bad = r != c;
	as(g, r, c, [&](auto& m) { switch (g.pick(14)) {
		case 0: judge(g, bad, [&] { sink = determinant(m); }, "determinant" + s); break;
		case 1: judge(g, bad, [&] { sink = determinant_gaussian_elimination(m); }, "determinant_gaussian_elimination" + s); break;
		case 2: judge(g, bad, [&] { sink = determinant_LU(m); }, "determinant_LU" + s); break;
		case 3: judge(g, bad, [&] { sink = trace(m); }, "trace" + s); break;
		case 4: judge(g, bad, [&] { Symmetrize(m); }, "Symmetrize" + s); break;
		case 5: judge(g, bad, [&] { sink = TooN::exp(m)(0, 0); }, "exp" + s); break;
		case 6: judge(g, bad, [&] { sink = TooN::log(m)(0, 0); }, "log" + s); break;
		case 7: judge(g, bad, [&] { sink = TooN::sqrt(m)(0, 0); }, "sqrt" + s); break;
		case 8: judge(g, bad, [&] { m = Identity; }, "= Identity" + s); break;
		case 9: judge(g, bad, [&] { m += Identity; }, "+= Identity" + s); break;
		case 10: judge(g, bad, [&] { m -= Identity * 2; }, "-= Identity * 2" + s); break;
		case 11: judge(g, bad, [&] { Matrix<> x = m + Identity; }, "+ Identity" + s); break;
		case 12: judge(g, bad, [&] { Matrix<> x = Identity * 3 - m; }, "Identity * 3 -" + s); break;
		case 13: judge(g, bad, [&] { Matrix<> x = m - Identity; }, "- Identity" + s); break;
	} });
}
PROP(helper_sizes, 1) {
	int n = other(g, 3);
	asv(g, n, [&](auto& v) { switch (g.pick(4)) {
		case 0: judge(g, n != 3, [&] { sink = cross_product_matrix(v)(0, 1); }, str("cross_product_matrix of size ", n)); break;
		case 1: { DownhillSimplex<> d([](const Vector<>& x) { return x * x; }, vec(3), 1.); Vector<> c = vec(n); judge(g, n != 3, [&] { d.restart([](const Vector<>& x) { return x * x; }, c, 2.); }, str("DownhillSimplex of 3: restart at ", n)); break; }
		case 2: { Vector<> x = vec(3), d = vec(n); auto f = [](const Vector<>& p) { return p * p; }; judge(g, n != 3, [&] { ConjugateGradient<> c(x, f, d); sink = c.y; }, str("ConjugateGradient at 3 with gradient of ", n)); break; }
		case 3: { Vector<> x = vec(3), d = vec(3), d2 = vec(n); auto f = [](const Vector<>& p) { return p * p; }; ConjugateGradient<> c(x, f, d); judge(g, n != 3, [&] { c.init(d2, 1., d2); }, str("ConjugateGradient of 3: init at ", n)); break; }
	} });
}
#endif
#if PART == 1
// ---- right-hand sides
namespace {
template<class D> void rhs_all(Gen& g, D& d, int rows, const char* nm) {
	int k = other(g, rows), q = g.range(1, 4); std::string s = str(nm, ": backsub of size ", k, " where ", rows, " belongs");
	if (g.flag()) asv(g, k, [&](auto& v) { judge(g, k != rows, [&] { sink = d.backsub(v)[0]; }, s); });
	else as(g, k, q, [&](auto& m) { judge(g, k != rows, [&] { sink = d.backsub(m)(0, 0); }, str(s, "x", q)); });
}
}
PROP(right_hand_sides, 5) {
	int n = g.range(1, 5), c = g.range(1, 5);
	switch (g.pick(15)) {
		case 0: { Cholesky<> d(mat(n, n)); rhs_all(g, d, n, "Cholesky<>"); break; }
		case 1: { Cholesky<3> d(Matrix<3>(mat(3, 3))); rhs_all(g, d, 3, "Cholesky<3>"); break; }
		case 2: { Lapack_Cholesky<Dynamic> d(mat(n, n)); rhs_all(g, d, n, "Lapack_Cholesky<>"); break; }
		case 3: { Lapack_Cholesky<3> d(Matrix<3>(mat(3, 3))); rhs_all(g, d, 3, "Lapack_Cholesky<3>"); break; }
		case 4: { LU<> d(mat(n, n)); rhs_all(g, d, n, "LU<>"); break; }
		case 5: { LU<3> d(Matrix<3>(mat(3, 3))); rhs_all(g, d, 3, "LU<3>"); break; }
		case 6: { SVD<> d(mat(n, c)); rhs_all(g, d, n, "SVD<>"); break; }
		case 7: { SVD<3, 2> d(mat(3, 2)); rhs_all(g, d, 3, "SVD<3,2>"); break; }
		case 8: { SVD<2, 4> d(mat(2, 4)); rhs_all(g, d, 2, "SVD<2,4>"); break; }
		case 9: { SymEigen<> d(mat(n, n)); rhs_all(g, d, n, "SymEigen<>"); break; }
		case 10: { SymEigen<3> d(Matrix<3>(mat(3, 3))); rhs_all(g, d, 3, "SymEigen<3>"); break; }
		case 11: { GR_SVD<4, 3> d(Matrix<4, 3>(mat(4, 3))); rhs_all(g, d, 4, "GR_SVD<4,3>"); break; }
		case 12: { int r = other(g, n), q = other(g, n), k = std::max(1, other(g, n)); Matrix<> a = mat(r, q); Vector<> b = vec(k); judge(g, r != q || k != r, [&] { sink = gaussian_elimination(a, b)[0]; }, str("gaussian_elimination of ", r, "x", q, " with ", k)); break; }
		case 13: { int r = other(g, n), q = other(g, n), k = std::max(1, other(g, n)), l = g.range(1, 4); Matrix<> a = mat(r, q), b = mat(k, l); judge(g, r != q || k != r, [&] { sink = gaussian_elimination(a, b)(0, 0); }, str("gaussian_elimination of ", r, "x", q, " with ", k, "x", l)); break; }
		case 14: { int k = other(g, n); Vector<> v = vec(k); if (g.flag()) { Cholesky<> d(mat(n, n)); judge(g, k != n, [&] { sink = d.mahalanobis(v); }, str("Cholesky: mahalanobis of ", k, " for ", n)); } else { Lapack_Cholesky<Dynamic> d(mat(n, n)); judge(g, k != n, [&] { sink = d.mahalanobis(v); }, str("Lapack_Cholesky: mahalanobis of ", k, " for ", n)); } break; }
	}
}
// ---- least squares
PROP(least_squares, 4) {
	int n = g.range(1, 5), k = other(g, n), l = other(g, n); std::string s = str(" for ", n, " parameters: ");
	WLS<> w(n); w.clear(); w.add_prior(1.); IRLS<Dynamic, double, RobustI> ir(n); ir.clear(); ir.sd_inlier = 1; ir.add_prior(1.);
	switch (g.pick(12)) {
		case 0: asv(g, k, [&](auto& v) { judge(g, k != n, [&] { w.add_mJ(1., v); }, str("add_mJ", s, "Jacobian of ", k)); }); break;
		case 1: asv(g, k, [&](auto& v) { judge(g, k != n, [&] { w.add_prior(v); }, str("add_prior", s, "vector of ", k)); }); break;
		case 2: as(g, k, l, [&](auto& m) { judge(g, k != n || l != n, [&] { w.add_prior(m); }, str("add_prior", s, "matrix ", k, "x", l)); }); break;
		case 3: { int q = g.range(1, 4), q2 = other(g, q); Vector<> v = vec(q); as(g, q2, k, [&](auto& m) { judge(g, q != q2 || k != n, [&] { w.add_mJ(v, m); }, str("add_mJ", s, q, " measurements, Jacobian ", q2, "x", k)); }); break; }
		case 4: { int q = g.range(1, 4), q2 = other(g, q), a = other(g, q), b = other(g, q); Vector<> v = vec(q); Matrix<> J = mat(k, q2), C = mat(a, b); judge(g, q != q2 || k != n || a != q || b != q, [&] { w.add_mJ(v, J, C); }, str("add_mJ", s, q, " measurements, Jacobian ", k, "x", q2, ", covariance ", a, "x", b)); break; }
		case 5: { int q = g.range(1, 4), q2 = other(g, q), a = other(g, q), b = other(g, q); Vector<> v = vec(q); Matrix<> J = mat(q2, k), C = mat(a, b); judge(g, q != q2 || k != n || a != q || b != q, [&] { w.add_mJ_rows(v, J, C); }, str("add_mJ_rows", s, q, " measurements, Jacobian ", q2, "x", k, ", covariance ", a, "x", b)); break; }
		case 6: { WLS<> x(k); x.clear(); judge(g, k != n, [&] { w += x; }, str("+=", s, "others ", k)); break; }
		case 7: asv(g, k, [&](auto& v) { judge(g, k != n, [&] { ir.add_mJ(1., v); }, str("IRLS: add_mJ", s, "Jacobian of ", k)); }); break;
		case 8: { IRLS<Dynamic, double, RobustI> x(k); x.clear(); x.sd_inlier = 1; judge(g, k != n, [&] { ir += x; }, str("IRLS: +=", s, "others ", k)); break; }
		case 9: { WLS<3> y; y.clear(); y.add_prior(1.); asv(g, k, [&](auto& v) { judge(g, k != 3, [&] { y.add_mJ(1., v); }, str("WLS<3>: add_mJ, Jacobian of ", k)); }); break; }
		case 10: { int q = g.range(1, 3), q2 = other(g, q), a = other(g, q), b = other(g, q), sz = g.range(1, n), at = g.range(0, n - sz); Vector<> v = vec(q); Matrix<> J = mat(q2, sz), C = mat(a, b); judge(g, q != q2 || a != q || b != q, [&] { w.add_sparse_mJ_rows(v, J, at, C); }, str("add_sparse_mJ_rows", s, q, " measurements, Jacobian ", q2, "x", sz, " at ", at, ", covariance ", a, "x", b)); break; }
#ifdef TOON_CHECK_BOUNDS
		case 11: { int sz = g.range(1, 4), at = g.range(-2, n + 1), q = 2; bool bad = at < 0 || at + sz > n; if (g.flag()) { Vector<> J = vec(sz); judge(g, bad, [&] { w.add_sparse_mJ(1., J, at); }, str("add_sparse_mJ", s, "Jacobian of ", sz, " at ", at)); } else { Matrix<> J = mat(q, sz), C = mat(q, q); Vector<> v = vec(q); judge(g, bad, [&] { w.add_sparse_mJ_rows(v, J, at, C); }, str("add_sparse_mJ_rows", s, "Jacobian of ", sz, " at ", at)); } break; }
#endif
		default: { int q = g.range(1, 3), q2 = other(g, q), q3 = other(g, q), a = other(g, q), b = other(g, q), sz = n > 1 ? g.range(1, n - 1) : 1; if (n < 2) { judge(g, k != n, [&] { w += WLS<>(k); }, str("+=", s, "others ", k)); break; } int sz2 = g.range(1, n - sz); Vector<> v = vec(q); Matrix<> J = mat(q2, sz), J2 = mat(q3, sz2), C = mat(a, b); judge(g, q != q2 || q != q3 || a != q || b != q, [&] { w.add_sparse_mJ_rows(v, J, 0, J2, sz, C); }, str("add_sparse_mJ_rows", s, q, " measurements, Jacobians ", q2, "x", sz, ", ", q3, "x", sz2, ", covariance ", a, "x", b)); break; }
	}
}
#endif
#if PART == 2
// ---- groups: vectors of the algebra, points, and matrices of either
namespace {
// hom: size of the vectors and matrices the element acts on; alg: parameters (0: exp takes no vector)
template<class G> void group_calls(Gen& g, const char* nm, int hom, int alg, G& e) {
	int k = other(g, hom), a = other(g, alg), b = other(g, alg), q = g.range(1, 4); std::string s = str(nm, ": "); const char* of = " where ";
	switch (g.pick(4)) {
		case 0: asv(g, k, [&](auto& v) { judge(g, k != hom, [&] { sink = (e * v)[0]; }, str(s, "element * vector of ", k, of, hom)); }); break;
		case 1: asv(g, k, [&](auto& v) { judge(g, k != hom, [&] { sink = (v * e)[0]; }, str(s, "vector * element of ", k, of, hom)); }); break;
		case 2: as(g, k, q, [&](auto& m) { judge(g, k != hom, [&] { sink = (e * m)(0, 0); }, str(s, "element * matrix ", k, "x", q, of, hom)); }); break;
		case 3: as(g, q, k, [&](auto& m) { judge(g, k != hom, [&] { sink = (m * e)(0, 0); }, str(s, "matrix ", q, "x", k, " * element", of, hom)); }); break;
	}
	(void)a; (void)b;
}
template<class G> void algebra_calls(Gen& g, const char* nm, int alg) {
	int a = other(g, alg); std::string s = str(nm, ": ");
	asv(g, a, [&](auto& v) { if (g.flag()) judge(g, a != alg, [&] { G e = G::exp(v); }, str(s, "exp of ", a, " where ", alg)); else judge(g, a != alg, [&] { G e(v); }, str(s, "constructed from ", a, " where ", alg)); });
}
template<class G> void adjoint_calls(Gen& g, const char* nm, int alg, G& e) {
	int a = other(g, alg), b = other(g, alg); std::string s = str(nm, ": ");
	if (g.flag()) asv(g, a, [&](auto& v) { judge(g, a != alg, [&] { sink = e.adjoint(v)[0]; }, str(s, "adjoint of ", a, " where ", alg)); });
	else as(g, a, b, [&](auto& m) { judge(g, a != alg || b != alg, [&] { sink = e.adjoint(m)(0, 0); }, str(s, "adjoint of ", a, "x", b, " where ", alg)); });
}
template<class G> void coadjoint_calls(Gen& g, const char* nm, int alg, G& e) {
	int a = other(g, alg), b = other(g, alg); std::string s = str(nm, ": ");
	if (g.flag()) asv(g, a, [&](auto& v) { judge(g, a != alg, [&] { sink = e.trinvadjoint(v)[0]; }, str(s, "trinvadjoint of ", a, " where ", alg)); });
	else as(g, a, b, [&](auto& m) { judge(g, a != alg || b != alg, [&] { sink = e.trinvadjoint(m)(0, 0); }, str(s, "trinvadjoint of ", a, "x", b, " where ", alg)); });
}
}
PROP(group_operands, 4) {
	switch (g.pick(8)) {
		case 0: { SO2<> e(0.5); group_calls(g, "SO2", 2, 1, e); break; }
		case 1: { SO3<> e(makeVector(.1, .2, .3)); group_calls(g, "SO3", 3, 3, e); break; }
		case 2: { SE2<> e(makeVector(.1, .2, .3)); group_calls(g, "SE2", 3, 3, e); break; }
		case 3: { SE3<> e(makeVector(.1, .2, .3, .4, .5, .6)); group_calls(g, "SE3", 4, 6, e); break; }
		case 4: { SIM2<> e(makeVector(.1, .2, .3, .4)); group_calls(g, "SIM2", 3, 4, e); break; }
		case 5: { SIM3<> e(makeVector(.1, .2, .3, .4, .5, .6, .7)); group_calls(g, "SIM3", 4, 7, e); break; }
		case 6: { SL<3> e(makeVector(.1, .2, .3, .4, .5, .6, .7, .8)); group_calls(g, "SL<3>", 3, 8, e); break; }
		case 7: { SL<2> e(makeVector(.1, .2, .3)); group_calls(g, "SL<2>", 2, 3, e); break; }
	}
}
PROP(algebra_operands, 2) {
	switch (g.pick(7)) {
		case 0: algebra_calls<SO3<>>(g, "SO3", 3); break;
		case 1: algebra_calls<SE2<>>(g, "SE2", 3); break;
		case 2: algebra_calls<SE3<>>(g, "SE3", 6); break;
		case 3: algebra_calls<SIM2<>>(g, "SIM2", 4); break;
		case 4: algebra_calls<SIM3<>>(g, "SIM3", 7); break;
		case 5: algebra_calls<SL<3>>(g, "SL<3>", 8); break;
		case 6: algebra_calls<SL<2>>(g, "SL<2>", 3); break;
	}
}
PROP(adjoint_operands, 2) {
	SE2<> e2(makeVector(.1, .2, .3)); SE3<> e3(makeVector(.1, .2, .3, .4, .5, .6)); SIM2<> m2(makeVector(.1, .2, .3, .4)); SIM3<> m3(makeVector(.1, .2, .3, .4, .5, .6, .7)); SO3<> o3(makeVector(.1, .2, .3));
	switch (g.pick(7)) {
		case 0: adjoint_calls(g, "SE2", 3, e2); break;
		case 1: adjoint_calls(g, "SE3", 6, e3); break;
		case 2: adjoint_calls(g, "SIM2", 4, m2); break;
		case 3: adjoint_calls(g, "SIM3", 7, m3); break;
		case 4: coadjoint_calls(g, "SE3", 6, e3); break;
		case 5: coadjoint_calls(g, "SIM3", 7, m3); break;
		case 6: { int a = other(g, 3); asv(g, a, [&](auto& v) { judge(g, a != 3, [&] { sink = o3.adjoint(v)[0]; }, str("SO3: adjoint of ", a)); }); break; }
	}
}
PROP(rotation_operands, 1) {
	int a = other(g, 3), b = other(g, 3);
	switch (g.pick(4)) {
		case 0: asv(g, a, [&](auto& v) { asv(g, b, [&](auto& w) { judge(g, a != 3 || b != 3, [&] { SO3<> r(v, w); }, str("SO3 from one vector of ", a, " to another of ", b)); }); }); break;
		case 1: as(g, a, b, [&](auto& m) { judge(g, a != 3 || b != 3, [&] { SO3<> r(m); }, str("SO3 of a matrix ", a, "x", b)); }); break;
		case 2: { int c = other(g, 2), d = other(g, 2); as(g, c, d, [&](auto& m) { judge(g, c != 2 || d != 2, [&] { SO2<> r; r = m; }, str("SO2 = matrix ", c, "x", d)); }); break; }
		case 3: as(g, a, b, [&](auto& m) { judge(g, a != 3 || b != 3, [&] { SL<3> r(m); }, str("SL<3> of a matrix ", a, "x", b)); }); break;
	}
}
#endif
