// F02: forward automatic differentiation (functions/fadbad.h) through vectors, matrices and groups
#include "num.h"
#include <TooN/functions/fadbad.h>
#include <TooN/determinant.h>
#include <TooN/Cholesky.h>
#ifndef PART
#define PART 0
#endif
using fadbad::F;
template<class P, unsigned D> struct AD { typedef F<P, D> T; static constexpr unsigned d = D; static const char* name() { return D ? "number of derivatives fixed" : "number of derivatives at run time"; } };
// makers of either kind
template<class P, unsigned D> auto mk_vec(const auto& v, int start, int size) { if constexpr (D) return make_fad_vector<D>(v, start); else return make_fad_vector(v, start, size); }
#define MAKER(x) template<class P, unsigned D> auto mk_##x(int start, int size) { if constexpr (D) return make_fad_##x<P, D>(start); else return make_fad_##x<P>(start, size); } \
	template<class P, unsigned D> auto left_##x(const auto& t, int start, int size) { if constexpr (D) return make_left_fad_##x<P, D>(t, start); else return make_left_fad_##x<P>(t, start, size); }
MAKER(so2) MAKER(so3) MAKER(se2) MAKER(se3)
template<class M> RM values(const M& m) { RM r(m.num_rows(), m.num_cols()); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r(i, j) = m(i, j).val(); return r; }
template<class M> RM derivs(const M& m, int k) { RM r(m.num_rows(), m.num_cols()); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r(i, j) = m(i, j).deriv(k); return r; }
inline void near(const RM& a, const RM& b, LD tol, const std::string& what) { if (a.r != b.r || a.c != b.c) FAIL(what << ": size " << a.r << "x" << a.c); for (size_t i = 0; i < a.a.size(); i++) CLOSE(a.a[i], b.a[i], tol, what << ": " << a << " but should be " << b); }
// elements as homogeneous matrices; the generators: translations first, then rotations
struct GSO2 { enum { NP = 1, H = 2 }; template<class G> static auto parts(const G& g) { return std::make_pair(g.get_matrix(), 0); } };
inline RM rotgen(int n, int i, int h) { RM m(h, h); if (n == 2) { m(0, 1) = -1; m(1, 0) = 1; } else { int a = (i + 1) % 3, b = (i + 2) % 3; m(b, a) = 1; m(a, b) = -1; } return m; }
template<int N, bool R> struct Grp { // N dimensions; R: rotation only
	static constexpr int NR = N == 2 ? 1 : 3, NP = R ? NR : NR + N, H = R ? N : N + 1;
	static RM generator(int i) { if (R) return rotgen(N, i, H); if (i < N) { RM m(H, H); m(i, N) = 1; return m; } return rotgen(N, i - N, H); }
	template<class X> static RM hom(const X& g, int k) { RM m = RM(H, H); auto get = [&](const auto& f) { return k < 0 ? (LD)f.val() : (LD)f.deriv(k); }; if constexpr (R) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = get(g.get_matrix()(i, j)); } else { for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) m(i, j) = get(g.get_rotation().get_matrix()(i, j)); m(i, N) = get(g.get_translation()[i]); } m(N, N) = k < 0; } return m; }
	template<class X> static RM plain(const X& g) { RM m = RM(H, H); if constexpr (R) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) m(i, j) = g.get_matrix()(i, j); } else { for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) m(i, j) = g.get_rotation().get_matrix()(i, j); m(i, N) = g.get_translation()[i]; } m(N, N) = 1; } return m; }
	template<class P> static auto element(Gen& g) { Vector<NP, P> v; for (int i = 0; i < NP; i++) v[i] = (P)(g.pick(4) == 0 ? g.small(2) : g.uniform(-3, 3)); g.note("element", v); if constexpr (N == 2 && R) return SO2<P>(v[0]); else if constexpr (R) return SO3<P>(v); else if constexpr (N == 2) return SE2<P>(v); else return SE3<P>(v); }
	template<class P, unsigned D> static auto make(int s, int z) { if constexpr (N == 2 && R) return mk_so2<P, D>(s, z); else if constexpr (R) return mk_so3<P, D>(s, z); else if constexpr (N == 2) return mk_se2<P, D>(s, z); else return mk_se3<P, D>(s, z); }
	template<class P, unsigned D> static auto left(const auto& t, int s, int z) { if constexpr (N == 2 && R) return left_so2<P, D>(t, s, z); else if constexpr (R) return left_so3<P, D>(t, s, z); else if constexpr (N == 2) return left_se2<P, D>(t, s, z); else return left_se3<P, D>(t, s, z); }
	static RM inv(const RM& m) { RM x; solve(m, RM::eye(H), x); return x; }
	template<class P, unsigned D> static void run(Gen& g) {
		int all = D ? D : NP + g.range(0, 3), start = g.range(0, all - NP); g.note("start", start); g.note("derivatives", all); g.tag(AD<P, D>::name()); g.tag("starts after the first", start > 0); LD e = 64 * eps<P>(); std::string what;
		auto id = make<P, D>(start, all); near(hom(id, -1), RM::eye(H), 0, "identity"); for (int k = 0; k < all; k++) near(hom(id, k), k >= start && k < start + NP ? generator(k - start) : RM(H, H), 0, "derivative of the identity with respect to parameter " + std::to_string(k));
		auto t = element<P>(g), t2 = element<P>(g); RM T = plain(t), U = plain(t2); LD s = 1 + maxabs(T), su = 1 + maxabs(U); auto l = left<P, D>(t, start, all); near(hom(l, -1), T, e * s, "element"); for (int k = 0; k < all; k++) near(hom(l, k), k >= start && k < start + NP ? mul(generator(k - start), T) : RM(H, H), e * s, "derivative of the element with respect to parameter " + std::to_string(k));
		Vector<N, P> x; for (int i = 0; i < N; i++) x[i] = (P)g.small(4); RM xh(H, 1); for (int i = 0; i < N; i++) xh(i, 0) = x[i]; if (!R) xh(N, 0) = 1; int op = g.pick(5); g.note("operation", op); g.note("x", x);
		auto point = [&](const auto& y, auto want, LD sz) { RM v(N, 1); for (int i = 0; i < N; i++) v(i, 0) = y[i].val(); RM w = want(-1); for (int i = 0; i < N; i++) CLOSE(v(i, 0), w(i, 0), e * sz, "coordinate " << i << " of the image"); auto J = get_jacobian(y); if (J.num_rows() != N || J.num_cols() != all) FAIL("Jacobian is " << J.num_rows() << "x" << J.num_cols()); for (int k = 0; k < all; k++) { bool in = k >= start && k < start + NP; RM d = in ? want(k - start) : RM(H, 1); for (int i = 0; i < N; i++) { CLOSE(J(i, k), d(i, 0), e * sz, "Jacobian, row " << i << " column " << k); if (J(i, k) != get_derivative(y, k)[i]) FAIL("derivative and Jacobian differ"); } } };
		LD xs = 1 + maxabs(xh);
		if (op == 0) point(l * x, [&](int k) { return mul(k < 0 ? T : mul(generator(k), T), xh); }, s * xs);
		else if (op == 1) { auto p = l * t2; for (int k = -1; k < all; k++) near(hom(p, k), k < 0 ? mul(T, U) : k >= start && k < start + NP ? mul(generator(k - start), mul(T, U)) : RM(H, H), 4 * e * s * su, "product"); }
		else if (op == 2) { RM I = inv(T); point(l.inverse() * x, [&](int k) { return k < 0 ? mul(I, xh) : scale(mul(I, mul(generator(k), xh)), -1); }, 4 * s * s * xs); }
		else if (op == 3) { auto p = t2 * l; RM UT = mul(U, T); for (int k = -1; k < all; k++) near(hom(p, k), k < 0 ? UT : k >= start && k < start + NP ? mul(U, mul(generator(k - start), T)) : RM(H, H), 4 * e * s * su, "product from the left"); }
		else { Vector<N, typename AD<P, D>::T> xf; for (int i = 0; i < N; i++) xf[i] = x[i]; auto p = l; p *= make<P, D>(start, all); RM TG; point(p * xf, [&](int k) { return mul(k < 0 ? T : add(mul(generator(k), T), mul(T, generator(k))), xh); }, 4 * s * xs); }
		g.nontrivial();
	}
	// start and size left to their defaults: the first parameter, and exactly the element's own parameters
	template<class P, unsigned D> static auto make0() { if constexpr (D) { if constexpr (N == 2 && R) return make_fad_so2<P, D>(); else if constexpr (R) return make_fad_so3<P, D>(); else if constexpr (N == 2) return make_fad_se2<P, D>(); else return make_fad_se3<P, D>(); } else { if constexpr (N == 2 && R) return make_fad_so2<P>(); else if constexpr (R) return make_fad_so3<P>(); else if constexpr (N == 2) return make_fad_se2<P>(); else return make_fad_se3<P>(); } }
	template<class P, unsigned D> static auto left0(const auto& t) { if constexpr (D) { if constexpr (N == 2 && R) return make_left_fad_so2<P, D>(t); else if constexpr (R) return make_left_fad_so3<P, D>(t); else if constexpr (N == 2) return make_left_fad_se2<P, D>(t); else return make_left_fad_se3<P, D>(t); } else { if constexpr (N == 2 && R) return make_left_fad_so2<P>(t); else if constexpr (R) return make_left_fad_so3<P>(t); else if constexpr (N == 2) return make_left_fad_se2<P>(t); else return make_left_fad_se3<P>(t); } }
	template<class P, unsigned D> static void defaults(Gen& g) {
		g.tag("start and size by default"); int all = D ? D : NP; auto id = make0<P, D>(); for (int k = -1; k < all; k++) near(hom(id, k), k < 0 ? RM::eye(H) : k < NP ? generator(k) : RM(H, H), 0, "identity made without start and size, derivative " + std::to_string(k));
		auto t = element<P>(g); RM T = plain(t); LD tol = 64 * eps<P>() * (1 + maxabs(T)); auto l = left0<P, D>(t); for (int k = -1; k < all; k++) near(hom(l, k), k < 0 ? T : k < NP ? mul(generator(k), T) : RM(H, H), tol, "element made without start and size, derivative " + std::to_string(k));
		Vector<N, P> x; for (int i = 0; i < N; i++) x[i] = (P)g.small(4); g.note("x", x); auto J = get_jacobian(l * x); if (J.num_rows() != N || J.num_cols() != all) FAIL("Jacobian of an image by an element made without start and size is " << J.num_rows() << "x" << J.num_cols() << ", not " << N << "x" << all); g.nontrivial();
	}
};
#if PART == 0
PROP(fad_so2, 1) { switch (g.pick(6)) { case 0: Grp<2, true>::defaults<double, 0>(g); break; case 1: Grp<2, true>::defaults<double, 2>(g); break; case 2: case 3: Grp<2, true>::run<double, 2>(g); break; default: Grp<2, true>::run<double, 0>(g); } }
PROP(fad_so3, 2) { switch (g.pick(6)) { case 0: Grp<3, true>::defaults<double, 0>(g); break; case 1: Grp<3, true>::defaults<double, 5>(g); break; case 2: case 3: Grp<3, true>::run<double, 5>(g); break; default: Grp<3, true>::run<double, 0>(g); } }
PROP(fad_se2, 1) { switch (g.pick(6)) { case 0: Grp<2, false>::defaults<double, 0>(g); break; case 1: Grp<2, false>::defaults<double, 4>(g); break; case 2: case 3: Grp<2, false>::run<double, 4>(g); break; default: Grp<2, false>::run<double, 0>(g); } }
#endif
#if PART == 1
PROP(fad_se3, 2) { switch (g.pick(5)) { case 3: Grp<3, false>::defaults<double, 0>(g); break; case 4: Grp<3, false>::defaults<double, 8>(g); break; case 0: Grp<3, false>::run<double, 8>(g); break; case 1: Grp<3, false>::run<double, 0>(g); break; case 2: Grp<3, false>::run<float, 6>(g); break; } }
#endif
#if PART == 2
// values, derivatives and Jacobians of v = c + J p are c and J
template<int N, class P, unsigned D> void extract(Gen& g, int n) {
	int all = D ? D : g.range(1, 5); RM J(n, all); RV c(n); bool first = g.chance(30); for (int i = 0; i < n; i++) { c[i] = (P)g.real(); if (!(first && i == 0)) for (int k = 0; k < all; k++) J(i, k) = g.pick(3) ? g.small(4) : (LD)(P)g.uniform(-2, 2); }
	g.note("values", show(c)); g.note("derivatives", J); g.tag("first element constant", first); g.tag(AD<P, D>::name()); typedef typename AD<P, D>::T T; Vector<N, T> v(n); std::vector<T> p(all); for (int k = 0; k < all; k++) { p[k] = 0; if constexpr (D > 0) p[k].diff(k); else p[k].diff(k, all); }
	for (int i = 0; i < n; i++) { v[i] = T((P)c[i]); if (!(first && i == 0)) for (int k = 0; k < all; k++) v[i] += T((P)J(i, k)) * p[k]; }
	auto look = [&](const auto& w) { if (rv(get_value(w)) != c) FAIL("values " << show(rv(get_value(w)))); bool any = !(D == 0 && first && n == 1); for (int k = 0; k < all; k++) { RV d = rv(get_derivative(w, k)); if ((int)d.size() != n) FAIL("derivative of " << n << " elements has " << d.size()); for (int i = 0; i < n; i++) if (d[i] != J(i, k)) FAIL("derivative " << k << " is " << show(d)); } if (!any) return; RM j = rm(get_jacobian(w)); if (j.r != n || j.c != all || j.a != J.a) FAIL("Jacobian " << j << " but should be " << J); };
	look(v); Matrix<Dynamic, Dynamic, T> hold(n + 1, 2); for (int i = 0; i < n; i++) hold(i + 1, 1) = v[i]; look(hold.T()[1].slice(1, n));
	Matrix<N, 2, T> m(n, 2); for (int i = 0; i < n; i++) { m(i, 0) = v[i] * v[n - 1]; m(i, 1) = v[i] * T(2); } auto mat = [&](const auto& q, bool tr) { for (int k = 0; k < all; k++) { RM d = rm(get_derivative(q, k)); if (tr) d = ::T(d); if (d.r != n || d.c != 2) FAIL("derivative of a matrix is " << d.r << "x" << d.c); for (int i = 0; i < n; i++) { CLOSE(d(i, 0), c[i] * J(n - 1, k) + J(i, k) * c[n - 1], 4 * eps<P>() * (std::fabs(c[i] * J(n - 1, k)) + std::fabs(J(i, k) * c[n - 1])), "derivative of a matrix"); if (d(i, 1) != 2 * J(i, k)) FAIL("derivative of a matrix, second column"); } } }; mat(m, false); mat(m.T(), true);
	g.nontrivial(n > 1);
}
PROP(fad_extract, 2) { switch (g.pick(6)) { case 0: extract<3, double, 4>(g, 3); break; case 1: extract<3, double, 0>(g, 3); break; case 2: extract<Dynamic, double, 3>(g, g.range(1, 6)); break; case 3: extract<Dynamic, double, 0>(g, g.range(1, 6)); break; case 4: extract<1, double, 1>(g, 1); break; case 5: extract<2, float, 2>(g, 2); break; } }
template<int N, class P, unsigned D> void make(Gen& g) {
	int all = D ? D : g.range(1, 7), start = g.range(0, all); Vector<N, P> v; for (int i = 0; i < N; i++) v[i] = (P)g.real(); g.note("v", v); g.note("start", start); g.note("derivatives", all); g.tag("does not fit", start + N > all); auto f = mk_vec<P, D>(v, start, all); for (int i = 0; i < N; i++) { if (f[i].val() != v[i]) FAIL("value of element " << i); for (int k = 0; k < all; k++) if (f[i].deriv(k) != (k == start + i)) FAIL("derivative of element " << i << " with respect to parameter " << k << " is " << f[i].deriv(k)); } 
	if (start == 0 && !D && all >= N) { auto d = make_fad_vector(v); for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) if (d[i].deriv(k) != (i == k)) FAIL("derivatives with default parameters"); } g.nontrivial();
}
PROP(fad_vector, 1) { switch (g.pick(4)) { case 0: make<3, double, 5>(g); break; case 1: make<4, double, 0>(g); break; case 2: make<2, float, 2>(g); break; case 3: make<1, double, 0>(g); break; } }
#endif
#if PART == 3
// results of library operations on automatic differentiation numbers against central differences of the same operations in long double
template<class T> Vector<3, T> operation(int op, const Vector<6, T>& p) {
	Vector<3, T> a = p.template slice<0, 3>(), b = p.template slice<3, 3>(); Matrix<3, 3, T> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = a[i] * b[j] + (i == j ? T(15) : T(0)); 
	switch (op) {
	case 0: return a + b * (a * b) - b / 2; case 1: return a ^ b; case 2: return m * a + 2 * b; case 3: return (a + 3 * b) / norm(b + makeVector<T>(5., 0., 0.)); case 4: return unit(a + makeVector<T>(0., 7., 0.)); case 5: return makeVector<T>(determinant_gaussian_elimination(m), a * m * b, T(1));
	case 6: return SO3<T>::exp(a) * b; case 7: return SO3<T>::exp(a).inverse() * b; case 8: return SE3<T>::exp(p) * makeVector<T>(1., 2., 3.); case 9: return SE3<T>(SO3<T>::exp(a), b).inverse() * makeVector<T>(1., 2., 3.); case 10: return unproject(SE2<T>::exp(a) * b.template slice<0, 2>()); case 11: return unproject(SO2<T>::exp(a[0]) * b.template slice<0, 2>());
	case 12: { Matrix<3, 3, T> q = m * m.T() + 2 * Matrix<3, 3, T>(Identity); Cholesky<3, T> c(q); return c.backsub(b); } case 13: return m.T() * m * a; case 14: return cross_product_matrix(a) * b + m.T()[1]; default: return SO3<T>::exp(makeVector<T>(T(.3), a[0] / 9, b[1] / 9)).ln() + makeVector<T>(norm_sq(a), a * a, b[0]);
	}
}
PROP(fad_operations, 3) {
	int op = g.pick(16); Vector<6, LD> p; for (int i = 0; i < 6; i++) p[i] = (double)(g.pick(4) == 0 ? g.small(2) : g.uniform(-2, 2)); if (op >= 6 && op <= 9) { LD n = norm(p.slice<0, 3>()); if (op == 8) n = norm(p.slice<3, 3>()); if (n < 0.1) p[op == 8 ? 3 : 0] += 1; } g.note("operation", op); g.note("p", p); typedef F<double, 6> T; Vector<6, double> pd = p; 
	Vector<3, T> y = operation<T>(op, make_fad_vector<6>(pd)); Vector<3, LD> y0 = operation<LD>(op, p); Matrix<3, 6> J = get_jacobian(y); LD size = 10 + maxabs(rv(y0)); if (op == 5) size += 1e4;
	for (int k = 0; k < 6; k++) { LD h = 1e-5L; Vector<6, LD> u = p, w = p; u[k] += h; w[k] -= h; Vector<3, LD> d = (operation<LD>(op, u) - operation<LD>(op, w)) / (2 * h); for (int i = 0; i < 3; i++) { CLOSE(y[i].val(), y0[i], 1e-12L * size * (op == 12 ? 100 : 1), "value of coordinate " << i); CLOSE(J(i, k), d[i], 1e-6L * size, "derivative of coordinate " << i << " with respect to parameter " << k); } }
	Vector<3, F<double>> z = operation<F<double>>(op, make_fad_vector(pd)); RM jz = rm(get_jacobian(z)); for (int i = 0; i < 3; i++) for (int k = 0; k < jz.c; k++) if (jz(i, k) != J(i, k)) FAIL("derivatives differ with their number at run time: " << jz << " against " << rm(J)); g.nontrivial(); g.tag("groups", op >= 6 && op <= 11);
}
#endif
