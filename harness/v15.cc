// V15: operations on distinct objects share nothing.  Lists of computations run in several threads at once, or one inside
// the function another one calls, give what they give by themselves; objects which only are asked can be asked from
// several threads.  Built with ThreadSanitizer (races are seen whatever the timing) and without.
#include "num.h"
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/determinant.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/functions/derivatives.h>
#include <TooN/optimization/conjugate_gradient.h>
#include <TooN/optimization/downhill_simplex.h>
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/brent.h>
#include <atomic>
#include <thread>
#ifndef PART
#define PART 0
#endif
typedef std::function<void()> Hook;
struct Job { std::string name; std::function<RV(const Hook&)> run; };
typedef std::function<Job(Gen&)> Maker;
inline std::vector<Maker>& makers() { static std::vector<Maker> m; return m; }      // every kind of computation
inline std::vector<Maker>& outers() { static std::vector<Maker> m; return m; }      // those calling a function of the user
inline std::vector<Maker>& sharers() { static std::vector<Maker> m; return m; }     // one object, asked again and again
struct Add { Add(std::vector<Maker>& v, Maker m) { v.push_back(m); if (&v == &outers()) makers().push_back(m); } };
#define CAT3(a, b) a##b
#define CAT4(a, b) CAT3(a, b)
#define KIND(list, ...) static Add CAT4(add_, __COUNTER__)(list(), [](Gen& g) -> Job __VA_ARGS__);
namespace {
struct Out { RV r; template<int S, class P, class B> Out& operator<<(const Vector<S, P, B>& v) { for (int i = 0; i < v.size(); i++) r.push_back((LD)v[i]); return *this; } template<int R, int C, class P, class B> Out& operator<<(const Matrix<R, C, P, B>& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) r.push_back((LD)m(i, j)); return *this; } Out& operator<<(LD x) { r.push_back(x); return *this; } };
inline RM regular(Gen& g, int n) { RV s(n); for (auto& x : s) x = g.logpos(0.5, 4); return from_svd(gen_orth(g, n), s, gen_orth(g, n)); }
inline RM posdef(Gen& g, int n) { RV s(n); for (int i = 0; i < n; i++) s[i] = (i + 1) * g.uniform(0.9, 1.1); RM u = gen_orth(g, n), a = from_svd(u, s, u); return scale(add(a, T(a)), 0.5L); }
template<int N> Matrix<N, N> sq(const RM& a) { Matrix<N, N> m(a.r, a.c); put(m, a); return m; }
template<int N> Vector<N> ve(const RV& a) { Vector<N> m((int)a.size()); put(m, a); return m; }
template<int N> int dimension(Gen& g) { return N == Dynamic ? g.range(2, 5) : N; }
}
#define SIZED(list, name) static Add CAT4(add_, __COUNTER__)(list(), name<3>); static Add CAT4(add_, __COUNTER__)(list(), name<Dynamic>);
#if PART == 0
template<int N> Job arithmetic(Gen& g) {
	int n = dimension<N>(g); RM a = gen_dense(g, n, n), b = gen_dense(g, n, n); RV x = gen_densev(g, n), y = gen_densev(g, n); double s = g.uniform(1, 3);
	return { "arithmetic", [=](const Hook&) { Out o; auto A = sq<N>(a), B = sq<N>(b); auto X = ve<N>(x), Y = ve<N>(y); o << A + B << A - B << -A << A * B << A.T() * B << A * X << X * A << s * A << A / s << X + Y << X - Y << X * s << (X * Y) << X.as_col() * Y.as_row() << diagmult(X, A) << (A + s * Identity(n)) << norm(X) << norm_1(X) << norm_inf(A) << trace(A) << unit(Y); A += B; A *= s; X -= Y; B = A * B; o << A << X << B; return o.r; } };
}
SIZED(makers, arithmetic)
template<int N> Job views(Gen& g) {
	int n = dimension<N>(g); RM a = gen_dense(g, n, n); RV x = gen_densev(g, n);
	return { "views", [=](const Hook&) { Out o; auto A = sq<N>(a); auto X = ve<N>(x); A[0] = X; A.T()[1] = X; A.slice(0, 0, 2, 2) = Identity; A.diagonal_slice() *= 2; X.slice(0, 2) += makeVector(1, 2); o << A << X << A.T() << project(X) << unproject(X); Matrix<> c = A; c.slice(0, 0, n, 1) *= 3; Vector<Resizable> v; for (int i = 0; i < n; i++) { Vector<Resizable> w = v; v.resize(i + 1); v.slice(0, i) = w; v[i] = X[i]; } o << c << v; DiagonalMatrix<N> d(X); o << d * A << A * d << d * X; return o.r; } };
}
SIZED(makers, views)
KIND(makers, { RV x = gen_densev(g, 9); return { "fill and stream", [=](const Hook&) { Out o; Matrix<3> m; Fill(m) = x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]; Matrix<3> d = Data(x[8], x[7], x[6], x[5], x[4], x[3], x[2], x[1], x[0]); Vector<4> v = makeVector(x[0], x[1], x[2], x[3]); std::stringstream s; s.precision(17); s << m << d << v; Matrix<3> m2, d2; Vector<4> v2; s >> m2 >> d2 >> v2; o << m2 << d2 << v2; std::string t = s.str(); for (char c : t) o << (LD)c; return o.r; } }; })
template<int N> Job helpers(Gen& g) {
	int n = dimension<N>(g); RM a = gen_dense(g, n, n), p = posdef(g, n); RV x = gen_densev(g, n); RV y = gen_densev(g, 3);
	return { "helper functions", [=](const Hook&) { Out o; auto A = sq<N>(a); auto X = ve<N>(x); o << exp(A) << log(exp(sq<N>(scale(a, 0.1L)))) << sqrt(sq<N>(p)) << norm_fro(A) << norm_1(A) << min_value(A) << max_value(X) << min_element(A).first << min_element(A).second.first << max_element(X).second << max_value_vertical(A) << min_value_horizontal(A) << cross_product_matrix(ve<3>(y)); Symmetrize(A); o << A << isfinite(X) << isnan(A); normalize(X); o << X; return o.r; } };
}
SIZED(makers, helpers)
#elif PART == 1
template<int N> Job factor(Gen& g) {
	int n = dimension<N>(g), k = g.pick(8); RM a = regular(g, n), p = posdef(g, n), b = gen_dense(g, n, 2); RV x = gen_densev(g, n);
	static const char* nm[] = { "Cholesky", "Lapack_Cholesky", "LU", "SVD", "SymEigen", "QR", "QR_Lapack", "SQSVD" };
	return { nm[k], [=](const Hook&) { Out o; auto A = sq<N>(a), P = sq<N>(p); auto X = ve<N>(x); Matrix<N, 2> B(n, 2); put(B, b);
		switch (k) {
			case 0: { Cholesky<N> d(P); o << d.backsub(X) << d.backsub(B) << d.get_inverse() << d.determinant() << d.get_L() << d.mahalanobis(X); break; }
			case 1: { Lapack_Cholesky<N> d(P); o << d.backsub(X) << d.backsub(B) << d.get_inverse() << d.determinant() << d.get_L() << d.mahalanobis(X); break; }
			case 2: { LU<N> d(A); o << d.backsub(X) << d.backsub(B) << d.get_inverse() << d.determinant() << d.get_lu(); break; }
			case 3: { SVD<N> d(P); o << d.backsub(X) << d.backsub(B) << d.get_pinv() << d.determinant() << d.get_diagonal() << d.rank(); break; }
			case 4: { SymEigen<N> d(P); o << d.backsub(X) << d.backsub(B) << d.get_pinv() << d.get_determinant() << d.get_evalues() << d.get_sqrtm() << d.get_isqrtm(); break; }
			case 5: { QR<N, N> d(A); o << d.get_Q() << d.get_R(); break; }
			case 6: { QR_Lapack<N, N> d(A); o << d.get_Q() << d.get_R() << d.get_P(); break; }
			case 7: { SQSVD<N, double> d(P); o << d.backsub(X) << d.get_pinv() << d.get_diagonal(); break; }
		} return o.r; } };
}
SIZED(makers, factor) SIZED(makers, factor)
KIND(makers, { RM p = posdef(g, 2), q = posdef(g, 3), a = regular(g, 3); RV x = gen_densev(g, 3); return { "small SymEigen, GR_SVD", [=](const Hook&) { Out o; SymEigen<2> d(sq<2>(p)); SymEigen<3> e(sq<3>(q)); GR_SVD<3, 3> s(sq<3>(a)); o << d.get_evalues() << d.get_pinv() << e.get_evalues() << e.backsub(ve<3>(x)) << s.backsub(ve<3>(x)) << s.get_pinv() << s.get_diagonal(); return o.r; } }; })
template<int N> Job direct(Gen& g) {
	int n = dimension<N>(g); RM a = regular(g, n), b = gen_dense(g, n, 2); RV x = gen_densev(g, n);
	return { "determinant, elimination", [=](const Hook&) { Out o; auto A = sq<N>(a); Matrix<N, 2> B(n, 2); put(B, b); o << determinant(A) << determinant_gaussian_elimination(A) << determinant_LU(A) << gaussian_elimination(A, ve<N>(x)) << gaussian_elimination(A, B); Matrix<N, (N == Dynamic ? Dynamic : 2 * N)> m(n, 2 * n); m = Zeros; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) m(i, j) = A(i, j); m(i, n + i) = 1; } gauss_jordan(m); o << m; return o.r; } };
}
SIZED(makers, direct)
template<int N> Job least(Gen& g) {
	int n = dimension<N>(g), k = n + g.range(1, 4); RM J = gen_dense(g, k, n); RV m = gen_densev(g, k), w(k); for (auto& x : w) x = g.uniform(0.5, 2); double pr = g.uniform(0.5, 2); int robust = g.pick(3);
	return { "least squares", [=](const Hook&) { Out o; WLS<N> a(n), b(n); a.add_prior(pr); for (int i = 0; i < k; i++) { RV r(n); for (int j = 0; j < n; j++) r[j] = J(i, j); (i % 2 ? a : b).add_mJ((double)m[i], ve<N>(r), (double)w[i]); } a += b; a.compute(); o << a.get_C_inv() << a.get_vector() << a.get_mu();
		auto ir = [&](auto& e) { e.set_sd(1.5); for (int i = 0; i < k; i++) { RV r(n); for (int j = 0; j < n; j++) r[j] = J(i, j); e.add_mJ((double)m[i], ve<N>(r)); } e.add_prior(pr); e.compute(); o << e.get_mu() << e.get_true_C_inv() << e.get_residual(); };
		if (robust == 0) { IRLS<N, double, RobustI> e(n); ir(e); } else if (robust == 1) { IRLS<N, double, RobustII> e(n); ir(e); } else { IRLS<N, double, RobustIII> e(n); ir(e); } return o.r; } };
}
SIZED(makers, least)
#elif PART == 2
KIND(makers, { RV a = gen_densev(g, 3), b = gen_densev(g, 3), p = gen_densev(g, 3); return { "SO3", [=](const Hook&) { Out o; SO3<> x(ve<3>(a)), y = SO3<>::exp(ve<3>(b)), z = x * y; o << x.get_matrix() << z.ln() << z.inverse() * ve<3>(p) << z.adjoint(ve<3>(p)) << SO3<>::generator(1) << SO3<>::generator_field(2, ve<3>(p)) << ve<3>(p) * z; SO3<> r(ve<3>(a), ve<3>(b)); o << r.get_matrix(); z.coerce(); z *= r; o << z.get_matrix(); std::stringstream s; s.precision(17); s << z; s >> y; o << y.get_matrix(); return o.r; } }; })
KIND(makers, { RV a = gen_densev(g, 6), b = gen_densev(g, 6), p = gen_densev(g, 4); RM m = gen_dense(g, 6, 6); return { "SE3", [=](const Hook&) { Out o; SE3<> x(ve<6>(a)), y = SE3<>::exp(ve<6>(b)), z = x * y; o << z.ln() << z.inverse().ln() << z * ve<4>(p) << z * ve<3>(RV(p.begin(), p.begin() + 3)) << z.adjoint(ve<6>(b)) << z.trinvadjoint(ve<6>(b)) << z.adjoint(sq<6>(m)) << SE3<>::generator_field(4, ve<4>(p)); z.left_multiply_by(x); o << z.ln(); std::stringstream s; s.precision(17); s << z; s >> y; o << y.ln(); return o.r; } }; })
KIND(makers, { double a = g.uniform(-3, 3), b = g.uniform(-3, 3); RV c = gen_densev(g, 3), d = gen_densev(g, 3), p = gen_densev(g, 3); return { "SO2, SE2", [=](const Hook&) { Out o; SO2<> x(a), y = SO2<>::exp(b), z = x * y; o << z.ln() << z.inverse().get_matrix() << z * ve<2>(RV(p.begin(), p.begin() + 2)) << SO2<>::generator(); SE2<> u(ve<3>(c)), v = SE2<>::exp(ve<3>(d)), w = u * v; o << w.ln() << w.inverse().ln() << w * ve<3>(p) << w.adjoint(ve<3>(c)) << SE2<>::generator(1); std::stringstream s; s.precision(17); s << w << z; s >> u >> x; o << u.ln() << x.ln(); return o.r; } }; })
KIND(makers, { RV a = gen_densev(g, 7), b = gen_densev(g, 7), c = gen_densev(g, 4), d = gen_densev(g, 4), p = gen_densev(g, 4); return { "SIM3, SIM2", [=](const Hook&) { Out o; SIM3<> x(ve<7>(a)), y = SIM3<>::exp(ve<7>(b)), z = x * y; o << z.ln() << z.inverse().ln() << z * ve<4>(p) << z.adjoint(ve<7>(b)); SIM2<> u(ve<4>(c)), v = SIM2<>::exp(ve<4>(d)), w = u * v; o << w.ln() << w.inverse().ln() << w * ve<3>(RV(p.begin(), p.begin() + 3)); std::stringstream s; s.precision(17); s << z << w; s >> x >> u; o << x.ln() << u.ln(); return o.r; } }; })
KIND(makers, { RV a = gen_densev(g, 8), b = gen_densev(g, 8), p = gen_densev(g, 3); return { "SL", [=](const Hook&) { Out o; SL<3> x(ve<8>(a)), y = SL<3>::exp(ve<8>(scale(b, 0.3L))), z = x * y; o << z.get_matrix() << z.inverse().get_matrix() << z * ve<3>(p) << SL<3>::generator(4); std::stringstream s; s.precision(17); s << y; s >> x; o << x.get_matrix(); return o.r; } }; })
#elif PART == 3
namespace {
struct Bowl { RM q; RV m; const Hook& h; Bowl(const RM& q_, const RV& m_, const Hook& h_): q(q_), m(m_), h(h_) {}
	template<int S, class P, class B> double operator()(const Vector<S, P, B>& v) const { h(); double s = 0; for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size(); j++) s += (double)q(i, j) * (v[i] - (double)m[i]) * (v[j] - (double)m[j]); double x = v[0] - (double)m[0]; return s + 0.1 * x * x * x * x; } };
struct BowlD { const Bowl& b; template<int S, class P, class B> Vector<S> operator()(const Vector<S, P, B>& v) const { b.h(); Vector<S> d(v.size()); for (int i = 0; i < v.size(); i++) { d[i] = 0; for (int j = 0; j < v.size(); j++) d[i] += 2 * (double)b.q(i, j) * (v[j] - (double)b.m[j]); } double x = v[0] - (double)b.m[0]; d[0] += 0.4 * x * x * x; return d; } };
}
template<int N> Job derivatives(Gen& g) { int n = dimension<N>(g); RM q = posdef(g, n); RV m = gen_densev(g, n), x = gen_densev(g, n); int k = g.pick(3); return { "derivatives", [=](const Hook& h) { Out o; Bowl f(q, m, h); auto X = ve<N>(x); if (k == 0) o << numerical_gradient(f, X); else if (k == 1) o << numerical_gradient_with_errors(f, X); else o << numerical_hessian(f, X); return o.r; } }; }
SIZED(outers, derivatives)
template<int N> Job conjugate(Gen& g) { int n = dimension<N>(g); RM q = posdef(g, n); RV m = gen_densev(g, n), x = gen_densev(g, n); return { "ConjugateGradient", [=](const Hook& h) { Out o; Bowl f(q, m, h); BowlD d{f}; ConjugateGradient<N> c(ve<N>(x), f, d); int k = 0; while (c.iterate(f, d) && ++k < 20) o << c.x << c.y << c.g; o << c.x << c.y << k; return o.r; } }; }
SIZED(outers, conjugate)
template<int N> Job simplex(Gen& g) { int n = dimension<N>(g); RM q = posdef(g, n); RV m = gen_densev(g, n), x = gen_densev(g, n); return { "DownhillSimplex", [=](const Hook& h) { Out o; Bowl f(q, m, h); DownhillSimplex<N> c(f, ve<N>(x), 0.5); int k = 0; while (c.iterate(f) && ++k < 40) o << c.get_values(); o << c.get_simplex() << c.get_values() << k; return o.r; } }; }
SIZED(outers, simplex)
KIND(outers, { double m = g.uniform(-0.5, 0.5), q = g.uniform(0.5, 2); bool br = g.flag(); return { br ? "brent_line_search" : "golden_section_search", [=](const Hook& h) { Out o; auto f = [&](double x) { h(); return q * (x - m) * (x - m) + 0.1 * std::cos(x); }; o << (br ? brent_line_search(-3., 0., 3., f(0), f, 50) : golden_section_search(-3., 0., 3., f, 60)); return o.r; } }; })
#elif PART == 4
// one object, asked from several places; only functions which do not change it
#define SHARED(N, TYPE, make, ...) template<int N> Job CAT4(sh_, __LINE__)(Gen& g) { int n = dimension<N>(g); RM a = regular(g, n), p = posdef(g, n); (void)a; (void)p; RV x = gen_densev(g, n); std::shared_ptr<const TYPE> d(make); return { #TYPE, [=](const Hook&) { Out o; auto X = ve<N>(x); __VA_ARGS__; return o.r; } }; } SIZED(sharers, CAT4(sh_, __LINE__))
SHARED(N, Cholesky<N>, new Cholesky<N>(sq<N>(p)), o << d->backsub(X) << d->get_L() << d->get_D() << d->get_unscaled_L() << d->mahalanobis(X) << d->rank())
SHARED(N, Lapack_Cholesky<N>, new Lapack_Cholesky<N>(sq<N>(p)), o << d->backsub(X) << d->get_inverse() << d->determinant() << d->get_L() << d->mahalanobis(X) << d->rank())
SHARED(N, LU<N>, new LU<N>(sq<N>(a)), o << d->determinant() << d->get_lu() << d->get_info())
SHARED(N, SymEigen<N>, new SymEigen<N>(sq<N>(p)), o << d->backsub(X) << d->get_pinv() << d->get_determinant() << d->get_evalues() << d->get_evectors() << d->get_sqrtm() << d->get_isqrtm() << d->is_posdef())
SHARED(N, Matrix<N>, new Matrix<N>(sq<N>(a)), o << *d * X << X * *d << d->T() * *d << *d + *d << (*d)[1] << d->T()[0] << d->slice(0, 0, 2, 2) << d->diagonal_slice() << norm_fro(*d) << trace(*d) << exp(*d) << max_value(*d); Matrix<N> c = *d; o << c << determinant(*d) << gaussian_elimination(*d, X) << (*d == c))
SHARED(N, Vector<N>, new Vector<N>(ve<N>(x)), o << *d * *d << *d + X << *d * 2.0 << norm(*d) << unit(*d) << d->slice(0, 2) << d->as_col() << project(*d) << max_element(*d).first; Vector<N> c = *d; std::ostringstream s; s << *d; o << c << s.str().size())
SHARED(N, WLS<N>, ([&] { auto w = new WLS<N>(n); w->add_prior(1.5); w->add_mJ(2.0, ve<N>(x)); w->compute(); return w; }()), o << d->get_mu() << d->get_C_inv() << d->get_vector() << d->get_decomposition().backsub(X); WLS<N> w(n); w += *d; w.compute(); o << w.get_mu())
static Job sh_groups(Gen& g) {
	RV a = gen_densev(g, 7), p = gen_densev(g, 3); struct All { SO2<> a; SE2<> b; SO3<> c; SE3<> d; SIM2<> e; SIM3<> f; SL<3> h; };
	auto d = std::make_shared<All>(); d->a = SO2<>((double)a[0]); d->b = SE2<>(ve<3>(RV(a.begin(), a.begin() + 3))); d->c = SO3<>(ve<3>(RV(a.begin(), a.begin() + 3))); d->d = SE3<>(ve<6>(RV(a.begin(), a.begin() + 6))); d->e = SIM2<>(ve<4>(RV(a.begin(), a.begin() + 4))); d->f = SIM3<>(ve<7>(a)); RV b = a; b.push_back(0.3); d->h = SL<3>(ve<8>(b)); std::shared_ptr<const All> k = d;
	return { "groups", [=](const Hook&) { Out o; auto P = ve<3>(p); Vector<2> p2 = P.slice<0, 2>(); o << k->a.ln() << k->a * p2 << k->a.inverse().ln() << k->b.ln() << k->b * p2 << k->b.inverse().ln() << k->c.ln() << k->c * P << k->c.inverse().ln() << k->c.adjoint(P) << k->d.ln() << k->d * P << k->d.inverse().ln() << k->d.get_translation() << k->e.ln() << k->e * p2 << k->e.inverse().ln() << k->f.ln() << k->f * P << k->f.inverse().ln() << k->f.get_scale() << k->h.get_matrix() << k->h * P << k->h.inverse().get_matrix() << (k->d * k->d).ln() << (k->f * k->f).ln() << (k->h * k->h).get_matrix() << (k->c * k->c).ln(); std::ostringstream s; s << k->a << k->b << k->c << k->d << k->e << k->f << k->h; o << s.str().size(); return o.r; } };
}
static Add add_groups(sharers(), sh_groups);
#elif PART == 5
static bool agree(const RV& a, const RV& b, std::string& why) {
	if (a.size() != b.size()) { why = "different number of results"; return false; } LD mx = 0; for (LD x : b) if (std::isfinite(x)) mx = std::max(mx, std::fabs(x));
	for (size_t i = 0; i < a.size(); i++) if (!((std::isnan(a[i]) && std::isnan(b[i])) || a[i] == b[i] || std::fabs(a[i] - b[i]) <= 1e-10L * mx)) { std::ostringstream o; o.precision(17); o << "result " << i << " is " << (double)a[i] << " but " << (double)b[i] << " by itself"; why = o.str(); return false; }
	return true;
}
static const Hook none = [] {};
// threads[i] lists the jobs of thread i; all are run at once
static void together(Gen& g, const std::vector<std::vector<Job>>& threads, int rounds) {
	std::string what; for (size_t t = 0; t < threads.size(); t++) { what += t ? " | " : ""; for (auto& j : threads[t]) what += j.name + ", "; } g.note("threads", what); g.live(what);
	std::vector<std::vector<RV>> want; for (auto& l : threads) { want.emplace_back(); for (auto& j : l) want.back().push_back(j.run(none)); }
	std::vector<std::string> bad(threads.size()); std::atomic<int> waiting((int)threads.size()); std::vector<std::thread> ts;
	for (size_t t = 0; t < threads.size(); t++) ts.emplace_back([&, t] { waiting.fetch_sub(1, std::memory_order_relaxed); for (int k = 0; k < 2000 && waiting.load(std::memory_order_relaxed) > 0; k++) std::this_thread::yield(); for (int r = 0; r < rounds && bad[t].empty(); r++) for (size_t j = 0; j < threads[t].size() && bad[t].empty(); j++) { std::string why; if (!agree(threads[t][j].run(none), want[t][j], why)) bad[t] = threads[t][j].name + ": " + why; } });
	for (auto& t : ts) t.join();
	for (auto& b : bad) if (!b.empty()) FAIL("while others run: " << b);
}
PROP(threads, 4) {
	int nt = g.range(2, 4); std::vector<Maker> few; int k = g.range(1, 3); for (int i = 0; i < k; i++) few.push_back(g.from(makers())); // few kinds, so that the same functions run in several threads
	std::vector<std::vector<Job>> l(nt); for (auto& x : l) { int n = g.range(1, 4); for (int i = 0; i < n; i++) x.push_back(g.from(few)(g)); }
	together(g, l, g.range(1, 4)); g.nontrivial();
}
PROP(shared, 2) {
	int nt = g.range(2, 4), no = g.range(1, 2); std::vector<Job> os; for (int i = 0; i < no; i++) os.push_back(g.from(sharers())(g));
	std::vector<std::vector<Job>> l(nt); for (auto& x : l) { int n = g.range(1, 3); for (int i = 0; i < n; i++) x.push_back(g.from(os)); }
	together(g, l, g.range(1, 3)); g.nontrivial();
}
PROP(nested, 3) { // other computations run inside the function which an optimiser or a derivative calls
	Job out = g.from(outers())(g); std::vector<Job> in; int n = g.range(1, 3); for (int i = 0; i < n; i++) in.push_back(g.flag() ? g.from(outers())(g) : g.from(makers())(g)); int every = g.range(1, 5);
	std::string what = out.name + " around "; for (auto& j : in) what += j.name + ", "; g.note("computations", what); g.live(what);
	RV want = out.run(none); std::vector<RV> iw; for (auto& j : in) iw.push_back(j.run(none));
	int calls = 0, ran = 0; RV got = out.run([&] { if (calls++ % every || ran > 12) return; int k = ran++ % in.size(); std::string why; if (!agree(in[k].run(none), iw[k], why)) FAIL(in[k].name << ", inside: " << why); });
	std::string why; if (!agree(got, want, why)) FAIL(out.name << ": " << why << " when others run in the function it calls"); g.nontrivial(ran > 0);
}
PROP(interleaved, 1) { // again, in another order, with what came before
	std::vector<Job> l; std::vector<RV> w; int n = g.range(2, 5); std::string what; for (int i = 0; i < n; i++) { l.push_back(g.from(makers())(g)); what += l.back().name + ", "; w.push_back(l.back().run(none)); } g.note("computations", what); g.live(what);
	for (int s = 0; s < 6; s++) { int k = g.pick(n); std::string why; if (!agree(l[k].run(none), w[k], why)) FAIL(l[k].name << ", again: " << why); } g.nontrivial();
}
#endif
