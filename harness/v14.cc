// V14: where objects keep their elements.  A ledger counts every allocation made during one
// generated operation: objects of moderate static size are their elements and cost none,
// views and expressions of anything cost none, larger and dynamic objects cost one each.
#include "common.h"
#include <TooN/determinant.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/Cholesky.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/wls.h>
#include <cstdlib>
#include <new>
#ifndef PART
#define PART 0
#endif
using namespace TooN;
#if PART == 0
long led_news = 0;
void* operator new(std::size_t n) { led_news++; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { led_news++; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
#else
extern long led_news;
#endif
namespace {
template<class... A> std::string cat(const A&... a) { std::ostringstream o; ((o << a), ...); return o.str(); }
volatile double sink;
// the allocations which f makes
template<class F> __attribute__((noinline)) long cost(F f) { long n = led_news; f(); return led_news - n; }
#define COSTS(N, ...) do { long c_ = cost([&] { __VA_ARGS__; }); if (c_ != (N)) FAIL(c_ << " allocations instead of " << (N) << ": " << #__VA_ARGS__ << "   " << what); } while (0)
#define FREE(...) COSTS(0, __VA_ARGS__)
template<class V> void fillv(Gen& g, V& v) { for (int i = 0; i < v.size(); i++) v[i] = 1 + g.pick(9); }
template<class M> void fillm(Gen& g, M& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m(i, j) = 1 + g.pick(9) + (i == j ? 20 : 0); }
template<class V> void contiguous(V& v, const std::string& what) { auto* p = v.get_data_ptr(); for (int i = 0; i < v.size(); i++) if (&v[i] != p + i) FAIL("element " << i << " is not at its place in memory   " << what); }
}
#if PART == 0
// ---- moderate static sizes: nothing but the elements, and no allocation by anything
namespace {
template<int N, int M, class P> void small_ops(Gen& g) {
	std::string what = cat("N=", N, " M=", M, " element size ", sizeof(P)); g.note("sizes", what);
	if (sizeof(Vector<N, P>) != N * sizeof(P)) FAIL("sizeof(Vector<" << N << ">) is " << sizeof(Vector<N, P>) << "   " << what);
	// (a matrix of one column has two equal strides, which C++ does not let share an address)
	if (M > 1) if (sizeof(Matrix<N, M, P>) != N * M * sizeof(P)) FAIL("sizeof(Matrix) is " << sizeof(Matrix<N, M, P>) << "   " << what);
	if (M > 1) if (sizeof(Matrix<N, M, P, ColMajor>) != N * M * sizeof(P)) FAIL("sizeof(Matrix<ColMajor>)   " << what);
	if (sizeof(DiagonalMatrix<N, P>) != N * sizeof(P)) FAIL("sizeof(DiagonalMatrix)   " << what);
	Vector<N, P> a, b, r; Vector<M, P> u; fillv(g, a); fillv(g, b); fillv(g, u); Matrix<N, M, P> A, B, R; fillm(g, A); fillm(g, B); Matrix<N, M, P, ColMajor> C; fillm(g, C); Matrix<M, N, P> T; fillm(g, T); Matrix<N, N, P> S; fillm(g, S); DiagonalMatrix<N, P> D(a); P k = 3;
	contiguous(a, what); { auto* p = A.get_data_ptr(); auto* q = C.get_data_ptr(); for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) if (&A(i, j) != p + i * M + j || &C(i, j) != q + j * N + i) FAIL("element (" << i << "," << j << ") is not at its place in memory   " << what); }
	int steps = g.range(1, 6); g.nontrivial(true); int i = g.pick(N), j = g.pick(M);
	for (int st = 0; st < steps; st++) switch (g.pick(40)) {
		case 0: FREE(r = a + b); break; case 1: FREE(r = a - k * b); break; case 2: FREE(r += a); break; case 3: FREE(r = a; r *= k); break;
		case 4: FREE((Vector<N, P>(a))); break; case 5: FREE(Vector<N, P> c(a + b); r = c); break; case 6: FREE(sink = double(a * b)); break; case 7: FREE(r = -a); break;
		case 8: FREE(R = A + B); break; case 9: FREE(R = A - C); break; case 10: FREE(r = A * u); break; case 11: FREE(u = a * A); break; case 12: FREE(S = A * T); break; case 13: FREE(R = S * A); break;
		case 14: FREE(R = T.T()); break; case 15: FREE(T = A.T() * S); break; case 16: FREE(A[i] = u); break; case 17: FREE(A.T()[j] = a); break; case 18: FREE(A.slice(0, 0, N, 1) = C.slice(0, 0, N, 1)); break;
		case 19: FREE(a.slice(0, N) = b); break; case 20: FREE(r = Zeros); break; case 21: FREE(r += Ones * k); break; case 22: FREE(S = Identity); break; case 23: FREE(S += Identity * k; S -= Identity); break;
		case 24: FREE(r = D * b); break; case 25: FREE(R = D * A); break; case 26: FREE(S = D); break; case 27: FREE(R = a.as_col() * u.as_row()); break; case 28: FREE(swap(a, b)); break; case 29: FREE(swap(A[i].ref(), B[i].ref())); break;
		case 30: FREE(sink = a == b); break; case 31: FREE(sink = double(trace(S))); break; case 32: FREE(sink = double(norm_sq(a))); break; case 33: FREE(r = diagmult(a, b)); break; case 34: FREE(sink = double(S.diagonal_slice()[i])); break;
		case 35: FREE(Symmetrize(S)); break; case 36: FREE(sink = double(a.as_row()[0][i])); break; case 37: FREE(Fill(a) = P(1), P(2), P(3), P(4), P(5), P(6), P(7)) ; break; case 38: FREE(sink = double(max_value(a)) + double(min_value(A))); break;
		case 39: FREE(r = wrapVector<N>(a.get_data_ptr()); R = wrapMatrix<N, M>(A.get_data_ptr())); break;
	}
}
}
// (Fill above needs exactly seven values)
PROP(moderate, 4) {
	switch (g.pick(4)) { case 0: small_ops<7, 3, double>(g); break; case 1: small_ops<7, 7, float>(g); break; case 2: small_ops<7, 11, double>(g); break; case 3: small_ops<7, 1, int>(g); break; }
}
#endif
#if PART == 1
// ---- around the size from which static objects live on the heap
namespace {
template<int N, class P> void edge_vector(Gen& g) {
	bool heap = N * sizeof(P) > 1000; std::string what = cat("Vector<", N, "> of elements of ", sizeof(P), " bytes"); g.note("type", what); g.nontrivial(true); g.tag(heap ? "heap" : "stack");
	typedef Vector<N, P> V; size_t size = sizeof(V); if (heap ? size > 64 : size != N * sizeof(P)) FAIL("sizeof is " << size << "   " << what);
	int own = heap; V a, b; fillv(g, a); fillv(g, b); contiguous(a, what); int at = g.pick(N - 1), len = g.range(1, N - at);
	COSTS(own, V c; (void)c); COSTS(own, V c(a); sink = c[0]); COSTS(own, V c(a + b); sink = c[0]); COSTS(own, V c = Zeros; sink = c[0]);
	FREE(a = b); FREE(a += b); FREE(a *= 2); FREE(a = a.slice(0, N)); FREE(a.slice(at, len) = b.slice(at, len)); FREE(sink = a * b); FREE(sink = a.slice(at, len) * b.slice(at, len)); FREE(a = Ones); FREE(a.as_row()); FREE(a.as_col()); FREE(swap(a, b));
}
template<int R, int C, class P, class L> void edge_matrix(Gen& g) {
	bool heap = R * C * sizeof(P) > 1000; std::string what = cat("Matrix<", R, ",", C, "> of elements of ", sizeof(P), " bytes"); g.note("type", what); g.nontrivial(true); g.tag(heap ? "heap" : "stack");
	typedef Matrix<R, C, P, L> M; size_t size = sizeof(M); if (heap ? size > 64 : size != R * C * sizeof(P)) FAIL("sizeof is " << size << "   " << what);
	int own = heap; M a, b; fillm(g, a); fillm(g, b); int i = g.pick(R), j = g.pick(C);
	COSTS(own, M c; (void)c); COSTS(own, M c(a); sink = c(0, 0)); if (std::is_same<L, RowMajor>::value) COSTS(own, M c(a + b); sink = c(0, 0)); COSTS(own, M c(Zeros); sink = c(0, 0));
	FREE(a = b); FREE(a += b); FREE(a *= 2); FREE(a = b.slice(0, 0, R, C)); FREE(a.T()); FREE(a[i] = b[i]); FREE(a.T()[j] = b.T()[j]); FREE(sink = a(i, j)); FREE(a.diagonal_slice()); FREE(a = Zeros); FREE(swap(a[i].ref(), b[i].ref())); FREE(a[i] * b[i]);
}
}
PROP(around_the_limit, 3) {
	switch (g.pick(13)) {
		case 0: edge_vector<125, double>(g); break; case 1: edge_vector<126, double>(g); break; case 2: edge_vector<124, double>(g); break; case 3: edge_vector<250, float>(g); break; case 4: edge_vector<251, float>(g); break; case 5: edge_vector<500, double>(g); break; case 6: edge_vector<250, int>(g); break;
		case 7: edge_matrix<5, 25, double, RowMajor>(g); break; case 8: edge_matrix<6, 21, double, RowMajor>(g); break; case 9: edge_matrix<25, 5, double, ColMajor>(g); break; case 10: edge_matrix<21, 6, double, ColMajor>(g); break; case 11: edge_matrix<10, 25, float, RowMajor>(g); break; case 12: edge_matrix<12, 21, float, ColMajor>(g); break;
	}
}
// ---- dynamic objects: one allocation when one is made (none when it is taken over), none by views and assignments
PROP(dynamic, 3) {
	int n = g.range(1, 12), m = g.range(1, 12), i = g.pick(n), j = g.pick(m), len = g.range(1, n - i); std::string what = cat("sizes ", n, "x", m); g.note("sizes", what); g.nontrivial(n * m > 1);
	Vector<> a(n), b(n), u(m); Matrix<> A(n, m), B(n, m); fillv(g, a); fillv(g, b); fillv(g, u); fillm(g, A); fillm(g, B); Vector<Resizable> r(a); Matrix<Dynamic, 3> C(n, 3); fillm(g, C); contiguous(a, what); contiguous(r, what);
	for (int k = 0; k < n; k++) for (int l = 0; l < m; l++) if (&A(k, l) != A.get_data_ptr() + k * m + l) FAIL("element (" << k << "," << l << ") is not at its place in memory   " << what);
	int steps = g.range(1, 8);
	for (int st = 0; st < steps; st++) switch (g.pick(30)) {
		case 0: COSTS(1, Vector<> c(n); (void)c); break; case 1: COSTS(1, Vector<> c(a); sink = c[0]); break; case 2: COSTS(1, Vector<> c(a + b); sink = c[0]); break; case 3: COSTS(1, Vector<> c = 2 * a; sink = c[0]); break;
		case 4: COSTS(1, Matrix<> c(n, m); (void)c); break; case 5: COSTS(1, Matrix<> c(A); sink = c(0, 0)); break; case 6: COSTS(1, Matrix<> c(A + B); sink = c(0, 0)); break; case 7: COSTS(1, Matrix<> c(A * B.T()); sink = c(0, 0)); break;
		case 8: COSTS(1, Vector<> c(A * u); sink = c[0]); break; case 9: FREE(a = b); break; case 10: FREE(A = B); break; case 11: FREE(a += b; a -= b; a *= 2; a /= 2); break; case 12: FREE(A += B; A *= 2); break;
		case 13: FREE(a.slice(i, len) = b.slice(i, len)); break; case 14: FREE(A[i] = u); break; case 15: FREE(A.T()[j] = a); break; case 16: FREE(A.T().T()); break; case 17: FREE(sink = a * b); break; case 18: FREE(a.as_diagonal()); break;
		case 19: FREE(swap(a, b)); break; case 20: FREE(swap(A[i].ref(), B[i].ref())); break; case 21: { Vector<> c(a); FREE(Vector<> d(std::move(c)); sink = d[0]); break; } case 22: FREE(A.slice(i, j, 1, 1) = B.slice(i, j, 1, 1)); break; 
		case 23: FREE(r = a); break; case 24: COSTS(1, Vector<Resizable> c(a); sink = c[0]); break; case 25: { Vector<Resizable> c(a); FREE(Vector<Resizable> d(std::move(c)); sink = d.size()); break; } case 26: FREE(r.resize(n)); break; case 27: FREE(a = Zeros; A = Zeros; a += Ones * 2); break;
		case 28: FREE(wrapVector(a.get_data_ptr(), n); wrapMatrix(A.get_data_ptr(), n, m)); break; case 29: COSTS(1, (Matrix<Dynamic, 3>(C))); break;
	}
}
#endif
#if PART == 2
// ---- what is built on small static objects allocates nothing either
namespace {
template<class G, int D, int H> void group_free(Gen& g, const char* nm) {
	std::string what = nm; g.note("group", what); g.nontrivial(true); Vector<D> v, w; for (int i = 0; i < D; i++) { v[i] = g.range(-9, 9) / 10.; w[i] = g.range(-9, 9) / 10.; } Vector<H> x; fillv(g, x); Matrix<H> m; fillm(g, m);
	G a, b, c; FREE(a = G::exp(v)); FREE(b = G(w)); FREE(c = a * b); FREE(c *= a); FREE(c = a.inverse()); FREE(x = a * x); FREE(x = x * a); FREE(m = a * m); FREE(m = m * a); if constexpr (!std::is_same<G, SL<3>>::value && !std::is_same<G, SL<4>>::value && !std::is_same<G, SL<2>>::value) FREE(v = a.ln());
}
}
PROP(groups, 1) {
	switch (g.pick(8)) {
		case 0: group_free<SO3<>, 3, 3>(g, "SO3"); break; case 1: group_free<SE2<>, 3, 3>(g, "SE2"); break; case 2: group_free<SE3<>, 6, 4>(g, "SE3"); break; case 3: group_free<SIM2<>, 4, 3>(g, "SIM2"); break; case 4: group_free<SIM3<>, 7, 4>(g, "SIM3"); break; case 5: group_free<SL<3>, 8, 3>(g, "SL<3>"); break; case 6: group_free<SL<2>, 3, 2>(g, "SL<2>"); break;
		case 7: { std::string what = "SO2"; g.nontrivial(true); double t = g.small(3); SO2<> a, b(t); FREE(a = SO2<>::exp(t)); FREE(a *= b); FREE(sink = a.ln()); FREE(a = b.inverse()); break; }
	}
	std::string what = "sizes of groups"; if (sizeof(SO2<>) != 4 * sizeof(double) || sizeof(SO3<>) != 9 * sizeof(double) || sizeof(SE2<>) != 6 * sizeof(double) || sizeof(SE3<>) != 12 * sizeof(double) || sizeof(SL<3>) != 9 * sizeof(double) || sizeof(SE3<float>) != 12 * sizeof(float)) FAIL("a group element is larger than its matrix");
}
PROP(solvers, 2) {
	std::string what = "static solver"; g.nontrivial(true); Matrix<4> a; fillm(g, a); Matrix<4> s = a + a.T(); Vector<4> b; fillv(g, b); Matrix<4, 3> B; fillm(g, B); int k = g.pick(8); g.note("call", k); g.note("matrix", cat(a));
	switch (k) {
		case 0: FREE(sink = determinant_gaussian_elimination(a)); break; case 1: FREE(b = gaussian_elimination(a, b)); break; case 2: FREE(B = gaussian_elimination(a, B)); break; case 3: { Matrix<4, 8> w; w.slice<0, 0, 4, 4>() = a; w.slice<0, 4, 4, 4>() = Identity; FREE(gauss_jordan(w)); break; }
		case 4: FREE(Cholesky<4> c(s); b = c.backsub(b)); break; case 5: FREE(Cholesky<4> c(s); B = c.backsub(B)); break; case 6: FREE(WLS<4> w; w.clear(); w.add_prior(1.); w.add_mJ(2., b); w.compute(); b = w.get_mu()); break; case 7: FREE(a = TooN::exp(a / 100.)); break;
	}
}
#endif
