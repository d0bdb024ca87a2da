// Reference model shared by the harnesses: plain row-major long double arrays
// and textbook loops, nothing taken from TooN.
#pragma once
#include "pbt.h"
#include <complex>
#include <memory>
#include <algorithm>
#include <TooN/TooN.h>

using pbt::Gen; using pbt::LD;
using namespace TooN;

typedef std::vector<LD> RV;
struct RM {
	int r, c; std::vector<LD> a;
	RM(int r_ = 0, int c_ = 0): r(r_), c(c_), a((size_t)r_ * c_, 0) {}
	LD& operator()(int i, int j) { return a[(size_t)i * c + j]; }
	LD operator()(int i, int j) const { return a[(size_t)i * c + j]; }
	static RM eye(int n) { RM m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
};
inline RM T(const RM& m) { RM t(m.c, m.r); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) t(j, i) = m(i, j); return t; }
inline RM mul(const RM& a, const RM& b) {
	if (a.c != b.r) { fprintf(stderr, "model: bad mul\n"); abort(); }
	RM m(a.r, b.c);
	for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { LD s = 0; for (int k = 0; k < a.c; k++) s += a(i, k) * b(k, j); m(i, j) = s; }
	return m;
}
inline RM absm(const RM& a) { RM m = a; for (auto& x : m.a) x = std::fabs(x); return m; }
inline RV absv(const RV& a) { RV m = a; for (auto& x : m) x = std::fabs(x); return m; }
inline RV mul(const RM& a, const RV& v) { RV o(a.r, 0); for (int i = 0; i < a.r; i++) for (int k = 0; k < a.c; k++) o[i] += a(i, k) * v[k]; return o; }
inline RM add(const RM& a, const RM& b, LD s = 1) { RM m = a; for (size_t i = 0; i < m.a.size(); i++) m.a[i] += s * b.a[i]; return m; }
inline RV add(const RV& a, const RV& b, LD s = 1) { RV m = a; for (size_t i = 0; i < m.size(); i++) m[i] += s * b[i]; return m; }
inline RM scale(const RM& a, LD s) { RM m = a; for (auto& x : m.a) x *= s; return m; }
inline RV scale(const RV& a, LD s) { RV m = a; for (auto& x : m) x *= s; return m; }
inline LD dot(const RV& a, const RV& b) { LD s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
inline LD norm2(const RV& a) { return std::sqrt(dot(a, a)); }
inline LD maxabs(const RM& a) { LD s = 0; for (auto x : a.a) { if (!(std::fabs(x) <= s)) s = std::fabs(x); } return s; }
inline LD maxabs(const RV& a) { LD s = 0; for (auto x : a) { if (!(std::fabs(x) <= s)) s = std::fabs(x); } return s; }
inline LD frob(const RM& a) { LD s = 0; for (auto x : a.a) s += x * x; return std::sqrt(s); }
inline RM outer(const RV& a, const RV& b) { RM m(a.size(), b.size()); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) m(i, j) = a[i] * b[j]; return m; }
inline RM sub(const RM& a, int r0, int c0, int r, int c) { RM m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = a(r0 + i, c0 + j); return m; }

// Gaussian elimination with complete pivoting: determinant, and inverse when not singular
inline LD det(RM m) {
	LD d = 1; int n = m.r;
	for (int k = 0; k < n; k++) {
		int pi = k, pj = k;
		for (int i = k; i < n; i++) for (int j = k; j < n; j++) if (std::fabs(m(i, j)) > std::fabs(m(pi, pj))) { pi = i; pj = j; }
		if (m(pi, pj) == 0) return 0;
		if (pi != k) { d = -d; for (int j = 0; j < n; j++) std::swap(m(pi, j), m(k, j)); }
		if (pj != k) { d = -d; for (int i = 0; i < n; i++) std::swap(m(i, pj), m(i, k)); }
		d *= m(k, k);
		for (int i = k + 1; i < n; i++) { LD f = m(i, k) / m(k, k); for (int j = k; j < n; j++) m(i, j) -= f * m(k, j); }
	}
	return d;
}
inline bool solve(RM a, RM b, RM& x) {
	int n = a.r; std::vector<int> pc(n); for (int i = 0; i < n; i++) pc[i] = i;
	for (int k = 0; k < n; k++) {
		int pi = k, pj = k;
		for (int i = k; i < n; i++) for (int j = k; j < n; j++) if (std::fabs(a(i, j)) > std::fabs(a(pi, pj))) { pi = i; pj = j; }
		if (a(pi, pj) == 0) return false;
		if (pi != k) { for (int j = 0; j < n; j++) std::swap(a(pi, j), a(k, j)); for (int j = 0; j < b.c; j++) std::swap(b(pi, j), b(k, j)); }
		if (pj != k) { for (int i = 0; i < n; i++) std::swap(a(i, pj), a(i, k)); std::swap(pc[pj], pc[k]); }
		for (int i = 0; i < n; i++) if (i != k) {
			LD f = a(i, k) / a(k, k); if (f == 0) continue;
			for (int j = k; j < n; j++) a(i, j) -= f * a(k, j);
			for (int j = 0; j < b.c; j++) b(i, j) -= f * b(k, j);
		}
	}
	x = RM(n, b.c);
	for (int k = 0; k < n; k++) for (int j = 0; j < b.c; j++) x(pc[k], j) = b(k, j) / a(k, k);
	return true;
}
inline RM inv(const RM& a) { RM x; if (!solve(a, RM::eye(a.r), x)) { x = RM(a.r, a.r); for (auto& e : x.a) e = INFINITY; } return x; }
inline LD norminf(const RM& a) { LD s = 0; for (int i = 0; i < a.r; i++) { LD t = 0; for (int j = 0; j < a.c; j++) t += std::fabs(a(i, j)); if (t > s) s = t; } return s; }

// exponential by scaling, Taylor, squaring in long double
inline RM expm(RM a) {
	LD n = norminf(a); int s = 0; while (n > 0.25L) { n /= 2; s++; }
	a = scale(a, std::ldexp(1.0L, -s));
	RM r = RM::eye(a.r), t = RM::eye(a.r);
	for (int k = 1; k < 40; k++) { t = scale(mul(t, a), 1.0L / k); r = add(r, t); }
	for (int i = 0; i < s; i++) r = mul(r, r);
	return r;
}

// ---- from and to TooN objects (element by element through the public API)
template<int S, class P, class B> RV rv(const Vector<S, P, B>& v) { RV o(v.size()); for (int i = 0; i < v.size(); i++) o[i] = v[i]; return o; }
template<int R, int C, class P, class B> RM rm(const Matrix<R, C, P, B>& m) { RM o(m.num_rows(), m.num_cols()); for (int i = 0; i < o.r; i++) for (int j = 0; j < o.c; j++) o(i, j) = m(i, j); return o; }
template<int S, class P, class B> void put(Vector<S, P, B>& v, const RV& x) { for (int i = 0; i < v.size(); i++) v[i] = (P)x[i]; }
template<int R, int C, class P, class B> void put(Matrix<R, C, P, B>& m, const RM& x) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m(i, j) = (P)x(i, j); }
template<int S, class P = double> Vector<S, P> vec(const RV& x) { Vector<S, P> v; put(v, x); return v; }
template<int R, int C, class P = double> Matrix<R, C, P> mat(const RM& x) { Matrix<R, C, P> m; put(m, x); return m; }
inline Vector<> dvec(const RV& x) { Vector<> v((int)x.size()); put(v, x); return v; }
inline Matrix<> dmat(const RM& x) { Matrix<> m(x.r, x.c); put(m, x); return m; }

inline std::string show(const RV& v) { std::ostringstream o; o.precision(21); o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << (long double)v[i]; o << "]"; return o.str(); }
inline std::string show(const RM& m) { std::ostringstream o; o.precision(21); o << m.r << "x" << m.c << " ["; for (int i = 0; i < m.r; i++) { if (i) o << "; "; for (int j = 0; j < m.c; j++) o << (j ? " " : "") << (long double)m(i, j); } o << "]"; return o.str(); }
inline std::ostream& operator<<(std::ostream& o, const RV& v) { return o << show(v); }
inline std::ostream& operator<<(std::ostream& o, const RM& m) { return o << show(m); }

template<class P> struct Eps { static LD v() { return std::numeric_limits<P>::epsilon(); } };
template<> struct Eps<int> { static LD v() { return 0; } };
template<> struct Eps<long> { static LD v() { return 0; } };
template<class P> LD eps() { return Eps<P>::v(); }

inline void same(const RV& got, const RV& want, LD tol, const std::string& what) {
	if (got.size() != want.size()) FAIL(what << ": size " << got.size() << " instead of " << want.size());
	for (size_t i = 0; i < got.size(); i++) if (!pbt::within(got[i], want[i], tol)) FAIL(what << ": element " << i << " of " << show(got) << " differs from " << show(want) << " by more than " << (double)tol);
}
inline void same(const RM& got, const RM& want, LD tol, const std::string& what) {
	if (got.r != want.r || got.c != want.c) FAIL(what << ": " << got.r << "x" << got.c << " instead of " << want.r << "x" << want.c);
	for (size_t i = 0; i < got.a.size(); i++) if (!pbt::within(got.a[i], want.a[i], tol)) FAIL(what << ": entry (" << i / got.c << "," << i % got.c << ") of " << show(got) << " differs from " << show(want) << " by more than " << (double)tol);
}
// entrywise tolerance
inline void same(const RM& got, const RM& want, const RM& tol, LD f, const std::string& what) {
	if (got.r != want.r || got.c != want.c) FAIL(what << ": " << got.r << "x" << got.c << " instead of " << want.r << "x" << want.c);
	for (size_t i = 0; i < got.a.size(); i++) if (!pbt::within(got.a[i], want.a[i], tol.a[i] * f)) FAIL(what << ": entry (" << i / got.c << "," << i % got.c << ") of " << show(got) << " differs from " << show(want) << " by more than " << (double)(tol.a[i] * f));
}
inline void same(const RV& got, const RV& want, const RV& tol, LD f, const std::string& what) {
	if (got.size() != want.size()) FAIL(what << ": size " << got.size() << " instead of " << want.size());
	for (size_t i = 0; i < got.size(); i++) if (!pbt::within(got[i], want[i], tol[i] * f)) FAIL(what << ": element " << i << " of " << show(got) << " differs from " << show(want) << " by more than " << (double)(tol[i] * f));
}

// ---- generators
// data mode: 0 = small integers (sums of products are exact), 1 = reals
inline LD gen_elem(Gen& g, int mode) { return mode == 0 ? (LD)g.small(9) : (LD)g.real(); }
inline RV gen_rv(Gen& g, int n, int mode) { RV v(n); for (auto& x : v) x = gen_elem(g, mode); return v; }
inline RM gen_rm(Gen& g, int r, int c, int mode) { RM m(r, c); for (auto& x : m.a) x = gen_elem(g, mode); return m; }
template<class P> RV roundto(RV v) { for (auto& x : v) x = (P)x; return v; }
template<class P> RM roundto(RM v) { for (auto& x : v.a) x = (P)x; return v; }
// reals without the zero bias, entries in [-1,1]
inline RM gen_dense(Gen& g, int r, int c) { RM m(r, c); for (auto& x : m.a) x = g.uniform(-1, 1); return m; }
inline RV gen_densev(Gen& g, int n) { RV m(n); for (auto& x : m) x = g.uniform(-1, 1); return m; }
// an orthogonal matrix: product of Householder reflections and a diagonal of signs
inline RM gen_orth(Gen& g, int n) {
	RM q = RM::eye(n);
	int k = g.range(0, n);
	for (int i = 0; i < n; i++) if (g.flag()) for (int j = 0; j < n; j++) q(i, j) = -q(i, j);
	for (int h = 0; h < k; h++) {
		RV v = gen_densev(g, n); LD s = dot(v, v); if (s < 1e-3) continue;
		RM p = RM::eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) p(i, j) -= 2 * v[i] * v[j] / s;
		q = mul(p, q);
	}
	return q;
}
// U diag(s) V^T
inline RM from_svd(const RM& u, const RV& s, const RM& v) {
	RM m(u.r, v.r);
	for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { LD t = 0; for (size_t k = 0; k < s.size(); k++) t += u(i, k) * s[k] * v(j, k); m(i, j) = t; }
	return m;
}
// eigenvalues of a symmetric matrix, ascending, with vectors in rows (cyclic Jacobi in long double)
inline void jacobi(RM a, RV& ev, RM& vecs) {
	int n = a.r; RM v = RM::eye(n);
	for (int sweep = 0; sweep < 100; sweep++) {
		LD off = 0, tot = 0;
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { tot += a(i, j) * a(i, j); if (i != j) off += a(i, j) * a(i, j); }
		if (off <= tot * 1e-40L) break;
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
			if (a(p, q) == 0) continue;
			LD th = (a(q, q) - a(p, p)) / (2 * a(p, q));
			LD t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
			LD c = 1 / std::sqrt(t * t + 1), s = t * c;
			for (int k = 0; k < n; k++) { LD x = a(k, p), y = a(k, q); a(k, p) = c * x - s * y; a(k, q) = s * x + c * y; }
			for (int k = 0; k < n; k++) { LD x = a(p, k), y = a(q, k); a(p, k) = c * x - s * y; a(q, k) = s * x + c * y; }
			for (int k = 0; k < n; k++) { LD x = v(p, k), y = v(q, k); v(p, k) = c * x - s * y; v(q, k) = s * x + c * y; }
		}
	}
	std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = i;
	for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (a(o[j], o[j]) < a(o[i], o[i])) std::swap(o[i], o[j]);
	ev = RV(n); vecs = RM(n, n);
	for (int i = 0; i < n; i++) { ev[i] = a(o[i], o[i]); for (int k = 0; k < n; k++) vecs(i, k) = v(o[i], k); }
}
// singular values, descending (one-sided Jacobi in long double, works on the taller orientation)
inline RV singular_values(RM a) {
	if (a.r < a.c) a = T(a);
	int n = a.c, m = a.r;
	for (int sweep = 0; sweep < 100; sweep++) {
		bool rot = false;
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
			LD al = 0, be = 0, ga = 0;
			for (int i = 0; i < m; i++) { al += a(i, p) * a(i, p); be += a(i, q) * a(i, q); ga += a(i, p) * a(i, q); }
			if (std::fabs(ga) <= 1e-19L * std::sqrt(al * be) || ga == 0) continue;
			rot = true;
			LD ze = (be - al) / (2 * ga), t = (ze >= 0 ? 1 : -1) / (std::fabs(ze) + std::sqrt(1 + ze * ze)), c = 1 / std::sqrt(1 + t * t), s = c * t;
			for (int i = 0; i < m; i++) { LD x = a(i, p), y = a(i, q); a(i, p) = c * x - s * y; a(i, q) = s * x + c * y; }
		}
		if (!rot) break;
	}
	RV s(n); for (int j = 0; j < n; j++) { LD t = 0; for (int i = 0; i < m; i++) t += a(i, j) * a(i, j); s[j] = std::sqrt(t); }
	std::sort(s.begin(), s.end(), std::greater<LD>());
	return s;
}

// values at the edges of the element type: signed zeros, subnormals, extremes, infinities, NaN, and neighbours of ordinary numbers
template<class P> P edge_value(Gen& g, bool nonfinite = true) {
	if constexpr (std::is_floating_point<P>::value) {
		typedef std::numeric_limits<P> L; P s = g.flag() ? 1 : -1;
		switch (g.pick(nonfinite ? 14 : 12)) {
			case 0: return s * 0; case 1: return s * L::denorm_min() * g.range(1, 9); case 2: return s * L::min(); case 3: return s * L::max();
			case 4: case 5: case 6: return s * (P)std::exp2((LD)g.range(L::min_exponent - L::digits + 2, L::max_exponent - 1)) * (P)(1 + (P)g.unit()) / 2;
			case 7: return s * std::nextafter((P)g.range(1, 4), (P)(g.flag() ? 0 : 9)); case 8: return s * (P)g.unit(); case 9: return (P)g.small(4); case 10: case 11: return s * (P)g.range(1, 1 << 30) / (P)(1 << g.range(0, 8));
			case 12: return s * L::infinity(); default: return L::quiet_NaN();
		}
	} else { switch (g.pick(4)) { case 0: return (P)g.small(9); case 1: return (P)(g.flag() ? 1 << 30 : -(1 << 30)); default: return (P)g.range(-(1 << 30), 1 << 30); } }
}
// the very same value: zeros by sign, NaN is NaN
template<class P> bool same_value(P a, P b) { if constexpr (std::is_floating_point<P>::value) return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); else return a == b; }
// equal up to the last places (of the smallest subnormal, too); NaN is NaN, infinity is infinity
template<class P> bool nearly_value(P a, P b) {
	if constexpr (std::is_floating_point<P>::value) { typedef std::numeric_limits<P> L; if (a != a || b != b) return a != a && b != b; if (a == b) return true; if (std::isinf(a) || std::isinf(b)) return false; return std::fabs((LD)a - (LD)b) <= 3 * (LD)L::epsilon() * std::fabs((LD)b) + 3 * (LD)L::denorm_min(); }
	else return a == b;
}
