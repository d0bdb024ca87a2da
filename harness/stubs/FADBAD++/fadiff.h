// A stand-in for the part of FADBAD++ (http://www.fadbad.com) that TooN/functions/fadbad.h and TooN's templates use: forward automatic
// differentiation with a number of derivatives fixed at compile time (N > 0) or by diff() (N = 0). Written from FADBAD++'s documentation.
#ifndef STUB_FADIFF_H
#define STUB_FADIFF_H
#include <cmath>
#include <vector>
#include <array>
#include <cassert>
#include <limits>
#include <type_traits>
namespace fadbad {
template<class T, unsigned int N = 0> class F {
	typedef std::conditional_t<N == 0, std::vector<T>, std::array<T, N == 0 ? 1 : N>> D;
	T v{}; D d{}; bool dep = false;
	void need(unsigned n) { if constexpr (N == 0) { if (d.size() < n) { assert(d.empty()); d.assign(n, T(0)); } } dep = true; }
public:
	typedef T UnderlyingType;
	F() {}
	template<class U, class = std::enable_if_t<std::is_arithmetic_v<U>>> F(const U& x): v(x) {}
	T& x() { return v; } const T& val() const { return v; } T& val() { return v; }
	unsigned size() const { return N ? N : (unsigned)d.size(); } bool depend() const { return dep; }
	T deriv(unsigned i) const { return dep && i < d.size() ? d[i] : T(0); } T operator[](unsigned i) const { return deriv(i); }
	T& diff(unsigned i) { static_assert(N > 0, "number of derivatives"); assert(i < N); d.fill(T(0)); dep = true; return d[i] = T(1); }
	T& diff(unsigned i, unsigned n) { static_assert(N == 0, "number of derivatives is fixed"); assert(i < n); d.assign(n, T(0)); dep = true; return d[i] = T(1); }
	// value y whose derivative is a times that of p (and b times that of q)
	static F chain(const T& y, const T& a, const F& p) { F r; r.v = y; if (p.dep) { r.need(p.d.size()); for (size_t i = 0; i < p.d.size(); i++) r.d[i] = a * p.d[i]; } return r; }
	static F chain(const T& y, const T& a, const F& p, const T& b, const F& q) { if (!q.dep) return chain(y, a, p); if (!p.dep) return chain(y, b, q); assert(p.d.size() == q.d.size()); F r; r.v = y; r.need(p.d.size()); for (size_t i = 0; i < p.d.size(); i++) r.d[i] = a * p.d[i] + b * q.d[i]; return r; }
	F& operator+=(const F& o) { return *this = *this + o; } F& operator-=(const F& o) { return *this = *this - o; } F& operator*=(const F& o) { return *this = *this * o; } F& operator/=(const F& o) { return *this = *this / o; }
	F operator-() const { return chain(-v, T(-1), *this); } F operator+() const { return *this; }
	friend F operator+(const F& a, const F& b) { return chain(a.v + b.v, T(1), a, T(1), b); }
	friend F operator-(const F& a, const F& b) { return chain(a.v - b.v, T(1), a, T(-1), b); }
	friend F operator*(const F& a, const F& b) { return chain(a.v * b.v, b.v, a, a.v, b); }
	friend F operator/(const F& a, const F& b) { return chain(a.v / b.v, 1 / b.v, a, -a.v / (b.v * b.v), b); }
	friend bool operator==(const F& a, const F& b) { return a.v == b.v; } friend bool operator!=(const F& a, const F& b) { return a.v != b.v; } friend bool operator<(const F& a, const F& b) { return a.v < b.v; } friend bool operator>(const F& a, const F& b) { return a.v > b.v; } friend bool operator<=(const F& a, const F& b) { return a.v <= b.v; } friend bool operator>=(const F& a, const F& b) { return a.v >= b.v; }
	friend F sqrt(const F& a) { using std::sqrt; T s = sqrt(a.v); return chain(s, 1 / (2 * s), a); }
	friend F exp(const F& a) { using std::exp; T s = exp(a.v); return chain(s, s, a); }
	friend F log(const F& a) { using std::log; return chain(log(a.v), 1 / a.v, a); }
	friend F sin(const F& a) { using std::sin; using std::cos; return chain(sin(a.v), cos(a.v), a); }
	friend F cos(const F& a) { using std::sin; using std::cos; return chain(cos(a.v), -sin(a.v), a); }
	friend F tan(const F& a) { using std::tan; T t = tan(a.v); return chain(t, 1 + t * t, a); }
	friend F asin(const F& a) { using std::asin; using std::sqrt; return chain(asin(a.v), 1 / sqrt(1 - a.v * a.v), a); }
	friend F acos(const F& a) { using std::acos; using std::sqrt; return chain(acos(a.v), -1 / sqrt(1 - a.v * a.v), a); }
	friend F atan(const F& a) { using std::atan; return chain(atan(a.v), 1 / (1 + a.v * a.v), a); }
	friend F pow(const F& a, const F& b) { using std::pow; using std::log; T p = pow(a.v, b.v); return chain(p, b.v * pow(a.v, b.v - 1), a, p * log(a.v), b); }
};
}
#endif
