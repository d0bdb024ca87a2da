// Generic checks of the transformation groups against their matrix representations.
// Every class is described by its matrix size D, the number of algebra
// coordinates K, laid out as translation | rotation | log-scale, and by the
// generator matrices that its documentation gives.
#pragma once
#include "kinds.h"
#include <TooN/helpers.h>
#include <TooN/determinant.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/sim2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim3.h>
const LD PI = 3.14159265358979323846264338327950288L;

// what kind of group: S = space dimension, TR translation, SC scale
template<int S_, bool TR_, bool SC_> struct Kind {
	static const int S = S_; static const bool TR = TR_, SC = SC_;
	static const int D = S + (TR ? 1 : 0), NT = TR ? S : 0, NR = S == 2 ? 1 : 3, K = NT + NR + (SC ? 1 : 0);
	static std::vector<RM> gens() {
		std::vector<RM> v;
		for (int i = 0; i < NT; i++) { RM m(D, D); m(i, D - 1) = 1; v.push_back(m); }
		if (S == 2) { RM m(D, D); m(0, 1) = -1; m(1, 0) = 1; v.push_back(m); }
		else for (int i = 0; i < 3; i++) { RM m(D, D); int a = (i + 1) % 3, b = (i + 2) % 3; m(a, b) = -1; m(b, a) = 1; v.push_back(m); }
		if (SC) { RM m(D, D); for (int i = 0; i < S; i++) m(i, i) = 1; v.push_back(m); }
		return v;
	}
	static RM alg(const RV& v) { static const std::vector<RM> b = gens(); RM m(D, D); for (int i = 0; i < K; i++) m = add(m, b[i], v[i]); return m; }
	// coordinates of an element of the algebra
	static RV coords(const RM& m) {
		RV v(K, 0); for (int i = 0; i < NT; i++) v[i] = m(i, D - 1);
		if (S == 2) v[NT] = (m(1, 0) - m(0, 1)) / 2; else for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; v[NT + i] = (m(b, a) - m(a, b)) / 2; }
		if (SC) { LD t = 0; for (int i = 0; i < S; i++) t += m(i, i); v[K - 1] = t / S; }
		return v;
	}
	static LD tnorm(const RV& v) { LD s = 0; for (int i = 0; i < NT; i++) s += v[i] * v[i]; return std::sqrt(s); }
	static LD angle(const RV& v) { LD s = 0; for (int i = NT; i < NT + NR; i++) s += v[i] * v[i]; return std::sqrt(s); }
	static LD logscale(const RV& v) { return SC ? v[K - 1] : 0; }
	static RM ginv(const RM& m) { RM l = inv(sub(m, 0, 0, S, S)), o(D, D); for (int i = 0; i < S; i++) { for (int j = 0; j < S; j++) { o(i, j) = l(i, j); if (TR) o(i, D - 1) -= l(i, j) * m(j, D - 1); } } if (TR) o(D - 1, D - 1) = 1; return o; }
	// adjoint in coordinates
	static RM ad(const RM& g) { RM gi = ginv(g), a(K, K); for (int j = 0; j < K; j++) { RV e(K, 0); e[j] = 1; RV c = coords(mul(g, mul(alg(e), gi))); for (int i = 0; i < K; i++) a(i, j) = c[i]; } return a; }
	// |Ad| rounded up to the size of its blocks, and the same for its inverse transpose
	static RM ad_size(const RM& g, const RM& a) { LD t = tpart(g), s = SC ? spart(g) : 1; RM z = absm(a); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) z(i, j) = std::max(z(i, j), i < NT ? (j < NT ? s : t) : (j < NT ? (LD)0 : (LD)1)); return z; }
	static RM cad_size(const RM& g, const RM& a) { LD t = tpart(g), s = SC ? spart(g) : 1; RM z = absm(a); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) z(i, j) = std::max(z(i, j), j < NT ? (i < NT ? 1 / s : t / s) : (i < NT ? (LD)0 : (LD)1)); return z; }
	static LD tpart(const RM& m) { LD s = 0; if (TR) for (int i = 0; i < S; i++) s = std::max(s, std::fabs(m(i, D - 1))); return s; }
	static LD spart(const RM& m) { LD s = 0; for (int i = 0; i < S; i++) s += m(i, 0) * m(i, 0); return std::sqrt(s); }
};
template<class P> RM rot_of(const SO2<P>& r) { return rm(r.get_matrix()); }
template<class P> RM rot_of(const SO3<P>& r) { return rm(r.get_matrix()); }
template<class G> RM affine(const G& x, int s, LD sc) { RM r = rot_of(x.get_rotation()), m(s + 1, s + 1); for (int i = 0; i < s; i++) { for (int j = 0; j < s; j++) m(i, j) = sc * r(i, j); m(i, s) = x.get_translation()[i]; } m(s, s) = 1; return m; }
template<class P> struct XSO2: Kind<2, false, false> { typedef P Prec; typedef SO2<P> G; template<class Q> using Of = XSO2<Q>; static RM mat(const G& x) { return rot_of(x); } static RM rot(const G& x) { return rot_of(x); } static const char* name() { return "SO2"; } };
template<class P> struct XSO3: Kind<3, false, false> { typedef P Prec; typedef SO3<P> G; template<class Q> using Of = XSO3<Q>; static RM mat(const G& x) { return rot_of(x); } static RM rot(const G& x) { return rot_of(x); } static const char* name() { return "SO3"; } };
template<class P> struct XSE2: Kind<2, true, false> { typedef P Prec; typedef SE2<P> G; template<class Q> using Of = XSE2<Q>; static RM mat(const G& x) { return affine(x, 2, 1); } static RM rot(const G& x) { return rot_of(x.get_rotation()); } static const char* name() { return "SE2"; } };
template<class P> struct XSE3: Kind<3, true, false> { typedef P Prec; typedef SE3<P> G; template<class Q> using Of = XSE3<Q>; static RM mat(const G& x) { return affine(x, 3, 1); } static RM rot(const G& x) { return rot_of(x.get_rotation()); } static const char* name() { return "SE3"; } };
template<class P> struct XSIM2: Kind<2, true, true> { typedef P Prec; typedef SIM2<P> G; template<class Q> using Of = XSIM2<Q>; static RM mat(const G& x) { return affine(x, 2, x.get_scale()); } static RM rot(const G& x) { return rot_of(x.get_rotation()); } static const char* name() { return "SIM2"; } };
template<class P> struct XSIM3: Kind<3, true, true> { typedef P Prec; typedef SIM3<P> G; template<class Q> using Of = XSIM3<Q>; static RM mat(const G& x) { return affine(x, 3, x.get_scale()); } static RM rot(const G& x) { return rot_of(x.get_rotation()); } static const char* name() { return "SIM3"; } };

// ---- generators
inline LD gen_angle(Gen& g, bool principal) {
	static const LD th[] = { 1e-12L, 1e-9L, 1e-8L, 1e-6L, 1e-5L, 1e-4L, 1e-3L, 0.0316227766L, 0.5L, PI / 4, PI / 2, 3 * PI / 4 };
	int k = g.pick(principal ? 8 : 11); LD a = 0; if (principal && k == 7) k = 9;
	switch (k) {
		case 0: a = g.uniform(0, (double)PI); g.tag("angle generic"); break;
		case 1: g.tag("angle zero"); break;
		case 2: a = g.logpos(1e-14, 1e-2); g.tag("angle small"); break;
		case 3: a = th[g.pick(12)] * (1 + (g.flag() ? 0 : g.uniform(-1, 1) * std::pow(10., -g.range(1, 12)))); g.tag("angle at a threshold"); break;
		case 4: a = PI - g.logpos(1e-12, 1e-1); g.tag("angle near pi"); break;
		case 5: a = PI - g.logpos(1e-4, 1); g.tag("angle near pi"); break;
		case 6: a = g.uniform(0, 1); g.tag("angle generic"); break;
		case 7: a = PI; g.tag("angle pi"); break;
		case 9: a = g.logpos(1e-200, 1e-14); g.tag("angle minute"); break;
		case 10: a = g.logpos(10, 1e4); g.tag("angle of many turns"); break;
		case 8: a = PI + (g.flag() ? g.logpos(1e-12, 1) : g.uniform(0, 10)); g.tag("angle above pi"); break;
	}
	return a;
}
inline RV gen_direction(Gen& g, int n) {
	if (n == 1) return RV(1, g.flag() ? 1 : -1);
	RV v(n); int k = g.pick(5);
	switch (k) {
		case 0: v[g.pick(n)] = g.flag() ? 1 : -1; break;
		case 1: for (auto& x : v) x = g.range(-1, 1); break;
		case 2: { int p = g.pick(n); for (auto& x : v) x = g.uniform(-1, 1) * std::pow(10., -g.range(1, 9)); v[p] = g.flag() ? 1 : -1; break; }
		case 3: { LD t = g.uniform(-1, 1), u = g.uniform(-1, 1); int p = g.pick(n); for (auto& x : v) x = g.flag() ? t : -t; v[p] = u; break; }
		default: v = gen_densev(g, n);
	}
	LD m = norm2(v); if (!(m > 1e-6)) { v = RV(n, 0); v[0] = 1; m = 1; }
	return scale(v, 1 / m);
}
inline RV gen_transl(Gen& g, int n, const RV& axis, double wild = 10) {
	LD m = 0; switch (g.chance(12) ? 4 : g.pick(4)) { case 4: m = g.logpos(std::pow(10, -wild), std::pow(10, wild)); g.tag("translation of extreme magnitude"); break; case 0: m = 1; break; case 1: m = 0; break; case 2: m = g.logpos(1e-3, 1e3); break; case 3: m = g.uniform(0, 4); break; }
	RV d = (int)axis.size() == n && g.chance(25) ? axis : gen_direction(g, n); g.tag("translation zero", m == 0); return scale(d, m);
}
inline LD gen_logscale(Gen& g, bool wide) {
	switch (g.pick(6)) {
		case 0: return g.uniform(-1, 1);
		case 1: g.tag("log-scale zero"); return 0;
		case 2: g.tag("log-scale small"); return g.chance(80) ? g.logmag(1e-14, 1e-2) : g.logmag(1e-200, 1e-14);
		case 3: { static const LD th[] = { 1e-8L, 1e-6L, 1e-5L, 1e-4L, 1e-3L, 0.5L, 1 }; return (g.flag() ? 1 : -1) * th[g.pick(7)] * (1 + (g.flag() ? 0 : g.uniform(-1, 1) * std::pow(10., -g.range(1, 12)))); }
		case 4: return g.uniform(-3, 3);
		default: if (!wide) return g.uniform(-2, 2); g.tag("log-scale large"); return g.chance(70) ? g.uniform(-8, 8) : g.uniform(-30, 30);
	}
}
template<class P> constexpr double wild_decades() { return sizeof(P) == 4 ? 10 : 100; }
template<class X> RV gen_tangent(Gen& g, bool principal, bool wide = true) {
	RV v(X::K, 0); LD a = gen_angle(g, principal); RV d = gen_direction(g, X::NR);
	for (int i = 0; i < X::NR; i++) v[X::NT + i] = a * d[i];
	if (X::NT) { RV t = gen_transl(g, X::NT, d, wild_decades<typename X::Prec>()); for (int i = 0; i < X::NT; i++) v[i] = t[i]; }
	if (X::SC) v[X::K - 1] = gen_logscale(g, wide);
	return roundto<typename X::Prec>(v);
}
template<class X> typename X::G make(const RV& v) {
	typedef typename X::Prec P;
	if constexpr (!X::TR && X::S == 2) return typename X::G((P)v[0]); else return X::G::exp(vec<X::K, P>(v));
}
// any element: an exponential, or one put together from its parts
template<class X> typename X::G element(Gen& g, bool wide = false) {
	typedef typename X::Prec P; typename X::G e = make<X>(gen_tangent<X>(g, false, wide));
	if constexpr (X::TR) if (g.flag()) { auto& t = e.get_translation(); RV n = gen_transl(g, X::S, RV(), wild_decades<P>()); for (int i = 0; i < X::S; i++) t[i] = (P)n[i]; }
	return e;
}
// size of the error of a product, with a floor for results that underflow
template<class... P> LD tiny_of() { return 8 * std::max({(LD)std::numeric_limits<P>::min()...}); }
template<class... P> RV fl(RV v) { for (auto& x : v) x += tiny_of<P...>(); return v; }
template<class... P> RM fl(RM m) { for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) m(i, j) += tiny_of<P...>(); return m; }
// ---- comparison of matrices of group elements: linear part to r, translation to t
template<class X> void near_mat(const RM& got, const RM& want, LD r, LD t, const std::string& what) {
	RM tol(X::D, X::D); for (int i = 0; i < X::S; i++) for (int j = 0; j < X::D; j++) tol(i, j) = j < X::S ? r : t;
	same(got, want, tol, 1, what);
}
template<class X> void rotation_ok(const typename X::G& x, LD tol, const std::string& what) { RM r = X::rot(x); same(mul(r, T(r)), RM::eye(X::S), tol, what + ": the rotation times its transpose"); if (!(det(r) > 0)) FAIL(what << ": determinant of the rotation " << (double)det(r)); }
// exponential of the algebra element with coordinates v; the translation of the result is linear in that of v
template<class X> RM gexp(const RV& v) { LD m = X::tnorm(v); if (!(m > 1)) return expm(X::alg(v)); RV w = v; for (int i = 0; i < X::NT; i++) w[i] /= m; RM e = expm(X::alg(w)); for (int i = 0; i < X::NT; i++) e(i, X::D - 1) *= m; return e; }
// exponential
template<class X> void exp_tol(const RV& v, LD& r, LD& t) {
	LD e = eps<typename X::Prec>(), th = X::angle(v), l = X::logscale(v), s = std::exp(l); r = e * (10 + 6 * th + std::fabs(l)) * s; t = e * (40 + 20 * th + 4 * std::fabs(l) + 2 / std::max(th, (LD)1e-3)) * X::tnorm(v) * std::max(s, (LD)1);
}
template<class X> void exp_check(const typename X::G& x, const RV& v, const std::string& what) { LD r, t; exp_tol<X>(v, r, t); RM e = gexp<X>(v); near_mat<X>(X::mat(x), e, r, t, what); rotation_ok<X>(x, 40 * eps<typename X::Prec>(), what); }
const int GK_VEC = VK_STATIC | VK_DYN | VK_SSLICE | VK_DSLICE | VK_COL | VK_CONST | VK_ROW | VK_WRAP;
template<class X, class Q> void exp_case(Gen& g) {
	typedef typename X::Prec P; RV v = roundto<Q>(gen_tangent<X>(g, false)); v = roundto<P>(v); if (!std::isfinite((double)X::tnorm(v))) g.discard(); g.note("v", show(v)); g.nontrivial(X::angle(v) != 0);
	if constexpr (!X::TR && X::S == 2) { if (g.flag()) exp_check<X>(X::G::exp((P)v[0]), v, "exp(a)"); else exp_check<X>(typename X::G((P)v[0]), v, "SO2(a)"); }
	else with_vec<X::K, Q, GK_VEC>(g, v, [&](auto& a) { if (g.flag()) exp_check<X>(X::G::exp(a), v, "exp(v)"); else exp_check<X>(typename X::G(a), v, "construction from v"); same(rv(a), v, 0, "the vector passed"); });
}
// logarithm
template<class X> RV ln_rv(const typename X::G& x, bool stat) { if constexpr (!X::TR && X::S == 2) { (void)stat; return RV(1, x.ln()); } else if constexpr (!X::TR) { (void)stat; return rv(x.ln()); } else return stat ? rv(X::G::ln(x)) : rv(x.ln()); }
template<class X> void ln_tol(const RM& m, const RV& l, LD& r, LD& t, LD& sc) {
	typedef typename X::Prec P; LD e = eps<P>(); LD s = X::SC ? X::spart(m) : 1; sc = e * (20 + 2 * std::fabs(X::logscale(l))); r = 40 * e; t = std::max((LD)1e-11, 100 * e) * X::tpart(m) * std::max((LD)1, 1 / s);
}
template<class X> void ln_case(Gen& g) {
	typedef typename X::Prec P; LD e = eps<P>(); bool pr = g.chance(75); RV v = gen_tangent<X>(g, pr); typename X::G x = make<X>(v); if (!pr && g.flag()) x = element<X>(g, true); else pr = pr || X::angle(v) < PI;
	RM m = X::mat(x); RV l = ln_rv<X>(x, g.flag()); g.note("v", show(v)); g.note("ln", show(l)); g.nontrivial(X::angle(l) != 0); LD r, t, sc; ln_tol<X>(m, l, r, t, sc); LD th = X::angle(l);
	if (!(th <= PI * (1 + 4 * e))) FAIL("ln gives a rotation by " << (double)th);
	if (pr && X::angle(v) < PI - 1e3 * e) { LD vr, vt; exp_tol<X>(v, vr, vt); vt = 2 * vt / std::min((LD)1, std::exp(X::logscale(v)));
		for (int i = 0; i < X::NT; i++) CLOSE(l[i], v[i], t + vt + e * 100 * X::tnorm(v), "translation part of ln(exp(v)), ln " << l << " v " << v);
		for (int i = X::NT; i < X::NT + X::NR; i++) CLOSE(l[i], v[i], r, "rotation part of ln(exp(v)), ln " << l << " v " << v);
		if (X::SC) CLOSE(l[X::K - 1], v[X::K - 1], sc, "log-scale of ln(exp(v))"); g.tag("ln(exp(v)) against v");
	}
	LD s = X::SC ? X::spart(m) : 1; LD er, et; exp_tol<X>(l, er, et); near_mat<X>(gexp<X>(l), m, (r + sc) * s + er, t * std::max(s, (LD)1) + et + 4 * (r + sc) * X::tpart(m), "exp(ln(g)) against g");
	near_mat<X>(X::mat(make<X>(roundto<P>(l))), m, (r + sc) * s + 2 * er, t * std::max(s, (LD)1) + 2 * et + 4 * (r + sc) * X::tpart(m), "exp(ln(g)) computed by the library against g");
}
// product of two matrices of the group, with the size of its rounding error
template<class X> void prod_check(const typename X::G& got, const RM& a, const RM& b, LD e, const std::string& what) { RM p = mul(a, b), q = mul(absm(a), absm(b)); RM m = X::mat(got); for (int i = 0; i < X::D; i++) for (int j = 0; j < X::D; j++) { LD c = q(i, j); for (int k = 0; k < X::S; k++) c = std::max(c, j < X::S ? q(i, k) : q(k, j)); CLOSE(m(i, j), p(i, j), 20 * e * (c + tiny_of<typename X::Prec>()), what << ": entry " << i << "," << j << " of the product of " << a << " and " << b); } }
template<class X> void inverse_check(const typename X::G& got, const RM& a, LD e, const std::string& what) { RM n = X::mat(got), r = X::ginv(a); LD is = X::SC ? 1 / X::spart(a) : 1; near_mat<X>(n, r, 40 * e * is, 40 * e * X::tpart(a) * is, what); }
// what is written: one row per line, every entry padded to the field width
template<class X> void text_check(const std::string& t, const RM& a, int fw, LD e) {
	std::istringstream in(t); std::string line, word; LD s = X::SC ? X::spart(a) : 1; int rows = 0;
	while (std::getline(in, line)) {
		if (line.empty()) continue; if (rows >= X::S) FAIL("more than " << X::S << " lines written: " << t); std::istringstream l(line); int c = 0;
		while (l >> word) { if (c >= X::D) FAIL("more than " << X::D << " entries in a line: " << t); double d = std::strtod(word.c_str(), 0); if (!(std::fabs(d - a(rows, c)) <= 4 * e * (c < X::S ? s : std::fabs(a(rows, c))))) FAIL("entry " << rows << "," << c << " written as " << word << " is not " << (double)a(rows, c)); c++; }
		if (c != X::D) FAIL(c << " entries in a line: " << t); rows++; if ((int)line.size() < fw * X::D) FAIL("field width " << fw << " is not kept: " << t);
	}
	if (rows != X::S) FAIL(rows << " lines written: " << t);
}
template<class X> void history_case(Gen& g) {
	typedef typename X::Prec P; LD e = eps<P>(); typename X::G x = g.flag() ? typename X::G() : element<X>(g); int n = g.range(1, 20); int drift = 4; g.nontrivial(n > 2); { typename X::G id; same(X::mat(id), RM::eye(X::D), 0, "default construction"); }
	for (int k = 0; k < n; k++) {
		RM a = X::mat(x); LD big = X::tpart(a), sc = X::SC ? X::spart(a) : 1; if (big > 1e6 || sc > 1e4 || sc < 1e-4) { x = typename X::G(); a = X::mat(x); drift = 4; }
		int op = g.pick(9); LD de = e * drift; (void)de; LD ee = e * (1 + drift * 0.1L);
		if (op == 0 && g.chance(25)) { typename X::G y = element<X>(g), w = x; (x *= y) *= y; w *= y; w *= y; same(X::mat(x), X::mat(w), 0, "(g *= h) *= h against g *= h; g *= h"); drift += 12; g.tag("chained *="); }
		else if (op == 0) { typename X::G y = element<X>(g); RM b = X::mat(y); x *= y; prod_check<X>(x, a, b, e, "g *= h"); same(X::mat(y), b, 0, "right operand"); drift += 6; }
		else if (op == 1) { typename X::G y = element<X>(g); RM b = X::mat(y); typename X::G z = x * y; prod_check<X>(z, a, b, e, "g * h"); same(X::mat(x), a, 0, "left operand"); x = z; drift += 6; }
		else if (op == 2) { typename X::G y = element<X>(g); RM b = X::mat(y); x = y * x; prod_check<X>(x, b, a, e, "g = h * g"); drift += 6; }
		else if (op == 3) { typename X::G z = x.inverse(); inverse_check<X>(z, a, ee, "inverse"); same(X::mat(x), a, 0, "inverted element"); x = z; }
		else if (op == 4) { typename X::G z = x.inverse(); RM b = X::mat(z); typename X::G w = x * z; prod_check<X>(w, a, b, e, "g * g.inverse()"); near_mat<X>(X::mat(w), RM::eye(X::D), 60 * ee, 60 * ee * big, "g * g.inverse()"); w = z * x; near_mat<X>(X::mat(w), RM::eye(X::D), 60 * ee, 60 * ee * big * (X::SC ? 1 / X::spart(a) : 1), "g.inverse() * g"); }
		else if (op == 5) { x *= x; prod_check<X>(x, a, a, e, "g *= g"); drift = 2 * drift + 6; g.tag("g *= g"); if (drift > 400) { x = typename X::G(); drift = 4; } }
		else if (op == 6) { std::ostringstream o; int full = sizeof(P) == 4 ? 9 : 17, digits = g.chance(30) ? g.range(3, full) : full; o.precision(digits); const LD cut = digits < full ? 4 * std::pow((LD)10, 1 - digits) : 0; if (cut > 0) g.tag("written with few digits"); int fw = g.pick(3) == 0 ? g.range(1, 40) : 0; o.width(fw); o << x; text_check<X>(o.str(), a, fw, e + cut); std::istringstream in(o.str()); typename X::G y = element<X>(g); in >> y; if (in.fail()) FAIL("reading back " << o.str() << " failed"); LD s = X::SC ? X::spart(a) : 1; near_mat<X>(X::mat(y), a, (e * (20 + 4 * drift) + 3 * cut) * s, cut * X::tpart(a), "reading back what was written"); rotation_ok<X>(y, 40 * e, "element read from a stream"); x = y; drift = 4 + (X::SC ? drift : 0); g.tag("stream round trip"); }
		else if (op == 7) { if constexpr (X::S == 3 && X::TR) { typename X::G y = element<X>(g); RM b = X::mat(y); x.left_multiply_by(y); prod_check<X>(x, b, a, e, "left_multiply_by"); drift += 6; g.tag("left_multiply_by"); } else if constexpr (!X::TR) { x.coerce(); same(X::mat(x), a, e * (20 + 2 * drift), "coerce of a rotation"); drift = 4; } }
		else { if constexpr (X::S == 3 && X::TR) { x.left_multiply_by(x); prod_check<X>(x, a, a, e, "g.left_multiply_by(g)"); drift = 2 * drift + 6; if (drift > 400) { x = typename X::G(); drift = 4; } } }
		rotation_ok<X>(x, e * (20 + 4 * drift), "after a step of a history");
		if (g.chance(20)) { RM m = X::mat(x); RV l = ln_rv<X>(x, false); LD r, t, sc, er, et; ln_tol<X>(m, l, r, t, sc); exp_tol<X>(l, er, et); LD s = X::SC ? X::spart(m) : 1, dr = 8 * drift * e; LD th = X::angle(l); if (!(th <= PI * (1 + 4 * e))) FAIL("ln of a product gives a rotation by " << (double)th); near_mat<X>(gexp<X>(l), m, (r + sc + dr) * s + er, t * std::max(s, (LD)1) + et + 4 * (r + sc + dr) * X::tpart(m), "exp(ln(g)) against g, after a history"); g.tag("ln of a product"); }
	}
}
// products of elements of different precision
template<class X, class Y> void mixed_case(Gen& g) {
	typedef typename X::template Of<double> Z; typename X::G x = element<X>(g); typename Y::G y = element<Y>(g); RM a = X::mat(x), b = Y::mat(y); g.nontrivial(true);
	auto z = x * y; static_assert(std::is_same<decltype(z), typename Z::G>::value, "product of float and double is double"); prod_check<Z>(z, a, b, eps<double>(), "product of elements of different precision");
	if constexpr (X::SC == false && sizeof(typename X::Prec) == 8) { typename X::G w = x; w *= y; prod_check<X>(w, a, b, eps<typename X::Prec>() * 2, "g *= h of another precision"); }
}
// points, lines and matrices of any magnitude
template<class Q> LD magnitude(Gen& g, LD t) { if (!g.chance(12)) return 1; LD d = sizeof(Q) == 4 ? 15 : 150; g.tag("operand of extreme magnitude"); (void)t; return g.logpos((double)std::pow((LD)10, -d), (double)std::pow((LD)10, d)); }
// action on vectors
template<class RT, class V> RV typed(const V& v) { static_assert(std::is_same<typename std::decay<decltype(v[0])>::type, RT>::value, "precision of the result"); return rv(v); }
template<class X, class Q> void action_case(Gen& g) {
	typedef typename X::Prec P; typedef typename Internal::MultiplyType<P, Q>::type R; typename X::G x = element<X>(g); RM m = X::mat(x); LD e = std::max(eps<P>(), eps<Q>()); e = eps<R>() > 0 ? eps<R>() : e; int mode = g.pick(2); g.nontrivial(true); g.note("g", show(m));
	int k = g.pick(X::TR ? 3 : 2);
	if (k == 0) { RV p = roundto<Q>(scale(gen_rv(g, X::D, mode), magnitude<Q>(g, X::tpart(m)))); g.note("p", show(p)); with_vec<X::D, Q, GK_VEC>(g, p, [&](auto& a) { same(typed<R>(x * a), mul(m, p), fl<P, Q>(mul(absm(m), absv(p))), 20 * e, "g * v"); same(rv(a), p, 0, "vector"); }); if (X::TR) g.tag("homogeneous vector"); }
	else if (k == 1) { RV p = roundto<Q>(scale(gen_rv(g, X::D, mode), magnitude<Q>(g, X::tpart(m)))); g.note("p", show(p)); with_vec<X::D, Q, GK_VEC>(g, p, [&](auto& a) { same(typed<R>(a * x), mul(T(m), p), fl<P, Q>(mul(absm(T(m)), absv(p))), 20 * e, "v * g"); same(rv(a), p, 0, "vector"); }); g.tag("vector from the left"); }
	else if constexpr (X::TR) { RV p = roundto<Q>(scale(gen_rv(g, X::S, mode), magnitude<Q>(g, X::tpart(m)))); g.note("p", show(p)); RV h = p; h.push_back(1); RV w = mul(m, h), aw = mul(absm(m), absv(h)); w.pop_back(); aw.pop_back(); const int st = VK_STATIC | VK_SSLICE | VK_CONST | VK_WRAP; with_vec<X::S, Q, st>(g, p, [&](auto& a) { same(typed<R>(x * a), w, fl<P, Q>(aw), 20 * e, "g * point"); same(rv(a), p, 0, "point"); }); g.tag("point"); }
}
const int GK_MAT = MK_STATIC | MK_STATICCOL | MK_DYN | MK_SSLICE | MK_DSLICE | MK_T | MK_CONST | MK_DYNCOL;
template<class X, class Q> void matrix_case(Gen& g) {
	typedef typename X::Prec P; typedef typename Internal::MultiplyType<P, Q>::type R; typename X::G x = element<X>(g); RM m = X::mat(x); LD e = eps<R>(); int mode = g.pick(2); g.nontrivial(true); g.note("g", show(m)); const int C = X::D + 1;
	if (g.chance(40)) { int n = g.size(1, 8, 40); g.tag("more than eight columns", n > 8); RM b = roundto<Q>(scale(gen_rm(g, X::D, n, mode), magnitude<Q>(g, 1))), t = T(b); const RM w = mul(m, b), ws = fl<P, Q>(mul(absm(m), absm(b))), u = mul(t, m), us = fl<P, Q>(mul(absm(t), absm(m)));
		switch (g.pick(4)) {
			case 0: { Matrix<Dynamic, Dynamic, Q> a(X::D, n); put(a, b); same(rm(x * a), w, ws, 20 * e, "g * M, M with any number of columns"); break; }
			case 1: { Matrix<X::D, Dynamic, Q> a(X::D, n); put(a, b); same(rm(x * a), w, ws, 20 * e, "g * M, M with any number of columns"); break; }
			case 2: { Matrix<Dynamic, Dynamic, Q> a(n, X::D); put(a, t); same(rm(a * x), u, us, 20 * e, "M * g, M with any number of rows"); break; }
			case 3: { Matrix<Dynamic, X::D, Q> a(n, X::D); put(a, t); same(rm(a * x), u, us, 20 * e, "M * g, M with any number of rows"); break; }
		}
		return; }
	if (g.flag()) { RM b = roundto<Q>(gen_rm(g, X::D, C, mode)); with_mat<X::D, C, Q, GK_MAT>(g, b, [&](auto& a) { same(rm(x * a), mul(m, b), fl<P, Q>(mul(absm(m), absm(b))), 20 * e, "g * M"); same(rm(a), b, 0, "matrix"); }); }
	else { RM b = roundto<Q>(gen_rm(g, C, X::D, mode)); with_mat<C, X::D, Q, GK_MAT>(g, b, [&](auto& a) { same(rm(a * x), mul(b, m), fl<P, Q>(mul(absm(b), absm(m))), 20 * e, "M * g"); same(rm(a), b, 0, "matrix"); }); }
}
// generators
template<class X> void generator_case(Gen& g) {
	typedef typename X::Prec P; int i = g.pick(X::K); static const std::vector<RM> b = X::gens(); g.nontrivial(true); RM m;
	if constexpr (!X::TR && X::S == 2) m = rm(X::G::generator()); else m = rm(X::G::generator(i));
	same(m, b[i], 0, "generator"); LD h = 1e-3; RV v(X::K, 0); v[i] = (P)h; exp_check<X>(make<X>(v), v, "exponential of a multiple of a generator");
	if constexpr (X::S == 3) { RV p = roundto<P>(gen_rv(g, X::D, g.pick(2))); with_vec<X::D, P, VK_STATIC | VK_SSLICE | VK_CONST | VK_WRAP | VK_COL | VK_ROW>(g, p, [&](auto& a) { same(rv(X::G::generator_field(i, a)), mul(b[i], p), 0, "generator field"); }); }
}
// adjoint
template<class X, class Q, int FORMS> void adjoint_case(Gen& g) {
	typedef typename X::Prec P; typename X::G x = element<X>(g); RM m = X::mat(x); RM ad = X::ad(m); LD e = eps<P>(); g.nontrivial(true); g.note("g", show(m));
	if (g.flag()) { RV v(X::K); for (auto& c : v) c = (Q)g.real(); g.note("v", show(v)); with_vec<X::K, Q, FORMS>(g, v, [&](auto& a) { same(rv(x.adjoint(a)), mul(ad, v), fl<P, Q>(mul(X::ad_size(m, ad), absv(v))), 60 * e, "adjoint(v)"); same(rv(a), v, 0, "vector"); }); }
	else { if (X::tpart(m) > 2e3) g.discard(); RV w(X::K); for (auto& c : w) c = g.uniform(-1, 1) * 0.5; w = roundto<P>(w); RM lhs = mul(m, mul(gexp<X>(w), X::ginv(m))); if constexpr (!(X::S == 2 && !X::TR)) { RV a = rv(x.adjoint(vec<X::K, P>(w))); RM rhs = gexp<X>(a); LD z = maxabs(absm(ad)); near_mat<X>(rhs, lhs, 1e3 * e * (1 + z), 1e3 * e * (1 + z) * (1 + z), "exp(adjoint(v)) against g exp(v) g^-1"); } }
}
template<class X, class Q> void adjoint_matrix_case(Gen& g) {
	typedef typename X::Prec P; typename X::G x = element<X>(g); RM m = X::mat(x); RM ad = X::ad(m); RM b = roundto<Q>(gen_rm(g, X::K, X::K, g.pick(2))); LD e = eps<P>(); g.nontrivial(true); g.note("g", show(m)); g.note("M", show(b));
	with_mat<X::K, X::K, Q, GK_MAT>(g, b, [&](auto& a) { same(rm(x.adjoint(a)), mul(ad, mul(b, T(ad))), fl<P, Q>(mul(X::ad_size(m, ad), mul(absm(b), T(X::ad_size(m, ad))))), 100 * e, "adjoint(M)"); same(rm(a), b, 0, "matrix"); });
}
// covectors
template<class X> void trinvadjoint_case(Gen& g) {
	typedef typename X::Prec P; typename X::G x = element<X>(g); RM m = X::mat(x); RM ad = X::ad(m), tr = T(X::ad(X::ginv(m))); LD e = eps<P>(); g.nontrivial(true); g.note("g", show(m)); for (int i = 0; i < X::NT; i++) for (int j = X::NT; j < X::K; j++) tr(i, j) = 0; RM size = X::cad_size(m, tr);
	if (g.flag()) { RV v(X::K); for (auto& c : v) c = (P)g.real(); g.note("v", show(v)); with_vec<X::K, P, GK_VEC>(g, v, [&](auto& a) { same(rv(x.trinvadjoint(a)), mul(tr, v), fl<P>(mul(size, absv(v))), 60 * e, "trinvadjoint(v)"); }); RV w(X::K); for (auto& c : w) c = (P)g.real(); CLOSE(dot(rv(x.trinvadjoint(vec<X::K, P>(v))), rv(x.adjoint(vec<X::K, P>(w)))), dot(v, w), 200 * e * dot(mul(size, absv(v)), mul(X::ad_size(m, ad), absv(w))), "trinvadjoint(v) * adjoint(w) against v * w"); }
	else { RM b = roundto<P>(gen_rm(g, X::K, X::K, g.pick(2))); with_mat<X::K, X::K, P, GK_MAT>(g, b, [&](auto& a) { same(rm(x.trinvadjoint(a)), mul(tr, mul(b, T(tr))), fl<P>(mul(size, mul(absm(b), T(size)))), 100 * e, "trinvadjoint(M)"); }); }
}
