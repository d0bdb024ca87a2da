// E02: reweighting functions and iteratively reweighted least squares
#include "num.h"
#include "abort.h"
#include "wls_model.h"
#include <TooN/irls.h>
#ifndef PART
#define PART 0
#endif
// the documented functions, w(x), w(x) + xw'(x) and the integral of xw(x) from 0, of the standard deviation given to set_sd
template<template<class> class> struct Def;
template<> struct Def<RobustI> { static LD w(LD x, LD s) { return 1 / (s + std::fabs(x)); } static LD ts(LD x, LD s) { LD v = w(x, s); return s * v * v; } static LD obj(LD x, LD s) { return std::fabs(x) - s * std::log1p(std::fabs(x) / s); } static LD mag(LD x, LD s) { return std::fabs(x) + s * (1 + std::log1p(std::fabs(x) / s)); } };
template<> struct Def<RobustII> { static LD w(LD x, LD s) { return 1 / (s * s + x * x); } static LD ts(LD x, LD s) { LD v = w(x, s); return (s * s - x * x) * v * v; } static LD obj(LD x, LD s) { return std::log1p(x * x / (s * s)) / 2; } static LD mag(LD x, LD s) { return 1 + obj(x, s); } };
template<> struct Def<ILinear> { static LD w(LD, LD) { return 1; } static LD ts(LD, LD) { return 1; } static LD obj(LD x, LD) { return x * x / 2; } static LD mag(LD x, LD) { return x * x / 2; } };
template<> struct Def<RobustIII> { static LD w(LD x, LD s) { LD d = 1 + x * x / (s * s); return 1 / (d * d); } static LD ts(LD x, LD s) { LD q = x * x / (s * s), d = 1 + q; return (1 - 3 * q) / (d * d * d); } static LD obj(LD x, LD s) { return x * x / (2 * (1 + x * x / (s * s))); } static LD mag(LD x, LD s) { return obj(x, s); } };
template<template<class> class R, class P> void weights(Gen& g) {
	R<P> r; bool wild = g.chance(20); int q = std::is_same_v<P, float> ? 8 : 60; LD S = wild ? std::pow((LD)10, g.range(-q, q)) : 1; P sd = (P)(S * g.logpos(1e-3, 1e3)); r.set_sd(sd); g.tag("extreme deviation", wild); LD e = 16 * eps<P>(); LD far = std::is_same_v<P, float> ? 1e6 : 1e30;
	for (int k = 0; k < 3; k++) {
		if (g.chance(20)) { sd = (P)(S * g.logpos(1e-3, 1e3)); r.set_sd(sd); }
		P x = (P)(g.pick(6) == 0 ? 0 : g.pick(3) == 0 ? (g.flag() ? 1 : -1) * sd * g.logpos(0.1, 10) : (g.flag() ? 1 : -1) * (wild ? sd * g.logpos(1e-5, 1e5) : g.logpos(1 / far, far))); using D = Def<R>; g.note("sd", sd); g.note("x", x); g.tag("far outlier", std::fabs(x) > 100 * sd); g.tag("inlier", std::fabs(x) < sd);
		LD w = D::w(x, sd), lo = LD(std::numeric_limits<P>::min()) * 16, ts = D::ts(x, sd), tsmag = D::w(x, sd) * 3; g.nontrivial(x != 0);
		// far out, where the powers of a closed form overflow, a scale of 0 is as good
		LD s2 = (LD)sd * sd, x2 = (LD)x * x, power = std::is_same_v<R<P>, RobustIII<P>> ? std::pow(1 + x2 / s2, 3) : std::is_same_v<R<P>, RobustII<P>> ? (s2 + x2) * (s2 + x2) : 0; bool overflows = power > LD(std::numeric_limits<P>::max()) / 16; g.tag("powers overflow", overflows);
		CLOSE(r.reweight(x), w, e * w + lo, "w(x)"); CLOSE(r.true_scale(x), ts, e * tsmag + lo + (overflows ? std::fabs(ts) : 0), "w(x) + xw'(x)"); CLOSE(r.objective(x), D::obj(x, sd), e * D::mag(x, sd) + lo, "integral of xw(x)");
	}
}
template<class P> void all_weights(Gen& g) { switch (g.pick(4)) { case 0: g.tag("RobustI"); weights<RobustI, P>(g); break; case 1: g.tag("RobustII"); weights<RobustII, P>(g); break; case 2: g.tag("RobustIII"); weights<RobustIII, P>(g); break; case 3: g.tag("ILinear"); weights<ILinear, P>(g); break; } }
struct IModel : Model { RM tc, atc; LD res = 0, ares = 0; int obs = 0; IModel(int n): Model(n), tc(n, n), atc(n, n) {} };
template<int N, class P, template<class> class R> struct IHist {
	typedef IRLS<N, P, R> I; typedef Def<R> D;
	static void check(I& w, const IModel& m, const char* what) {
		LD e = eps<P>() * (m.terms + 24) * 2; RM c = rm(w.get_C_inv()); for (int i = 0; i < m.n; i++) for (int j = m.full ? 0 : i; j < m.n; j++) CLOSE(c(i, j), m.C(i, j), e * m.aC(i, j), what << ": entry " << i << "," << j << " of the information matrix " << c << " against " << m.C);
		same(rv(w.get_vector()), m.v, m.av, e, std::string(what) + ": information vector"); RM t = rm(w.get_true_C_inv()); for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) CLOSE(t(i, j), m.tc(i, j), e * m.atc(i, j), what << ": entry " << i << "," << j << " of the true information matrix " << t << " against " << m.tc);
		const I& cw = w; if (rm(cw.get_true_C_inv()).a != t.a) FAIL("the constant view of the true information matrix differs"); CLOSE(w.get_residual(), m.res, e * m.ares, what << ": residual");
	}
	static void add(Gen& g, I& w, IModel& m, P sd, std::string& log) {
		int n = m.n; RM J = roundto<P>(gen_J(g, 1, n)); P mm = (P)(g.chance(15) ? 0 : g.pick(4) == 0 ? g.real() : (g.flag() ? 1 : -1) * sd * (g.chance(15) ? g.logpos(1e-8, 1e8) : g.logpos(1e-2, 1e2))); RV j(J.a.begin(), J.a.end()); LD wt = D::w(mm, sd), ts = D::ts(mm, sd); int kind = g.pick(8); std::ostringstream o;
		if (kind == 0) { Vector<Dynamic, P> jd(n); put(jd, j); w.add_mJ(mm, jd); }
		else if (kind == 1) { Vector<N, int> ji(n); for (int i = 0; i < n; i++) ji[i] = (int)(J(0, i) = g.small(3)); w.add_mJ(mm, ji); }
		else if (kind == 2 && !std::is_same_v<P, float>) { Vector<N, float> jf(n); for (int i = 0; i < n; i++) jf[i] = (float)(J(0, i) = (float)J(0, i)); w.add_mJ(mm, jf); g.tag("Jacobian of single precision"); }
		else with_vec<N, P, N < 0 ? VK_DYN | VK_DSLICE | VK_CONST | VK_DWRAP : VK_STATIC | VK_SSLICE | VK_CONST | VK_COL | VK_WRAP>(g, j, [&](auto& a) { w.add_mJ(mm, a); });
		RM ww(1, 1); ww(0, 0) = wt; m.meas(J, RV(1, mm), ww); m.full = false; RM o1 = mul(T(J), J), a1 = mul(absm(T(J)), absm(J)); m.tc = ::add(m.tc, scale(o1, ts)); m.atc = ::add(m.atc, scale(a1, 3 * wt)); m.res += D::obj(mm, sd); m.ares += D::mag(mm, sd); m.obs++;
		o << "add_mJ(" << mm << "," << J << "); "; log += o.str();
	}
	static void run(Gen& g, int n) {
		I w(n), w2(n); IModel m(n), m2(n); std::string log; P sd = (P)g.logpos(1e-2, 1e2); w.set_sd(sd); w2.set_sd(sd); { std::ostringstream o; o << "set_sd(" << sd << "); "; log += o.str(); } check(w, m, "new accumulator"); int len = g.range(1, 30); g.tag("history of more than 10", len > 10);
		for (int k = 0; k < len; k++) {
			int op = g.pick(18);
			if (op < 8) add(g, w, m, sd, log);
			else if (op < 10) { log += "(other) "; add(g, w2, m2, sd, log); }
			else if (op == 10) { if (g.chance(30)) { P inf = g.flag() ? std::numeric_limits<P>::infinity() : std::numeric_limits<P>::quiet_NaN(), big = std::numeric_limits<P>::max() / 4; Vector<N, P> jj(n); jj = Ones(n) * big; int k = g.pick(3); if (k == 0) w.add_mJ(sd, jj); else if (k == 1) w.add_prior(inf); else w.add_mJ(inf, jj); log += "overflow; "; g.tag("clear after overflow"); } w.clear(); m = IModel(n); log += "clear; "; g.tag("clear"); }
			else if (op == 11) { w += w2; m.merge(m2); m.tc = ::add(m.tc, m2.tc); m.atc = ::add(m.atc, m2.atc); m.res += m2.res; m.ares += m2.ares; m.obs += m2.obs; log += "+= other; "; check(w2, m2, "accumulator merged into another"); g.tag("merge", m2.obs > 0); }
			else if (op == 12) { P v = (P)(g.flag() ? 1 : g.logpos(1e-3, 1e2)); w.add_prior(v); m.info(scale(RM::eye(n), v)); std::ostringstream o; o << "add_prior(" << v << "); "; log += o.str(); }
			else if (op == 13) { sd = (P)g.logpos(1e-2, 1e2); w.set_sd(sd); w2.set_sd(sd); std::ostringstream o; o << "set_sd(" << sd << "); "; log += o.str(); }
			else if (op == 14) { RM J = roundto<P>(gen_J(g, 2, n)), ic = sym<P>(gen_weight(g, 2)); RV mm = roundto<P>(gen_rv(g, 2, 0)); Vector<2, P> mv; put(mv, mm); Matrix<2, 2, P> icm; put(icm, ic); Matrix<2, N, P> Jm(2, n); put(Jm, J); w.add_mJ_rows(mv, Jm, icm); m.meas(J, mm, ic); log += "add_mJ_rows; "; }
			else if (op == 15) { RV v(n); for (auto& x : v) x = (P)g.logpos(1e-3, 1e2); Vector<N, P> pv(n); put(pv, v); RM d(n, n); for (int i = 0; i < n; i++) d(i, i) = v[i]; if (g.flag()) w.add_prior(pv); else { d = sym<P>(gen_weight(g, n)); Matrix<N, N, P> pm(n, n); put(pm, d); w.add_prior(pm); } m.info(d); log += "add_prior(several); "; }
			else if (op == 16) { int b = g.range(1, n), i1 = g.range(0, n - b); RM J1 = roundto<P>(gen_J(g, 1, b)), J(1, n); for (int i = 0; i < b; i++) J(0, i1 + i) = J1(0, i); P mm = (P)g.real(), wt = (P)gen_w(g); Vector<Dynamic, P> jd(b); for (int i = 0; i < b; i++) jd[i] = (P)J1(0, i); w.add_sparse_mJ(mm, jd, i1, wt); RM ww(1, 1); ww(0, 0) = wt; m.meas(J, RV(1, mm), ww); m.full = false; log += "add_sparse_mJ; "; }
			else solve_now(g, w, m, log);
			if (g.verbose) g.notes = "history=" + log;
			check(w, m, "after a step");
		}
		solve_now(g, w, m, log); check(w2, m2, "the other accumulator at the end"); g.nontrivial(m.obs > 1);
	}
	static void solve_now(Gen& g, I& w, IModel& m, std::string& log) {
		log += "compute; "; int n = m.n; LD e = eps<P>() * (m.terms + 24) * 2; RM c = m.C; RV ev; RM vec; jacobi(c, ev, vec); LD err = e * norminf(m.aC) * n; if (!(ev[0] > 0) || err * 20 > ev[0] || ev[n - 1] / ev[0] * eps<P>() * n > 1e-3) return;
		w.compute(); m.full = true; RM x, b(n, 1); for (int i = 0; i < n; i++) b(i, 0) = m.v[i]; solve(c, b, x); RV want(n); for (int i = 0; i < n; i++) want[i] = x(i, 0); LD xn = norm2(want); same(rv(w.get_mu()), want, (err * xn + e * norm2(m.av) + 200 * n * n * eps<P>() * ev[n - 1] * xn) / ev[0] * 2, "solution"); g.tag("solution compared");
	}
};
#if PART == 0
PROP(weights_double, 2) { all_weights<double>(g); }
PROP(weights_float, 1) { all_weights<float>(g); }
PROP(weights_long_double, 1) { all_weights<long double>(g); }
PROP(irls_double, 3) { switch (g.pick(3)) { case 0: IHist<3, double, RobustI>::run(g, 3); break; case 1: IHist<2, double, RobustII>::run(g, 2); break; case 2: IHist<1, double, ILinear>::run(g, 1); break; } }
#endif
#if PART == 1
PROP(irls_dynamic, 3) { int n = g.size(1, 5, 12); switch (g.pick(4)) { case 0: IHist<Dynamic, double, RobustI>::run(g, n); break; case 1: IHist<Dynamic, double, RobustII>::run(g, n); break; case 2: IHist<Dynamic, double, RobustIII>::run(g, n); break; case 3: IHist<Dynamic, double, ILinear>::run(g, n); } }
#endif
#if PART == 2
PROP(irls_float, 2) { switch (g.pick(3)) { case 0: IHist<2, float, RobustI>::run(g, 2); break; case 1: IHist<3, float, RobustII>::run(g, 3); break; case 2: IHist<4, double, RobustIII>::run(g, 4); break; } }
PROP(irls_sizes, 1) { int n = g.range(0, 5), k = g.range(0, 6); IRLS<Dynamic, double, ILinear> w(n); Vector<> v = Zeros(k); g.note("unknowns", n); g.note("columns", k); g.tag("size error", n != k); if (aborts([&] { w.add_mJ(1, v); }) != (n != k)) FAIL("sizes that " << (n != k ? "do not fit are not refused" : "fit are refused")); }
#endif
