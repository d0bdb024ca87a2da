// E01: weighted least squares
#include "num.h"
#include "abort.h"
#include "wls_model.h"
#include <TooN/wls.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/Lapack_Cholesky.h>
#ifndef PART
#define PART 0
#endif
template<int N, class P, template<int, class> class D> struct Hist {
	typedef WLS<N, P, D> W; static const int VM = N > 0 ? VK_STATIC | VK_SSLICE | VK_CONST | VK_COL | VK_WRAP : VK_DYN | VK_DSLICE | VK_CONST | VK_DWRAP;
	static void check(const W& w, const Model& m, const char* what) {
		LD e = eps<P>() * (m.terms + 8) * 2, lo = std::numeric_limits<P>::min() * (m.terms + 8); RM c = rm(w.get_C_inv()); for (int i = 0; i < m.n; i++) for (int j = m.full ? 0 : i; j < m.n; j++) CLOSE(c(i, j), m.C(i, j), e * m.aC(i, j) + lo, what << ": entry " << i << "," << j << " of the information matrix " << c << " against " << m.C);
		RV av = m.av; for (auto& x : av) x += lo / e; same(rv(w.get_vector()), m.v, av, e, std::string(what) + ": information vector");
	}
	struct Scale { LD J = 1, m = 1, w = 1, prior = 1; }; // of this history
	static Scale gen_scale(Gen& g) { Scale s; if (!g.chance(15)) return s; int q = std::is_same_v<P, float> ? 6 : 40; auto p = [&] { return std::pow((LD)10, g.range(-q, q)); }; s.J = p(); s.m = p(); s.w = p(); s.prior = s.J * s.J * s.w; g.tag("extreme magnitudes"); std::ostringstream o; o << s.J << " " << s.m << " " << s.w; g.note("magnitudes of Jacobians, measurements and weights", o.str()); return s; }
	template<int K> static void step(Gen& g, W& w, Model& m, std::string& log, const Scale& S) {
		auto gen_J = [&](Gen& h, int r, int c) { RM j = scale(::gen_J(h, r, c), S.J); if (h.chance(3)) j = scale(j, h.pick(2) ? 1e-6 : 1e6); return j; }; auto gen_w = [&](Gen& h) { LD v = ::gen_w(h) * S.w; if (h.chance(8)) v *= h.logpos(1e-20, 1e-10), h.tag("minute weight"); if (h.chance(5)) v = -v, h.tag("measurement taken away again"); return v; }; auto gen_weight = [&](Gen& h, int k) { RM v = scale(::gen_weight(h, k), S.w); if (h.chance(5)) v = scale(v, -1); return v; }; auto gen_mv = [&](Gen& h, int k) { RV v = gen_rv(h, k, h.pick(2)); for (auto& x : v) x *= S.m; return v; };
		int n = m.n, op = g.pick(9); std::ostringstream o; LD e = eps<P>(); (void)e;
		if (op == 0) { P v = (P)(S.prior * (g.flag() ? 1 : g.logpos(1e-3, 1e2))); w.add_prior(v); m.info(scale(RM::eye(n), v)); o << "add_prior(" << v << ")"; }
		else if (op == 1) { RV v(n); for (auto& x : v) x = (P)(S.prior * (g.chance(20) ? 0 : g.logpos(1e-3, 1e2))); with_vec<N, P, VM>(g, v, [&](auto& a) { w.add_prior(a); }); RM d(n, n); for (int i = 0; i < n; i++) d(i, i) = v[i]; m.info(d); o << "add_prior(" << show(v) << ")"; }
		else if (op == 2) { RM q = sym<P>(scale(::gen_weight(g, n), S.prior)); with_mat<N, N, P, N < 0 ? MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE : MK_STATIC | MK_STATICCOL | MK_SSLICE | MK_T>(g, q, [&](auto& a) { w.add_prior(a); }); m.info(q); o << "add_prior(" << show(q) << ")"; }
		else if (op == 3) { P mm = (P)(g.real() * S.m), wt = (P)gen_w(g); RM J = roundto<P>(gen_J(g, 1, n)); RV j(J.a.begin(), J.a.end()); bool plain = g.chance(30); with_vec<N, P, VM>(g, j, [&](auto& a) { if (plain) w.add_mJ(mm, a); else w.add_mJ(mm, a, wt); }); RM ww(1, 1); ww(0, 0) = plain ? 1 : wt; m.meas(J, RV(1, mm), ww); m.full = false; if (!plain && S.J == 1 && g.chance(20)) { Vector<N, int> ji(n); RM Ji(1, n); for (int i = 0; i < n; i++) ji[i] = (int)(Ji(0, i) = g.small(3)); w.add_mJ(mm, ji, wt); m.meas(Ji, RV(1, mm), ww); g.tag("integer Jacobian"); o << "add_mJ(" << mm << ",integers " << show(RV(Ji.a.begin(), Ji.a.end())) << "," << wt << "); "; } o << "add_mJ(" << mm << "," << show(j) << "," << (plain ? 1 : wt) << ")"; }
		else if (op == 4) { int k = K > 0 ? K : g.size(0, 4, 12); RM J = roundto<P>(gen_J(g, k, n)); RV mm = roundto<P>(gen_mv(g, k)); P wt = (P)gen_w(g); bool plain = g.chance(30); Vector<K, P> mv(k); put(mv, mm); auto use = [&](auto& a) { if (plain) w.add_mJ(mv, a); else w.add_mJ(mv, a, wt); }; if constexpr (K > 0 && N > 0) with_mat<K, N, P, MK_STATIC | MK_STATICCOL | MK_SSLICE>(g, J, use); else if constexpr (K < 0 && N < 0) with_mat<K, N, P, MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE>(g, J, use); else { Matrix<K, N, P> Jm(k, n); put(Jm, J); use(Jm); } m.meas(J, mm, scale(RM::eye(k), plain ? 1 : wt)); m.full = false; o << "add_mJ(" << show(mm) << "," << show(J) << "," << (plain ? 1 : wt) << ")"; }
		else if (op == 5) { int k = K > 0 ? K : g.size(0, 4, 12); RM J = roundto<P>(gen_J(g, k, n)), ic = sym<P>(gen_weight(g, k)); RV mm = roundto<P>(gen_mv(g, k)); Vector<K, P> mv(k); put(mv, mm); Matrix<K, K, P> icm(k, k); put(icm, ic); Matrix<N, K, P> Jm(n, k); put(Jm, T(J)); int lay = g.pick(4); if (lay == 1) w.add_mJ(mv, Matrix<K, N, P>(Jm.T()).T(), icm); else if (lay == 2) w.add_mJ(mv, Jm, icm.T()); else if (lay == 3) { Matrix<K, 3, P> hold(k, 3); hold = Zeros; for (int i = 0; i < k; i++) hold(i, 1) = mv[i]; w.add_mJ(hold.T()[1], Jm, icm); } else w.add_mJ(mv, Jm, icm); m.meas(J, mm, ic); o << "add_mJ(" << show(mm) << "," << show(T(J)) << "," << show(ic) << ")"; }
		else if (op == 6) { int k = K > 0 ? K : g.size(0, 4, 12); RM J = roundto<P>(gen_J(g, k, n)), ic = sym<P>(gen_weight(g, k)); RV mm = roundto<P>(gen_mv(g, k)); Vector<K, P> mv(k); put(mv, mm); Matrix<K, K, P> icm(k, k); put(icm, ic); Matrix<K, N, P> Jm(k, n); put(Jm, J); int lay = g.pick(4); if (lay == 1) { Matrix<N, K, P> h(n, k); h = Jm.T(); w.add_mJ_rows(mv, h.T(), icm); } else if (lay == 2) { Matrix<Dynamic, Dynamic, P> hold(k + 2, k + 1); hold = Zeros(k + 2, k + 1); hold.slice(1, 1, k, k) = icm; if constexpr (K > 0) w.add_mJ_rows(mv, Jm, hold.template slice<1, 1, K, K>()); else w.add_mJ_rows(mv, Jm, hold.slice(1, 1, k, k)); } else if (lay == 3) { Matrix<K, 3, P> hold(k, 3); hold = Zeros; for (int i = 0; i < k; i++) hold(i, 1) = mv[i]; w.add_mJ_rows(hold.T()[1], Jm, icm); } else w.add_mJ_rows(mv, Jm, icm); m.meas(J, mm, ic); o << "add_mJ_rows(" << show(mm) << "," << show(J) << "," << show(ic) << ")"; }
		else if (op == 7) { int b = g.range(1, n), i1 = g.range(0, n - b); RM J1 = roundto<P>(gen_J(g, 1, b)), J(1, n); for (int i = 0; i < b; i++) J(0, i1 + i) = J1(0, i); P mm = (P)(g.real() * S.m), wt = (P)gen_w(g); bool plain = g.chance(30); RV j(J1.a.begin(), J1.a.end()); Vector<Dynamic, P> jd(b); put(jd, j); if (b == 2 && g.flag()) { Vector<2, P> js; put(js, j); if (plain) w.add_sparse_mJ(mm, js, i1); else w.add_sparse_mJ(mm, js, i1, wt); } else { if (plain) w.add_sparse_mJ(mm, jd, i1); else w.add_sparse_mJ(mm, jd, i1, wt); } RM ww(1, 1); ww(0, 0) = plain ? 1 : wt; m.meas(J, RV(1, mm), ww); m.full = false; g.tag("sparse"); o << "add_sparse_mJ(" << mm << "," << show(j) << "," << i1 << "," << (plain ? 1 : wt) << ")"; }
		else { // sparse rows, one or two blocks (which may be in either order)
			int k = K > 0 ? K : g.size(0, 4, 12); RM ic = sym<P>(gen_weight(g, k)); RV mm = roundto<P>(gen_mv(g, k)); Vector<K, P> mv(k); put(mv, mm); Matrix<K, K, P> icm(k, k); put(icm, ic); RM J(k, n); g.tag("sparse rows");
			if (g.flag() || n < 2) { int b = g.range(1, n), i1 = g.range(0, n - b); RM J1 = roundto<P>(gen_J(g, k, b)); for (int r = 0; r < k; r++) for (int i = 0; i < b; i++) J(r, i1 + i) = J1(r, i); if (b == 1 && g.flag()) { Matrix<K, 1, P> jm(k, 1); put(jm, J1); w.add_sparse_mJ_rows(mv, jm, i1, icm); } else { Matrix<K, Dynamic, P> jm(k, b); put(jm, J1); if (S.J == 1 && g.chance(20)) { Matrix<K, Dynamic, int> ji(k, b); for (int r = 0; r < k; r++) for (int i = 0; i < b; i++) ji(r, i) = (int)(J(r, i1 + i) = J1(r, i) = g.small(3)); g.tag("integer Jacobian"); w.add_sparse_mJ_rows(mv, ji, i1, icm); } else if (g.chance(30)) { Matrix<Dynamic, K, P> h(b, k); h = jm.T(); w.add_sparse_mJ_rows(mv, h.T(), i1, icm); } else w.add_sparse_mJ_rows(mv, jm, i1, icm); } o << "add_sparse_mJ_rows(" << show(mm) << "," << show(J1) << "," << i1 << "," << show(ic) << ")"; }
			else { int b1 = g.range(1, n - 1), b2 = g.range(1, n - b1); int gap = g.range(0, n - b1 - b2), off = g.range(0, n - b1 - b2 - gap); int i1 = off, i2 = off + b1 + gap; if (g.flag()) { std::swap(i1, i2); i1 = off + b2 + gap; g.tag("second block first"); } RM J1 = roundto<P>(gen_J(g, k, b1)), J2 = roundto<P>(gen_J(g, k, b2)); for (int r = 0; r < k; r++) { for (int i = 0; i < b1; i++) J(r, i1 + i) += J1(r, i); for (int i = 0; i < b2; i++) J(r, i2 + i) += J2(r, i); }
				if (b1 == 1 && b2 == 1 && g.flag()) { Matrix<K, 1, P> a(k, 1), b(k, 1); put(a, J1); put(b, J2); w.add_sparse_mJ_rows(mv, a, i1, b, i2, icm); } else { Matrix<K, Dynamic, P> a(k, b1), b(k, b2); put(a, J1); put(b, J2); w.add_sparse_mJ_rows(mv, a, i1, b, i2, icm); } g.tag("two blocks"); o << "add_sparse_mJ_rows(" << show(mm) << "," << show(J1) << "," << i1 << "," << show(J2) << "," << i2 << "," << show(ic) << ")"; }
			m.meas(J, mm, ic);
		}
		log += o.str() + "; ";
	}
	static void solution(Gen& g, W& w, Model& m, std::string& log) {
		log += "compute; "; int n = m.n; LD e = eps<P>() * (m.terms + 8) * 2; RM c = m.C; RV ev; RM vec; jacobi(c, ev, vec); LD top = std::max(std::fabs(ev[0]), std::fabs(ev[n - 1])); LD k = ev[0] > 0 ? top / ev[0] : INFINITY; LD err = e * norminf(m.aC) * n; // perturbation of C by its accumulation
		bool good = ev[0] > 0 && err * 20 < ev[0] && k * eps<P>() * n * 100 < 0.1 && k < 1e8; // (SVD and SymEigen leave out directions beyond a condition number of 1e9)
		if (!good) { if (!g.flag()) return; w.compute(); m.full = true; log += "(singular) "; g.tag("computed where it is singular"); check(w, m, "after compute of a singular system"); return; }
		w.compute(); RM full = rm(w.get_C_inv()); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (full(i, j) != full(j, i)) FAIL("information matrix not symmetric after compute: " << full); m.full = true; check(w, m, "after compute");
		RV mu = rv(w.get_mu()); RM x; RM b(n, 1); for (int i = 0; i < n; i++) b(i, 0) = m.v[i]; solve(c, b, x); RV want(n); for (int i = 0; i < n; i++) want[i] = x(i, 0);
		LD xn = norm2(want), tol = (err * xn + e * norm2(m.av) + 200 * n * n * eps<P>() * top * xn) / ev[0] * 2; same(mu, want, tol, "solution"); g.tag("solution compared"); g.nontrivial(n > 1);
		RV y = rv(w.get_decomposition().backsub(w.get_vector())); same(y, want, tol, "solution from the decomposition");
	}
	static void run(Gen& g, int n) {
		W w(n); Model m(n); W w2(n); Model m2(n); std::string log; Scale S = gen_scale(g); int len = g.range(1, 40); check(w, m, "new accumulator"); g.tag("history of more than 10", len > 10);
		for (int k = 0; k < len; k++) {
			int op = g.pick(20);
			if (op < 14) { if (op < 12) step<Dynamic>(g, w, m, log, S); else if constexpr (N > 0) step<2>(g, w, m, log, S); else step<3>(g, w, m, log, S); }
			else if (op == 14) { if (g.chance(30)) { P inf = g.flag() ? std::numeric_limits<P>::infinity() : std::numeric_limits<P>::quiet_NaN(), big = std::numeric_limits<P>::max() / 4; Vector<N, P> j(n); j = Ones(n) * big; int k = g.pick(4); if (k == 0) w.add_mJ(1, j, 1); else if (k == 1) w.add_prior(inf); else if (k == 2) w.add_mJ(inf, j, 1); else { Matrix<N, N, P> p(n, n); p = Identity(n); p *= inf; w.add_prior(p); } log += "overflow; "; g.tag("clear after overflow"); } w.clear(); m = Model(n); log += "clear; "; g.tag("clear"); }
			else if (op == 15) { step<Dynamic>(g, w2, m2, log, S); log += "(other accumulator); "; }
			else if (op == 16) { w += w2; m.merge(m2); log += "+= other; "; check(w2, m2, "accumulator merged into another"); g.tag("merge"); }
			else if (op == 17) { w += w; Model c = m; m.merge(c); log += "+= itself; "; if (maxabs(m.aC) > 1e8 * (S.prior + 0)) { w.clear(); m = Model(n); } }
			else if (op == 18) { W c(w); w2 = c; m2 = m; log += "copy to other; "; }
			else solution(g, w, m, log);
			if (g.verbose) { g.notes = "history=" + log; }
			check(w, m, "after a step");
		}
		solution(g, w, m, log); if (g.verbose) g.notes = "history=" + log; check(w, m, "at the end"); check(w2, m2, "the other accumulator at the end");
	}
};
template<int N, class P> using Chol = Cholesky<N, P>;
#if PART == 0
PROP(wls_static, 3) { switch (g.pick(3)) { case 0: Hist<3, double, Cholesky>::run(g, 3); break; case 1: Hist<1, double, Cholesky>::run(g, 1); break; case 2: Hist<6, double, Cholesky>::run(g, 6); break; } }
#endif
#if PART == 1
PROP(wls_dynamic, 3) { Hist<Dynamic, double, Cholesky>::run(g, g.size(1, 6, 14)); }
PROP(wls_float, 1) { Hist<2, float, Cholesky>::run(g, 2); }
PROP(wls_sizes, 1) {
	int n = g.range(0, 5), k = g.range(0, 6), r = g.range(1, 3), r2 = g.range(1, 3); WLS<> w(n); Vector<> v = Zeros(k); Matrix<> c = Zeros(k, k), J(r2, k), Jt(k, r2), ic = Zeros(r, r); J = Zeros; Jt = Zeros; Vector<> m = Zeros(r); bool bad = k != n; int op = g.pick(6); std::function<void()> f;
	switch (op) { case 0: f = [&] { w.add_prior(v); }; break; case 1: f = [&] { w.add_prior(c); }; break; case 2: f = [&] { w.add_mJ(1, v, 2); }; break; case 3: f = [&] { w.add_mJ(m, J, 2); }; bad = bad || r != r2; break; case 4: f = [&] { w.add_mJ(m, Jt, ic); }; bad = bad || r != r2; break; case 5: f = [&] { w.add_mJ_rows(m, J, ic); }; bad = bad || r != r2; break; }
	g.note("operation", op); g.note("unknowns", n); g.note("columns", k); g.note("measurements", r); g.note("rows", r2); g.tag("size error", bad); bool a = aborts(f); if (a != bad) FAIL("sizes that " << (bad ? "do not fit are not refused" : "fit are refused"));
}
PROP(wls_long_double, 1) { Hist<3, long double, Cholesky>::run(g, 3); }
#endif
#if PART == 2
PROP(wls_svd, 1) { if (g.flag()) Hist<3, double, SQSVD>::run(g, 3); else Hist<Dynamic, double, SQSVD>::run(g, g.range(1, 5)); }
#endif
#if PART == 3
PROP(wls_symeigen, 1) { if (g.flag()) Hist<4, double, SymEigen>::run(g, 4); else Hist<Dynamic, double, SymEigen>::run(g, g.range(1, 5)); }
PROP(wls_lapack, 1) { Hist<3, double, Lapack_Cholesky>::run(g, 3); }
#endif
