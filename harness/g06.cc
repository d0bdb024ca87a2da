// G06: the special linear group
#include "num.h"
#include <TooN/sl.h>
#ifndef PART
#define PART 0
#endif
// the documented basis: N-1 of diag(..,1,-1,..), then a symmetric and an antisymmetric one for every pair of indices
template<int N> const std::vector<RM>& basis() {
	static std::vector<RM> b; if (!b.empty()) return b;
	for (int i = 0; i + 1 < N; i++) { RM m(N, N); m(i, i) = 1; m(i + 1, i + 1) = -1; b.push_back(m); }
	for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) { RM m(N, N); m(i, j) = m(j, i) = 1; b.push_back(m); }
	for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) { RM m(N, N); m(i, j) = -1; m(j, i) = 1; b.push_back(m); }
	return b;
}
template<int N> RM combine(const RV& v) { RM m(N, N); for (size_t i = 0; i < v.size(); i++) m = add(m, basis<N>()[i], v[i]); return m; }
// exponential and the size of the rounding error of scaling and squaring
inline RM exp_ref(const RM& b, LD e, LD& tol) {
	int n = b.r; LD nm = norminf(b); int s = nm > 1 ? (int)std::ceil(std::log2((double)nm)) + 1 : 0; RM r = expm(scale(b, std::pow(2.L, -s))); LD m = norminf(r), err = (n + 10) * e * m;
	for (int i = 0; i < s; i++) { err = 2 * m * err + (n + 2) * e * m * m; r = mul(r, r); m = norminf(r); }
	tol = 10 * err; return expm(b);
}
template<int N, class P> RV gen_tangent(Gen& g, LD top) {
	const int K = N * N - 1; RV v(K, 0); int k = g.pick(6);
	switch (k) {
		case 0: v[g.pick(K)] = g.uniform(-1, 1); g.tag("one generator"); break;
		case 1: for (auto& x : v) x = g.uniform(-1, 1); g.tag("all generators"); break;
		case 2: for (int i = 0; i < N - 1; i++) v[i] = g.uniform(-1, 1); g.tag("diagonal"); break;
		case 3: for (int i = N - 1; i < N - 1 + N * (N - 1) / 2; i++) v[i] = g.uniform(-1, 1); g.tag("symmetric"); break;
		case 4: for (int i = N - 1 + N * (N - 1) / 2; i < K; i++) v[i] = g.uniform(-1, 1); g.tag("rotation"); break;
		case 5: for (auto& x : v) if (g.chance(30)) x = g.small(2) / 4.; g.tag("sparse"); break;
	}
	LD m = norminf(combine<N>(v)); if (m > 0) { LD want = g.pick(4) == 0 ? g.logpos(1e-9, 1e-2) : g.logpos(1e-2, (double)top); v = scale(v, want / m); }
	return roundto<P>(v);
}
const int FORMS = VK_STATIC | VK_DYN | VK_SSLICE | VK_DSLICE | VK_COL | VK_CONST;
template<int N, class P> SL<N, P> element(Gen& g) { return SL<N, P>::exp(vec<N * N - 1, P>(gen_tangent<N, P>(g, 2))); }
template<int N, class P> void exp_case(Gen& g) {
	RV v = gen_tangent<N, P>(g, sizeof(P) == 4 ? 4 : 8); g.note("v", show(v)); g.nontrivial(maxabs(v) > 0); LD tol; RM b = combine<N>(v); RM x = exp_ref(b, eps<P>(), tol);
	static_assert(SL<N, P>::size == N && SL<N, P>::dim == N * N - 1, "size and dimension");
	with_vec<N * N - 1, P, FORMS>(g, v, [&](auto& a) { if (g.flag()) same(rm(SL<N, P>::exp(a).get_matrix()), x, tol, "SL::exp(v)"); else same(rm(SL<N, P>(a).get_matrix()), x, tol, "construction from v"); same(rv(a), v, 0, "vector"); });
}
template<int N, class P> void ln_case(Gen& g) {
	RV v = gen_tangent<N, P>(g, 1.5); g.note("v", show(v)); g.nontrivial(maxabs(v) > 0); LD tol, e = eps<P>(); RM b = combine<N>(v); RM x = exp_ref(b, e, tol);
	SL<N, P> s = SL<N, P>::exp(vec<N * N - 1, P>(v)); RV l = rv(s.ln()); g.note("ln", show(l)); LD k = norminf(x) * norminf(inv(x)); LD u = 100 * N * N * e * k * (4 + norminf(b)) + tol * k;
	same(l, v, N * u, "ln(exp(v))"); LD t2; exp_ref(combine<N>(l), e, t2); same(rm(SL<N, P>::exp(s.ln()).get_matrix()), rm(s.get_matrix()), t2 + 2 * u * norminf(x), "exp(ln(g))");
}
template<int N, class P> void coerce_case(Gen& g) {
	RM m = gen_square(g, N); LD d = det(m);
	//matrices which have nearly left the group: a determinant within 1e-16 to 0.1 of one
	if (g.chance(25)) { m = rm(element<N, P>(g).get_matrix()); LD k = 1 + (g.flag() ? 1 : -1) * std::pow(10.L, -g.pick(sizeof(P) == 4 ? 8 : 17)) * (1 + g.pick(9)) / 10; int row = g.pick(N + 1); for (int i = 0; i < N; i++) if (row == N || row == i) for (int j = 0; j < N; j++) m(i, j) *= k; g.tag("determinant near one"); }
	m = roundto<P>(m); d = det(m); if (N % 2 == 0 && d < 0) { for (int i = 0; i < N; i++) m(0, i) = -m(0, i); d = -d; } bool neg = d < 0; if (neg) { g.tag("negative determinant"); m = scale(m, -1); d = -d; } LD sens = det_sensitivity(m); LD e = eps<P>(), rel = 60 * N * e * sens / d; if (!(d > 0) || !(rel < 1e-2)) g.discard(); if (d < 1e-30 || maxabs(m) > 1e6 || (sizeof(P) == 4 && (d < 1e-10 || growth(m) > 1e4))) g.discard();
	if (g.chance(15)) { double q = (sizeof(P) == 4 ? 28 : 280) / N; m = roundto<P>(scale(m, g.logpos(std::pow(10, -q), std::pow(10, q)))); d = det(m); LD sz = std::pow(maxabs(m), (LD)N); if (!(sz < (sizeof(P) == 4 ? 1e35L : 1e290L)) || !(d > (sizeof(P) == 4 ? 1e-35L : 1e-290L))) g.discard(); sens = det_sensitivity(m); rel = 60 * N * e * sens / d; g.tag("matrix of extreme magnitude"); }
	g.note("M", show(m)); g.nontrivial(std::fabs(d - 1) > 1e-6); LD f = std::pow(d, -1.L / N); RM want = scale(m, f), size = scale(absm(m), f); if (neg) m = scale(m, -1);
	if (g.chance(20)) { std::ostringstream o; o.precision(sizeof(P) == 4 ? 9 : 17); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { if (i || j) o << (g.flag() ? " " : "\n"); o << (P)m(i, j); } int after = g.pick(3); if (after) o << (after == 1 ? "\n" : " 7"); std::istringstream in(o.str()); SL<N, P> s = element<N, P>(g); in >> s; if (in.fail()) FAIL("reading " << o.str() << " failed"); same(rm(s.get_matrix()), want, size, rel + 20 * e, "matrix read from a stream and scaled to determinant one"); if (after == 2) { int k = 0; in >> k; if (k != 7) FAIL("what follows the matrix in the stream was lost"); } g.tag("read from a stream"); return; }
	const int mf = MK_STATIC | MK_STATICCOL | MK_DYN | MK_SSLICE | MK_DSLICE | MK_T;
	with_mat<N, N, P, mf>(g, m, [&](auto& a) { SL<N, P> s(a); RM got = rm(s.get_matrix()); same(got, want, size, rel + 20 * e, "matrix scaled to determinant one"); CLOSE(det(got), 1, 4 * N * rel + 40 * N * e * (1 + sens / d), "determinant of the element"); same(rm(a), m, 0, "matrix"); });
}
template<int N, class P> void history_case(Gen& g) {
	SL<N, P> x; same(rm(x.get_matrix()), RM::eye(N), 0, "default construction"); int n = g.range(1, 12); g.nontrivial(n > 2); LD e = eps<P>(); if (g.flag()) x = element<N, P>(g);
	for (int k = 0; k < n; k++) {
		RM a = rm(x.get_matrix()); LD na = norminf(a); if (na * norminf(inv(a)) > (sizeof(P) == 4 ? 1e3 : 1e7)) { x = SL<N, P>(); a = RM::eye(N); na = 1; }
		int op = g.pick(6); SL<N, P> y = element<N, P>(g); RM b = rm(y.get_matrix());
		if (op == 0 && g.chance(25)) { SL<N, P> w = x * y; (x *= y) *= y; w *= y; same(rm(x.get_matrix()), rm(w.get_matrix()), 0, "(g *= h) *= h against g *= h; g *= h"); }
		else if (op == 0) { x *= y; same(rm(x.get_matrix()), mul(a, b), mul(absm(a), absm(b)), 2 * N * e, "g *= h"); }
		else if (op == 1) { SL<N, P> z = x * y; same(rm(z.get_matrix()), mul(a, b), mul(absm(a), absm(b)), 2 * N * e, "g * h"); same(rm(x.get_matrix()), a, 0, "left operand"); same(rm(y.get_matrix()), b, 0, "right operand"); x = z; }
		else if (op == 2) { SL<N, P> z = x.inverse(); check_solution<P>(a, RM::eye(N), rm(z.get_matrix()), "inverse"); same(rm(x.get_matrix()), a, 0, "inverted element"); x = z; }
		else if (op == 3) { x *= x; same(rm(x.get_matrix()), mul(a, a), mul(absm(a), absm(a)), 2 * N * e, "g *= g"); }
		else if (op == 4) { std::ostringstream o; o.precision(sizeof(P) == 4 ? 9 : 17); o << x; std::istringstream in(o.str()); SL<N, P> z = y; in >> z; if (in.fail()) FAIL("reading back " << o.str() << " failed"); LD dd = std::fabs(det(a) - 1) + 60 * N * e * det_sensitivity(a); same(rm(z.get_matrix()), a, absm(a), dd + 20 * e, "reading back what was written"); x = z; g.tag("stream round trip"); }
		else { x = y * x; same(rm(x.get_matrix()), mul(b, a), mul(absm(b), absm(a)), 2 * N * e, "g = h * g"); }
	}
}
template<int N, class P, class Q> void action_case(Gen& g) {
	typedef typename Internal::MultiplyType<P, Q>::type R; SL<N, P> x = element<N, P>(g); RM m = rm(x.get_matrix()); LD e = eps<R>(); int mode = g.pick(2); g.nontrivial(true); g.note("g", show(m));
	switch (g.pick(4)) {
		case 0: { RV p = roundto<Q>(gen_rv(g, N, mode)); with_vec<N, Q, FORMS>(g, p, [&](auto& a) { auto r = x * a; static_assert(std::is_same<typename std::decay<decltype(r[0])>::type, R>::value, "precision"); same(rv(r), mul(m, p), mul(absm(m), absv(p)), 2 * N * e, "g * v"); }); break; }
		case 1: { RV p = roundto<Q>(gen_rv(g, N, mode)); with_vec<N, Q, FORMS>(g, p, [&](auto& a) { same(rv(a * x), mul(T(m), p), mul(absm(T(m)), absv(p)), 2 * N * e, "v * g"); }); break; }
		case 2: if (g.chance(40)) { int n = g.size(1, 8, 40); RM b = roundto<Q>(gen_rm(g, N, n, mode)), t = T(b); if (g.flag()) { Matrix<Dynamic, Dynamic, Q> q(N, n); put(q, b); same(rm(x * q), mul(m, b), mul(absm(m), absm(b)), 2 * N * e, "g * M, M with any number of columns"); } else { Matrix<Dynamic, N, Q> q(n, N); put(q, t); same(rm(q * x), mul(t, m), mul(absm(t), absm(m)), 2 * N * e, "M * g, M with any number of rows"); } break; }
			{ RM b = roundto<Q>(gen_rm(g, N, 3, mode)); with_mat<N, 3, Q, MK_STATIC | MK_DYN | MK_SSLICE | MK_T | MK_CONST>(g, b, [&](auto& a) { same(rm(x * a), mul(m, b), mul(absm(m), absm(b)), 2 * N * e, "g * M"); }); break; }
		case 3: { RM b = roundto<Q>(gen_rm(g, 3, N, mode)); with_mat<3, N, Q, MK_STATIC | MK_DYN | MK_SSLICE | MK_T | MK_CONST>(g, b, [&](auto& a) { same(rm(a * x), mul(b, m), mul(absm(b), absm(m)), 2 * N * e, "M * g"); }); break; }
	}
}
template<int N, class P> void generator_case(Gen& g) { int i = g.pick(N * N - 1); g.nontrivial(i > 0); same(rm(SL<N, P>::generator(i)), basis<N>()[i], 0, "generator"); }
template<int N> void mixed_case(Gen& g) {
	g.nontrivial(true); g.tag("mixed precision"); SL<N, float> a = element<N, float>(g); SL<N, double> b = element<N, double>(g); RM x = rm(a.get_matrix()), y = rm(b.get_matrix());
	auto p = a * b; static_assert(std::is_same<decltype(p), SL<N, double>>::value, "float times double is double"); same(rm(p.get_matrix()), mul(x, y), mul(absm(x), absm(y)), 2 * N * eps<double>(), "product of different precisions"); auto q = b * a; same(rm(q.get_matrix()), mul(y, x), mul(absm(y), absm(x)), 2 * N * eps<double>(), "product of different precisions");
}
#if PART == 0
PROP(sl_exp, 3) { switch (g.pick(20) == 0 ? 5 : g.pick(5)) { case 5: exp_case<7, double>(g); break; case 0: exp_case<3, double>(g); break; case 1: exp_case<2, double>(g); break; case 2: exp_case<4, double>(g); break; case 3: exp_case<5, double>(g); break; case 4: exp_case<3, float>(g); break; } }
PROP(sl_generator, 1) { switch (g.pick(6)) { case 0: generator_case<2, double>(g); break; case 1: generator_case<3, double>(g); break; case 2: generator_case<4, double>(g); break; case 3: generator_case<5, double>(g); break; case 4: generator_case<6, double>(g); break; case 5: generator_case<4, float>(g); break; } }
#endif
#if PART == 1
PROP(sl_ln, 2) { switch (g.pick(20) == 0 ? 5 : g.pick(5)) { case 5: ln_case<7, double>(g); break; case 0: ln_case<3, double>(g); break; case 1: ln_case<2, double>(g); break; case 2: ln_case<4, double>(g); break; case 3: ln_case<5, double>(g); break; case 4: ln_case<3, float>(g); break; } }
PROP(sl_coerce, 2) { switch (g.pick(20) == 0 ? 5 : g.pick(5)) { case 5: coerce_case<7, double>(g); break; case 0: coerce_case<3, double>(g); break; case 1: coerce_case<2, double>(g); break; case 2: coerce_case<4, double>(g); break; case 3: coerce_case<5, double>(g); break; case 4: coerce_case<3, float>(g); break; } }
#endif
#if PART == 2
PROP(sl_history, 2) { switch (g.pick(20) == 0 ? 5 : g.pick(5)) { case 5: history_case<7, double>(g); break; case 0: history_case<3, double>(g); break; case 1: history_case<2, double>(g); break; case 2: history_case<4, double>(g); break; case 3: history_case<5, double>(g); break; case 4: history_case<3, float>(g); break; } }
PROP(sl_mixed, 1) { if (g.flag()) mixed_case<3>(g); else mixed_case<2>(g); }
#endif
#if PART == 3
PROP(sl_action, 2) { switch (g.pick(4)) { case 0: action_case<3, double, double>(g); break; case 1: action_case<2, double, float>(g); break; case 2: action_case<4, float, double>(g); break; case 3: action_case<5, double, double>(g); break; } }
#endif
