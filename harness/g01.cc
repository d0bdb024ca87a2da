// G01: planar rotations and rigid motions
#include "group.h"
#ifndef PART
#define PART 0
#endif
typedef XSO2<double> A; typedef XSO2<float> Af; typedef XSE2<double> B; typedef XSE2<float> Bf;
#if PART == 0
PROP(so2_exp, 1) { if (g.chance(25)) exp_case<Af, float>(g); else exp_case<A, double>(g); }
PROP(so2_ln, 2) { if (g.chance(25)) ln_case<Af>(g); else ln_case<A>(g); }
PROP(so2_history, 2) { if (g.chance(25)) history_case<Af>(g); else history_case<A>(g); }
PROP(so2_mixed, 1) { if (g.flag()) mixed_case<Af, A>(g); else mixed_case<A, Af>(g); }
PROP(so2_action, 1) { if (g.chance(25)) action_case<Af, double>(g); else action_case<A, double>(g); }
PROP(so2_matrix, 1) { matrix_case<A, double>(g); }
PROP(so2_generator, 1) { generator_case<A>(g); same(rm(SO2<>(Identity).get_matrix()), RM::eye(2), 0, "construction from Identity"); }
// matrices near a rotation, and scaled or skewed ones of positive determinant
PROP(so2_coerce, 1) {
	RM r = A::mat(element<A>(g)), m; LD d = 0; int k = g.pick(3); if (k == 0) m = r; else if (k == 1) { d = g.logpos(1e-12, 0.1); m = add(r, gen_dense(g, 2, 2), d / 2); } else { m = gen_dense(g, 2, 2); if (!(det(m) > 0.05)) g.discard(); d = -1; }
	if (k == 2 && g.chance(30)) { m = scale(m, g.logpos(1e-140, 1e140)); g.tag("matrix of extreme magnitude"); }
	m = roundto<double>(m); g.note("M", show(m)); g.nontrivial(k != 0); RM got;
	switch (g.pick(2)) { case 0: { Matrix<2> q; put(q, m); got = rm(SO2<>(q).get_matrix()); break; } default: with_mat<2, 2, double, GK_MAT>(g, m, [&](auto& q) { SO2<> s = element<A>(g); s = q; got = rm(s.get_matrix()); }); }
	LD s = maxabs(m) * maxabs(m) / det(m); same(mul(got, T(got)), RM::eye(2), 1e-14 * (1 + s), "coerced matrix times its transpose"); if (!(det(got) > 0)) FAIL("coerced matrix has determinant " << (double)det(got));
	LD n0 = std::sqrt(m(0, 0) * m(0, 0) + m(0, 1) * m(0, 1)); for (int j = 0; j < 2; j++) CLOSE(got(0, j), m(0, j) / n0, 1e-14, "first row of the coerced matrix keeps its direction"); if (d >= 0) same(got, r, 4 * d + 1e-14, "coerced matrix against the rotation it is near");
}
#endif
#if PART == 1
PROP(se2_exp, 2) { switch (g.pick(4)) { case 0: exp_case<Bf, float>(g); break; case 1: exp_case<B, float>(g); break; default: exp_case<B, double>(g); } }
PROP(se2_ln, 3) { if (g.chance(25)) ln_case<Bf>(g); else ln_case<B>(g); }
PROP(se2_history, 2) { if (g.chance(25)) history_case<Bf>(g); else history_case<B>(g); }
PROP(se2_mixed, 1) { if (g.flag()) mixed_case<Bf, B>(g); else mixed_case<B, Bf>(g); }
PROP(se2_generator, 1) { if (g.chance(25)) generator_case<Bf>(g); else generator_case<B>(g); }
PROP(se2_parts, 1) {
	SO2<> r = element<A>(g); RV t = gen_transl(g, 2, RV()); t = roundto<double>(t); RM m = A::mat(r), want(3, 3); for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) want(i, j) = m(i, j); want(i, 2) = t[i]; } want(2, 2) = 1; g.nontrivial(true);
	with_vec<2, double, VK_STATIC | VK_SSLICE | VK_CONST | VK_WRAP | VK_COL>(g, t, [&](auto& v) { SE2<> e(r, v); same(B::mat(e), want, 0, "construction from rotation and translation"); });
	SE2<> x = element<B>(g), y = r * x; prod_check<B>(y, B::mat(SE2<>(r, makeVector(0., 0.))), B::mat(x), eps<double>(), "rotation times rigid motion");
}
#endif
#if PART == 2
PROP(se2_action, 3) { switch (g.pick(4)) { case 0: action_case<Bf, double>(g); break; case 1: action_case<B, float>(g); break; default: action_case<B, double>(g); } }
PROP(se2_matrix, 2) { if (g.chance(25)) matrix_case<Bf, float>(g); else matrix_case<B, double>(g); }
PROP(se2_adjoint, 2) { if (g.chance(25)) adjoint_case<Bf, float, VK_STATIC | VK_SSLICE | VK_CONST>(g); else adjoint_case<B, double, VK_STATIC | VK_SSLICE | VK_CONST | VK_COL | VK_ROW | VK_WRAP>(g); }
PROP(se2_adjoint_matrix, 2) { adjoint_matrix_case<B, double>(g); }
#endif
