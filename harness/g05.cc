// G05: 3D similarity transforms
#include "group.h"
#ifndef PART
#define PART 0
#endif
typedef XSO3<double> R; typedef XSIM3<double> A; typedef XSIM3<float> Af;
#if PART == 0
PROP(sim3_exp, 3) { switch (g.pick(4)) { case 0: exp_case<Af, float>(g); break; case 1: exp_case<A, float>(g); break; default: exp_case<A, double>(g); } }
PROP(sim3_ln, 3) { if (g.chance(25)) ln_case<Af>(g); else ln_case<A>(g); }
PROP(sim3_history, 2) { if (g.chance(25)) history_case<Af>(g); else history_case<A>(g); }
PROP(sim3_mixed, 1) { if (g.flag()) mixed_case<Af, A>(g); else mixed_case<A, Af>(g); }
PROP(sim3_generator, 1) { if (g.chance(25)) generator_case<Af>(g); else generator_case<A>(g); }
PROP(sim3_parts, 1) {
	SO3<> r = element<R>(g); RV t = roundto<double>(gen_transl(g, 3, RV())); double s = g.logpos(1e-3, 1e3); RM m = R::mat(r), want = RM::eye(4); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) want(i, j) = s * m(i, j); want(i, 3) = t[i]; } g.nontrivial(true);
	with_vec<3, double, GK_VEC>(g, t, [&](auto& v) { SIM3<> e(r, v, s); same(A::mat(e), want, 0, "construction from rotation, translation and scale"); });
	SIM3<> x = element<A>(g); RM xm = A::mat(x); { SE3<> y = element<XSE3<double>>(g); RM ym = XSE3<double>::mat(y); SIM3<> z = x * y; prod_check<A>(z, xm, ym, eps<double>(), "similarity times rigid motion"); }
	x.get_rotation() = r; x.get_translation() = vec<3>(t); x.get_scale() = s; same(A::mat(x), want, 0, "setting rotation, translation and scale");
	if (g.flag()) { x = Identity; same(A::mat(x), RM::eye(4), 0, "assigning Identity"); } else { SIM3<float> y = element<Af>(g); y = Identity; same(Af::mat(y), RM::eye(4), 0, "assigning Identity"); }
}
#endif
#if PART == 1
PROP(sim3_action, 3) { switch (g.pick(4)) { case 0: action_case<Af, double>(g); break; case 1: action_case<A, float>(g); break; default: action_case<A, double>(g); } }
PROP(sim3_matrix, 2) { if (g.chance(25)) matrix_case<Af, float>(g); else matrix_case<A, double>(g); }
#endif
#if PART == 2
PROP(sim3_adjoint, 2) { switch (g.pick(4)) { case 0: adjoint_case<Af, float, GK_VEC>(g); break; case 1: adjoint_case<A, float, GK_VEC>(g); break; default: adjoint_case<A, double, GK_VEC>(g); } }
PROP(sim3_adjoint_matrix, 2) { if (g.chance(25)) adjoint_matrix_case<Af, float>(g); else adjoint_matrix_case<A, double>(g); }
PROP(sim3_trinvadjoint, 2) { if (g.chance(25)) trinvadjoint_case<Af>(g); else trinvadjoint_case<A>(g); }
#endif
