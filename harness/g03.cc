// G03: 3D rigid motions
#include "group.h"
#ifndef PART
#define PART 0
#endif
typedef XSO3<double> R; typedef XSE3<double> A; typedef XSE3<float> Af;
#if PART == 0
PROP(se3_exp, 3) { switch (g.pick(4)) { case 0: exp_case<Af, float>(g); break; case 1: exp_case<A, float>(g); break; default: exp_case<A, double>(g); } }
PROP(se3_ln, 3) { if (g.chance(25)) ln_case<Af>(g); else ln_case<A>(g); }
PROP(se3_history, 2) { if (g.chance(25)) history_case<Af>(g); else history_case<A>(g); }
PROP(se3_mixed, 1) { if (g.flag()) mixed_case<Af, A>(g); else mixed_case<A, Af>(g); }
PROP(se3_generator, 1) { if (g.chance(25)) generator_case<Af>(g); else generator_case<A>(g); }
PROP(se3_parts, 1) {
	SO3<> r = element<R>(g); RV t = roundto<double>(gen_transl(g, 3, RV())); RM m = R::mat(r), want = RM::eye(4), tr = RM::eye(4); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) want(i, j) = m(i, j); want(i, 3) = tr(i, 3) = t[i]; } g.nontrivial(true);
	with_vec<3, double, GK_VEC>(g, t, [&](auto& v) { SE3<> e(r, v); same(A::mat(e), want, 0, "construction from rotation and translation"); SE3<> f(Identity, v); same(A::mat(f), tr, 0, "construction from the identity and a translation"); });
	SE3<> x = element<A>(g), y = r * x; prod_check<A>(y, A::mat(SE3<>(r, makeVector(0., 0., 0.))), A::mat(x), eps<double>(), "rotation times rigid motion");
	x.get_rotation() = r; x.get_translation() = vec<3>(t); same(A::mat(x), want, 0, "setting rotation and translation");
}
#endif
#if PART == 1
PROP(se3_action, 3) { switch (g.pick(4)) { case 0: action_case<Af, double>(g); break; case 1: action_case<A, float>(g); break; default: action_case<A, double>(g); } }
PROP(se3_matrix, 2) { if (g.chance(25)) matrix_case<Af, float>(g); else matrix_case<A, double>(g); }
#endif
#if PART == 2
PROP(se3_adjoint, 2) { switch (g.pick(4)) { case 0: adjoint_case<Af, float, GK_VEC>(g); break; case 1: adjoint_case<A, float, GK_VEC>(g); break; default: adjoint_case<A, double, GK_VEC>(g); } }
PROP(se3_adjoint_matrix, 2) { if (g.chance(25)) adjoint_matrix_case<Af, float>(g); else adjoint_matrix_case<A, double>(g); }
PROP(se3_trinvadjoint, 2) { if (g.chance(25)) trinvadjoint_case<Af>(g); else trinvadjoint_case<A>(g); }
#endif
