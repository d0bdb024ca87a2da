// G04: planar similarity transforms
#include "group.h"
#ifndef PART
#define PART 0
#endif
typedef XSO2<double> R; typedef XSIM2<double> A; typedef XSIM2<float> Af;
#if PART == 0
PROP(sim2_exp, 3) { switch (g.pick(4)) { case 0: exp_case<Af, float>(g); break; case 1: exp_case<A, float>(g); break; default: exp_case<A, double>(g); } }
PROP(sim2_ln, 3) { if (g.chance(25)) ln_case<Af>(g); else ln_case<A>(g); }
PROP(sim2_history, 2) { if (g.chance(25)) history_case<Af>(g); else history_case<A>(g); }
PROP(sim2_mixed, 1) { if (g.flag()) mixed_case<Af, A>(g); else mixed_case<A, Af>(g); }
PROP(sim2_generator, 1) { if (g.chance(25)) generator_case<Af>(g); else generator_case<A>(g); }
PROP(sim2_parts, 1) {
	SO2<> r = element<R>(g); RV t = roundto<double>(gen_transl(g, 2, RV())); double s = g.logpos(1e-3, 1e3); RM m = R::mat(r), want = RM::eye(3); for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) want(i, j) = s * m(i, j); want(i, 2) = t[i]; } g.nontrivial(true);
	with_vec<2, double, VK_STATIC | VK_SSLICE | VK_CONST | VK_WRAP | VK_COL>(g, t, [&](auto& v) { SIM2<> e(r, v, s); same(A::mat(e), want, 0, "construction from rotation, translation and scale"); });
	SIM2<> x = element<A>(g); x.get_rotation() = r; x.get_translation() = vec<2>(t); x.get_scale() = s; same(A::mat(x), want, 0, "setting rotation, translation and scale");
}
#endif
#if PART == 1
PROP(sim2_action, 3) { switch (g.pick(4)) { case 0: action_case<Af, double>(g); break; case 1: action_case<A, float>(g); break; default: action_case<A, double>(g); } }
PROP(sim2_matrix, 2) { if (g.chance(25)) matrix_case<Af, float>(g); else matrix_case<A, double>(g); }
#endif
#if PART == 2
PROP(sim2_adjoint, 2) { if (g.chance(25)) adjoint_case<Af, float, VK_STATIC | VK_SSLICE | VK_CONST>(g); else adjoint_case<A, double, VK_STATIC | VK_SSLICE | VK_CONST | VK_COL | VK_ROW | VK_WRAP>(g); }
PROP(sim2_adjoint_matrix, 2) { if (g.chance(25)) adjoint_matrix_case<Af, float>(g); else adjoint_matrix_case<A, double>(g); }
#endif
