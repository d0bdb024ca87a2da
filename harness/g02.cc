// G02: 3D rotations
#include "group.h"
#include "abort.h"
#ifndef PART
#define PART 0
#endif
typedef XSO3<double> A; typedef XSO3<float> Af;
#if PART == 0
PROP(so3_exp, 2) { switch (g.pick(4)) { case 0: exp_case<Af, float>(g); break; case 1: exp_case<A, float>(g); break; default: exp_case<A, double>(g); } }
PROP(so3_ln, 3) { if (g.chance(25)) ln_case<Af>(g); else ln_case<A>(g); }
PROP(so3_history, 2) { if (g.chance(25)) history_case<Af>(g); else history_case<A>(g); }
PROP(so3_mixed, 1) { if (g.flag()) mixed_case<Af, A>(g); else mixed_case<A, Af>(g); }
PROP(so3_generator, 1) { if (g.chance(25)) generator_case<Af>(g); else generator_case<A>(g); }
#endif
#if PART == 1
PROP(so3_action, 3) { switch (g.pick(4)) { case 0: action_case<Af, double>(g); break; case 1: action_case<A, float>(g); break; default: action_case<A, double>(g); } }
PROP(so3_matrix, 2) { if (g.chance(25)) matrix_case<Af, float>(g); else matrix_case<A, double>(g); }
PROP(so3_adjoint, 2) { if (g.chance(25)) adjoint_case<Af, float, GK_VEC>(g); else adjoint_case<A, double, GK_VEC>(g); }
// Rodrigues formula with given coefficients
PROP(rodrigues, 1) {
	RV w = gen_tangent<A>(g, false); if (norm2(w) < 1e-100) g.discard(); RM k = A::alg(w); LD a = g.real(), b = g.real(); RM want = add(add(RM::eye(3), k, a), mul(k, k), b); g.nontrivial(true);
	RM size = add(add(RM::eye(3), absm(k), std::fabs(a)), mul(absm(k), absm(k)), std::fabs(b)); for (int i = 0; i < 3; i++) size(i, i) += std::fabs(b) * dot(w, w);
	with_vec<3, double, GK_VEC>(g, w, [&](auto& v) { Matrix<3> r; rodrigues_so3_exp(v, (double)a, (double)b, r); same(rm(r), want, size, 1e-14, "rodrigues_so3_exp"); Matrix<5> big = Zeros; rodrigues_so3_exp(v, (double)a, (double)b, big.slice<1, 1, 3, 3>().ref()); same(sub(rm(big), 1, 1, 3, 3), want, size, 1e-14, "rodrigues_so3_exp into a slice"); });
}
#endif
#if PART == 2
// matrices near a rotation, and scaled or skewed ones of positive determinant
template<class X> void coerce_case(Gen& g) {
	typedef typename X::Prec P; RM r = X::mat(element<X>(g)), m; LD d = 0, e = eps<P>(); int k = g.pick(3); if (k == 0) m = r; else if (k == 1) { d = g.logpos(1e-7, 0.1); m = add(r, gen_dense(g, 3, 3), d / 3); } else { m = gen_dense(g, 3, 3); if (!(det(m) > 0.02)) g.discard(); d = -1; }
	if (k == 2 && g.chance(30)) { double q = sizeof(P) == 4 ? 15 : 140; m = scale(m, g.logpos(std::pow(10, -q), std::pow(10, q))); g.tag("matrix of extreme magnitude"); }
	m = roundto<P>(m); g.note("M", show(m)); g.nontrivial(k != 0); RM got;
	with_mat<3, 3, P, GK_MAT>(g, m, [&](auto& q) { if (g.flag()) got = rm(SO3<P>(q).get_matrix()); else { SO3<P> s = element<X>(g); s = q; got = rm(s.get_matrix()); } same(rm(q), m, 0, "matrix"); });
	LD f = frob(m), s = f * f * f / det(m); same(mul(got, T(got)), RM::eye(3), 50 * e * (1 + s), "coerced matrix times its transpose"); if (!(det(got) > 0)) FAIL("coerced matrix has determinant " << (double)det(got));
	if (d >= 0) same(got, r, 4 * d + 50 * e, "coerced matrix against the rotation it is near");
	RM l = mul(m, T(got)); for (int i = 0; i < 3; i++) { if (!(l(i, i) > 0)) FAIL("row " << i << " of the coerced matrix is turned round"); for (int j = i + 1; j < 3; j++) CLOSE(l(i, j), 0, 50 * e * (1 + s) * f, "row " << i << " of the coerced matrix lies in the span of the first rows of the matrix"); }
}
PROP(so3_coerce, 2) { if (g.chance(25)) coerce_case<Af>(g); else coerce_case<A>(g); }
template<class X> void between_case(Gen& g) {
	typedef typename X::Prec P; LD e = eps<P>(); RV a = gen_direction(g, 3), b; int k = g.pick(6);
	switch (k) {
		case 0: b = gen_direction(g, 3); g.tag("directions unrelated"); break;
		case 1: b = a; g.tag("directions equal"); break;
		case 2: b = add(a, gen_direction(g, 3), g.logpos(1e-17, 1e-2)); g.tag("directions close"); break;
		case 3: b = add(scale(a, -1), gen_direction(g, 3), g.logpos(1e-17, 1e-2)); g.tag("directions nearly opposite"); break;
		case 4: b = scale(a, -1); g.tag("directions opposite up to rounding"); break;
		case 5: b = add(a, gen_direction(g, 3), -1); if (!(norm2(b) > 1e-6)) b = a; b = g.flag() ? add(b, a, -dot(a, b)) : b; g.tag("directions perpendicular"); break;
	}
	if (!(norm2(b) > 1e-6)) g.discard();
	auto len = [&]() -> LD { double d = sizeof(P) == 4 ? 8 : 70; switch (g.pick(6)) { case 0: case 1: case 2: return 1; case 3: g.tag("vectors of extreme length"); return g.logpos(std::pow(10, -d), std::pow(10, d)); default: return g.logpos(1e-3, 1e3); } };
	a = roundto<P>(scale(a, len())); b = roundto<P>(scale(b, len())); g.note("a", show(a)); g.note("b", show(b)); LD na = norm2(a), nb = norm2(b); if (!(na > 0) || !(nb > 0)) g.discard();
	RV c(3); for (int i = 0; i < 3; i++) c[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; LD s = norm2(c) / na / nb, co = dot(a, b) / na / nb; g.nontrivial(s > 0);
	bool risky = co < 0 && s < 100 * e; // the documented assertion may fire: the cross product may come out as zero
	if (risky) { bool zero; { Vector<3, P> x = vec<3, P>(a), y = vec<3, P>(b); Vector<3, P> n = x ^ y; zero = n[0] == 0 && n[1] == 0 && n[2] == 0; }
#ifndef NDEBUG
		bool ab = aborts([&] { SO3<P> r(vec<3, P>(a), vec<3, P>(b)); (void)r; }); if (ab != zero && s == 0) FAIL("exactly opposite directions are " << (ab ? "refused" : "accepted")); if (ab) { if (!zero) FAIL("opposite directions with non-zero cross product are refused"); g.tag("opposite directions refused"); return; }
#endif
		if (zero) return;
	}
	with_vec<3, P, GK_VEC>(g, a, [&](auto& x) {
		SO3<P> r(x, vec<3, P>(b)); RM m = rm(r.get_matrix()); same(mul(m, T(m)), RM::eye(3), 30 * e, "rotation between two directions times its transpose"); if (!(det(m) > 0)) FAIL("rotation between two directions has determinant " << (double)det(m));
		same(mul(m, scale(a, 1 / na)), scale(b, 1 / nb), 30 * e, "rotated first direction against the second"); same(rv(x), a, 0, "first direction");
		// angle: the angle between the directions; axis: along the cross product
		LD tr = m(0, 0) + m(1, 1) + m(2, 2); CLOSE((tr - 1) / 2, co, 40 * e, "cosine of the rotation angle"); RV ax(3); for (int i = 0; i < 3; i++) ax[i] = (m((i + 2) % 3, (i + 1) % 3) - m((i + 1) % 3, (i + 2) % 3)) / 2; same(ax, scale(c, 1 / na / nb), 40 * e, "axis times sine of the rotation");
		if (s > 1e3 * e && co < 0) { RV n = scale(c, 1 / norm2(c)); same(mul(m, n), n, 100 * e / s, "the axis along the cross product is fixed"); }
		if (s == 0 && co > 0) same(m, RM::eye(3), 0, "rotation between equal directions");
	});
	with_vec<3, P, VK_DYN | VK_DSLICE | VK_COL>(g, b, [&](auto& y) { SO3<P> r(vec<3, P>(a), y); same(mul(rm(r.get_matrix()), scale(a, 1 / na)), scale(b, 1 / nb), 30 * e, "rotated first direction against the second"); same(rv(y), b, 0, "second direction"); });
}
PROP(so3_between, 3) { if (g.chance(25)) between_case<Af>(g); else between_case<A>(g); }
#endif
