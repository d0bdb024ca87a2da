// V10: helper functions on vectors and matrices equal their definitions
#include "kinds.h"
#include <TooN/helpers.h>
using std::min; using std::max;
#ifndef PART
#define PART 0
#endif
#if PART < 4
#define CHECKN(T, S) static void T##_##S(Gen& g)
template<class P> P rnd(Gen& g, int mode) { if (std::is_integral<P>::value || mode == 0) return P(g.small(9)); if (mode == 1) return P(g.real()); return P(g.logmag(1e-12, 1e12)); }
template<class P> RV rvec(Gen& g, int n, int& mode) { mode = g.pick(3); RV x(n); for (auto& e : x) e = rnd<P>(g, mode); if (g.chance(20) && n > 1) x[g.pick(n)] = x[g.pick(n)]; return x; }
const LD EPSI = 0;
template<int N, class P> void vec_helpers(Gen& g, int n) {
	int mode; RV x = rvec<P>(g, n, mode); g.note("n", n); g.note("x", show(x)); g.nontrivial(n > 1);
	constexpr bool FP = !std::is_integral<P>::value; LD e = 40 * (n + 2) * eps<P>();
	LD s1 = 0, s2 = 0, si = 0, mn = x[0], mx = x[0]; for (auto t : x) { s1 += std::fabs(t); s2 += t * t; si = std::max(si, (LD)std::fabs(t)); mn = std::min(mn, t); mx = std::max(mx, t); }
	with_vec<N, P, VK_ALL>(g, x, [&](auto& v) {
		auto unch = [&](const char* w) { for (int i = 0; i < n; i++) if ((LD)v[i] != x[i]) FAIL(w << " changed its argument"); };
		CLOSE(norm_1(v), s1, e * s1, "norm_1"); CLOSE(norm_inf(v), si, 0, "norm_inf"); CLOSE(norm_sq(v), s2, e * s2, "norm_sq");
		unch("a norm or extremum");
		if constexpr (FP) {
			LD nn = std::sqrt(s2); CLOSE(norm(v), nn, e * nn, "norm"); CLOSE(norm_2(v), nn, e * nn, "norm_2"); if (!isfinite(v)) FAIL("isfinite"); if (isnan(v)) FAIL("isnan");
			if (nn > 0) { auto u = unit(v); same(rv(u), scale(x, 1 / nn), 2 * e, "unit"); }
			auto up = unproject(v); RV w = x; w.push_back(1); same(rv(up), w, 0, "unproject");
			if (n > 1 && x[n - 1] != 0) { if constexpr (N != 1) { auto p = project(v); RV w(n - 1); RV tol(n - 1); for (int i = 0; i < n - 1; i++) { w[i] = x[i] / x[n - 1]; tol[i] = std::fabs(w[i]); } same(rv(p), w, tol, e, "project"); auto b = project(up); same(rv(b), x, 0, "project(unproject)"); } }
			unch("unit, project or unproject");
		} else {
			RV w = x; w.push_back(1); same(rv(unproject(v)), w, 0, "unproject"); if constexpr (N != 1) if (n > 1 && x[n - 1] != 0) { RV q(n - 1); for (int i = 0; i < n - 1; i++) q[i] = std::trunc(x[i] / x[n - 1]); same(rv(project(v)), q, 0, "project"); } unch("project or unproject");
		}
	});
	with_vec<N, P, VK_ALL & ~VK_CSLICE>(g, x, [&](auto& v) {
		CLOSE(min_value(v), mn, 0, "min_value"); CLOSE(max_value(v), mx, 0, "max_value");
		auto lo = min_element(v), hi = max_element(v); if (lo.first != mn || lo.second < 0 || lo.second >= n || x[lo.second] != mn) FAIL("min_element gives " << lo.first << " at " << lo.second); if (hi.first != mx || hi.second < 0 || hi.second >= n || x[hi.second] != mx) FAIL("max_element gives " << hi.first << " at " << hi.second);
		for (int i = 0; i < n; i++) if ((LD)v[i] != x[i]) FAIL("an extremum changed its argument");
	});
	if constexpr (FP) if (s2 > 0) { // in place on objects, slices, rows and columns
		LD nn = std::sqrt(s2); RV w = scale(x, 1 / nn); auto ok = [&](const auto& v) { same(rv(v), w, 2 * e, "normalize"); };
		switch (g.pick(6)) {
			case 0: { if constexpr (N > 0) { Vector<N, P> v; put(v, x); normalize(v); ok(v); } break; }
			case 1: { Vector<Dynamic, P> v(n); put(v, x); normalize(v); ok(v); break; }
			case 2: { Vector<Resizable, P> v(n); put(v, x); normalize(v); ok(v); break; }
			case 3: { Vector<Dynamic, P> v(n + 2); v[0] = v[n + 1] = 5; auto s = v.slice(1, n); put(s, x); normalize(v.slice(1, n)); ok(v.slice(1, n)); if (v[0] != 5 || v[n + 1] != 5) FAIL("normalize of a slice changed the rest"); break; }
			case 4: { Matrix<Dynamic, Dynamic, P> m(n, 2); for (int i = 0; i < n; i++) { m(i, 0) = P(x[i]); m(i, 1) = 7; } normalize(m.T()[0]); ok(m.T()[0]); for (int i = 0; i < n; i++) if (m(i, 1) != 7) FAIL("normalize of a column changed another"); break; }
			default: { if constexpr (N > 0) { Matrix<2, N, P, ColMajor> m; for (int i = 0; i < n; i++) { m(0, i) = 7; m(1, i) = P(x[i]); } normalize(m[1]); ok(m[1]); for (int i = 0; i < n; i++) if (m(0, i) != 7) FAIL("normalize of a row changed another"); } break; }
		}
	}
}
template<int N, class P> void vec_extreme(Gen& g, int n) { // lengths whose squares are near the ends of the range
	typedef std::numeric_limits<P> L; int ex = g.range((L::min_exponent - L::digits) / 2 + 5, L::max_exponent / 2 - 8); RV x(n); for (auto& e : x) e = (P)std::ldexp((LD)(P)g.uniform(-1, 1), ex); g.note("x", show(x)); g.nontrivial(n > 1);
	LD s2 = dot(x, x), nn = std::sqrt(s2), dn = L::denorm_min(); if (s2 < 1e3L * n * dn) return; LD e = 40 * (n + 2) * eps<P>() + 4 * n * dn / s2;
	with_vec<N, P, VK_ALL>(g, x, [&](auto& v) {
		CLOSE(norm_sq(v), s2, e * s2, "norm_sq"); CLOSE(norm(v), nn, e * nn, "norm"); CLOSE(norm_2(v), nn, e * nn, "norm_2"); CLOSE(norm_1(v), [&] { LD t = 0; for (auto z : x) t += std::fabs(z); return t; }(), e * n * nn, "norm_1"); CLOSE(norm_inf(v), maxabs(x), 0, "norm_inf");
		auto u = unit(v); same(rv(u), scale(x, 1 / nn), 2 * e, "unit"); Vector<Dynamic, P> w(n); w = v; normalize(w); same(rv(w), scale(x, 1 / nn), 2 * e, "normalize"); if (n > 1 && x[n - 1] != 0) if constexpr (N != 1) { auto p = project(v); for (int i = 0; i < n - 1; i++) if (!nearly_value<P>(p[i], (P)(x[i] / x[n - 1]))) FAIL("project: element " << i << " is " << p[i] << " instead of " << (double)(x[i] / x[n - 1])); }
	});
}
template<int N, class P> void vec_special(Gen& g, int n) { // infinities and NaN
	RV x(n); bool anynan = false, allfin = true; LD mn = INFINITY, mx = -INFINITY; g.nontrivial();
	for (auto& e : x) { int k = g.pick(8); e = k == 7 ? (LD)NAN : k == 6 ? (LD)INFINITY : k == 5 ? -(LD)INFINITY : k == 4 ? (g.flag() ? 1 : -1) * (LD)std::numeric_limits<P>::max() : k == 3 ? (LD)std::numeric_limits<P>::denorm_min() : k == 2 ? (LD)-0.0 : (LD)rnd<P>(g, 0); if (std::isnan(e)) anynan = true; if (!std::isfinite(e)) allfin = false; mn = std::min(mn, e); mx = std::max(mx, e); }
	g.note("x", show(x));
	with_vec<N, P, VK_ALL & ~VK_CSLICE>(g, x, [&](auto& v) {
		if (isnan(v) != anynan) FAIL("isnan says " << !anynan << " of " << x); if (isfinite(v) != allfin) FAIL("isfinite says " << !allfin << " of " << x);
		if constexpr (N != 1) if (n > 1) { auto p = project(v); for (int i = 0; i < n - 1; i++) { P w = (P)x[i] / (P)x[n - 1]; if (!nearly_value<P>(p[i], w)) FAIL("project: element " << i << " is " << p[i] << " instead of " << w); } }
		if (!anynan) { if ((LD)min_value(v) != mn || (LD)max_value(v) != mx) FAIL("extrema of " << x); if ((LD)v[min_element(v).second] != mn || (LD)v[max_element(v).second] != mx) FAIL("positions of extrema of " << x); if ((LD)norm_inf(v) != std::max(std::fabs(mn), std::fabs(mx))) FAIL("norm_inf of " << x); }
	});
}
template<int R, int C, class P> void mat_special(Gen& g, int r, int c) { // values at the edges of the type, infinities and NaN
	RM x(r, c); bool fin = g.flag(), anynan = false; for (auto& e : x.a) { e = g.chance(60) ? (LD)edge_value<P>(g, !fin) : (LD)rnd<P>(g, 0); if (e != e) anynan = true; } g.note("m", show(x)); g.nontrivial(); auto eq = [](LD a, LD b) { return a == b || (a != a && b != b); };
	with_mat<R, C, P, MK_ALL>(g, x, [&](auto& m) {
		if (isnan(m) != anynan) FAIL("isnan says " << !anynan);
		auto up = unproject(m); if (up.num_rows() != r + 1 || up.num_cols() != c) FAIL("shape of unproject"); for (int i = 0; i <= r; i++) for (int j = 0; j < c; j++) if (!eq(up(i, j), i < r ? x(i, j) : 1)) FAIL("unproject: entry " << i << "," << j << " is " << up(i, j));
		if constexpr (R != 1) if (r > 1) { auto p = project(m); for (int i = 0; i < r - 1; i++) for (int j = 0; j < c; j++) { P w = (P)x(i, j) / (P)x(r - 1, j); if (!nearly_value<P>(p(i, j), w)) FAIL("project: entry " << i << "," << j << " is " << p(i, j) << " instead of " << w); } }
		if (!anynan) { LD ni = 0, n1 = 0; for (int i = 0; i < r; i++) { LD t = 0; for (int j = 0; j < c; j++) t += std::fabs(x(i, j)); ni = std::max(ni, t); } for (int j = 0; j < c; j++) { LD t = 0; for (int i = 0; i < r; i++) t += std::fabs(x(i, j)); n1 = std::max(n1, t); } LD mx = std::numeric_limits<P>::max(), dn = std::numeric_limits<P>::denorm_min(), e = 4 * (r + c) * eps<P>();
			auto chk = [&](LD got, LD want, const char* what) { if (std::isinf(want) || want > mx * (1 + e)) { if (!(std::isinf(got) && got > 0)) FAIL(what << " is " << (double)got << " instead of infinite"); } else if (want < mx * (1 - e) && !(std::fabs(got - want) <= e * want + dn)) FAIL(what << " is " << (double)got << " instead of " << (double)want); };
			chk(norm_inf(m), ni, "norm_inf"); chk(norm_1(m), n1, "norm_1"); }
		for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (!eq(m(i, j), x(i, j))) FAIL("a helper changed its argument");
	});
}
template<int R, int C, class P> void mat_helpers(Gen& g, int r, int c) {
	int mode = g.pick(3); RM x(r, c); for (auto& e : x.a) e = rnd<P>(g, mode); g.note("m", show(x)); g.nontrivial(r * c > 1);
	constexpr bool FP = !std::is_integral<P>::value; LD e = 40 * (r * c + 2) * eps<P>();
	with_mat<R, C, P, MK_ALL>(g, x, [&](auto& m) {
		LD ni = norminf(x), n1 = norminf(T(x)), nf = frob(x), mn = x.a[0], mx = x.a[0]; for (auto t : x.a) { mn = std::min(mn, t); mx = std::max(mx, t); }
		CLOSE(norm_inf(m), ni, e * ni, "norm_inf"); CLOSE(norm_1(m), n1, e * n1, "norm_1"); if constexpr (FP) CLOSE(norm_fro(m), nf, e * nf, "norm_fro");
		if (min_value(m) != mn) FAIL("min_value"); if (max_value(m) != mx) FAIL("max_value");
		auto lo = min_element(m), hi = max_element(m); auto at = [&](std::pair<int, int> p) { if (p.first < 0 || p.first >= r || p.second < 0 || p.second >= c) FAIL("position out of range"); return x(p.first, p.second); };
		if (lo.first != mn || at(lo.second) != mn) FAIL("min_element"); if (hi.first != mx || at(hi.second) != mx) FAIL("max_element");
		auto lv = min_value_vertical(m), hv = max_value_vertical(m), lh = min_value_horizontal(m), hh = max_value_horizontal(m); auto lve = min_element_vertical(m), hve = max_element_vertical(m), lhe = min_element_horizontal(m), hhe = max_element_horizontal(m);
		if (lv.size() != c || hv.size() != c || lh.size() != r || hh.size() != r || lve.first.size() != c || lve.second.size() != c || hve.first.size() != c || hve.second.size() != c || lhe.first.size() != r || lhe.second.size() != r || hhe.first.size() != r || hhe.second.size() != r) FAIL("size of row- or column-wise extrema");
		for (int j = 0; j < c; j++) { LD a = x(0, j), b = a; for (int i = 0; i < r; i++) { a = std::min(a, x(i, j)); b = std::max(b, x(i, j)); } if (lv[j] != a || lve.first[j] != a) FAIL("smallest of column " << j); if (hv[j] != b || hve.first[j] != b) FAIL("largest of column " << j); if (at({ (int)lve.second[j], j }) != a) FAIL("position of the smallest of column " << j); if (at({ (int)hve.second[j], j }) != b) FAIL("position of the largest of column " << j); }
		for (int i = 0; i < r; i++) { LD a = x(i, 0), b = a; for (int j = 0; j < c; j++) { a = std::min(a, x(i, j)); b = std::max(b, x(i, j)); } if (lh[i] != a || lhe.first[i] != a) FAIL("smallest of row " << i); if (hh[i] != b || hhe.first[i] != b) FAIL("largest of row " << i); if (at({ i, (int)lhe.second[i] }) != a) FAIL("position of the smallest of row " << i); if (at({ i, (int)hhe.second[i] }) != b) FAIL("position of the largest of row " << i); }
		if constexpr (FP) {
			if (isnan(m)) FAIL("isnan");
			auto up = unproject(m); RM w(r + 1, c); for (int i = 0; i <= r; i++) for (int j = 0; j < c; j++) w(i, j) = i < r ? x(i, j) : 1; same(rm(up), w, 0, "unproject");
			bool z = r < 2; for (int j = 0; j < c; j++) if (x(r - 1, j) == 0) z = true;
			if constexpr (R != 1) if (!z) { auto p = project(m); RM q(r - 1, c); for (int i = 0; i < r - 1; i++) for (int j = 0; j < c; j++) q(i, j) = x(i, j) / x(r - 1, j); same(rm(p), q, absm(q), e, "project"); same(rm(project(up)), x, 0, "project(unproject)"); }
		} else {
			RM w(r + 1, c); for (int i = 0; i <= r; i++) for (int j = 0; j < c; j++) w(i, j) = i < r ? x(i, j) : 1; same(rm(unproject(m)), w, 0, "unproject"); bool z = r < 2; for (int j = 0; j < c; j++) if (x(r - 1, j) == 0) z = true;
			if constexpr (R != 1) if (!z) { RM q(r - 1, c); for (int i = 0; i < r - 1; i++) for (int j = 0; j < c; j++) q(i, j) = std::trunc(x(i, j) / x(r - 1, j)); same(rm(project(m)), q, 0, "project"); }
		}
		if constexpr (R == C) if (r == c) { LD t = 0, ta = 0; for (int i = 0; i < r; i++) { t += x(i, i); ta += std::fabs(x(i, i)); } CLOSE(trace(m), t, e * ta, "trace"); }
		same(rm(m), x, 0, "argument after the helpers");
	});
	if constexpr (FP && R == C) if (r == c) { with_mat<R, C, P, MK_ALL & ~MK_CONST>(g, x, [&](auto& m) { if constexpr (!std::is_const<std::remove_reference_t<decltype(m)>>::value) { Symmetrize(m); RM s = scale(add(x, T(x)), 0.5L); RM tol = scale(add(absm(x), absm(T(x))), 0.5L); same(rm(m), s, tol, e, "Symmetrize"); for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) if (m(i, j) != m(j, i)) FAIL("not symmetric after Symmetrize"); } }, true); }
	if constexpr (FP) { int i = g.pick(r), j = g.pick(c), k = g.pick(3); RM y = x; y(i, j) = k == 0 ? (LD)NAN : k == 1 ? (LD)INFINITY : -(LD)INFINITY; with_mat<R, C, P, MK_ALL>(g, y, [&](auto& m) { if (isnan(m) != (k == 0)) FAIL("isnan of a matrix with " << (double)y(i, j) << " at " << i << "," << j); if (k && (k == 1 ? max_element(m).second : min_element(m).second) != std::make_pair(i, j)) FAIL("infinite extremum not found"); }); }
}
#endif
#if PART == 0
PROP(vectors_static, 3) { switch (g.pick(5)) { case 0: vec_helpers<1, double>(g, 1); break; case 1: vec_helpers<2, double>(g, 2); break; case 2: vec_helpers<3, double>(g, 3); break; case 3: vec_helpers<4, float>(g, 4); break; case 4: vec_helpers<7, double>(g, 7); break; } }
PROP(extreme_static, 1) { switch (g.pick(3)) { case 0: vec_extreme<2, double>(g, 2); break; case 1: vec_extreme<3, double>(g, 3); break; case 2: vec_extreme<3, float>(g, 3); break; } }
PROP(special_matrix_static, 1) { if (g.flag()) mat_special<3, 4, double>(g, 3, 4); else mat_special<2, 2, float>(g, 2, 2); }
PROP(special_static, 1) { switch (g.pick(2)) { case 0: vec_special<3, double>(g, 3); break; case 1: vec_special<5, float>(g, 5); break; } }
#endif
#if PART == 1
PROP(vectors_dynamic, 3) { int n = g.size(1, 20, 60); switch (g.pick(3)) { case 0: vec_helpers<Dynamic, double>(g, n); break; case 1: vec_helpers<Dynamic, float>(g, n); break; case 2: vec_helpers<Dynamic, int>(g, n); break; } }
PROP(extreme_dynamic, 1) { int n = g.size(1, 8, 40); if (g.flag()) vec_extreme<Dynamic, double>(g, n); else vec_extreme<Dynamic, float>(g, n); }
PROP(special_matrix_dynamic, 1) { int r = g.range(1, 5), c = g.range(1, 5); if (g.flag()) mat_special<Dynamic, Dynamic, double>(g, r, c); else mat_special<Dynamic, 3, float>(g, r, 3); }
PROP(special_dynamic, 1) { int n = g.range(1, 8); if (g.flag()) vec_special<Dynamic, double>(g, n); else vec_special<Dynamic, float>(g, n); }
PROP(empty, 1) { g.nontrivial(false); Vector<> v(0); Vector<Resizable> r; Matrix<> m(0, 0); if (norm(v) != 0 || norm_sq(v) != 0 || norm_1(v) != 0 || norm_2(r) != 0 || norm_inf(v) != 0 || norm_inf(r) != 0) FAIL("norm of an empty vector"); if (norm_inf(m) != 0 || norm_1(m) != 0 || norm_fro(m) != 0 || trace(m) != 0) FAIL("norm of an empty matrix"); if (!isfinite(v) || isnan(v)) FAIL("isfinite/isnan of an empty vector"); Vector<> u = unproject(v); if (u.size() != 1 || u[0] != 1) FAIL("unproject of an empty vector"); }
#endif
#if PART == 2
PROP(matrices_static, 3) { switch (g.pick(5)) { case 0: mat_helpers<3, 3, double>(g, 3, 3); break; case 1: mat_helpers<2, 4, double>(g, 2, 4); break; case 2: mat_helpers<4, 1, double>(g, 4, 1); break; case 3: mat_helpers<1, 3, float>(g, 1, 3); break; case 4: mat_helpers<2, 2, float>(g, 2, 2); break; } }
#endif
#if PART == 3
PROP(matrices_dynamic, 3) { int r = g.size(1, 9, 60), c = g.flag() ? r : g.size(1, 9, 60); switch (g.pick(3)) { case 0: mat_helpers<Dynamic, Dynamic, double>(g, r, c); break; case 1: mat_helpers<Dynamic, Dynamic, float>(g, r, c); break; case 2: mat_helpers<Dynamic, Dynamic, int>(g, r, c); break; } }
template<class P> void cross(Gen& g) {
	RV a(3), b(3); for (auto& e : a) e = rnd<P>(g, 0); for (auto& e : b) e = rnd<P>(g, 0); g.nontrivial(); g.note("a", show(a)); g.note("b", show(b)); RV w = { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
	auto f = [&](auto& v) { auto M = cross_product_matrix(v); RM x = rm(M); same(mul(x, b), w, 0, "cross product matrix times vector"); same(T(x), scale(x, -1), 0, "antisymmetry"); same(rv(v), a, 0, "argument"); (void)0; };
	if (g.flag()) with_vec<3, P, VK_ALL>(g, a, f); else with_vec<3, P, VK_ALL>(g, a, f);
	auto f2 = [&](auto& v) { same(mul(rm(cross_product_matrix(v)), b), w, 0, "cross product matrix of a dynamic vector"); }; with_vec<Dynamic, P, VK_ALL>(g, a, f2);
}
PROP(cross_product, 1) { switch (g.pick(3)) { case 0: cross<double>(g); break; case 1: cross<float>(g); break; case 2: cross<int>(g); break; } }
PROP(inverse2, 1) {
	RM x(2, 2); int mode = g.pick(3); for (auto& e : x.a) e = rnd<double>(g, mode); g.note("m", show(x)); LD d = x(0, 0) * x(1, 1) - x(0, 1) * x(1, 0), s = std::fabs(x(0, 0) * x(1, 1)) + std::fabs(x(0, 1) * x(1, 0)); if (std::fabs(d) < 1e-6L * s || d == 0) return; g.nontrivial();
	Matrix<2> m; put(m, x); Matrix<2> i = inv(m); RM w(2, 2); w(0, 0) = x(1, 1) / d; w(1, 1) = x(0, 0) / d; w(0, 1) = -x(0, 1) / d; w(1, 0) = -x(1, 0) / d; same(rm(i), w, absm(w), 1e-13L * s / std::fabs(d), "inv"); same(rm(m), x, 0, "argument of inv");
}
PROP(resizable_project, 1) { int n = g.range(2, 6); RV x(n); for (auto& e : x) e = g.range(1, 9); g.nontrivial(); Vector<Resizable> v(n); put(v, x); RV w(n - 1); for (int i = 0; i < n - 1; i++) w[i] = x[i] / x[n - 1]; same(rv(project(v)), w, 1e-13L, "project"); x.push_back(1); same(rv(unproject(v)), x, 0, "unproject"); }
PROP(constant_fill, 1) { int n = g.range(1, 9), m = g.range(1, 6); double a = g.small(9), k = g.real(); g.nontrivial(); Vector<> v(n + 2); v = Ones * a; { auto s = v.slice(1, n); Fill(s, k); } for (int i = 0; i < n + 2; i++) if (v[i] != (i == 0 || i == n + 1 ? a : k)) FAIL("Fill(slice, value): element " << i); Vector<3> w; Fill(w, k); if (w[0] != k || w[1] != k || w[2] != k) FAIL("Fill(vector, value)"); Matrix<Dynamic, Dynamic, double, ColMajor> M(n + 1, m + 1); M = Ones(n + 1, m + 1) * a; { auto s = M.slice(0, 1, n, m); Fill(s, k); } for (int i = 0; i <= n; i++) for (int j = 0; j <= m; j++) if (M(i, j) != (i == n || j == 0 ? a : k)) FAIL("Fill(block, value): entry " << i << "," << j); }
#endif
