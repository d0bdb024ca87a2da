// V06: Zeros, Ones, Identity are the constants they name.
#include "kinds.h"
#ifndef PART
#define PART 0
#endif
// floating point results: to the last places; integer ones exactly
template<class P> bool off(P got, LD want) { if constexpr (std::is_floating_point<P>::value) return !nearly_value<P>(got, (P)want); else return got != want; }
inline bool edgy;   // this case has values at the edges of the type
template<class P> P gscale(Gen& g) { if constexpr (std::is_floating_point<P>::value) if (edgy && g.flag()) return edge_value<P>(g, g.chance(20));  return std::is_integral<P>::value ? P(g.small(7)) : P(g.flag() ? g.small(7) : g.small(31) / 4.0); }
static const int VM = VK_ALL & ~VK_CONST & ~VK_CSLICE;
template<class R, class V> void vis(const V& v, const std::vector<R>& w, const char* what) {
	if (v.size() != (int)w.size()) FAIL(what << ": size " << v.size() << " instead of " << w.size());
	for (int i = 0; i < v.size(); i++) if (off(v[i], w[i])) FAIL(what << ": element " << i << " is " << v[i] << " instead of " << w[i]);
}
template<class M> void mis(const M& m, const RM& w, const char* what) {
	if (m.num_rows() != w.r || m.num_cols() != w.c) FAIL(what << ": " << m.num_rows() << "x" << m.num_cols() << " instead of " << w.r << "x" << w.c);
	for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) if (off(m(i, j), w(i, j))) FAIL(what << ": entry (" << i << "," << j << ") is " << m(i, j) << " instead of " << (double)w(i, j));
}
// all values are multiples of 1/4 of moderate size, so everything is exact in float too
static RV gv(Gen& g, int n, bool ints) { RV v(n); for (auto& x : v) x = ints ? g.small(20) : g.small(80) / 4.0; return v; }
static RM gm(Gen& g, int r, int c, bool ints) { RM v(r, c); for (auto& x : v.a) x = ints ? g.small(20) : g.small(80) / 4.0; return v; }

#define FORM(k, text, expr, model) case k: { what = text; expr; for (int i = 0; i < n; i++) { double x = (double)x0[i]; (void)x; w[i] = model; } break; }
template<int N, class P> void vforms(Gen& g, int n) {
	typedef P S; edgy = g.chance(25); S s = gscale<S>(g); RV x0 = gv(g, n, std::is_integral<P>::value); if constexpr (std::is_floating_point<P>::value) if (edgy) { bool all = g.flag(); for (auto& x : x0) if (all || g.chance(20)) x = edge_value<P>(g); } int op = g.pick(22);
	g.note("op", op); g.note("s", s); g.note("v", show(x0)); g.nontrivial(n > 0);
	with_vec<N, P, VM>(g, x0, [&](auto& v) {
		std::vector<double> w(n); const char* what = "";
		const auto& cv = v; Vector<Dynamic, P> o(n); bool sep = false;
		switch (op) {
			FORM(0, "v = Zeros", v = Zeros, 0)
			FORM(1, "v = Ones", v = Ones, 1)
			FORM(2, "v = Ones*s", v = Ones * s, s)
			FORM(3, "v = s*Ones", v = s * Ones, s)
			FORM(4, "v = -Ones", v = -Ones, -1)
			FORM(5, "v = -(Ones*s)", v = -(Ones * s), -s)
			FORM(6, "v += Ones", v += Ones, x + 1)
			FORM(7, "v += Ones*s", v += Ones * s, x + s)
			FORM(8, "v -= Ones", v -= Ones, x - 1)
			FORM(9, "v -= s*Ones", v -= s * Ones, x - s)
			FORM(10, "v + Ones", sep = true; o = cv + Ones, x + 1)
			FORM(11, "Ones + v", sep = true; o = Ones + cv, x + 1)
			FORM(12, "v + Ones*s", sep = true; o = cv + Ones * s, x + s)
			FORM(13, "s*Ones + v", sep = true; o = s * Ones + cv, x + s)
			FORM(14, "v - Ones", sep = true; o = cv - Ones, x - 1)
			FORM(15, "Ones - v", sep = true; o = Ones - cv, 1 - x)
			FORM(16, "v - Ones*s", sep = true; o = cv - Ones * s, x - s)
			FORM(17, "s*Ones - v", sep = true; o = s * Ones - cv, s - x)
			FORM(18, "v = v + Ones*s", v = v + Ones * s, x + s)
			FORM(19, "v = 2*Ones*s", v = 2 * Ones * s, 2 * s)
			FORM(20, "v = s*Ones - v", v = s * Ones - v, s - x)
			case 21: { what = "v != Zeros"; bool z = true; for (int i = 0; i < n; i++) { w[i] = (double)x0[i]; if (x0[i] != 0) z = false; } bool r = v != Zeros; if (r == z) FAIL("v != Zeros gives " << r); break; }
		}
		g.tag(what);
		if (sep) { vis<double>(o, w, what); for (int i = 0; i < n; i++) if (!same_value<P>(v[i], (P)x0[i])) FAIL(what << " changed its operand"); }
		else vis<double>(v, w, what);
	}, true);
}
#define MFORM(k, text, expr, model) case k: { what = text; expr; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double x = (double)x0(i, j), I = i == j; (void)x; (void)I; w(i, j) = model; } break; }
template<int R, int C, class P, int KINDS, bool SQUARE> void mforms(Gen& g, int r, int c) {
	typedef P S; edgy = g.chance(25); S s = gscale<S>(g); RM x0 = gm(g, r, c, std::is_integral<P>::value); if constexpr (std::is_floating_point<P>::value) if (edgy) { bool all = g.flag(); for (auto& x : x0.a) x = all || g.chance(20) ? edge_value<P>(g) : P(0); } int op = g.pick(r == c && SQUARE ? 40 : 22);
	if (r == c && SQUARE && op < 22 && g.flag()) op = 22 + op % 18;
	g.note("op", op); g.note("s", s); g.note("m", show(x0)); g.nontrivial(r > 0 && c > 0);
	with_mat<R, C, P, KINDS>(g, x0, [&](auto& m) {
		RM w(r, c); const char* what = ""; const auto& cm = m; Matrix<Dynamic, Dynamic, P> o(r, c); bool sep = false;
		switch (op) {
			MFORM(0, "m = Zeros", m = Zeros, 0)
			MFORM(1, "m = Ones", m = Ones, 1)
			MFORM(2, "m = Ones*s", m = Ones * s, s)
			MFORM(3, "m = s*Ones", m = s * Ones, s)
			MFORM(4, "m = -Ones", m = -Ones, -1)
			MFORM(5, "m = -(Ones*s)", m = -(Ones * s), -s)
			MFORM(6, "m += Ones", m += Ones, x + 1)
			MFORM(7, "m += Ones*s", m += Ones * s, x + s)
			MFORM(8, "m -= Ones", m -= Ones, x - 1)
			MFORM(9, "m -= s*Ones", m -= s * Ones, x - s)
			MFORM(10, "m + Ones", sep = true; o = cm + Ones, x + 1)
			MFORM(11, "Ones + m", sep = true; o = Ones + cm, x + 1)
			MFORM(12, "m + Ones*s", sep = true; o = cm + Ones * s, x + s)
			MFORM(13, "s*Ones + m", sep = true; o = s * Ones + cm, x + s)
			MFORM(14, "m - Ones", sep = true; o = cm - Ones, x - 1)
			MFORM(15, "Ones - m", sep = true; o = Ones - cm, 1 - x)
			MFORM(16, "m - Ones*s", sep = true; o = cm - Ones * s, x - s)
			MFORM(17, "s*Ones - m", sep = true; o = s * Ones - cm, s - x)
			MFORM(18, "m = m + Ones*s", m = m + Ones * s, x + s)
			MFORM(19, "m = 2*Ones*s", m = 2 * Ones * s, 2 * s)
			MFORM(20, "m.T() -= Ones*s", m.T() -= Ones * s, x - s)
			case 21: { what = "m != Zeros"; bool z = true; w = x0; for (auto e : x0.a) if (e != 0) z = false; bool q = m != Zeros; if (q == z) FAIL("m != Zeros gives " << q); break; }
			default: if constexpr (SQUARE) switch (op) {
				MFORM(22, "m = Identity", m = Identity, I)
				MFORM(23, "m = Identity*s", m = Identity * s, I ? s : 0)
				MFORM(24, "m = s*Identity", m = s * Identity, I ? s : 0)
				MFORM(25, "m = -Identity", m = -Identity, -I)
				MFORM(26, "m = -(s*Identity)", m = -(s * Identity), I ? -s : 0)
				MFORM(27, "m += Identity", m += Identity, x + I)
				MFORM(28, "m += Identity*s", m += Identity * s, I ? x + s : x)
				MFORM(29, "m -= Identity", m -= Identity, x - I)
				MFORM(30, "m -= Identity*s", m -= Identity * s, I ? x - s : x)
				MFORM(31, "m + Identity", sep = true; o = cm + Identity, x + I)
				MFORM(32, "Identity + m", sep = true; o = Identity + cm, x + I)
				MFORM(33, "m + Identity*s", sep = true; o = cm + Identity * s, I ? x + s : x)
				MFORM(34, "s*Identity + m", sep = true; o = s * Identity + cm, I ? x + s : x)
				MFORM(35, "m - Identity", sep = true; o = cm - Identity, x - I)
				MFORM(36, "Identity - m", sep = true; o = Identity - cm, I - x)
				MFORM(37, "m - Identity*s", sep = true; o = cm - Identity * s, I ? x - s : x)
				MFORM(38, "s*Identity - m", sep = true; o = s * Identity - cm, I ? s - x : -x)
				MFORM(39, "m = s*Identity - m", m = s * Identity - m, I ? s - x : -x)
			}
		}
		g.tag(what);
		if (sep) { mis(o, w, what); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (!same_value<P>(m(i, j), (P)x0(i, j))) FAIL(what << " changed its operand"); }
		else mis(m, w, what);
	}, true);
}

#if PART == 0
PROP(vectors_dynamic, 2) { int n = g.range(0, 12); vforms<Dynamic, double>(g, n); }
PROP(vectors_static, 2) { switch (g.pick(2)) { case 0: vforms<3, double>(g, 3); break; case 1: vforms<1, double>(g, 1); break; } }
#endif
#if PART == 1
PROP(vectors_float, 2) { switch (g.pick(2)) { case 0: vforms<4, float>(g, 4); break; case 1: { int n = g.size(1, 9, 40); vforms<Dynamic, float>(g, n); break; } } }
PROP(vectors_int, 2) { switch (g.pick(2)) { case 0: vforms<7, int>(g, 7); break; case 1: { int n = g.size(1, 9, 40); vforms<Dynamic, int>(g, n); break; } } }
#endif
#if PART == 2
PROP(matrices_static_square, 2) { mforms<3, 3, double, MK_STATIC | MK_STATICCOL | MK_SSLICE | MK_T | MK_SSLICECOL, true>(g, 3, 3); }
PROP(matrices_wrapped, 1) { mforms<3, 3, double, MK_WRAP | MK_SEMI | MK_SEMICOL | MK_DWRAP, true>(g, 3, 3); }
#endif
#if PART == 3
PROP(matrices_dynamic, 2) { int r = g.size(0, 6, 40), c = g.flag() ? r : g.size(0, 6, 40); mforms<Dynamic, Dynamic, double, MK_DYN | MK_DYNCOL | MK_DSLICE | MK_DTSLICE, true>(g, r, c); }
PROP(matrices_int, 1) { mforms<2, 2, int, MK_STATIC | MK_DYN | MK_STATICCOL | MK_T, true>(g, 2, 2); }
#endif
#if PART == 4
PROP(matrices_rect, 2) { if (g.flag()) mforms<2, 4, double, MK_STATIC | MK_STATICCOL | MK_SSLICE | MK_T | MK_SEMI, false>(g, 2, 4); else mforms<5, 1, double, MK_STATIC | MK_DYN | MK_DSLICE | MK_SEMICOL | MK_T, false>(g, 5, 1); }
PROP(matrices_float, 1) { mforms<4, 4, float, MK_STATIC | MK_DYN | MK_DSLICE | MK_STATICCOL, true>(g, 4, 4); }
#endif
#if PART == 5
// construction, with and without sizes
PROP(construct_vectors, 2) {
	int n = g.size(1, 9, 40); edgy = false; double s = gscale<double>(g); g.note("n", n); g.note("s", s); g.nontrivial(); std::vector<double> z(n, 0), o(n, 1), so(n, s), mo(n, -1), ms(n, -s);
	switch (g.pick(8)) {
		case 0: { g.tag("Vector<> = Zeros(n)"); Vector<> v = Zeros(n); vis(v, z, "Vector<> = Zeros(n)"); Vector<Resizable> r = Zeros(n); vis(r, z, "Vector<Resizable> = Zeros(n)"); Vector<Dynamic, float> f(Zeros(n)); vis(f, z, "Vector<float>(Zeros(n))"); break; }
		case 1: { g.tag("Vector<> = Ones(n)"); Vector<> v = Ones(n); vis(v, o, "Vector<> = Ones(n)"); Vector<Resizable> r = Ones(n); vis(r, o, "Vector<Resizable> = Ones(n)"); Vector<Dynamic, int> f(Ones(n)); vis(f, o, "Vector<int>(Ones(n))"); break; }
		case 2: { g.tag("Vector<> = Ones(n)*s"); Vector<> v = Ones(n) * s; vis(v, so, "Ones(n)*s"); Vector<> u = s * Ones(n); vis(u, so, "s*Ones(n)"); Vector<Resizable> r = Ones(n) * s; vis(r, so, "resizable Ones(n)*s"); Vector<Dynamic, float> f(Ones(n) * s); vis(f, so, "float Ones(n)*s"); break; }
		case 3: { g.tag("Vector<> = (Ones*s)(n)"); Vector<> v = (Ones * s)(n); vis(v, so, "(Ones*s)(n)"); Vector<Resizable> u = (s * Ones)(n); vis(u, so, "(s*Ones)(n)"); break; }
		case 4: { g.tag("Vector<> = -Ones(n)"); Vector<> v = -Ones(n); vis(v, mo, "-Ones(n)"); Vector<> u = -(Ones(n) * s); vis(u, ms, "-(Ones(n)*s)"); break; }
		case 5: { g.tag("static"); std::vector<double> z5(5, 0), o5(5, 1), s5(5, s); Vector<5> a = Zeros, b = Ones, c = Ones * s, d(s * Ones); vis(a, z5, "Vector<5> = Zeros"); vis(b, o5, "Vector<5> = Ones"); vis(c, s5, "Vector<5> = Ones*s"); vis(d, s5, "Vector<5>(s*Ones)"); Vector<200> L = Ones * s; for (int i = 0; i < 200; i++) if (L[i] != s) FAIL("Vector<200> = Ones*s"); break; }
		case 6: { g.tag("resizing assignment"); Vector<Resizable> r(g.range(0, 9)); r = Ones(n) * s; vis(r, so, "r = Ones(n)*s"); int k = g.range(1, 9); r = Zeros(k); vis(r, std::vector<double>(k, 0), "r = Zeros(k)"); r = Ones; vis(r, std::vector<double>(k, 1), "r = Ones keeps the size"); r = Zeros; vis(r, std::vector<double>(k, 0), "r = Zeros keeps the size"); r += Ones * s; vis(r, std::vector<double>(k, s), "r += Ones*s"); r = (Ones * s)(n); vis(r, so, "r = (Ones*s)(n)"); r = -Ones(k); vis(r, std::vector<double>(k, -1), "r = -Ones(k)"); break; }
		case 7: { g.tag("diagonal matrices"); DiagonalMatrix<4> a = Zeros, b = Ones, c = Ones * s; DiagonalMatrix<> d = Ones(n), e = Ones(n) * s; vis(a.diagonal_slice(), std::vector<double>(4, 0), "diag Zeros"); vis(b.diagonal_slice(), std::vector<double>(4, 1), "diag Ones"); vis(c.diagonal_slice(), std::vector<double>(4, s), "diag Ones*s"); vis(d.diagonal_slice(), o, "diag Ones(n)"); vis(e.diagonal_slice(), so, "diag Ones(n)*s"); break; }
	}
}
static RM full(int r, int c, double s) { RM m(r, c); for (auto& x : m.a) x = s; return m; }
PROP(construct_matrices, 2) {
	int r = g.size(1, 7, 40), c = g.size(1, 7, 40); edgy = false; double s = gscale<double>(g); g.note("r", r); g.note("c", c); g.note("s", s); g.nontrivial(); RM I = RM::eye(r);
	switch (g.pick(8)) {
		case 0: { g.tag("Matrix<> = Zeros(r,c)"); Matrix<> a = Zeros(r, c); mis(a, full(r, c, 0), "Zeros(r,c)"); Matrix<Dynamic, Dynamic, float, ColMajor> b = Zeros(r, c); mis(b, full(r, c, 0), "ColMajor Zeros(r,c)"); Matrix<> d = Zeros(r); mis(d, full(r, r, 0), "Zeros(r)"); break; }
		case 1: { g.tag("Matrix<> = Ones(r,c)"); Matrix<> a = Ones(r, c); mis(a, full(r, c, 1), "Ones(r,c)"); Matrix<> d = Ones(r); mis(d, full(r, r, 1), "Ones(r)"); Matrix<> e = Ones(r, c) * s; mis(e, full(r, c, s), "Ones(r,c)*s"); Matrix<> f = s * Ones(r); mis(f, full(r, r, s), "s*Ones(r)"); break; }
		case 2: { g.tag("Matrix<> = Identity(n)"); Matrix<> a = Identity(r); mis(a, I, "Identity(n)"); Matrix<> b = Identity(r) * s; mis(b, scale(I, s), "Identity(n)*s"); Matrix<> d = s * Identity(r); mis(d, scale(I, s), "s*Identity(n)"); Matrix<> e = -Identity(r); mis(e, scale(I, -1), "-Identity(n)"); break; }
		case 3: { g.tag("Matrix<> = (Identity*s)(n)"); Matrix<> a = (Identity * s)(r); mis(a, scale(I, s), "(Identity*s)(n)"); Matrix<Dynamic, Dynamic, double, ColMajor> b = (s * Identity)(r); mis(b, scale(I, s), "(s*Identity)(n)"); Matrix<> d = (Ones * s)(r, c); mis(d, full(r, c, s), "(Ones*s)(r,c)"); break; }
		case 4: { g.tag("semi-static"); Matrix<Dynamic, 3> a = Zeros(r, 3); mis(a, full(r, 3, 0), "Matrix<Dynamic,3> = Zeros(r,3)"); Matrix<2, Dynamic> b = Ones(2, c) * s; mis(b, full(2, c, s), "Matrix<2,Dynamic> = Ones*s"); Matrix<3, Dynamic, double, ColMajor> d = Identity(3) * s; mis(d, scale(RM::eye(3), s), "Matrix<3,Dynamic> = Identity(3)*s"); break; }
		case 5: { g.tag("static"); Matrix<2, 3> a = Zeros, b = Ones, d = Ones * s; mis(a, full(2, 3, 0), "Matrix = Zeros"); mis(b, full(2, 3, 1), "Matrix = Ones"); mis(d, full(2, 3, s), "Matrix = Ones*s"); Matrix<3> e = Identity, f = Identity * s, h = -Identity; mis(e, RM::eye(3), "Matrix = Identity"); mis(f, scale(RM::eye(3), s), "Matrix = Identity*s"); mis(h, scale(RM::eye(3), -1), "Matrix = -Identity"); Matrix<20> L = Identity * s; mis(L, scale(RM::eye(20), s), "Matrix<20> = Identity*s"); break; }
		case 6: { g.tag("mixed element types"); Matrix<2, 2, int> mi; RM x = gm(g, 2, 2, true); put(mi, x); Matrix<2> o = mi + Identity * s; mis(o, add(x, RM::eye(2), s), "int matrix + Identity*double"); o = s * Identity - mi; mis(o, add(scale(RM::eye(2), s), x, -1), "double*Identity - int matrix"); o = mi - Identity * s; mis(o, add(x, RM::eye(2), -s), "int matrix - Identity*double"); o = mi + Ones * s; mis(o, add(x, full(2, 2, s)), "int matrix + Ones*double"); o = s * Ones - mi; mis(o, add(full(2, 2, s), x, -1), "double*Ones - int matrix");
			Vector<3, int> vi; RV y = gv(g, 3, true); put(vi, y); Vector<3> p = vi + Ones * s; for (int i = 0; i < 3; i++) if (p[i] != (double)y[i] + s) FAIL("int vector + Ones*double"); p = Ones * s - vi; for (int i = 0; i < 3; i++) if (p[i] != s - (double)y[i]) FAIL("Ones*double - int vector");
			Vector<3, float> vf; put(vf, y); Vector<3> q = vf + s * Ones; for (int i = 0; i < 3; i++) if (q[i] != (double)y[i] + s) FAIL("float vector + double*Ones"); break; }
		case 7: { g.tag("division"); double d = g.from(std::vector<double>{ 2, 4, -8, 0.5 }); Matrix<> a = Ones(r, c) * s / d; mis(a, full(r, c, s / d), "Ones(r,c)*s/d"); Matrix<> b = Identity(r) * s / d; mis(b, scale(I, s / d), "Identity(n)*s/d"); Vector<4> v = Ones * s / d; for (int i = 0; i < 4; i++) if (v[i] != s / d) FAIL("Ones*s/d"); Vector<4> u = Ones * 3 / d; for (int i = 0; i < 4; i++) if (u[i] != 3 / d) FAIL("Ones*3/d"); Matrix<3> e = Identity * 3 / d; mis(e, scale(RM::eye(3), 3 / d), "Identity*3/d"); break; }
	}
}
#endif
