// V01: arithmetic on vectors and matrices equals the textbook definition,
// whatever the sizes, size kinds, layouts, views and element types.
#include "kinds.h"
#ifndef PART
#define PART 0
#endif

template<class R, int S, class P, class B> void vtype(const Vector<S, P, B>&, const char* what) { if (!std::is_same<typename std::remove_const<P>::type, R>::value) FAIL(what << ": wrong element type of the result"); }
template<class R, int r, int c, class P, class B> void mtype(const Matrix<r, c, P, B>&, const char* what) { if (!std::is_same<typename std::remove_const<P>::type, R>::value) FAIL(what << ": wrong element type of the result"); }

// all binary operations of two equally long vectors
template<class RT, class A, class B> void vv(const A& a, const B& b, const RV& x, const RV& y) {
	LD e = eps<RT>() * 2;
	auto s = a + b; vtype<RT>(s, "a+b"); same(rv(s), add(x, y), add(absv(x), absv(y)), e, "a+b");
	auto d = a - b; vtype<RT>(d, "a-b"); same(rv(d), add(x, y, -1), add(absv(x), absv(y)), e, "a-b");
	auto q = a * b; if (!std::is_same<decltype(q), RT>::value) FAIL("a*b: wrong type");
	CLOSE((LD)q, dot(x, y), dot(absv(x), absv(y)) * e * (x.size() + 2), "dot product of " << x << " and " << y);
	auto m = diagmult(a, b); RV w = x; for (size_t i = 0; i < w.size(); i++) w[i] *= y[i];
	same(rv(m), w, absv(w), e, "diagmult(a,b)");
	bool eq = true; for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) eq = false;
	if ((a == b) != eq) FAIL("a==b wrong for " << x << " and " << y);
	if ((a != b) != !eq) FAIL("a!=b wrong for " << x << " and " << y);
	// outer product
	auto o = a.as_col() * b.as_row(); mtype<RT>(o, "col*row"); RM om = outer(x, y); same(rm(o), om, absm(om), e, "a.as_col()*b.as_row()");
	auto i = a.as_row() * b.as_col(); RM im(1, 1); im(0, 0) = dot(x, y); same(rm(i), im, dot(absv(x), absv(y)) * e * (x.size() + 2), "a.as_row()*b.as_col()");
	Vector<Dynamic, RT> nest = (a + b) - diagmult(a, b) ; RV nw = add(add(x, y), w, -1); RV nt = add(add(absv(x), absv(y)), absv(w)); same(rv(nest), nw, nt, e * 2, "(a+b)-diagmult(a,b)");
}
template<class A, class B, class P, class RT> void cross(const A& a, const B& b, const RV& x, const RV& y) {
	auto c = a ^ b; vtype<RT>(c, "a^b");
	RV w = { x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0] };
	RV t = { std::fabs(x[1] * y[2]) + std::fabs(x[2] * y[1]), std::fabs(x[2] * y[0]) + std::fabs(x[0] * y[2]), std::fabs(x[0] * y[1]) + std::fabs(x[1] * y[0]) };
	same(rv(c), w, t, eps<RT>() * 2, "a^b");
}
// vector and scalar
template<class P, class S, class RT, class A> void vs(const A& a, const RV& x, S s) {
	LD e = eps<RT>() * 2; RV w = scale(x, (LD)s);
	auto m = a * s; vtype<RT>(m, "a*s"); same(rv(m), w, absv(w), e, "a*s");
	auto n = s * a; vtype<RT>(n, "s*a"); same(rv(n), w, absv(w), e, "s*a");
	auto g = -a; vtype<P>(g, "-a"); same(rv(g), scale(x, -1), 0, "-a");
	if (s != 0 && !std::is_same<RT, int>::value) { auto d = a / s; vtype<RT>(d, "a/s"); RV q = x; for (auto& z : q) z /= (LD)s; same(rv(d), q, absv(q), e, "a/s"); }
}
// modifying operations
template<class A, class B> void vmod(Gen& g, A& a, const B& b, const RV& x, const RV& y, LD e, bool integer) {
	typedef typename std::remove_reference<decltype(a[0])>::type P;
	RV cur = x, mag = absv(x);
	int n = g.range(1, 4);
	for (int i = 0; i < n; i++) {
		int op = g.pick(8);
		if (op == 0) { a += b; cur = add(cur, y); mag = add(mag, absv(y)); }
		else if (op == 1) { a -= b; cur = add(cur, y, -1); mag = add(mag, absv(y)); }
		else if (op == 2) { P s = (P)(g.small(4) / (integer ? 1.0 : 2.0)); a *= s; cur = scale(cur, (LD)s); mag = scale(mag, std::fabs((LD)s)); }
		else if (op == 3) { if (integer) continue; P s = (P)g.logmag(0.25, 4); a /= s; cur = scale(cur, 1 / (LD)s); mag = scale(mag, 1 / std::fabs((LD)s)); }
		else if (op == 4) { a += a; cur = scale(cur, 2); mag = scale(mag, 2); g.tag("aliased update"); }
		else if (op == 5) { // scalar that is itself an element
			if (cur.empty() || integer) continue; int k = g.pick(cur.size()); LD s = a[k]; if (std::fabs(s) > 100) continue; a *= a[k]; cur = scale(cur, s); mag = scale(mag, std::fabs(s)); g.tag("aliased scalar"); }
		else if (op == 6) { a = -a; cur = scale(cur, -1); }
		else { // scaling by its own element, out of place
			if (cur.empty()) continue; int k = g.pick(cur.size()); LD s = a[k]; if (std::fabs(s) > 100) continue; auto z = a * a[k]; same(rv(z), scale(cur, s), scale(mag, std::fabs(s)), e * 8, "a*a[k]"); }
		same(rv(a), cur, mag, e * 16, "after the modifying operation");
		cur = rv(a); mag = absv(cur);
	}
	same(rv(b), y, 0, "the right-hand operand");
}

template<class RT, class MA, class MB> void mm_pair(const MA& a, const MB& b, const RM& x, const RM& y) {
	LD e = eps<RT>() * 2;
	auto s = a + b; mtype<RT>(s, "A+B"); same(rm(s), add(x, y), add(absm(x), absm(y)), e, "A+B");
	auto d = a - b; mtype<RT>(d, "A-B"); same(rm(d), add(x, y, -1), add(absm(x), absm(y)), e, "A-B");
	bool eq = x.a == y.a;
	if ((a == b) != eq) FAIL("A==B wrong for " << x << " and " << y);
	if ((a != b) == eq) FAIL("A!=B wrong for " << x << " and " << y);
}
template<class RT, class MA, class MB> void mm_mul(const MA& a, const MB& b, const RM& x, const RM& y) {
	LD e = eps<RT>() * (x.c + 2);
	auto p = a * b; mtype<RT>(p, "A*B"); same(rm(p), mul(x, y), mul(absm(x), absm(y)), e, "A*B");
	auto q = b.T() * a.T(); same(rm(q), T(mul(x, y)), T(mul(absm(x), absm(y))), e, "B.T()*A.T()");
}
template<class RT, class MA, class VB> void mv(const MA& a, const VB& v, const RM& x, const RV& y) {
	LD e = eps<RT>() * (x.c + 2);
	auto p = a * v; vtype<RT>(p, "A*v"); same(rv(p), mul(x, y), mul(absm(x), absv(y)), e, "A*v");
	auto q = v * a.T(); vtype<RT>(q, "v*A.T()"); same(rv(q), mul(x, y), mul(absm(x), absv(y)), e, "v*A.T()");
	RM w = x; for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) w(i, j) *= y[j];
	auto d = diagmult(a, v); same(rm(d), w, absm(w), e, "diagmult(A,v)");
	auto f = diagmult(v, a.T()); same(rm(f), T(w), absm(T(w)), e, "diagmult(v,A.T())");
	auto l = v.as_row() * a.T(); RM lw(1, x.r), lt(1, x.r); RV r = mul(x, y), rt = mul(absm(x), absv(y)); for (int i = 0; i < x.r; i++) { lw(0, i) = r[i]; lt(0, i) = rt[i]; }
	same(rm(l), lw, lt, e, "v.as_row()*A.T()");
}
template<class P, class S, class RT, class MA> void ms(const MA& a, const RM& x, S s) {
	LD e = eps<RT>() * 2; RM w = scale(x, (LD)s);
	auto m = a * s; mtype<RT>(m, "A*s"); same(rm(m), w, absm(w), e, "A*s");
	auto n = s * a; mtype<RT>(n, "s*A"); same(rm(n), w, absm(w), e, "s*A");
	auto g = -a; mtype<P>(g, "-A"); same(rm(g), scale(x, -1), 0, "-A");
	if (s != 0 && !std::is_same<RT, int>::value) { auto d = a / s; RM q = x; for (auto& z : q.a) z /= (LD)s; same(rm(d), q, absm(q), e, "A/s"); }
	same(rm(a.T()), T(x), 0, "A.T()");
}
template<bool SQ, class MA, class MB> void mmod(Gen& g, MA& a, const MB& b, const RM& x, const RM& y, LD e, bool integer) {
	typedef typename std::remove_reference<decltype(a(0, 0))>::type P;
	RM cur = x, mag = absm(x);
	int n = g.range(1, 4);
	for (int i = 0; i < n; i++) {
		int op = g.pick(9);
		if (op == 0) { a += b; cur = add(cur, y); mag = add(mag, absm(y)); }
		else if (op == 1) { a -= b; cur = add(cur, y, -1); mag = add(mag, absm(y)); }
		else if (op == 2) { P s = (P)(g.small(4) / (integer ? 1.0 : 2.0)); a *= s; cur = scale(cur, (LD)s); mag = scale(mag, std::fabs((LD)s)); }
		else if (op == 3) { if (integer) continue; P s = (P)g.logmag(0.25, 4); a /= s; cur = scale(cur, 1 / (LD)s); mag = scale(mag, 1 / std::fabs((LD)s)); }
		else if (op == 4) { a -= a; cur = scale(cur, 0); mag = cur; g.tag("aliased update"); }
		else if (op == 5) { if (integer || !cur.r || !cur.c) continue; int i0 = g.pick(cur.r), j0 = g.pick(cur.c); LD s = a(i0, j0); if (std::fabs(s) > 100) continue; a *= a(i0, j0); cur = scale(cur, s); mag = scale(mag, std::fabs(s)); g.tag("aliased scalar"); }
		else if (op == 6) { a = -a; cur = scale(cur, -1); }
		else if (op == 7) { if (cur.r != cur.c || maxabs(cur) > 1e4) continue; if constexpr (SQ) a = a * a; mag = mul(absm(cur), absm(cur)); cur = mul(cur, cur); mag = scale(mag, cur.r); g.tag("A=A*A"); }
		else { // a row is updated in place by another
			if (cur.r < 2) continue; int i0 = g.pick(cur.r), i1 = g.pick(cur.r); a[i0] += a[i1]; for (int j = 0; j < cur.c; j++) { mag(i0, j) += mag(i1, j); }
			RM o = cur; for (int j = 0; j < cur.c; j++) cur(i0, j) = o(i0, j) + o(i1, j); g.tag("row += row"); }
		same(rm(a), cur, mag, e * 16, "after the modifying operation");
		cur = rm(a); mag = absm(cur);
	}
	same(rm(b), y, 0, "the right-hand operand");
}

// integers and, where the element type allows it, halves (a result computed in the narrower type shows)
template<class P, class X> X halves(X x, bool integer) { if (integer && !std::is_same<P, int>::value) x = scale(x, 0.5L); return x; }

template<int N, class P1, class P2, class RT, int MA, int MB> void vector_case(Gen& g, int n) {
	bool integer = std::is_same<P1, int>::value || std::is_same<P2, int>::value;
	bool bothint = std::is_same<RT, int>::value;
	int mode = integer ? 0 : g.chance(60);
	RV x = roundto<P1>(halves<P1>(gen_rv(g, n, mode), integer)), y = roundto<P2>(halves<P2>(gen_rv(g, n, mode), integer));
	if (g.chance(15)) { if (std::is_same<P1, P2>::value) y = x; if (n && g.flag()) y[g.pick(n)] += 1; y = roundto<P2>(y); }
	g.note("x", show(x)); g.note("y", show(y));
	bool nt = false; for (int i = 0; i < n; i++) if (x[i] != 0 && y[i] != 0 && x[i] != y[i]) nt = true;
	g.nontrivial(nt);
	g.tag(mode ? "real data" : "integer data");
	if (g.chance(25)) {
		g.tag("modifying");
		with_vec<N, RT, MA>(g, roundto<RT>(x), [&](auto& a) { with_vec<N, P2, MB>(g, y, [&](auto& b) {
			if constexpr (!std::is_const<typename std::remove_reference<decltype(a[0])>::type>::value)
				vmod(g, a, b, roundto<RT>(x), y, eps<RT>(), bothint); }); }, true);
	} else {
		with_vec<N, P1, MA>(g, x, [&](auto& a) { with_vec<N, P2, MB>(g, y, [&](auto& b) {
			vv<RT>(a, b, x, y);
			if constexpr (std::decay<decltype(a)>::type::SizeParameter == 3 && std::decay<decltype(b)>::type::SizeParameter == 3) cross<decltype(a), decltype(b), P1, RT>(a, b, x, y);
		});
		P2 s = (P2)(integer ? g.small(9) / (std::is_same<P2, int>::value ? 1.0 : 2.0) : g.real());
		vs<P1, P2, RT>(a, x, s);
		});
	}
}
template<int R, int K, int C, class P1, class P2, class RT, int MA, int MB> void matrix_case(Gen& g, int r, int k, int c) {
	bool integer = std::is_same<P1, int>::value || std::is_same<P2, int>::value;
	bool bothint = std::is_same<RT, int>::value;
	int mode = integer ? 0 : g.chance(60);
	g.tag(mode ? "real data" : "integer data");
	RM x = roundto<P1>(halves<P1>(gen_rm(g, r, k, mode), integer));
	g.note("A", show(x));
	switch (g.pick(4)) {
		case 0: {
			RM y = roundto<P2>(halves<P2>(gen_rm(g, k, c, mode), integer)); g.note("B", show(y)); g.tag("A*B");
			g.nontrivial(maxabs(x) > 0 && maxabs(y) > 0 && r * k * c > 1);
			with_mat<R, K, P1, MA>(g, x, [&](auto& a) { with_mat<K, C, P2, MB>(g, y, [&](auto& b) { mm_mul<RT>(a, b, x, y); }); });
			break; }
		case 1: {
			RM y = roundto<P2>(halves<P2>(gen_rm(g, r, k, mode), integer)); if (g.chance(20) && std::is_same<P1, P2>::value) { y = x; if (r && k && g.flag()) y(g.pick(r), g.pick(k)) += 1; y = roundto<P2>(y); } g.note("B", show(y)); g.tag("A+B");
			g.nontrivial(maxabs(x) > 0 && maxabs(y) > 0 && x.a != y.a);
			with_mat<R, K, P1, MA>(g, x, [&](auto& a) { with_mat<R, K, P2, MB>(g, y, [&](auto& b) { mm_pair<RT>(a, b, x, y); });
				P2 s = (P2)(integer ? g.small(9) / (std::is_same<P2, int>::value ? 1.0 : 2.0) : g.real()); ms<P1, P2, RT>(a, x, s); });
			break; }
		case 2: {
			RV y = roundto<P2>(halves<P2>(gen_rv(g, k, mode), integer)); g.note("v", show(y)); g.tag("A*v");
			g.nontrivial(maxabs(x) > 0 && maxabs(y) > 0 && r * k > 1);
			with_mat<R, K, P1, MA>(g, x, [&](auto& a) { with_vec<K, P2, VK_STATIC | VK_DYN | VK_DSLICE | VK_COL>(g, y, [&](auto& v) { mv<RT>(a, v, x, y); }); });
			break; }
		case 3: {
			RM y = roundto<P2>(halves<P2>(gen_rm(g, r, k, mode), integer)); RM xr = roundto<RT>(x); g.note("B", show(y)); g.tag("modifying");
			g.nontrivial(maxabs(x) > 0 && maxabs(y) > 0);
			with_mat<R, K, RT, MA>(g, xr, [&](auto& a) { with_mat<R, K, P2, MB>(g, y, [&](auto& b) {
				if constexpr (!std::is_const<typename std::remove_reference<decltype(a(0, 0))>::type>::value && !std::is_const<typename std::remove_reference<decltype(a)>::type>::value)
					mmod<R == K>(g, a, b, xr, y, eps<RT>(), bothint); }); }, true);
			break; }
	}
}
const int VSUB = VK_STATIC | VK_DYN | VK_DSLICE | VK_COL | VK_CONST;
const int MSUB = MK_STATIC | MK_STATICCOL | MK_DYN | MK_DSLICE | MK_T;
// static sizes with dynamic partners are covered because both operands choose their form independently

#if PART == 0
PROP(vec1_double, 2) { vector_case<1, double, double, double, VSUB, VSUB>(g, 1); }
PROP(vec2_double, 3) { vector_case<2, double, double, double, VK_ALL, VSUB>(g, 2); }
#elif PART == 1
PROP(vec3_double, 6) { vector_case<3, double, double, double, VK_ALL, VSUB>(g, 3); }
#elif PART == 2
PROP(vec4_double, 2) { vector_case<4, double, double, double, VSUB, VK_ALL & ~VSUB>(g, 4); }
PROP(vec7_double, 3) { vector_case<7, double, double, double, VSUB, VSUB>(g, 7); }
#elif PART == 3
PROP(vecn_double, 6) { int n = g.chance(90) ? g.size(1, 12, 40) : g.chance(97) ? g.range(0, 60) : g.range(60, g.flag() ? 400 : 2500); g.tag("dynamic length above 60", n > 60); g.tag("dynamic length above 12", n > 12); g.tag("empty vector", n == 0); vector_case<Dynamic, double, double, double, VK_ALL, VSUB>(g, n); }
PROP(vecbig_double, 1) { vector_case<131, double, double, double, VK_STATIC | VK_DYN | VK_SSLICE, VK_STATIC | VK_DSLICE>(g, 131); }
#elif PART == 4
PROP(vec3_float, 2) { vector_case<3, float, float, float, VSUB, VSUB>(g, 3); }
PROP(vec3_float_double, 2) { vector_case<3, float, double, double, VSUB, VK_STATIC | VK_DYN>(g, 3); }
PROP(vec4_double_float, 2) { vector_case<4, double, float, double, VK_STATIC | VK_DYN, VSUB>(g, 4); }
PROP(vecn_int, 2) { vector_case<Dynamic, int, int, int, VSUB, VK_STATIC | VK_DYN>(g, g.size(1, 9, 40)); }
PROP(vec3_int_double, 2) { vector_case<3, int, double, double, VSUB, VK_STATIC | VK_DYN>(g, 3); }
PROP(vec3_long_double, 1) { vector_case<3, long double, double, long double, VK_STATIC | VK_DYN, VK_STATIC | VK_DYN>(g, 3); }
#elif PART == 5
PROP(mat234_double, 4) { matrix_case<2, 3, 4, double, double, double, MK_ALL & ~MK_DWRAP, MSUB>(g, 2, 3, 4); }
#elif PART == 6
PROP(mat333_double, 4) { matrix_case<3, 3, 3, double, double, double, MSUB | MK_SSLICE | MK_DYNCOL | MK_SSLICECOL, MSUB | MK_WRAP>(g, 3, 3, 3); }
#elif PART == 7
PROP(matdyn_double, 5) { int r = g.size(1, 7, 40), k = g.size(1, 7, 40), c = g.size(1, 7, 40); if (g.chance(5)) { r = g.size(1, 20, 40); k = g.size(1, 20, 40); g.tag("dynamic size up to 20"); } else if (g.chance(1)) { k = g.range(60, 1500); if (g.flag()) { r = 1; c = g.range(1, 3); } else { r = g.range(1, 3); c = 1; } g.tag("inner size above 60"); } else if (g.chance(4)) { int which = g.range(1, 7); if (which & 1) r = 0; if (which & 2) k = 0; if (which & 4) c = 0; g.tag("a dimension of size zero"); }
	matrix_case<Dynamic, Dynamic, Dynamic, double, double, double, MK_ALL, MK_ALL>(g, r, k, c); }
PROP(mat1_double, 1) { matrix_case<1, 3, 1, double, double, double, MK_STATIC | MK_STATICCOL | MK_DYN, MK_STATIC | MK_DYN>(g, 1, 3, 1); }
PROP(mat31_double, 1) { matrix_case<3, 1, 2, double, double, double, MK_STATIC | MK_STATICCOL | MK_DYN, MK_STATIC | MK_DYN>(g, 3, 1, 2); }
#elif PART == 8
PROP(mat_float, 2) { matrix_case<3, 2, 3, float, float, float, MSUB, MK_STATIC | MK_DYN>(g, 3, 2, 3); }
PROP(mat_double_float, 2) { matrix_case<2, 3, 2, double, float, double, MSUB, MK_STATIC | MK_DYN>(g, 2, 3, 2); }
PROP(mat_int, 2) { matrix_case<2, 3, 2, int, int, int, MSUB, MK_STATIC | MK_DYN>(g, 2, 3, 2); }
PROP(mat_int_double, 2) { matrix_case<4, 2, 3, int, double, double, MK_STATIC | MK_STATICCOL | MK_DYN, MK_STATIC | MK_DYN>(g, 4, 2, 3); }
PROP(mat_double_int, 2) { matrix_case<3, 2, 3, double, int, double, MK_STATIC | MK_STATICCOL | MK_DYN, MK_STATIC | MK_DYN>(g, 3, 2, 3); }
PROP(matbig_double, 1) { int k = 12; matrix_case<12, 12, 12, double, double, double, MK_STATIC | MK_STATICCOL, MK_STATIC>(g, k, k, k); }

// complex elements: textbook products without conjugation
PROP(complex, 2) {
	typedef std::complex<double> C; int n = 3;
	Matrix<3, 3, C> A; Matrix<> Br(3, 3); Vector<3, C> v, w; Vector<Dynamic, double> d(3);
	auto z = [&] { double a = g.small(6), b = g.small(6); return C(a, b); };
	for (int i = 0; i < n; i++) { v[i] = z(); w[i] = z(); d[i] = g.small(6); for (int j = 0; j < n; j++) { A(i, j) = z(); Br(i, j) = g.small(6); } }
	C s = z(); C dt = 0; for (int i = 0; i < n; i++) dt += v[i] * w[i];
	g.nontrivial(dt != C(0));
	REQUIRE(v * w == dt, "complex dot product");
	Vector<3, C> sum = v + w, dif = v - w, sc = v * s, Av = A * v, vA = v * A; Matrix<3, 3, C> AA = A * A, S = A + A.T();
	Vector<3, C> ax = v; ax += w;
	for (int i = 0; i < n; i++) {
		REQUIRE(sum[i] == v[i] + w[i], "sum"); REQUIRE(dif[i] == v[i] - w[i], "difference"); REQUIRE(sc[i] == v[i] * s, "scaled"); REQUIRE(ax[i] == v[i] + w[i], "+=");
		C a = 0, b = 0; for (int j = 0; j < n; j++) { a += A(i, j) * v[j]; b += v[j] * A(j, i); }
		REQUIRE(Av[i] == a, "A*v"); REQUIRE(vA[i] == b, "v*A");
		for (int j = 0; j < n; j++) { C p = 0; for (int k = 0; k < n; k++) p += A(i, k) * A(k, j); REQUIRE(AA(i, j) == p, "A*A"); REQUIRE(S(i, j) == A(i, j) + A(j, i), "A+A.T()"); }
	}
}
#elif PART == 9
// results assigned over one of their own operands, for every storage form
template<int N, int MV> void alias_case(Gen& g, int n) {
	int mode = g.chance(60);
	RM m = gen_rm(g, n, n, mode); RV x = gen_rv(g, n, mode), y = gen_rv(g, n, mode);
	g.note("M", show(m)); g.note("v", show(x)); g.nontrivial(n > 1 && maxabs(m) > 0 && maxabs(x) > 0);
	with_vec<N, double, MV>(g, x, [&](auto& v) { with_mat<N, N, double, MK_STATIC | MK_DYN | MK_T | MK_DYNCOL>(g, m, [&](auto& M) {
		if constexpr (!std::is_const<typename std::remove_reference<decltype(v)>::type>::value) {
		LD e = 1e-15L * (n + 4);
		int op = g.pick(6);
		if (op == 0) { v = M * v; same(rv(v), mul(m, x), mul(absm(m), absv(x)), e, "v=M*v"); }
		if (op == 1) { v = v * M; same(rv(v), mul(T(m), x), mul(absm(T(m)), absv(x)), e, "v=v*M"); }
		if (op == 2) { v = M.T() * v + v; same(rv(v), add(mul(T(m), x), x), add(mul(absm(T(m)), absv(x)), absv(x)), e, "v=M.T()*v+v"); }
		if (op == 3) { v += M * v; same(rv(v), add(mul(m, x), x), add(mul(absm(m), absv(x)), absv(x)), e, "v+=M*v"); }
		if (op == 4) { v -= v * M; same(rv(v), add(x, mul(T(m), x), -1), add(mul(absm(T(m)), absv(x)), absv(x)), e, "v-=v*M"); }
		if (op == 5) { M = M * M.T(); same(rm(M), mul(m, T(m)), mul(absm(m), absm(T(m))), e, "M=M*M.T()"); same(rv(v), x, 0, "v"); }
		if (op != 5) same(rm(M), m, 0, "M");
		}
	}); }, true);
}
PROP(alias3, 3) { alias_case<3, VK_ALL>(g, 3); }
PROP(aliasn, 3) { alias_case<Dynamic, VK_ALL>(g, g.size(1, 6, 40)); }
// rows and columns of one matrix combined into others of the same matrix
PROP(rows_of_one_matrix, 2) {
	int n = g.range(2, 5); int mode = g.chance(50); RM m = gen_rm(g, n, n, mode); Matrix<> M = dmat(m); g.nontrivial(maxabs(m) > 0);
	int i = g.pick(n), j = g.pick(n), k = g.pick(n); LD s = g.small(3);
	g.note("M", show(m)); g.note("i", i); g.note("j", j); g.note("k", k);
	RM t = absm(m); for (auto& z : t.a) z += maxabs(m) * 4;
	int op = g.pick(5);
	if (op == 0) { M[i] = M[j] + M[k]; RM o = m; for (int c = 0; c < n; c++) m(i, c) = o(j, c) + o(k, c); }
	if (op == 1) { M[i] -= M[j] * (double)s; RM o = m; for (int c = 0; c < n; c++) m(i, c) = o(i, c) - o(j, c) * s; }
	if (op == 2) { M.T()[i] = M.T()[j] * (double)s - M.T()[k]; RM o = m; for (int c = 0; c < n; c++) m(c, i) = o(c, j) * s - o(c, k); }
	if (op == 3) { M[i] = M * M[j]; RM o = m; for (int r = 0; r < n; r++) { LD z = 0; for (int c = 0; c < n; c++) z += o(r, c) * o(j, c); m(i, r) = z; } for (auto& z : t.a) z += maxabs(o) * maxabs(o) * n; }
	if (op == 4) { M[i] = M.T()[j] - M[k]; RM o = m; for (int c = 0; c < n; c++) m(i, c) = o(c, j) - o(k, c); }
	g.tag("row operation");
	same(rm(M), m, t, 1e-14L, "row/column operation");
}
#elif PART == 10
// elements at the edges of their type: element by element as the builtin arithmetic has it
#define EDGE(got, want, what) do { if (!nearly_value<P>((P)(got), (P)(want))) { std::ostringstream o_; o_.precision(21); o_ << what << ": element " << i << " is " << (LD)(got) << " instead of " << (LD)(want); FAIL(o_.str()); } } while (0)
template<class P> bool quotients(P a, P b) { return std::is_floating_point<P>::value || b != 0; }
template<int N, class P, int MA, int MB> void edge_vectors(Gen& g, int n) {
	RV xl(n), yl(n); std::vector<P> x(n), y(n); P s = edge_value<P>(g); const bool integer = !std::is_floating_point<P>::value; if (integer) s = (P)g.range(-40, 40);
	for (int i = 0; i < n; i++) { xl[i] = x[i] = edge_value<P>(g); yl[i] = y[i] = g.chance(20) ? x[i] : edge_value<P>(g); if (integer) { if (g.flag()) x[i] = (P)g.range(-1 << 15, 1 << 15); else s = (P)g.range(-1, 1); if (std::abs((LD)x[i] * (LD)s) > 2e9L) s = 1; xl[i] = x[i]; } }
	if (integer) for (int i = 0; i < n; i++) if (std::fabs((LD)x[i] * (LD)s) > 2e9L) s = 1;
	bool bigprod = false; for (int i = 0; i < n; i++) if (integer && std::fabs((LD)x[i] * (LD)y[i]) > 2e9L) bigprod = true;
	g.note("x", show(xl)); g.note("y", show(yl)); { std::ostringstream o; o.precision(21); o << (LD)s; g.note("s", o.str()); } g.nontrivial(n > 0);
	with_vec<N, P, MA>(g, xl, [&](auto& a) { with_vec<N, P, MB>(g, yl, [&](auto& b) {
		bool eq = true; for (int i = 0; i < n; i++) if (!(x[i] == y[i])) eq = false;
		if ((a == b) != eq) FAIL("a==b wrong"); if ((a != b) == eq) FAIL("a!=b wrong");
		{ auto r = a + b; for (int i = 0; i < n; i++) EDGE(r[i], x[i] + y[i], "a+b"); } { auto r = a - b; for (int i = 0; i < n; i++) EDGE(r[i], x[i] - y[i], "a-b"); }
		if (!bigprod) { auto r = diagmult(a, b); for (int i = 0; i < n; i++) EDGE(r[i], x[i] * y[i], "diagmult(a,b)"); }
		{ auto r = a * s; for (int i = 0; i < n; i++) EDGE(r[i], x[i] * s, "a*s"); } { auto r = s * a; for (int i = 0; i < n; i++) EDGE(r[i], x[i] * s, "s*a"); }
		{ auto r = -a; for (int i = 0; i < n; i++) EDGE(r[i], -x[i], "-a"); }
		if (quotients<P>(1, s)) { auto r = a / s; for (int i = 0; i < n; i++) EDGE(r[i], x[i] / s, "a/s"); }
		if constexpr (!std::is_const<typename std::remove_reference<decltype(a[0])>::type>::value) {
			std::vector<P> w = x; switch (g.pick(4)) {
				case 0: a += b; for (int i = 0; i < n; i++) w[i] = x[i] + y[i]; break; case 1: a -= b; for (int i = 0; i < n; i++) w[i] = x[i] - y[i]; break;
				case 2: a *= s; for (int i = 0; i < n; i++) w[i] = x[i] * s; break; case 3: if (!quotients<P>(1, s)) break; a /= s; for (int i = 0; i < n; i++) w[i] = x[i] / s; break; }
			for (int i = 0; i < n; i++) EDGE(a[i], w[i], "after the modifying operation");
		}
		for (int i = 0; i < n; i++) if (!same_value<P>(b[i], y[i])) FAIL("the right-hand operand changed");
	}); });
}
template<int R, int C, class P, int MA, int MB> void edge_matrices(Gen& g, int r, int c) {
	int n = r * c; RM xl(r, c), yl(r, c); std::vector<P> x(n), y(n); const bool integer = !std::is_floating_point<P>::value; P s = integer ? (P)g.range(-1, 1) : edge_value<P>(g);
	for (int i = 0; i < n; i++) { xl.a[i] = x[i] = edge_value<P>(g); yl.a[i] = y[i] = g.chance(20) ? x[i] : edge_value<P>(g); }
	g.note("A", show(xl)); g.note("B", show(yl)); { std::ostringstream o; o.precision(21); o << (LD)s; g.note("s", o.str()); } g.nontrivial(n > 0);
	with_mat<R, C, P, MA>(g, xl, [&](auto& a) { with_mat<R, C, P, MB>(g, yl, [&](auto& b) {
		bool eq = true; for (int i = 0; i < n; i++) if (!(x[i] == y[i])) eq = false;
		if ((a == b) != eq) FAIL("A==B wrong"); if ((a != b) == eq) FAIL("A!=B wrong");
		{ auto q = a + b; for (int i = 0; i < n; i++) EDGE(q(i / c, i % c), x[i] + y[i], "A+B"); } { auto q = a - b; for (int i = 0; i < n; i++) EDGE(q(i / c, i % c), x[i] - y[i], "A-B"); }
		{ auto q = a * s; for (int i = 0; i < n; i++) EDGE(q(i / c, i % c), x[i] * s, "A*s"); } { auto q = s * a; for (int i = 0; i < n; i++) EDGE(q(i / c, i % c), x[i] * s, "s*A"); }
		{ auto q = -a; for (int i = 0; i < n; i++) EDGE(q(i / c, i % c), -x[i], "-A"); }
		if (quotients<P>(1, s)) { auto q = a / s; for (int i = 0; i < n; i++) EDGE(q(i / c, i % c), x[i] / s, "A/s"); }
		if constexpr (!std::is_const<typename std::remove_reference<decltype(a(0, 0))>::type>::value && !std::is_const<typename std::remove_reference<decltype(a)>::type>::value) {
			std::vector<P> w = x; switch (g.pick(4)) {
				case 0: a += b; for (int i = 0; i < n; i++) w[i] = x[i] + y[i]; break; case 1: a -= b; for (int i = 0; i < n; i++) w[i] = x[i] - y[i]; break;
				case 2: a *= s; for (int i = 0; i < n; i++) w[i] = x[i] * s; break; case 3: if (!quotients<P>(1, s)) break; a /= s; for (int i = 0; i < n; i++) w[i] = x[i] / s; break; }
			for (int i = 0; i < n; i++) EDGE(a(i / c, i % c), w[i], "after the modifying operation");
		}
	}); });
}
// infinities and NaN among small integers: products have them where the arithmetic says, whatever the order of summation
template<int N> void nonfinite_products(Gen& g, int n) {
	typedef double P; RM A(n, n), B(n, n); RV v(n); auto e = [&]() -> LD { int k = g.pick(16); return k == 0 ? (LD)INFINITY : k == 1 ? -(LD)INFINITY : k == 2 ? (LD)NAN : k < 7 ? 0 : (LD)g.small(5); };
	int where = g.range(1, 7); for (auto& z : A.a) z = (where & 1) ? e() : g.small(5); for (auto& z : B.a) z = (where & 2) ? e() : g.small(5); for (auto& z : v) z = (where & 4) ? e() : g.small(5); g.note("A", show(A)); g.note("B", show(B)); g.note("v", show(v)); g.nontrivial(n > 1);
	with_mat<N, N, double, MK_STATIC | MK_DYN | MK_T>(g, A, [&](auto& a) { with_mat<N, N, double, MK_STATIC | MK_DYN | MK_STATICCOL>(g, B, [&](auto& b) {
		RM p = mul(A, B); auto q = a * b; for (int i = 0; i < n * n; i++) EDGE(q(i / n, i % n), p.a[i], "A*B");
		with_vec<N, double, VK_STATIC | VK_DYN | VK_COL>(g, v, [&](auto& w) { RV p = mul(A, v); auto q = a * w; for (int i = 0; i < n; i++) EDGE(q[i], p[i], "A*v"); RV pt = mul(T(A), v); auto qt = w * a; for (int i = 0; i < n; i++) EDGE(qt[i], pt[i], "v*A"); int i = 0; LD d = 0; for (int k = 0; k < n; k++) d += v[k] * A(0, k); EDGE(a[0] * w, d, "dot product");
			auto dm = diagmult(a, w); for (int i = 0; i < n * n; i++) EDGE(dm(i / n, i % n), A.a[i] * v[i % n], "diagmult(A,v)"); auto dn = diagmult(w, a); for (int i = 0; i < n * n; i++) EDGE(dn(i / n, i % n), A.a[i] * v[i / n], "diagmult(v,A)"); });
	}); });
}
PROP(edge_vectors, 4) { switch (g.pick(5)) { case 0: edge_vectors<3, double, VK_STATIC | VK_COL | VK_CONST, VK_STATIC | VK_DYN>(g, 3); break; case 1: edge_vectors<Dynamic, double, VK_DYN | VK_DSLICE | VK_RESIZ, VK_DYN>(g, g.size(1, 6, 40)); break; case 2: edge_vectors<4, float, VK_STATIC | VK_COL, VK_STATIC>(g, 4); break; case 3: edge_vectors<2, long double, VK_STATIC, VK_STATIC>(g, 2); break; case 4: edge_vectors<Dynamic, int, VK_DYN, VK_DYN>(g, g.size(1, 5, 20)); break; } }
PROP(edge_matrices, 3) { switch (g.pick(4)) { case 0: edge_matrices<3, 2, double, MK_STATIC | MK_T | MK_CONST, MK_STATIC | MK_DYN>(g, 3, 2); break; case 1: edge_matrices<Dynamic, Dynamic, double, MK_DYN | MK_DYNCOL | MK_DSLICE, MK_DYN>(g, g.size(1, 4, 20), g.size(1, 4, 20)); break; case 2: edge_matrices<2, 2, float, MK_STATIC | MK_STATICCOL, MK_STATIC>(g, 2, 2); break; case 3: edge_matrices<2, 3, int, MK_STATIC, MK_STATIC>(g, 2, 3); break; } }
PROP(nonfinite_products, 2) { switch (g.pick(3)) { case 0: nonfinite_products<2>(g, 2); break; case 1: nonfinite_products<3>(g, 3); break; case 2: nonfinite_products<Dynamic>(g, g.size(1, 6, 30)); break; } }
#endif
