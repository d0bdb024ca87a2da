// V02: views alias exactly the elements they designate.
#include "common.h"
#ifndef PART
#define PART 0
#endif

// model of a view: which base element each of its elements is
struct MV { int r, c; std::vector<int> id; int at(int i, int j) const { return id[i * c + j]; } };
struct VV { std::vector<int> id; };
static MV transpose(const MV& m) { MV t{ m.c, m.r, std::vector<int>(m.id.size()) }; for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) t.id[j * m.r + i] = m.at(i, j); return t; }
static MV block(const MV& m, int r0, int c0, int r, int c) { MV t{ r, c, std::vector<int>(r * c) }; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t.id[i * c + j] = m.at(r0 + i, c0 + j); return t; }
static VV row(const MV& m, int i) { VV v; for (int j = 0; j < m.c; j++) v.id.push_back(m.at(i, j)); return v; }
static VV col(const MV& m, int j) { VV v; for (int i = 0; i < m.r; i++) v.id.push_back(m.at(i, j)); return v; }
static VV diag(const MV& m) { VV v; for (int i = 0; i < std::min(m.r, m.c); i++) v.id.push_back(m.at(i, i)); return v; }
static VV part(const VV& v, int s, int n) { return VV{ std::vector<int>(v.id.begin() + s, v.id.begin() + s + n) }; }

// the base object: where its elements live and what they should contain
struct Base {
	std::vector<double*> addr; std::vector<double> val; double next = 1000; std::string path;
	void check(const std::string& when) const { for (size_t i = 0; i < addr.size(); i++) if (*addr[i] != val[i]) FAIL(when << ": base element " << i << " is " << *addr[i] << " instead of " << val[i] << " (view: base" << path << ")"); }
};
template<class T> struct IsConst { static const bool v = std::is_const<typename std::remove_reference<T>::type>::value; };
template<class T> auto& cref(const T& t) { return t; }

// ---- leaf checks
template<class Vw> void vec_leaf(Gen& g, Base& b, Vw& v, const VV& m) {
	int n = m.id.size();
	if (v.size() != n) FAIL("view base" << b.path << " has size " << v.size() << " instead of " << n);
	for (int i = 0; i < n; i++) {
		if (&v[i] != b.addr[m.id[i]]) FAIL("element " << i << " of base" << b.path << " is not the element of the original it designates");
		if (v[i] != b.val[m.id[i]]) FAIL("element " << i << " of base" << b.path << " reads " << v[i]);
	}
	const auto& cv = v; for (int i = 0; i < n; i++) if (&cv[i] != b.addr[m.id[i]]) FAIL("element " << i << " of read-only base" << b.path);
	typedef decltype(v[0]) E;
	if (n == 0) return;
	if constexpr (!IsConst<E>::v) {
		switch (g.pick(6)) {
			case 0: { int k = g.pick(n); v[k] = b.val[m.id[k]] = b.next++; break; }
			case 1: { Vector<> w(n); for (int i = 0; i < n; i++) w[i] = b.val[m.id[i]] = b.next++; v = w; break; }
			case 2: { v = Zeros; for (int i : m.id) b.val[i] = 0; break; }
			case 3: { Vector<> w(n); for (int i = 0; i < n; i++) { w[i] = b.next++; b.val[m.id[i]] += w[i]; } v += w; break; }
			case 4: { v *= 2; for (int i : m.id) b.val[i] *= 2; break; }
			case 5: { if (b.path.empty()) break; auto u = v; u[n - 1] = b.val[m.id[n - 1]] = b.next++; break; }   // a copy of a view is the same view
		}
		b.check("after writing through the view");
	}
	int k = g.pick(n); *b.addr[m.id[k]] = b.val[m.id[k]] = b.next++;
	if (v[k] != b.val[m.id[k]]) FAIL("a change of the original is not seen through base" << b.path);
	// reading it as a value
	Vector<> copy = v; for (int i = 0; i < n; i++) if (copy[i] != b.val[m.id[i]]) FAIL("copy of base" << b.path);
	copy[0] += 1; b.check("after changing a copy of the view");
}
template<class Mw> void mat_leaf(Gen& g, Base& b, Mw& v, const MV& m) {
	if (v.num_rows() != m.r || v.num_cols() != m.c) FAIL("view base" << b.path << " is " << v.num_rows() << "x" << v.num_cols() << " instead of " << m.r << "x" << m.c);
	for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) {
		if (&v(i, j) != b.addr[m.at(i, j)]) FAIL("entry (" << i << "," << j << ") of base" << b.path << " is not the element of the original it designates");
		if (&v[i][j] != b.addr[m.at(i, j)]) FAIL("entry [" << i << "][" << j << "] of base" << b.path);
		if (&v[std::make_pair(i, j)] != b.addr[m.at(i, j)]) FAIL("entry [pair(" << i << "," << j << ")] of base" << b.path);
		if (v(i, j) != b.val[m.at(i, j)]) FAIL("entry (" << i << "," << j << ") of base" << b.path << " reads " << v(i, j));
	}
	const auto& cv = v; for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) if (&cv(i, j) != b.addr[m.at(i, j)] || &cv[i][j] != b.addr[m.at(i, j)] || &cv[std::make_pair(i, j)] != b.addr[m.at(i, j)] || &cv.T()(j, i) != b.addr[m.at(i, j)]) FAIL("entry (" << i << "," << j << ") of read-only base" << b.path);
	if (!m.r || !m.c) return;
	typedef decltype(v(0, 0)) E;
	if constexpr (!IsConst<E>::v) {
		switch (g.pick(6)) {
			case 0: { int i = g.pick(m.r), j = g.pick(m.c); v(i, j) = b.val[m.at(i, j)] = b.next++; break; }
			case 1: { Matrix<> w(m.r, m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) w(i, j) = b.val[m.at(i, j)] = b.next++; v = w; break; }
			case 2: { v = Zeros; for (int i : m.id) b.val[i] = 0; break; }
			case 3: { Matrix<Dynamic, Dynamic, double, ColMajor> w(m.r, m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { w(i, j) = b.next++; b.val[m.at(i, j)] += w(i, j); } v += w; break; }
			case 4: { v *= 2; for (int i : m.id) b.val[i] *= 2; break; }
			case 5: { int i = g.pick(m.r); Vector<> w(m.c); for (int j = 0; j < m.c; j++) w[j] = b.val[m.at(i, j)] = b.next++; v[i] = w; break; }
		}
		b.check("after writing through the view");
	}
	int i = g.pick(m.r), j = g.pick(m.c); *b.addr[m.at(i, j)] = b.val[m.at(i, j)] = b.next++;
	if (v(i, j) != b.val[m.at(i, j)]) FAIL("a change of the original is not seen through base" << b.path);
	Matrix<> copy = v; for (int p = 0; p < m.r; p++) for (int q = 0; q < m.c; q++) if (copy(p, q) != b.val[m.at(p, q)]) FAIL("copy of base" << b.path);
	copy(0, 0) += 1; b.check("after changing a copy of the view");
}
template<class D> void diag_leaf(Gen& g, Base& b, D& d, const VV& m) {
	int n = m.id.size(); if (!n) return;
	for (int i = 0; i < n; i++) if (&d[i] != b.addr[m.id[i]]) FAIL("element " << i << " of base" << b.path << " is not the element of the original it designates");
	if constexpr (!IsConst<decltype(d[0])>::v) { int k = g.pick(n); d[k] = b.val[m.id[k]] = b.next++; b.check("after writing through the diagonal");
		auto s = d.diagonal_slice(); if (s.size() != n) FAIL("size of the diagonal"); s[k] = b.val[m.id[k]] = b.next++; b.check("after writing through the diagonal's slice"); }
	Matrix<> e(n, n); e = Identity; Matrix<> f = d * e;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (f(i, j) != (i == j ? b.val[m.id[i]] : 0)) FAIL("diagonal matrix base" << b.path << " times identity");
}

// static sizes leave room for a static r x c slice
template<class M, int r, int c> struct SizeOK;
template<int R, int C, class P, class B, int r, int c> struct SizeOK<Matrix<R, C, P, B>, r, c> { static const bool v = (R < 0 || R >= r) && (C < 0 || C >= c); };
template<int R, int C, class P, class B, int r, int c> struct SizeOK<const Matrix<R, C, P, B>, r, c>: SizeOK<Matrix<R, C, P, B>, r, c> {};
template<int D, class Vw> void vstep(Gen& g, Base& b, Vw& v, const VV& m);
template<int D, class Mw> void mstep(Gen& g, Base& b, Mw& v, const MV& m);
static std::string S(int a, int b) { return std::to_string(a) + "," + std::to_string(b); }

template<int D, class Vw> void vstep(Gen& g, Base& b, Vw& v, const VV& m) {
	int n = m.id.size();
	constexpr int SZ = std::decay<Vw>::type::SizeParameter;
	int op = D > 0 ? g.pick(8) : 0;
	if constexpr (D > 0) {
		if (op == 1) { int s = g.range(0, n), l = g.range(0, n - s); b.path += ".slice(" + S(s, l) + ")"; auto&& w = v.slice(s, l); vstep<D - 1>(g, b, w, part(m, s, l)); return; }
		if (op == 2) { if constexpr (SZ < 0 || SZ >= 3) { if (n >= 3) { b.path += ".slice<1,2>()"; auto&& w = v.template slice<1, 2>(); vstep<D - 1>(g, b, w, part(m, 1, 2)); return; } } }
		if (op == 3) { b.path += ".as_row()"; auto&& w = v.as_row(); MV x{ 1, n, m.id }; mstep<(D > 1 ? 1 : 0)>(g, b, w, x); return; }
		if (op == 4) { b.path += ".as_col()"; auto&& w = v.as_col(); MV x{ n, 1, m.id }; mstep<(D > 1 ? 1 : 0)>(g, b, w, x); return; }
		if (op == 5) { b.path += ".as_slice()"; auto&& w = v.as_slice(); vstep<D - 1>(g, b, w, m); return; }
		if (op == 6) { b.path += ".as_diagonal()"; auto&& w = v.as_diagonal(); diag_leaf(g, b, w, m); g.nontrivial(n > 1); return; }
		if (op == 7) { if constexpr (SZ < 0 || SZ >= 2) { if (n >= 2) { int s = g.range(0, n - 2); b.path += ".slice<Dynamic,2>(" + S(s, 2) + ")"; auto&& w = v.template slice<Dynamic, 2>(s, 2); vstep<D - 1>(g, b, w, part(m, s, 2)); return; } } }
	}
	g.nontrivial(n > 1); g.tag(n ? "vector view" : "empty view");
	vec_leaf(g, b, v, m);
}
template<int D, class Mw> void mstep(Gen& g, Base& b, Mw& v, const MV& m) {
	int op = D > 0 ? g.pick(8) : 0;
	if constexpr (D > 0) {
		if (op == 1) { b.path += ".T()"; auto&& w = v.T(); mstep<D - 1>(g, b, w, transpose(m)); return; }
		if (op == 2) { int r0 = g.range(0, m.r), c0 = g.range(0, m.c), r = g.range(0, m.r - r0), c = g.range(0, m.c - c0); b.path += ".slice(" + S(r0, c0) + "," + S(r, c) + ")"; auto&& w = v.slice(r0, c0, r, c); mstep<D - 1>(g, b, w, block(m, r0, c0, r, c)); return; }
		if (op == 3 && m.r) { int i = g.pick(m.r); b.path += "[" + std::to_string(i) + "]"; auto&& w = v[i]; vstep<D - 1>(g, b, w, row(m, i)); return; }
		if (op == 4 && m.c) { int j = g.pick(m.c); b.path += ".T()[" + std::to_string(j) + "]"; auto&& t = v.T(); auto&& w = t[j]; vstep<D - 1>(g, b, w, col(m, j)); return; }
		if (op == 5) { b.path += ".diagonal_slice()"; auto&& w = v.diagonal_slice(); vstep<D - 1>(g, b, w, diag(m)); return; }
		if (op == 6) { if constexpr (SizeOK<Mw, 2, 3>::v) { if (m.r >= 2 && m.c >= 3) { b.path += ".slice<0,1,2,2>()"; auto&& w = v.template slice<0, 1, 2, 2>(); mstep<D - 1>(g, b, w, block(m, 0, 1, 2, 2)); return; } } }
		if (op == 7) { if constexpr (SizeOK<Mw, 2, 1>::v) { if (m.r >= 2 && m.c >= 1) { int r0 = g.range(0, m.r - 2), c = g.range(1, m.c), c0 = g.range(0, m.c - c); b.path += ".slice<Dynamic,Dynamic,2,Dynamic>(" + S(r0, c0) + "," + S(2, c) + ")"; auto&& w = v.template slice<Dynamic, Dynamic, 2, Dynamic>(r0, c0, 2, c); mstep<D - 1>(g, b, w, block(m, r0, c0, 2, c)); return; } } }
	}
	g.nontrivial(m.r * m.c > 1); g.tag(m.r * m.c ? "matrix view" : "empty view");
	mat_leaf(g, b, v, m);
}

template<int D, bool CONST, class M> void mat_base(Gen& g, M& m, const char* name) {
	Base b; b.path = ""; MV v{ m.num_rows(), m.num_cols(), {} };
	for (int i = 0; i < v.r; i++) for (int j = 0; j < v.c; j++) { v.id.push_back(b.addr.size()); m(i, j) = b.addr.size() + 1; b.addr.push_back(&m(i, j)); b.val.push_back(b.addr.size()); }
	std::set<double*> u(b.addr.begin(), b.addr.end()); if (u.size() != b.addr.size()) FAIL("two elements share an address");
	g.tag(std::string(name) + (CONST ? " read-only" : ""));
	try {
		if constexpr (CONST) { const M& c = m; mstep<D>(g, b, c, v); } else mstep<D>(g, b, m, v);
	} catch (pbt::Fail&) { g.note("base", name); g.note("rows", v.r); g.note("cols", v.c); g.note("view", b.path); throw; }
	g.note("base", name); g.note("rows", v.r); g.note("cols", v.c); g.note("view", b.path);
	b.check("at the end");
}
template<int D, bool CONST, class V> void vec_base(Gen& g, V& x, const char* name) {
	Base b; b.path = ""; VV v;
	for (int i = 0; i < x.size(); i++) { v.id.push_back(i); x[i] = i + 1; b.addr.push_back(&x[i]); b.val.push_back(i + 1); }
	g.tag(std::string(name) + (CONST ? " read-only" : ""));
	try {
		if constexpr (CONST) { const V& c = x; vstep<D>(g, b, c, v); } else vstep<D>(g, b, x, v);
	} catch (pbt::Fail&) { g.note("base", name); g.note("size", x.size()); g.note("view", b.path); throw; }
	g.note("base", name); g.note("size", x.size()); g.note("view", b.path);
	b.check("at the end");
}
#if PART == 0
PROP(static_row_major, 3) { Matrix<4, 5> m; mat_base<3, false>(g, m, "Matrix<4,5>"); }
#elif PART == 1
PROP(static_col_major, 3) { Matrix<5, 3, double, ColMajor> m; mat_base<3, false>(g, m, "Matrix<5,3,ColMajor>"); }
#elif PART == 2
PROP(dynamic_row_major, 4) { Matrix<> m(g.size(1, 6, 40), g.size(1, 6, 40)); mat_base<4, false>(g, m, "Matrix<>"); }
#elif PART == 3
PROP(dynamic_col_major, 4) { Matrix<Dynamic, Dynamic, double, ColMajor> m(g.size(1, 6, 40), g.size(1, 6, 40)); mat_base<3, false>(g, m, "Matrix<Dynamic,Dynamic,ColMajor>"); }
PROP(semi_col_major, 2) { Matrix<Dynamic, 3, double, ColMajor> m(g.size(1, 6, 40), 3); mat_base<2, false>(g, m, "Matrix<Dynamic,3,ColMajor>"); }
#elif PART == 4
PROP(semi_row_major, 2) { Matrix<4, Dynamic> m(4, g.size(1, 6, 40)); mat_base<3, false>(g, m, "Matrix<4,Dynamic>"); }
PROP(dynamic_read_only, 2) { Matrix<> m(g.size(1, 6, 40), g.size(1, 6, 40)); mat_base<2, true>(g, m, "Matrix<>"); }
#elif PART == 5
PROP(vector_static, 2) { Vector<7> v; vec_base<3, false>(g, v, "Vector<7>"); }
PROP(vector_dynamic, 3) { Vector<> v(g.size(1, 9, 40)); vec_base<3, false>(g, v, "Vector<>"); }
PROP(vector_resizable, 3) { Vector<Resizable> v(g.size(1, 9, 40)); if (g.flag()) v.resize(g.size(1, 9, 40)); vec_base<3, false>(g, v, "Vector<Resizable>"); }
#elif PART == 6
PROP(static_read_only, 2) { Matrix<3, 4> m; mat_base<3, true>(g, m, "Matrix<3,4>"); }
PROP(static_col_read_only, 2) { Matrix<3, 4, double, ColMajor> m; mat_base<2, true>(g, m, "Matrix<3,4,ColMajor>"); }
PROP(vector_read_only, 2) { Vector<5> v; vec_base<2, true>(g, v, "Vector<5>"); }
PROP(vector_dynamic_read_only, 2) { Vector<> v(g.size(1, 9, 40)); vec_base<2, true>(g, v, "Vector<>"); }
PROP(vector_resizable_read_only, 2) { Vector<Resizable> v(g.size(1, 9, 40)); vec_base<2, true>(g, v, "Vector<Resizable>"); }
#elif PART == 7
// large statics live on the heap but are viewed the same way
PROP(large_static, 1) { Matrix<13, 17> m; mat_base<2, false>(g, m, "Matrix<13,17>"); }
PROP(large_vector, 1) { Vector<200> v; vec_base<2, false>(g, v, "Vector<200>"); }
PROP(wide_static, 1) { Matrix<1, 6, double, ColMajor> m; mat_base<2, false>(g, m, "Matrix<1,6,ColMajor>"); }
PROP(tall_static, 1) { Matrix<6, 1> m; mat_base<2, false>(g, m, "Matrix<6,1>"); }
#elif PART == 8
// ---- every mixture of bounds given at compile time and at run time
namespace {
int bound(Gen& g, bool fixed, int value, int lo, int hi) { return fixed ? value : g.range(lo, hi); }
template<int MASK, int A, int B, int C, int D, class Mw> void mixed(Gen& g, Base& b, Mw& v, const MV& m) {
	constexpr int RS = MASK & 1 ? A : Dynamic, CS = MASK & 2 ? B : Dynamic, RL = MASK & 4 ? C : Dynamic, CL = MASK & 8 ? D : Dynamic;
	int r0 = bound(g, MASK & 1, A, 0, m.r - (MASK & 4 ? C : 0)), c0 = bound(g, MASK & 2, B, 0, m.c - (MASK & 8 ? D : 0));
	int r = bound(g, MASK & 4, C, 0, m.r - r0), c = bound(g, MASK & 8, D, 0, m.c - c0);
	auto name = [](bool fixed, int value) { return fixed ? std::to_string(value) : std::string("Dynamic"); };
	b.path += ".slice<" + name(MASK & 1, A) + "," + name(MASK & 2, B) + "," + name(MASK & 4, C) + "," + name(MASK & 8, D) + ">(" + S(r0, c0) + "," + S(r, c) + ")";
	auto&& w = v.template slice<RS, CS, RL, CL>(r0, c0, r, c); g.nontrivial(r * c > 1); g.tag("mixed bounds"); mat_leaf(g, b, w, block(m, r0, c0, r, c));
}
template<int MASK, int A, int C, class Vw> void vmixed(Gen& g, Base& b, Vw& v, const VV& m) {
	int n = m.id.size(), s = bound(g, MASK & 1, A, 0, n - (MASK & 2 ? C : 0)), l = bound(g, MASK & 2, C, 0, n - s);
	b.path += ".slice<" + (MASK & 1 ? std::to_string(A) : std::string("Dynamic")) + "," + (MASK & 2 ? std::to_string(C) : std::string("Dynamic")) + ">(" + S(s, l) + ")";
	auto&& w = v.template slice<(MASK & 1 ? A : Dynamic), (MASK & 2 ? C : Dynamic)>(s, l); g.nontrivial(l > 1); g.tag("mixed bounds"); vec_leaf(g, b, w, part(m, s, l));
}
template<class Mw, int... I> void any_mixed(Gen& g, Base& b, Mw& v, const MV& m, std::integer_sequence<int, I...>) {
	int k = g.pick(sizeof...(I)); if (g.flag()) { ((k == I ? mixed<I, 1, 2, 2, 1>(g, b, v, m) : void()), ...); } else { ((k == I ? mixed<I, 2, 0, 1, 3>(g, b, v, m) : void()), ...); }
}
template<class Vw, int... I> void any_vmixed(Gen& g, Base& b, Vw& v, const VV& m, std::integer_sequence<int, I...>) {
	int k = g.pick(sizeof...(I)); if (g.flag()) { ((k == I ? vmixed<I, 1, 2>(g, b, v, m) : void()), ...); } else { ((k == I ? vmixed<I, 2, 1>(g, b, v, m) : void()), ...); }
}
template<bool CONST, class Mw> void mixed_of(Gen& g, Base& b, Mw& v, const MV& m) {
	if constexpr (CONST) { const Mw& c = v; any_mixed(g, b, c, m, std::make_integer_sequence<int, 16>()); } else any_mixed(g, b, v, m, std::make_integer_sequence<int, 16>());
}
template<bool CONST, class Vw> void vmixed_of(Gen& g, Base& b, Vw& v, const VV& m) {
	if constexpr (CONST) { const Vw& c = v; any_vmixed(g, b, c, m, std::make_integer_sequence<int, 4>()); } else any_vmixed(g, b, v, m, std::make_integer_sequence<int, 4>());
}
template<bool CONST, class M> void mixed_base(Gen& g, M& m, const char* name) {
	Base b; b.path = ""; MV v{ m.num_rows(), m.num_cols(), {} };
	for (int i = 0; i < v.r; i++) for (int j = 0; j < v.c; j++) { v.id.push_back(b.addr.size()); m(i, j) = b.addr.size() + 1; b.addr.push_back(&m(i, j)); b.val.push_back(b.addr.size()); }
	try {
		switch (g.pick(5)) {
			case 0: mixed_of<CONST>(g, b, m, v); break;
			case 1: { b.path += ".T()"; auto t = m.T(); mixed_of<CONST>(g, b, t, transpose(v)); break; }
			case 2: { int r0 = g.range(0, v.r - 3), c0 = g.range(0, v.c - 3), r = g.range(3, v.r - r0), c = g.range(3, v.c - c0); b.path += ".slice(" + S(r0, c0) + "," + S(r, c) + ")"; auto s = m.slice(r0, c0, r, c); mixed_of<CONST>(g, b, s, block(v, r0, c0, r, c)); break; }
			case 3: { int i = g.pick(v.r); b.path += "[" + std::to_string(i) + "]"; auto s = m[i]; vmixed_of<CONST>(g, b, s, row(v, i)); break; }
			case 4: { int i = g.pick(v.c); b.path += ".T()[" + std::to_string(i) + "]"; auto t = m.T(); auto s = t[i]; vmixed_of<CONST>(g, b, s, col(v, i)); break; }
		}
	} catch (pbt::Fail&) { g.note("base", name); g.note("rows", v.r); g.note("cols", v.c); g.note("view", b.path); throw; }
	g.note("base", name); g.note("rows", v.r); g.note("cols", v.c); g.note("view", b.path); b.check("at the end");
}
template<bool CONST, class V> void vmixed_base(Gen& g, V& x, const char* name) {
	Base b; b.path = ""; VV v;
	for (int i = 0; i < x.size(); i++) { v.id.push_back(i); x[i] = i + 1; b.addr.push_back(&x[i]); b.val.push_back(i + 1); }
	try { vmixed_of<CONST>(g, b, x, v); } catch (pbt::Fail&) { g.note("base", name); g.note("size", x.size()); g.note("view", b.path); throw; }
	g.note("base", name); g.note("size", x.size()); g.note("view", b.path); b.check("at the end");
}
}
PROP(mixed_static, 2) { if (g.flag()) { Matrix<4, 5> m; mixed_base<false>(g, m, "Matrix<4,5>"); } else { Matrix<4, 5> m; mixed_base<true>(g, m, "read-only Matrix<4,5>"); } }
PROP(mixed_dynamic, 2) { Matrix<> m(g.range(3, 6), g.range(3, 6)); if (g.flag()) mixed_base<false>(g, m, "Matrix<>"); else mixed_base<true>(g, m, "read-only Matrix<>"); }
PROP(mixed_vector, 1) { switch (g.pick(3)) { case 0: { Vector<5> v; if (g.flag()) vmixed_base<false>(g, v, "Vector<5>"); else vmixed_base<true>(g, v, "read-only Vector<5>"); break; } case 1: { Vector<> v(g.range(3, 7)); if (g.flag()) vmixed_base<false>(g, v, "Vector<>"); else vmixed_base<true>(g, v, "read-only Vector<>"); break; } case 2: { Vector<Resizable> v(g.range(3, 7)); if (g.flag()) vmixed_base<false>(g, v, "Vector<Resizable>"); else vmixed_base<true>(g, v, "read-only Vector<Resizable>"); break; } } }
#endif
