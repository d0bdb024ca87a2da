// V04: promised error detection.  Every generated call is classified by the model
// as valid or not; it must return, or abort, accordingly, and an aborted call must
// have changed nothing.
#include "common.h"
#include "abort.h"
#include <climits>
#ifndef PART
#define PART 0
#endif

static void judge(Gen& g, bool bad, const std::function<void()>& f, const std::string& what) {
	g.note("call", what); g.live(what); g.tag(bad ? "must abort" : "must succeed"); g.nontrivial(bad);
	bool a = aborts(f);
	if (a && !bad) FAIL("valid call aborted: " << what);
	if (!a && bad) FAIL("invalid call was not stopped: " << what);
}
template<class... A> std::string str(A... a) { std::ostringstream o; ((o << a), ...); return o.str(); }
// an index for something of size n: often valid, often just outside, sometimes extreme
static int gen_index(Gen& g, int n) {
	switch (g.pick(8)) {
		case 0: case 1: case 2: return n > 0 ? g.pick(n) : 0;
		case 3: return n; case 4: return -1; case 5: return n + g.range(0, 40); case 6: return -g.range(1, 40);
		default: { static const int x[] = { INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30), 65536, 1 << 28 }; return x[g.pick(8)]; }
	}
}
static bool in(int i, int n) { return i >= 0 && i < n; }

#if PART == 0
#ifdef TOON_CHECK_BOUNDS
template<class V> void vindex(Gen& g, V& v, const char* nm) {
	int n = v.size(), i = gen_index(g, n); bool write = g.flag(); typedef typename std::remove_const<typename std::remove_reference<decltype(v[0])>::type>::type P;
	std::vector<P> before(n); for (int k = 0; k < n; k++) before[k] = v[k];
	volatile double sink = 0;
	judge(g, !in(i, n), [&] { if constexpr (!std::is_const<typename std::remove_reference<decltype(v[0])>::type>::value) { if (write) { v[i] = P(5); return; } } sink = v[i]; }, str(nm, " of size ", n, "[", i, "]"));
	for (int k = 0; k < n; k++) { bool w = write && in(i, n) && k == i && !std::is_const<typename std::remove_reference<decltype(v[0])>::type>::value; if (!w && v[k] != before[k]) FAIL("element " << k << " changed"); }
}
PROP(vector_index, 4) {
	int n = g.range(1, 9);
	auto fill = [](auto& v) { for (int i = 0; i < v.size(); i++) v[i] = i + 100; };
	switch (g.pick(11)) {
		case 0: { Vector<5> v; fill(v); vindex(g, v, "Vector<5>"); break; }
		case 1: { Vector<> v(n); fill(v); vindex(g, v, "Vector<>"); break; }
		case 2: { Vector<Resizable> v(n); fill(v); if (g.flag()) { v.resize(g.range(1, 9)); fill(v); } vindex(g, v, "Vector<Resizable>"); break; }
		case 3: { Vector<> v(n + 4); fill(v); auto s = v.slice(2, n); vindex(g, s, "slice"); break; }
		case 4: { Matrix<> m(n, 3); m = Zeros; auto t = m.T(); auto s = t[1]; fill(s); vindex(g, s, "column"); break; }
		case 5: { double b[20] = { 0 }; auto s = wrapVector(b + 3, n); fill(s); vindex(g, s, "wrapped"); break; }
		case 6: { Vector<> v(n); fill(v); const Vector<>& c = v; vindex(g, c, "const Vector<>"); break; }
		case 7: { Vector<8> v; fill(v); auto s = v.slice<2, 4>(); vindex(g, s, "static slice"); break; }
		case 8: { Vector<200> v; fill(v); vindex(g, v, "Vector<200>"); break; }
		case 9: { Matrix<> m(n, n); m = Zeros; auto s = m.diagonal_slice(); fill(s); vindex(g, s, "diagonal"); break; }
		case 10: { Vector<3, int> v; fill(v); vindex(g, v, "Vector<3,int>"); break; }
	}
}
template<class M> void mindex(Gen& g, M& m, const char* nm) {
	int R = m.num_rows(), C = m.num_cols(), r = gen_index(g, R), c = gen_index(g, C); if (g.flag()) (g.flag() ? r = g.pick(R) : c = g.pick(C));
	RM before = rm(m); volatile double sink = 0; int how = g.pick(6); bool w = false;
	constexpr bool wr = !std::is_const<typename std::remove_reference<decltype(m(0, 0))>::type>::value;
	bool bad = !in(r, R) || !in(c, C);
	std::string w0 = str(nm, " of ", R, "x", C, " at ", r, ",", c);
	if (how == 0) judge(g, bad, [&] { sink = m(r, c); }, "(r,c) " + w0);
	else if (how == 1) { if constexpr (wr) { w = !bad; judge(g, bad, [&] { m(r, c) = 5; }, "(r,c)= " + w0); } }
	else if (how == 2) judge(g, bad, [&] { sink = m[r][c]; }, "[r][c] " + w0);
	else if (how == 3) judge(g, bad, [&] { sink = m[std::make_pair(r, c)]; }, "[(r,c)] " + w0);
	else if (how == 4) judge(g, !in(r, R), [&] { auto s = m[r]; (void)s; }, "[r] " + w0);
	else if (how == 5) judge(g, bad, [&] { sink = m.T()[c][r]; }, ".T()[c][r] " + w0);
	RM after = rm(m); if (w) { if (after(r, c) != 5) FAIL("not written"); after(r, c) = before(r, c); } same(after, before, 0, "matrix after the call");
}
PROP(matrix_index, 4) {
	int r = g.range(1, 6), c = g.range(1, 6);
	switch (g.pick(8)) {
		case 0: { Matrix<3, 4> m = Zeros; mindex(g, m, "Matrix<3,4>"); break; }
		case 1: { Matrix<> m(r, c); m = Zeros; mindex(g, m, "Matrix<>"); break; }
		case 2: { Matrix<Dynamic, Dynamic, double, ColMajor> m(r, c); m = Zeros; mindex(g, m, "Matrix<ColMajor>"); break; }
		case 3: { Matrix<3, Dynamic> m(3, c); m = Zeros; mindex(g, m, "Matrix<3,Dynamic>"); break; }
		case 4: { Matrix<> m(r + 2, c + 2); m = Zeros; auto s = m.slice(1, 1, r, c); mindex(g, s, "slice"); break; }
		case 5: { Matrix<5, 4> m = Zeros; auto s = m.T(); mindex(g, s, "transpose"); break; }
		case 6: { std::vector<double> b(r * c); auto s = wrapMatrix(&b[0], r, c); mindex(g, s, "wrapped"); break; }
		case 7: { Matrix<> m(r, c); m = Zeros; const Matrix<>& k = m; mindex(g, k, "const Matrix<>"); break; }
	}
}
PROP(diagonal_index, 1) { int n = g.range(1, 6); DiagonalMatrix<> d(n); for (int i = 0; i < n; i++) d[i] = 1; int i = gen_index(g, n); volatile double s = 0; judge(g, !in(i, n), [&] { if (g.flag()) s = d[i]; else d[i] = 3; }, str("DiagonalMatrix<> of size ", n, "[", i, "]")); }
PROP(resized_index, 1) { // the bound follows the current size
	Vector<Resizable> v(g.range(0, 5)); int steps = g.range(1, 4); for (int k = 0; k < steps; k++) { int n = g.range(0, 9); v.resize(n); for (int i = 0; i < n; i++) v[i] = 1; }
	int n = v.size(), i = gen_index(g, n); volatile double s = 0; judge(g, !in(i, n), [&] { s = v[i]; }, str("resizable of size ", n, "[", i, "]")); }
#endif
#endif
#if PART == 1
// ---- slices
static bool okslice(int n, int s, int l) { return s >= 0 && l >= 0 && (long)s + l <= n; }
template<class V> void vslice(Gen& g, V& v, const char* nm) {
	int n = v.size(), s = g.chance(60) ? g.range(0, n) : gen_index(g, n), l = g.chance(60) ? g.range(0, n) : gen_index(g, n);
	if (g.pick(4)) judge(g, !okslice(n, s, l), [&] { auto x = v.slice(s, l); if (x.size() != l) abort(); }, str(nm, " of size ", n, ".slice(", s, ",", l, ")"));
	else if constexpr (std::decay<V>::type::SizeParameter < 0) {
		if (g.flag()) judge(g, !okslice(n, 2, 3), [&] { auto x = v.template slice<2, 3>(); (void)x; }, str(nm, " of size ", n, ".slice<2,3>()"));
		else if (g.flag()) judge(g, !okslice(n, s, 2), [&] { auto x = v.template slice<Dynamic, 2>(s, 2); (void)x; }, str(nm, " of size ", n, ".slice<Dynamic,2>(", s, ",2)"));
		else judge(g, !okslice(n, 1, l), [&] { auto x = v.template slice<1, Dynamic>(1, l); (void)x; }, str(nm, " of size ", n, ".slice<1,Dynamic>(1,", l, ")"));
	} else judge(g, !okslice(n, s, 2), [&] { auto x = v.template slice<Dynamic, 2>(s, 2); (void)x; }, str(nm, " of size ", n, ".slice<Dynamic,2>(", s, ",2)"));
}
// bounds given twice, at compile time and at run time, must agree
template<class V> void vmismatch(Gen& g, V& v, const char* nm) {
	int n = v.size(), s = g.pick(3) ? 1 : gen_index(g, n), l = g.pick(3) ? 2 : gen_index(g, n); g.tag("bounds given twice", s != 1 || l != 2);
	switch (g.pick(3)) {
		case 0: judge(g, s != 1 || l != 2 || !okslice(n, 1, 2), [&] { auto x = v.template slice<1, 2>(s, l); (void)x; }, str(nm, " of size ", n, ".slice<1,2>(", s, ",", l, ")")); break;
		case 1: judge(g, l != 2 || !okslice(n, s, 2), [&] { auto x = v.template slice<Dynamic, 2>(s, l); (void)x; }, str(nm, " of size ", n, ".slice<Dynamic,2>(", s, ",", l, ")")); break;
		case 2: judge(g, s != 1 || !okslice(n, 1, l), [&] { auto x = v.template slice<1, Dynamic>(s, l); (void)x; }, str(nm, " of size ", n, ".slice<1,Dynamic>(", s, ",", l, ")")); break;
	}
}
PROP(vector_mismatch, 1) {
	int n = g.range(1, 7); switch (g.pick(5)) {
		case 0: { Vector<5> v = Zeros; vmismatch(g, v, "Vector<5>"); break; }
		case 1: { Vector<> v(n); vmismatch(g, v, "Vector<>"); break; }
		case 2: { Vector<Resizable> v(n); vmismatch(g, v, "Vector<Resizable>"); break; }
		case 3: { Matrix<> m(3, n); m = Zeros; auto r = m[1]; vmismatch(g, r, "row"); break; }
		case 4: { Vector<> v(n); const Vector<>& k = v; vmismatch(g, k, "const Vector<>"); break; }
	}
}
template<class M> void mmismatch(Gen& g, M& m, const char* nm) {
	int r = m.num_rows(), c = m.num_cols(), a[4] = {1, 0, 2, 3}; for (auto& x : a) if (g.pick(6) == 0) x = gen_index(g, std::max(r, c)); bool bad = a[0] != 1 || a[1] != 0 || a[2] != 2 || a[3] != 3; std::string w = str(nm, " of ", r, "x", c, ".slice<1,0,2,3>(", a[0], ",", a[1], ",", a[2], ",", a[3], ")"); g.tag("bounds given twice", bad);
	switch (g.pick(3)) {
		case 0: judge(g, bad || !okslice(r, 1, 2) || !okslice(c, 0, 3), [&] { auto s = m.template slice<1, 0, 2, 3>(a[0], a[1], a[2], a[3]); (void)s; }, w); break;
		case 1: judge(g, a[0] != 1 || a[3] != 3 || !okslice(r, 1, a[2]) || !okslice(c, a[1], 3), [&] { auto s = m.template slice<1, Dynamic, Dynamic, 3>(a[0], a[1], a[2], a[3]); (void)s; }, str("<1,D,D,3> ", w)); break;
		case 2: judge(g, a[1] != 0 || a[2] != 2 || !okslice(r, a[0], 2) || !okslice(c, 0, a[3]), [&] { auto s = m.template slice<Dynamic, 0, 2, Dynamic>(a[0], a[1], a[2], a[3]); (void)s; }, str("<D,0,2,D> ", w)); break;
	}
}
PROP(matrix_mismatch, 1) {
	int r = g.range(1, 6), c = g.range(1, 6); switch (g.pick(4)) {
		case 0: { Matrix<4, 5> m = Zeros; mmismatch(g, m, "Matrix<4,5>"); break; }
		case 1: { Matrix<> m(r, c); m = Zeros; mmismatch(g, m, "Matrix<>"); break; }
		case 2: { Matrix<> m(c, r); m = Zeros; auto t = m.T(); mmismatch(g, t, "transpose"); break; }
		case 3: { Matrix<Dynamic, 4, double, ColMajor> m(r, 4); m = Zeros; const auto& k = m; mmismatch(g, k, "const column-major Matrix<Dynamic,4>"); break; }
	}
}
PROP(vector_slice, 4) {
	int n = g.range(0, 9);
	switch (g.pick(8)) {
		case 0: { Vector<5> v = Zeros; vslice(g, v, "Vector<5>"); break; }
		case 1: { Vector<> v(n); vslice(g, v, "Vector<>"); break; }
		case 2: { Vector<Resizable> v(n); vslice(g, v, "Vector<Resizable>"); break; }
		case 3: { Vector<> v(n + 4); auto s = v.slice(2, n); vslice(g, s, "slice"); break; }
		case 4: { Matrix<> m(n + 1, 3); auto t = m.T(); auto s = t[1]; vslice(g, s, "column"); break; }
		case 5: { Vector<> v(n); const Vector<>& c = v; vslice(g, c, "const Vector<>"); break; }
		case 6: { double b[20]; auto s = wrapVector(b, n); vslice(g, s, "wrapped"); break; }
		case 7: { Matrix<4, 4> m; auto s = m[1]; vslice(g, s, "row of Matrix<4,4>"); break; }
	}
}
template<class M> void mslice(Gen& g, M& m, const char* nm) {
	int R = m.num_rows(), C = m.num_cols();
	auto one = [&](int n, int& s, int& l) { s = g.chance(70) ? g.range(0, n) : gen_index(g, n); l = g.chance(70) ? g.range(0, n) : gen_index(g, n); if (g.chance(50)) { s = g.range(0, n); l = g.range(0, n - s); } };
	int r, c, h, w; one(R, r, h); one(C, c, w);
	judge(g, !okslice(R, r, h) || !okslice(C, c, w), [&] { auto s = m.slice(r, c, h, w); (void)s; }, str(nm, " of ", R, "x", C, ".slice(", r, ",", c, ",", h, ",", w, ")"));
}
PROP(matrix_slice, 4) {
	int r = g.range(1, 6), c = g.range(1, 6);
	switch (g.pick(6)) {
		case 0: { Matrix<3, 4> m = Zeros; mslice(g, m, "Matrix<3,4>"); break; }
		case 1: { Matrix<> m(r, c); mslice(g, m, "Matrix<>"); break; }
		case 2: { Matrix<Dynamic, Dynamic, double, ColMajor> m(r, c); mslice(g, m, "Matrix<ColMajor>"); break; }
		case 3: { Matrix<> m(r + 2, c + 2); auto s = m.slice(1, 1, r, c); mslice(g, s, "slice"); break; }
		case 4: { Matrix<5, 4> m = Zeros; auto s = m.T(); mslice(g, s, "transpose"); break; }
		case 5: { Matrix<> m(r, c); const Matrix<>& k = m; mslice(g, k, "const Matrix<>"); break; }
	}
}
PROP(mixed_matrix_slice, 1) {
	int r = g.range(1, 5), c = g.range(1, 5); Matrix<> m(r, c); m = Zeros; int a = gen_index(g, r), b = gen_index(g, c);
	switch (g.pick(3)) {
		case 0: judge(g, !okslice(r, 1, 2) || !okslice(c, 0, 3), [&] { auto s = m.slice<1, 0, 2, 3>(); (void)s; }, str("Matrix<> of ", r, "x", c, ".slice<1,0,2,3>()")); break;
		case 1: judge(g, !okslice(r, a, 2) || !okslice(c, b, 2), [&] { auto s = m.slice<Dynamic, Dynamic, 2, 2>(a, b, 2, 2); (void)s; }, str("Matrix<> of ", r, "x", c, ".slice<D,D,2,2>(", a, ",", b, ")")); break;
		case 2: judge(g, !okslice(r, a, 1) || !okslice(c, 0, b), [&] { auto s = m.slice<Dynamic, 0, 1, Dynamic>(a, 0, 1, b); (void)s; }, str("Matrix<> of ", r, "x", c, ".slice<D,0,1,D>(", a, ",0,1,", b, ")")); break;
	}
}
#endif
#if PART == 2 || PART == 3 || PART == 4
// sizes: objects without elements too
static int size_of(Gen& g, int top) { return g.chance(10) ? 0 : g.range(1, top); }
static int other(Gen& g, int n) { return g.flag() ? n : std::max(0, n + g.small(3)); }
template<class V> double at0(const V& v) { return v.size() ? double(v[0]) : 0.; }
template<class M> double at00(const M& m) { return m.num_rows() && m.num_cols() ? double(m(0, 0)) : 0.; }
template<class D> double atd(const D& d) { return at0(d.diagonal_slice()); }
template<class V> void z(V& v) { for (int i = 0; i < v.size(); i++) v[i] = 2; }
// keep what a call computes alive, so that the call is not optimised away
static volatile double sink;
#endif
#if PART == 2
// two vectors: v has n elements in a run-time form, w in any form
template<class V, class W> void vpair(Gen& g, V& v, W& w, const char* nm) {
	int n = v.size(), k = w.size(); bool bad = n != k; RV before = rv(v), wb = rv(w);
	std::string s = str(nm, " sizes ", n, " and ", k);
	constexpr bool resz = std::decay<V>::type::SizeParameter == Resizable;
	int op = g.pick(13);
	if (op == 0) judge(g, bad, [&] { sink = at0(v + w); }, "v+w " + s);
	if (op == 1) judge(g, bad, [&] { sink = at0(v - w); }, "v-w " + s);
	if (op == 2) judge(g, bad, [&] { sink = v * w; }, "v*w " + s);
	if (op == 3) judge(g, bad, [&] { sink = at0(diagmult(v, w)); }, "diagmult " + s);
	if (op == 4) { judge(g, bad && !resz, [&] { v = w; }, "v=w " + s); if (!bad || resz) { if (v.size() != k) FAIL("size after assignment"); } }
	if (op == 5) judge(g, bad, [&] { v += w; }, "v+=w " + s);
	if (op == 6) judge(g, bad, [&] { v -= w; }, "v-=w " + s);
	if (op == 7) judge(g, bad, [&] { sink = v == w; }, "v==w " + s);
	if (op == 8) judge(g, bad, [&] { sink = v != w; }, "v!=w " + s);
	if (op == 9) judge(g, bad, [&] { sink = at0(w + v); }, "w+v " + s);
	if (op == 10) { auto a = v.as_slice(); judge(g, bad, [&] { a = w; }, "view=w " + s); }
	if (op == 11) judge(g, bad, [&] { auto x = v.as_slice(), y = v.as_slice(); auto u = w.as_slice(); (void)y; using std::swap; swap(x, u); }, "swap of views " + s);
	if (op == 12) { Matrix<> m(3, n); m = Zeros; judge(g, bad, [&] { m[1] = w; }, "row=w " + s); for (int j = 0; j < n; j++) for (int i = 0; i < 3; i += 2) if (m(i, j) != 0) FAIL("another row changed"); }
	if (bad && !(op == 4 && resz)) same(rv(v), before, 0, "left operand after the aborted call");
	if (op != 11) same(rv(w), wb, 0, "right operand after the call");
}
PROP(vector_sizes, 5) {
	int n = size_of(g, 6), k = other(g, n);
	auto second = [&](auto& v, const char* nm) {
		switch (g.pick(5)) {
			case 0: { Vector<> w(k); z(w); vpair(g, v, w, nm); break; }
			case 1: { Vector<Resizable> w(k); z(w); vpair(g, v, w, nm); break; }
			case 2: { Vector<4> w; z(w); vpair(g, v, w, nm); break; }
			case 3: { Vector<> u(k + 2); z(u); auto w = u.slice(1, k); vpair(g, v, w, nm); break; }
			case 4: { Matrix<> u(k, 2); u = Zeros; auto t = u.T(); auto w = t[1]; vpair(g, v, w, nm); break; }
		}
	};
	switch (g.pick(5)) {
		case 0: { Vector<> v(n); z(v); second(v, "Vector<>"); break; }
		case 1: { Vector<Resizable> v(n); z(v); second(v, "Vector<Resizable>"); break; }
		case 2: { Vector<> u(n + 2); z(u); auto v = u.slice(2, n); second(v, "slice"); break; }
		case 3: { Matrix<> u(2, n); u = Zeros; auto v = u[1]; second(v, "row"); break; }
		case 4: { double b[20]; auto v = wrapVector(b, n); z(v); second(v, "wrapped"); break; }
	}
}
PROP(vector_construct, 1) {
	int k = size_of(g, 6); Vector<> w(k); z(w); Vector<Resizable> x(w);
	switch (g.pick(4)) {
		case 0: judge(g, k != 4, [&] { Vector<4> v(w); sink = at0(v); }, str("Vector<4> from dynamic of size ", k)); break;
		case 1: judge(g, k != 4, [&] { Vector<4> v = x; sink = at0(v); }, str("Vector<4> from resizable of size ", k)); break;
		case 2: judge(g, k != 4, [&] { Vector<4> v; v = w; sink = at0(v); }, str("Vector<4> = dynamic of size ", k)); break;
		case 3: judge(g, k != 4, [&] { Vector<4> v = Zeros; v += x; sink = at0(v); }, str("Vector<4> += resizable of size ", k)); break;
	}
}
PROP(vector_swap, 1) {
	int n = size_of(g, 6), k = other(g, n); Vector<> a(n), b(k); for (int i = 0; i < n; i++) a[i] = i; for (int i = 0; i < k; i++) b[i] = 50 + i; RV x = rv(a), y = rv(b);
	judge(g, n != k, [&] { if (g.flag()) a.swap(b); else { using std::swap; swap(a, b); } }, str("swap of dynamic vectors of sizes ", n, " and ", k));
	if (n == k) { same(rv(a), y, 0, "swapped"); same(rv(b), x, 0, "swapped"); } else { same(rv(a), x, 0, "after the aborted swap"); same(rv(b), y, 0, "after the aborted swap"); }
}
#endif
#if PART == 3
template<class A, class B> void mpair(Gen& g, A& a, B& b, const char* nm) {
	int r = a.num_rows(), c = a.num_cols(), p = b.num_rows(), q = b.num_cols(); bool bad = r != p || c != q; RM before = rm(a), bb = rm(b); int op = g.pick(11); bool isbad = bad;
	std::string s = str(nm, " ", r, "x", c, " and ", p, "x", q);
	if (op == 0) judge(g, bad, [&] { sink = at00(a + b); }, "A+B " + s);
	if (op == 1) judge(g, bad, [&] { sink = at00(a - b); }, "A-B " + s);
	if (op == 2) judge(g, isbad = c != p, [&] { sink = at00(a * b); }, "A*B " + s);
	if (op == 3) judge(g, bad, [&] { a = b; }, "A=B " + s);
	if (op == 4) judge(g, bad, [&] { a += b; }, "A+=B " + s);
	if (op == 5) judge(g, bad, [&] { a -= b; }, "A-=B " + s);
	if (op == 6) judge(g, bad, [&] { sink = a == b; }, "A==B " + s);
	if (op == 7) judge(g, bad, [&] { sink = a != b; }, "A!=B " + s);
	if (op == 8) judge(g, isbad = c != q, [&] { sink = at00(a * b.T()); }, "A*B.T() " + s);
	if (op == 9) judge(g, bad, [&] { a.T() = b.T(); }, "A.T()=B.T() " + s);
	if (op == 10) judge(g, isbad = r != q || c != p, [&] { a = b.T(); }, "A=B.T() " + s);
	if (isbad) same(rm(a), before, 0, "left operand after the aborted call");
	same(rm(b), bb, 0, "right operand after the call");
}
PROP(matrix_sizes, 5) {
	int r = size_of(g, 4), c = size_of(g, 4), p = other(g, r), q = other(g, c); if (g.chance(30)) { p = c; q = r; }
	auto second = [&](auto& a, const char* nm) {
		switch (g.pick(4)) {
			case 0: { Matrix<> b(p, q); b = Zeros; mpair(g, a, b, nm); break; }
			case 1: { Matrix<Dynamic, Dynamic, double, ColMajor> b(p, q); b = Zeros; mpair(g, a, b, nm); break; }
			case 2: { Matrix<3, Dynamic> b(3, q); b = Zeros; mpair(g, a, b, nm); break; }
			case 3: { Matrix<3, 2> b = Zeros; mpair(g, a, b, nm); break; }
		}
	};
	switch (g.pick(3)) {
		case 0: { Matrix<> a(r, c); a = Zeros; second(a, "Matrix<>"); break; }
		case 1: { Matrix<Dynamic, Dynamic, double, ColMajor> a(r, c); a = Zeros; second(a, "ColMajor"); break; }
		case 2: { Matrix<> u(r + 1, c + 2); u = Zeros; auto a = u.slice(1, 1, r, c); second(a, "slice"); break; }
	}
}
PROP(matrix_vector_sizes, 3) {
	int r = size_of(g, 4), c = size_of(g, 4), n = g.flag() ? r : other(g, c); Matrix<> a(r, c); a = Zeros; Vector<> v(n); z(v); Matrix<3, Dynamic> e(3, c); e = Zeros; Matrix<Dynamic, 3> f(r, 3); f = Zeros;
	std::string s = str(r, "x", c, " and ", n);
	switch (g.pick(8)) {
		case 0: judge(g, c != n, [&] { sink = at0(a * v); }, "A*v " + s); break;
		case 1: judge(g, r != n, [&] { sink = at0(v * a); }, "v*A " + s); break;
		case 2: judge(g, c != n, [&] { sink = at00(diagmult(a, v)); }, "diagmult(A,v) " + s); break;
		case 3: judge(g, r != n, [&] { sink = at00(diagmult(v, a)); }, "diagmult(v,A) " + s); break;
		case 4: judge(g, c != n, [&] { sink = at0(e * v); }, "Matrix<3,Dynamic>*v " + s); break;
		case 5: judge(g, r != n, [&] { sink = at0(v * f); }, "v*Matrix<Dynamic,3> " + s); break;
		case 6: { Vector<3> w; z(w); judge(g, c != 3, [&] { sink = at0(a * w); }, "A*Vector<3> " + s); break; }
		case 7: { Vector<> w(n); z(w); judge(g, c != n || r != n, [&] { w = a * w; }, "w=A*w " + s); break; }
	}
}
PROP(matrix_construct, 1) {
	int r = size_of(g, 4), c = size_of(g, 4); Matrix<> a(r, c); a = Zeros; std::string s = str(" from ", r, "x", c);
	switch (g.pick(3)) {
		case 0: judge(g, r != 3 || c != 2, [&] { Matrix<3, 2> m(a); sink = at00(m); }, "Matrix<3,2>" + s); break;
		case 1: judge(g, r != 3, [&] { Matrix<3, Dynamic> m(a); sink = at00(m); }, "Matrix<3,Dynamic>" + s); break;
		case 2: judge(g, c != 2, [&] { Matrix<Dynamic, 2, double, ColMajor> m(a); sink = at00(m); }, "Matrix<Dynamic,2,ColMajor>" + s); break;
	}
}
PROP(diagonal_sizes, 3) {
	int n = size_of(g, 4), k = other(g, n), l = other(g, n); DiagonalMatrix<> d(n); for (int i = 0; i < n; i++) d[i] = i + 1; DiagonalMatrix<> e(k); for (int i = 0; i < k; i++) e[i] = 1;
	Vector<> v(k); z(v); Matrix<> a(k, l); a = Zeros; std::string s = str(" diagonal ", n, ", other ", k, "x", l);
	switch (g.pick(7)) {
		case 0: judge(g, n != k, [&] { sink = at0(d * v); }, "D*v" + s); break;
		case 1: judge(g, n != k, [&] { sink = at0(v * d); }, "v*D" + s); break;
		case 2: judge(g, n != k, [&] { sink = at00(d * a); }, "D*A" + s); break;
		case 3: judge(g, n != l, [&] { sink = at00(a * d); }, "A*D" + s); break;
		case 4: judge(g, n != k, [&] { sink = atd(d * e); }, "D*E" + s); break;
		case 5: judge(g, n != k || n != l, [&] { a = d; }, "A=D" + s); break;
		case 6: { DiagonalMatrix<3> f(Ones); if (g.flag()) judge(g, k != 3 || l != 3, [&] { a = f; }, "A=D<3>" + s); else { Matrix<3> b = Zeros; Matrix<3, Dynamic> b2(3, k); b2 = Zeros; judge(g, k != 3, [&] { b2 = f; }, "Matrix<3,Dynamic>=D<3>" + s); } break; }
	}
}
#endif
#if PART == 4
// ---- initialisers of the wrong length
template<class V> void vfill(Gen& g, V& v, const char* nm) {
	int n = v.size(), k = g.range(1, 5);
	auto run = [&] { switch (k) { case 1: Fill(v) = 1; break; case 2: Fill(v) = 1, 2; break; case 3: Fill(v) = 1, 2, 3; break; case 4: Fill(v) = 1, 2, 3, 4; break; case 5: Fill(v) = 1, 2, 3, 4, 5; break; } };
	judge(g, k != n, run, str("Fill of ", nm, " of size ", n, " with ", k));
	if (k == n) for (int i = 0; i < n; i++) if (v[i] != i + 1) FAIL("element " << i);
}
PROP(fill_vector, 2) {
	int n = g.range(1, 6);
	switch (g.pick(4)) {
		case 0: { Vector<> v(n); z(v); vfill(g, v, "Vector<>"); break; }
		case 1: { Vector<> u(n + 3); z(u); auto v = u.slice(1, n); vfill(g, v, "slice"); if (u[0] != 2 || u[n + 1] != 2) FAIL("outside the slice changed"); break; }
		case 2: { Matrix<> u(n, 2); u = Zeros; auto t = u.T(); auto v = t[1]; vfill(g, v, "column"); break; }
		case 3: { Vector<4> v; z(v); int k = g.range(1, 4); judge(g, k != 4, [&] { switch (k) { case 1: Fill(v) = 1; break; case 2: Fill(v) = 1, 2; break; case 3: Fill(v) = 1, 2, 3; break; case 4: Fill(v) = 1, 2, 3, 4; break; } }, str("Fill of Vector<4> with ", k)); break; }
	}
}
template<class M> void mfill(Gen& g, M& m, const char* nm) {
	int n = m.num_rows() * m.num_cols(), k = g.range(1, 6);
	auto run = [&] { switch (k) { case 1: Fill(m) = 1; break; case 2: Fill(m) = 1, 2; break; case 3: Fill(m) = 1, 2, 3; break; case 4: Fill(m) = 1, 2, 3, 4; break; case 5: Fill(m) = 1, 2, 3, 4, 5; break; case 6: Fill(m) = 1, 2, 3, 4, 5, 6; break; } };
	judge(g, k != n, run, str("Fill of ", nm, " ", m.num_rows(), "x", m.num_cols(), " with ", k));
	if (k == n) for (int i = 0; i < n; i++) if (m(i / m.num_cols(), i % m.num_cols()) != i + 1) FAIL("element " << i);
}
PROP(fill_matrix, 2) {
	int r = g.range(1, 4), c = g.range(1, 4);
	switch (g.pick(5)) {
		case 0: { Matrix<> m(r, c); m = Zeros; mfill(g, m, "Matrix<>"); break; }
		case 1: { Matrix<Dynamic, Dynamic, double, ColMajor> m(r, c); m = Zeros; mfill(g, m, "ColMajor"); break; }
		case 2: { Matrix<2, Dynamic> m(2, c); m = Zeros; mfill(g, m, "Matrix<2,Dynamic>"); break; }
		case 3: { Matrix<> u(r + 1, c + 1); u = Zeros; auto m = u.slice(1, 0, r, c); mfill(g, m, "slice"); for (int j = 0; j <= c; j++) if (u(0, j) != 0) FAIL("outside"); break; }
		case 4: { Matrix<2, 2> m = Zeros; int k = g.range(1, 4); judge(g, k != 4, [&] { switch (k) { case 1: Fill(m) = 1; break; case 2: Fill(m) = 1, 2; break; case 3: Fill(m) = 1, 2, 3; break; case 4: Fill(m) = 1, 2, 3, 4; break; } }, str("Fill of Matrix<2,2> with ", k)); break; }
	}
}
PROP(data, 2) {
	int r = g.range(1, 4), c = g.range(1, 4), k = g.range(2, 6); Matrix<> m(r, c); m = Zeros; Matrix<Dynamic, Dynamic, double, ColMajor> w(r, c); w = Zeros; Vector<> v(r); z(v);
	auto to = [&](auto& x) { switch (k) { case 2: x = Data(1, 2); break; case 3: x = Data(1, 2, 3); break; case 4: x = Data(1, 2, 3, 4); break; case 5: x = Data(1, 2, 3, 4, 5); break; case 6: x = Data(1, 2, 3, 4, 5, 6); break; } };
	std::string s = str(" ", k, " values, ", r, "x", c);
	switch (g.pick(3)) {
		case 0: judge(g, r * c != k, [&] { to(m); }, "Matrix<>=Data" + s); break;
		case 1: judge(g, r * c != k, [&] { to(w); }, "ColMajor=Data" + s); break;
		case 2: judge(g, r != k, [&] { to(v); }, "Vector<>=Data" + s); break;
	}
}
#endif
