// V05: initialisers put the k-th value where the k-th position is.
#include "kinds.h"
#ifndef PART
#define PART 0
#endif
template<class A, class B> struct SameT { static const bool v = false; }; template<class A> struct SameT<A, A> { static const bool v = true; };

// call f with the integral constant equal to n (1..N)
template<int N, class F> void arity(int n, F&& f) { if constexpr (N > 0) { if (n == N) f(std::integral_constant<int, N>()); else arity<N - 1>(n, f); } }
template<class P, size_t... I> auto mv_(const std::vector<P>& x, std::index_sequence<I...>) { return makeVector(x[I]...); }
template<class P, size_t... I> auto dt_(const std::vector<P>& x, std::index_sequence<I...>) { return Data(x[I]...); }
template<int N, class P> auto mv(const std::vector<P>& x) { return mv_(x, std::make_index_sequence<N>()); }
template<int N, class P> auto dt(const std::vector<P>& x) { return dt_(x, std::make_index_sequence<N>()); }
template<class V, class P, size_t... I> void fill_(V& v, const std::vector<P>& x, std::index_sequence<I...>) { ((Fill(v) = x[0]), ..., x[I + 1]); }
template<int N, class V, class P> void fill(V& v, const std::vector<P>& x) { fill_(v, x, std::make_index_sequence<N - 1>()); }

// distinct values, so that any misplacement shows
template<class P> std::vector<P> values(Gen& g, int n) {
	std::vector<P> x(n); int base = g.small(50), step = 1 + g.pick(9); bool frac = g.flag();
	for (int i = 0; i < n; i++) x[i] = P(base + step * i) + (std::is_integral<P>::value ? P(0) : P(frac ? 0.25 : 0));
	if (g.chance(40)) { bool all = g.flag(); for (auto& e : x) if (all || g.chance(20)) e = edge_value<P>(g); g.tag("values at the edges of the type"); }
	return x;
}
// the value itself, to the last bit and the sign of zero
template<class A, class B> bool ne(const A& a, const B& b) { return !same_value<LD>((LD)a, (LD)b); }
template<class P, class V> void vcheck(const V& v, const std::vector<P>& x, const char* w) {
	if (v.size() != (int)x.size()) FAIL(w << ": size " << v.size() << " instead of " << x.size());
	for (int i = 0; i < v.size(); i++) if (ne(v[i], x[i])) FAIL(w << ": element " << i << " is " << v[i] << " instead of " << x[i]);
}
template<class P, class M> void mcheck(const M& m, const std::vector<P>& x, const char* w) {
	for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) if (ne(m(i, j), x[i * m.num_cols() + j])) FAIL(w << ": entry (" << i << "," << j << ") is " << m(i, j) << " instead of " << x[i * m.num_cols() + j]);
}
template<class P> RV torv(const std::vector<P>& x) { RV o; for (auto e : x) o.push_back(e); return o; }

#if PART == 0
template<class P> void make_vector_of(Gen& g) {
	int n = g.range(1, 30); auto x = values<P>(g, n); g.note("n", n); g.nontrivial(n > 1); g.tag("makeVector");
	arity<30>(n, [&](auto N) {
		auto v = mv<N.value>(x);
		static_assert(SameT<decltype(v), Vector<N.value, P>>::v, "makeVector of n values of type P is a Vector<n,P>");
		vcheck(v, x, "makeVector");
		Vector<> d(n); d = mv<N.value>(x); vcheck(d, x, "Vector<> = makeVector");
		Vector<Resizable> r; r = mv<N.value>(x); vcheck(r, x, "Vector<Resizable> = makeVector");
		Matrix<> m(n, 3); m = Zeros; m.T()[1] = mv<N.value>(x); for (int i = 0; i < n; i++) if (ne(m(i, 1), x[i]) || m(i, 0) != 0 || m(i, 2) != 0) FAIL("column assigned from makeVector");
		Vector<> big(n + 3); for (int i = 0; i < n + 3; i++) big[i] = -1000; big.slice(2, n) = mv<N.value>(x);
		for (int i = 0; i < n; i++) if (ne(big[i + 2], x[i])) FAIL("slice assigned from makeVector"); if (big[0] != -1000 || big[1] != -1000 || big[n + 2] != -1000) FAIL("outside of the assigned slice changed");
	});
}
PROP(make_vector, 3) { switch (g.pick(3)) { case 0: make_vector_of<double>(g); break; case 1: make_vector_of<int>(g); break; case 2: make_vector_of<float>(g); break; } }
template<int I> using mixed_t = std::conditional_t<I % 3 == 0, double, std::conditional_t<I % 3 == 1, int, float>>;
template<size_t... I> auto mixed_vector(const std::vector<double>& x, std::index_sequence<I...>) { return makeVector((mixed_t<I>)x[I]...); }
PROP(make_vector_mixed_all, 1) {
	int n = g.range(2, 30); std::vector<double> x(n); int base = g.small(50), step = 1 + g.pick(9); for (int i = 0; i < n; i++) x[i] = base + step * i + (i % 3 != 1 ? 0.25 : 0); g.note("n", n); g.nontrivial(); g.tag("makeVector, mixed types");
	arity<30>(n, [&](auto N) { if constexpr (N.value > 1) { auto v = mixed_vector(x, std::make_index_sequence<N.value>()); static_assert(SameT<decltype(v), Vector<N.value>>::v, "makeVector of mixed types is a vector of doubles"); vcheck(v, x, "makeVector of mixed types"); } });
}
PROP(make_vector_mixed, 1) {
	// values of mixed types make a vector of doubles
	int a = g.small(9); float b = g.small(9) / 4.0f; double c = g.uniform(-2, 2); g.nontrivial(); g.tag("makeVector, mixed types");
	auto v = makeVector(a, b, c); static_assert(SameT<decltype(v), Vector<3, double>>::v, ""); if (v[0] != a || v[1] != b || v[2] != c) FAIL("makeVector(int,float,double)");
	Vector<5> w = makeVector(c, a, b, a, c); if (w[0] != c || w[1] != a || w[2] != b || w[3] != a || w[4] != c) FAIL("makeVector of five mixed values");
	Matrix<1, 3> m; m = Data(a, b, c); if (m(0, 0) != a || m(0, 1) != b || m(0, 2) != c) FAIL("Data of mixed values");
	Matrix<2, 2> q(Data(1, 2.5, a, c)); if (q(0, 0) != 1 || q(0, 1) != 2.5 || q(1, 0) != a || q(1, 1) != c) FAIL("Data of mixed values");
	std::complex<double> z(c, b); auto vz = makeVector(z, -z, z + 1.0); static_assert(SameT<decltype(vz), Vector<3, std::complex<double>>>::v, ""); if (vz[0] != z || vz[1] != -z || vz[2] != z + 1.0) FAIL("makeVector of complex");
	Vector<3, std::complex<double>> f; Fill(f) = z, -z, z * 2.0; if (f[0] != z || f[1] != -z || f[2] != z * 2.0) FAIL("Fill of complex");
}
#endif

#if PART >= 1 && PART <= 4
// PART 1..4: arities 1..25, 26..50, 51..75, 76..100 (every one is separate code)
namespace { // the same names in every part
const int LO = (PART - 1) * 25 + 1, HI = PART * 25;
template<int N, class F> void arity_from(int n, F&& f) { if constexpr (N >= LO) { if (n == N) f(std::integral_constant<int, N>()); else arity_from<N - 1>(n, f); } }
template<class P> void data_of(Gen& g) {
	int n = g.range(LO, HI); auto x = values<P>(g, n); g.note("n", n); g.nontrivial(n > 1); g.tag("Data"); g.tag("more than 75 values", n > 75);
	std::vector<int> ds; for (int d = 1; d <= n; d++) if (n % d == 0) ds.push_back(d);
	int r = g.from(ds), c = n / r, how = g.pick(4); g.note("r", r); g.note("how", how);
	arity_from<HI>(n, [&](auto N) {
		auto d = dt<N.value>(x);
		if (how == 0) { Matrix<Dynamic, Dynamic, P> m(r, c); m = d; mcheck(m, x, "Matrix<> = Data"); }
		else if (how == 1) { Matrix<Dynamic, Dynamic, double, ColMajor> m(r, c); m = d; mcheck(m, x, "ColMajor = Data"); }
		else if (how == 2) { Vector<N.value, P> v(d); vcheck(v, x, "Vector<N>(Data)"); Vector<N.value, P> v2; v2 = d; vcheck(v2, x, "Vector<N> = Data"); }
		else { Vector<> u(n + 2); for (int i = 0; i < n + 2; i++) u[i] = -777; u.slice(1, n) = d; for (int i = 0; i < n; i++) if (ne(u[i + 1], x[i])) FAIL("slice = Data: element " << i); if (u[0] != -777 || u[n + 1] != -777) FAIL("slice = Data wrote outside"); }
	});
}
// values of several types: the list is one of doubles
template<int I> using mixed_t = std::conditional_t<I % 3 == 0, double, std::conditional_t<I % 3 == 1, int, float>>;
template<size_t... I> auto mixed_data(const std::vector<double>& x, std::index_sequence<I...>) { return Data((mixed_t<I>)x[I]...); }
void data_mixed(Gen& g) {
	int n = g.range(std::max(LO, 2), HI); std::vector<double> x(n); int base = g.small(50), step = 1 + g.pick(9); for (int i = 0; i < n; i++) x[i] = base + step * i + (i % 3 != 1 ? 0.25 : 0); g.note("n", n); g.nontrivial(); g.tag("Data, mixed types");
	arity_from<HI>(n, [&](auto N) { if constexpr (N.value > 1) { auto d = mixed_data(x, std::make_index_sequence<N.value>()); Vector<N.value> v(d); vcheck(v, x, "Vector<N>(Data of mixed types)"); Matrix<Dynamic, Dynamic, double, ColMajor> m(1, n); m = d; mcheck(m, x, "ColMajor = Data of mixed types"); } });
}
PROP(data, 3) { switch (g.pick(3)) { case 0: data_of<double>(g); break; case 1: data_of<float>(g); break; case 2: data_mixed(g); break; } }
}
#endif

#if PART == 5
// static shapes
template<int R, int C, class P> void shape(Gen& g) {
	const int N = R * C; auto x = values<P>(g, N); RM z(R, C); g.nontrivial(N > 1); g.note("shape", std::to_string(R) + "x" + std::to_string(C));
	int how = g.pick(3);
	if (how == 0) {
		g.tag("Fill of a matrix");
		with_mat<R, C, P, MK_ALL & ~MK_CONST>(g, z, [&](auto& m) { fill<N>(m, x); mcheck(m, x, "Fill"); }, true);
	} else if (how == 1) {
		g.tag("Data to a matrix");
		with_mat<R, C, P, MK_ALL & ~MK_CONST>(g, z, [&](auto& m) { m = dt<N>(x); mcheck(m, x, "Data"); }, true);
	} else {
		g.tag("construction from Data");
		Matrix<R, C, P> a(dt<N>(x)); mcheck(a, x, "Matrix(Data)");
		Matrix<R, C, P, ColMajor> b = dt<N>(x); mcheck(b, x, "ColMajor(Data)");
		std::vector<P> mem(N, P(0)); Matrix<R, C, P, Reference::RowMajor> c(&mem[0]); c = dt<N>(x); mcheck(c, x, "Reference = Data"); for (int i = 0; i < N; i++) if (ne(mem[i], x[i])) FAIL("wrapped memory");
		Matrix<R, C, P, Reference::ColMajor> d(&mem[0]); d = dt<N>(x); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) if (ne(mem[j * R + i], x[i * C + j])) FAIL("wrapped column-major memory");
	}
}
PROP(shapes_a, 3) {
	switch (g.pick(8)) {
		case 0: shape<1, 1, double>(g); break; case 1: shape<1, 2, double>(g); break; case 2: shape<2, 1, double>(g); break; case 3: shape<2, 2, double>(g); break;
		case 4: shape<3, 1, int>(g); break; case 5: shape<1, 5, double>(g); break; case 6: shape<2, 3, float>(g); break; case 7: shape<3, 2, double>(g); break;
	}
}
#endif
#if PART == 6
#define PART5_SHAPE
template<int R, int C, class P> void shape(Gen& g) {
	const int N = R * C; auto x = values<P>(g, N); RM z(R, C); g.nontrivial(N > 1); g.note("shape", std::to_string(R) + "x" + std::to_string(C));
	const int K = MK_STATIC | MK_STATICCOL | MK_DYN | MK_DYNCOL | MK_SSLICE | MK_DSLICE | MK_T;
	if (g.flag()) { g.tag("Fill of a matrix"); with_mat<R, C, P, K>(g, z, [&](auto& m) { fill<N>(m, x); mcheck(m, x, "Fill"); }, true); }
	else { g.tag("Data to a matrix"); with_mat<R, C, P, K>(g, z, [&](auto& m) { m = dt<N>(x); mcheck(m, x, "Data"); }, true); }
}
PROP(shapes_b, 3) {
	switch (g.pick(6)) {
		case 0: shape<3, 3, double>(g); break; case 1: shape<4, 4, double>(g); break; case 2: shape<3, 4, float>(g); break; case 3: shape<5, 2, int>(g); break;
		case 4: shape<6, 6, double>(g); break; case 5: shape<2, 7, double>(g); break;
	}
}
#endif
#if PART == 7
template<int N, class P> void fill_of(Gen& g) {
	auto x = values<P>(g, N); RV z(N, 0); g.nontrivial(N > 1); g.note("n", N);
	if (g.flag()) { g.tag("Fill of a vector"); with_vec<N, P, VK_ALL & ~VK_CONST & ~VK_CSLICE>(g, z, [&](auto& v) { fill<N>(v, x); vcheck(v, x, "Fill"); }, true); }
	else { g.tag("Data to a vector"); with_vec<N, P, VK_ALL & ~VK_CONST & ~VK_CSLICE>(g, z, [&](auto& v) { v = dt<N>(x); vcheck(v, x, "Data"); }, true); }
}
PROP(vectors, 3) {
	switch (g.pick(8)) {
		case 0: fill_of<1, double>(g); break; case 1: fill_of<2, double>(g); break; case 2: fill_of<3, int>(g); break; case 3: fill_of<4, float>(g); break;
		case 4: fill_of<5, double>(g); break; case 5: fill_of<8, double>(g); break; case 6: fill_of<13, double>(g); break; case 7: fill_of<21, double>(g); break;
	}
}
// brace lists
template<class P> void braces(Gen& g) {
	auto x = values<P>(g, 7); g.nontrivial(); g.tag("brace list"); int k = g.range(1, 7); g.note("length", k);
	auto sub = [&](int n) { return std::vector<P>(x.begin(), x.begin() + n); };
	auto both = [&](auto& d, auto& r) { vcheck(d, sub(k), "Vector<> = {...}"); vcheck(r, sub(k), "Vector<Resizable> = {...}"); };
	auto stat = [&](auto& s) { vcheck(s, sub(k), "Vector<N> = {...}"); };
	switch (k) {
		case 1: { Vector<Dynamic, P> d = { x[0] }; Vector<Resizable, P> r = { x[0] }; both(d, r); break; }
		case 2: { Vector<Dynamic, P> d = { x[0], x[1] }; Vector<Resizable, P> r = { x[0], x[1] }; both(d, r); Vector<2, P> s = { { x[0], x[1] } }; stat(s); break; }
		case 3: { Vector<Dynamic, P> d{ x[0], x[1], x[2] }; Vector<Resizable, P> r{ x[0], x[1], x[2] }; both(d, r); Vector<3, P> s = { { x[0], x[1], x[2] } }; stat(s); break; }
		case 4: { Vector<Dynamic, P> d = { x[0], x[1], x[2], x[3] }; Vector<Resizable, P> r = { x[0], x[1], x[2], x[3] }; both(d, r); Vector<4, P> s({ x[0], x[1], x[2], x[3] }); stat(s); break; }
		case 5: { Vector<Dynamic, P> d = { x[0], x[1], x[2], x[3], x[4] }; Vector<Resizable, P> r; r = Vector<Resizable, P>{ x[0], x[1], x[2], x[3], x[4] }; both(d, r); Vector<5, P> s({ x[0], x[1], x[2], x[3], x[4] }); stat(s); break; }
		case 6: { Vector<Dynamic, P> d({ x[0], x[1], x[2], x[3], x[4], x[5] }); Vector<Resizable, P> r({ x[0], x[1], x[2], x[3], x[4], x[5] }); both(d, r); break; }
		case 7: { Vector<Dynamic, P> d = { x[0], x[1], x[2], x[3], x[4], x[5], x[6] }; Vector<Resizable, P> r = { x[0], x[1], x[2], x[3], x[4], x[5], x[6] }; both(d, r); r.resize(3); vcheck(r, sub(3), "resized brace list"); break; }
	}
}
PROP(brace_lists, 2) { if (g.flag()) braces<double>(g); else if (g.flag()) braces<int>(g); else braces<float>(g); }
// a list of doubles into a vector of another element type
PROP(array_conversion, 1) {
	g.nontrivial(); int a = g.small(9), b = g.small(9), c = g.small(9); const double x[3] = { double(a), double(b), double(c) };
	Vector<3, float> f(x); Vector<3> d(x); for (int i = 0; i < 3; i++) if (f[i] != (float)x[i] || d[i] != x[i]) FAIL("element " << i);
	const int y[4] = { a, b, c, a - 1 }; Vector<4> e(y); for (int i = 0; i < 4; i++) if (e[i] != y[i]) FAIL("element " << i);
}
#endif
