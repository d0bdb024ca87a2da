// V11: storage pre-filled on request.  Built once per mode: TOON_INITIALIZE_NAN,
// _QNAN, _SNAN, _VAL, _RANDOM and none.  The model knows which elements the
// program has initialised; all others must carry the mark.
#include "common.h"
#include <TooN/LU.h>
#ifndef PART
#define PART 0
#endif
#if defined TOON_INITIALIZE_NAN || defined TOON_INITIALIZE_QNAN || defined TOON_INITIALIZE_SNAN
template<class P> bool marked(const P& x) { if (std::numeric_limits<P>::has_quiet_NaN) return x != x; return x == P(0); }
const bool MARKS = true;
#elif defined TOON_INITIALIZE_VAL
template<class P> bool marked(const P& x) { return x == P(TOON_INITIALIZE_VAL); }
const bool MARKS = true;
#else
template<class P> bool marked(const P&) { return true; }
const bool MARKS = false;
#endif
// a model element: value, or not initialised
struct E { bool set; double v; };
static int fresh;
template<class P> void cmp(const std::vector<E>& m, int i, const P& x, const char* what) {
	if (m[i].set) { if (!(x == P(m[i].v))) FAIL(what << ": initialised element " << i << " is " << x << " instead of " << m[i].v); }
	else if (!marked(x)) FAIL(what << ": uninitialised element " << i << " of " << m.size() << " holds " << x << " instead of the mark");
}
template<class V> void vcmp(const std::vector<E>& m, const V& v, const char* what) { if (v.size() != (int)m.size()) FAIL(what << ": size " << v.size() << " instead of " << m.size()); for (int i = 0; i < v.size(); i++) cmp(m, i, v[i], what); }
template<class M> void mcmp(const std::vector<E>& m, int r, int c, const M& x, const char* what) { if (x.num_rows() != r || x.num_cols() != c) FAIL(what << ": size"); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) cmp(m, i * c + j, x(i, j), what); }
// dirty memory so that unmarked elements show
static void dirty(Gen& g) { int n = g.range(1, 40); std::vector<std::unique_ptr<char[]>> b; for (int k = 0; k < 3; k++) { b.emplace_back(new char[n * 8]); memset(b.back().get(), 0x11, n * 8); } }
__attribute__((noinline)) static void dirty_stack() { volatile char c[4096]; for (size_t i = 0; i < sizeof c; i++) c[i] = 0x22; }

template<class P> void resizable_history(Gen& g) {
	Vector<Resizable, P> v; std::vector<E> m; int steps = g.range(1, 12); g.nontrivial(steps > 2); g.note("steps", steps);
	{ int n = g.range(0, 9); if (g.flag()) { Vector<Resizable, P> w(n); vcmp(std::vector<E>(n, E{ false, 0 }), w, "new resizable vector"); } }
	for (int s = 0; s < steps; s++) {
		dirty(g); int op = g.pick(7), n = g.size(0, 12, 80); g.note("op", op); g.note("n", n);
		switch (op) {
			case 0: v.resize(n); m.resize(n, E{ false, 0 }); break;
			case 1: if (m.size()) { int i = g.pick(m.size()); v[i] = P(++fresh % 90); m[i] = E{ true, (double)(fresh % 90) }; } break;
			case 2: { Vector<Dynamic, P> d(n); for (int i = 0; i < n; i++) d[i] = P(++fresh % 90 + 1); v = d; m.clear(); for (int i = 0; i < n; i++) m.push_back(E{ true, (double)RV(rv(d))[i] }); break; }
			case 3: v = Zeros(n); m.assign(n, E{ true, 0 }); break;
			case 4: v.resize(0); m.clear(); break;
			case 5: { Vector<Resizable, P> w(v); vcmp(m, w, "copy"); w.resize((int)m.size() + n); auto mm = m; mm.resize(m.size() + n, E{ false, 0 }); vcmp(mm, w, "grown copy"); if (g.flag()) { v = w; m = mm; } break; }
			default: v = Ones(n) * P(3); m.assign(n, E{ true, 3 });
		}
		vcmp(m, v, "resizable vector");
	}
}
template<class V> void probe_v(Gen& g, int n, const char* what) { // in a buffer with guards
	const size_t G = 64; alignas(16) static unsigned char buf[8192]; static_assert(sizeof(V) + 2 * G < sizeof buf, "buffer"); unsigned char fill = (unsigned char)g.range(1, 255); memset(buf, fill, sizeof buf);
	V* v = new (buf + G) V; if (v->size() != n) FAIL(what << ": size"); for (int i = 0; i < n; i++) if (!marked((*v)[i])) FAIL(what << ": element " << i << " not marked");
	for (size_t i = 0; i < G; i++) if (buf[i] != fill) FAIL(what << ": memory before the object changed"); for (size_t i = G + sizeof(V); i < sizeof buf; i++) if (buf[i] != fill) FAIL(what << ": memory after the object changed");
	int k = g.pick(n); (*v)[k] = 5; { V w(*v); for (int i = 0; i < n; i++) { if (i == k ? !(w[i] == std::decay_t<decltype(w[i])>(5)) : !marked(w[i])) FAIL(what << ": copy, element " << i); } } v->~V();
}
template<class P> void fresh_objects(Gen& g) {
	dirty(g); dirty_stack(); int r = g.size(1, 9, 60), c = g.size(1, 9, 60), which = g.pick(16); g.nontrivial(); g.note("which", which); g.note("r", r); g.note("c", c);
	auto un = [](int n) { return std::vector<E>(n, E{ false, 0 }); };
	switch (which) {
		case 0: { Vector<Dynamic, P> v(r); vcmp(un(r), v, "Vector<>(n)"); break; }
		case 1: { Matrix<Dynamic, Dynamic, P> m(r, c); mcmp(un(r * c), r, c, m, "Matrix<>(r,c)"); break; }
		case 2: { Matrix<Dynamic, Dynamic, P, ColMajor> m(r, c); mcmp(un(r * c), r, c, m, "column-major Matrix<>(r,c)"); break; }
		case 3: { Matrix<3, Dynamic, P> m(3, c); mcmp(un(3 * c), 3, c, m, "Matrix<3,Dynamic>(3,c)"); break; }
		case 4: { Matrix<Dynamic, 4, P, ColMajor> m(r, 4); mcmp(un(r * 4), r, 4, m, "Matrix<Dynamic,4,ColMajor>"); break; }
		case 5: { Matrix<3, 4, P> m; mcmp(un(12), 3, 4, m, "Matrix<3,4>"); break; } case 6: { Matrix<12, 13, P> m; mcmp(un(156), 12, 13, m, "Matrix<12,13>"); break; } case 7: { Matrix<2, 5, P, ColMajor> m; mcmp(un(10), 2, 5, m, "Matrix<2,5,ColMajor>"); break; }
		case 8: probe_v<Vector<3, P>>(g, 3, "Vector<3>"); break; case 9: probe_v<Vector<7, P>>(g, 7, "Vector<7>"); break; case 10: probe_v<Vector<1, P>>(g, 1, "Vector<1>"); break;
		case 11: { Vector<300, P> v; vcmp(un(300), v, "Vector<300>"); v[7] = 4; Vector<300, P> w(v); auto m = un(300); m[7] = E{ true, 4 }; vcmp(m, w, "copied Vector<300>"); break; }
		case 12: { std::unique_ptr<Vector<5, P>[]> a(new Vector<5, P>[r]); for (int i = 0; i < r; i++) vcmp(un(5), a[i], "array of Vector<5>"); break; }
		case 13: { Matrix<Dynamic, Dynamic, P> m(r, c); auto e = un(r * c); int k = g.pick(r * c); m(k / c, k % c) = 9; e[k] = E{ true, 9 }; Matrix<Dynamic, Dynamic, P> n(m); mcmp(e, r, c, n, "copied matrix"); mcmp(e, r, c, m, "original of a copied matrix"); Matrix<Dynamic, Dynamic, P, ColMajor> o(m); mcmp(e, r, c, o, "matrix copied to the other layout"); break; }
		case 14: { Vector<4, P> v = makeVector(P(1), P(2), P(3), P(4)); std::vector<E> e; for (int i = 1; i <= 4; i++) e.push_back(E{ true, (double)i }); vcmp(e, v, "initialised vector"); Vector<Dynamic, P> d(v); vcmp(e, d, "dynamic copy"); Vector<4, P> z = Zeros; vcmp(std::vector<E>(4, E{ true, 0 }), z, "Zeros"); Vector<Dynamic, P> b{ P(1), P(2), P(3), P(4) }; vcmp(e, b, "brace list"); Vector<4, P> bs{ { P(1), P(2), P(3), P(4) } }; vcmp(e, bs, "brace list (static)"); Vector<Resizable, P> br{ P(1), P(2), P(3), P(4) }; vcmp(e, br, "brace list (resizable)"); break; }
		default: { Vector<Dynamic, P> v(r); int a = g.pick(r), l = g.range(0, r - a); auto e = un(r); v.slice(a, l) = Ones * P(2); for (int i = 0; i < l; i++) e[a + i] = E{ true, 2 }; vcmp(e, v, "partly initialised vector"); Matrix<2, 2, P> i = Identity; std::vector<E> f = { { true, 1 }, { true, 0 }, { true, 0 }, { true, 1 } }; mcmp(f, 2, 2, i, "Identity"); Matrix<2, 2, P> o = i * i + i; for (auto& x : f) x.v *= 2; mcmp(f, 2, 2, o, "expression"); }
	}
}
PROP(resizable, 3) { switch (g.pick(3)) { case 0: resizable_history<double>(g); break; case 1: resizable_history<float>(g); break; case 2: resizable_history<int>(g); break; } }
PROP(creation, 3) { switch (g.pick(4)) { case 0: fresh_objects<double>(g); break; case 1: fresh_objects<float>(g); break; case 2: fresh_objects<int>(g); break; case 3: fresh_objects<std::complex<double>>(g); break; } }
// computations on initialised data give what they give without pre-filling
PROP(computations, 1) {
	int n = g.range(1, 6), k = g.range(1, 4); RM a = gen_rm(g, n, n, 0), b = gen_rm(g, n, k, 0); g.nontrivial(n > 1); Matrix<> A = dmat(a), B = dmat(b); same(rm(A * B), mul(a, b), 0, "product"); same(rm(A.T() * A), mul(T(a), a), 0, "gram matrix"); Vector<> x = A[0]; same(rv(A * x), mul(a, rv(x)), 0, "matrix times vector");
	LD d = det(a); if (std::fabs(d) < 0.5L) return; LU<> lu(A); RM i = inv(a); same(rm(lu.get_inverse()), i, 1e-9L * (1 + maxabs(i)) * (1 + maxabs(i) * maxabs(a)), "inverse"); CLOSE(lu.determinant(), d, 1e-8L * std::fabs(d) + 1e-6L, "determinant");
}
#ifdef TOON_INITIALIZE_RANDOM
// every byte of the storage, and no other, takes random values
template<class V> void random_fill(Gen& g) {
	const size_t G = 16; alignas(16) unsigned char buf[sizeof(V) + 2 * G]; bool seen[sizeof(V)] = { false }; g.nontrivial();
	for (int t = 0; t < 24; t++) { memset(buf, 0x5a, sizeof buf); V* v = new (buf + G) V; for (size_t i = 0; i < sizeof buf; i++) { bool in = i >= G && i < G + sizeof(V); if (!in && buf[i] != 0x5a) FAIL("byte " << (int)i - (int)G << " outside the object changed"); if (in && buf[i] != 0x5a) seen[i - G] = true; } v->~V(); }
	for (size_t i = 0; i < sizeof(V); i++) if (!seen[i]) FAIL("byte " << i << " of " << sizeof(V) << " is never filled");
}
PROP(random_bytes, 1) { switch (g.pick(6)) { case 0: random_fill<Vector<3, double>>(g); break; case 1: random_fill<Vector<3, float>>(g); break; case 2: random_fill<Vector<5, char>>(g); break; case 3: random_fill<Matrix<3, 3, short>>(g); break; case 4: random_fill<Vector<7, unsigned char>>(g); break; case 5: random_fill<Vector<2, char>>(g); break; } }
#endif
