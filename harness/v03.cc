// V03: histories of construction, copy, move, assignment, swap and resize over a
// pool of vectors and matrices, against a plain model.  Built with sanitizers;
// every allocation is counted.
#include "common.h"
#include <memory>
#include <algorithm>
#include <functional>
#include <cmath>
#include <variant>
#include <new>
#ifndef PART
#define PART 0
#endif

// an element that owns a resource: any unconstructed, twice destroyed or
// bitwise-copied element shows up in its ledger
struct Cell {
	double* p;
	static inline long live = 0;
	Cell(): p(new double(-1)) { live++; }
	Cell(double d): p(new double(d)) { live++; }
	Cell(const Cell& c): p(new double(*c.p)) { live++; }
	Cell& operator=(const Cell& c) { *p = *c.p; return *this; }
	~Cell() { delete p; p = 0; live--; }
	operator double() const { return *p; }
};

struct E { bool known; double v; };
typedef std::vector<E> ME;
struct MMd { int r, c; ME e; };
static std::string show(const ME& m) { std::ostringstream o; o << "["; for (auto& e : m) if (e.known) o << e.v << " "; else o << "? "; o << "]"; return o.str(); }

template<class P> struct VecPool {
	typedef Vector<3, P> A; typedef Vector<150, P> Big; typedef Vector<Dynamic, P> D; typedef Vector<Resizable, P> R;
	typedef std::variant<std::unique_ptr<A>, std::unique_ptr<Big>, std::unique_ptr<D>, std::unique_ptr<R>> Obj;
	std::vector<Obj> o; std::vector<ME> m;
	Gen& g; double next = 1; std::string log; bool verbose;
	int resizes = 0, assigns = 0;
	VecPool(Gen& g_): g(g_) {}

	template<class V> static V make(int n) { if constexpr (V::SizeParameter > 0) return V(); else return V(n); }
	template<class V> static int fix(int n) { return V::SizeParameter > 0 ? V::SizeParameter : n; }
	template<class V> void look(const V& v, const ME& e, const std::string& w) {
		if (v.size() != (int)e.size()) FAIL(w << ": size " << v.size() << " instead of " << e.size() << "   history: " << log);
		for (int i = 0; i < v.size(); i++) if (e[i].known && !same_value<double>((double)v[i], e[i].v)) FAIL(w << ": element " << i << " is " << (double)v[i] << " instead of " << e[i].v << "   history: " << log);
	}
	void check() { for (size_t i = 0; i < o.size(); i++) std::visit([&](auto& p) { look(*p, m[i], "object " + std::to_string(i)); }, o[i]); }
	template<class V> void fill(V& v, ME& e) { e.resize(v.size()); bool edgy = g.chance(25); for (int i = 0; i < v.size(); i++) { double x = edgy && g.flag() ? edge_value<double>(g) : next; v[i] = P(x); e[i] = { true, x }; next++; } }
	template<class V> static V byvalue(const V& v) { V c(v); return c; }

	template<class V> void create() {
		int n = fix<V>(g.size(1, 8, 70));
		int how = g.pick(9);
		std::unique_ptr<V> p; ME e;
		std::string nm = "#" + std::to_string(o.size()) + "=" + (V::SizeParameter == -1 ? "dynamic" : V::SizeParameter > 0 ? "static" + std::to_string(n) : "resizable");
		if (how == 1 && V::SizeParameter != -1) { if constexpr (V::SizeParameter != -1) p.reset(new V()); n = p->size(); e.assign(n, E{ false, 0 }); log += nm + "();"; if (V::SizeParameter < 0 && n != 0) FAIL("a default resizable vector is not empty"); }
		else if (how >= 2 && how <= 5 && !o.empty()) {
			int s = g.pick(o.size()); bool done = false;
			std::visit([&](auto& q) {
				typedef typename std::decay<decltype(*q)>::type S;
				if constexpr (S::SizeParameter > 0 && V::SizeParameter > 0 && S::SizeParameter != V::SizeParameter) return;
				else {
					if (V::SizeParameter > 0 && q->size() != V::SizeParameter) return;
					e = m[s]; done = true;
					if (how == 2) { p.reset(new V(*q)); log += nm + "(copy of #" + std::to_string(s) + ");"; }
					else if (how == 3) { p.reset(new V(q->as_slice())); log += nm + "(copy of view of #" + std::to_string(s) + ");"; }
					else if (how == 4) {
						if constexpr (std::is_same<S, V>::value) { V t(*q); p.reset(new V(std::move(t))); log += nm + "(moved copy of #" + std::to_string(s) + ");"; }
						else { const S& cq = *q; p.reset(new V(cq)); log += nm + "(copy of const #" + std::to_string(s) + ");"; } }
					else if constexpr (std::is_same<S, V>::value) { p.reset(new V(byvalue(*q))); log += nm + "(returned copy of #" + std::to_string(s) + ");"; }
					else { S t(*q); p.reset(new V(t)); if (t.size()) t[0] = P(99); log += nm + "(copy of a temporary #" + std::to_string(s) + ");"; if (t.size() == 0) e.clear(); }
				}
			}, o[s]);
			if (!done) { p.reset(new V(make<V>(n))); fill(*p, e); log += nm + ";"; }
		}
		else if (how == 6) { p.reset(new V(Zeros(n))); e.assign(n, E{ true, 0 }); log += nm + "(Zeros);"; }
		else if (how == 7) { p.reset(new V(Ones(n))); e.assign(n, E{ true, 1 }); log += nm + "(Ones);"; }
		else { p.reset(new V(make<V>(n))); if (how == 8) { e.assign(n, E{ false, 0 }); log += nm + " uninitialised;"; } else { fill(*p, e); log += nm + " filled;"; } }
		o.push_back(std::move(p)); m.push_back(e);
	}
	template<class V> void one(V& v, ME& e, int i) {
		std::string nm = "#" + std::to_string(i);
		constexpr bool RS = V::SizeParameter == Resizable;
		switch (g.pick(12)) {
			case 10: case 11: { V t(std::move(v)); if (t.size() != (int)e.size()) FAIL(nm << ": size changes when it is moved   history: " << log); int k = g.pick(4); if (k == 0) v = t; else if (k == 1) v = t.as_slice(); else if (k == 2) v = Zeros(t.size()); else { const V& c = t; v = c; } if (k == 2) for (auto& x : e) x = { true, 0 }; log += nm + " moved away and assigned " + (k == 2 ? "Zeros;" : "from there;"); break; }
			case 0: if (v.size()) { int k = g.pick(v.size()); v[k] = P(next); e[k] = { true, next }; next++; log += nm + "[" + std::to_string(k) + "]=;"; } break;
			case 1: { const V& c = v; v = c; log += nm + "=itself;"; break; }
			case 2: if constexpr (RS) { int n = g.size(0, 12, 120); int old = v.size(); v.resize(n); e.resize(n); for (int k = old; k < n; k++) e[k] = { false, 0 }; log += nm + ".resize(" + std::to_string(n) + ");"; resizes++; } break;
			case 3: v = Zeros; for (auto& x : e) x = { true, 0 }; log += nm + "=Zeros;"; break;
			case 4: if constexpr (RS) { int n = g.range(1, 9); v = Ones(n); e.assign(n, E{ true, 1 }); log += nm + "=Ones(" + std::to_string(n) + ");"; resizes++; }
				else { v = Ones(v.size()); for (auto& x : e) x = { true, 1 }; log += nm + "=Ones(size);"; } break;
			case 5: { V t(v); if (t.size()) t[0] = P(-7); log += nm + " copied and the copy changed;"; break; }
			case 6: if constexpr (RS) { int n = g.range(1, 5); if (n == 1) v = makeVector(P(next)); else if (n == 2) v = makeVector(P(next), P(next + 1)); else if (n == 3) v = makeVector(P(next), P(next + 1), P(next + 2)); else { Vector<Dynamic, P> w(n); for (int k = 0; k < n; k++) w[k] = P(next + k); v = w; }
				e.resize(n); for (int k = 0; k < n; k++) e[k] = { true, next + k }; next += n; log += nm + "=vector of " + std::to_string(n) + ";"; resizes++; } break;
			case 7: if (v.size() > 1) { // one half of itself to the other: no overlap, as the order of the element copies is unspecified
				int n = v.size() / 2, s = g.range(n, v.size() - n); bool back = g.flag(); for (int k = 0; k < n; k++) (back ? e[s + k] : e[k]) = back ? e[k] : e[s + k];
				if (back) v.slice(s, n) = v.slice(0, n); else v.slice(0, n) = v.slice(s, n); log += nm + (back ? " first part copied to its end;" : " end copied to its first part;"); } break;
			case 8: { V t(v); v = t; log += nm + "=its copy;"; break; }
			case 9: fill(v, e); log += nm + " filled;"; break;
		}
	}
	template<class V, class W> void two(V& v, ME& e, W& w, ME& f, int i, int j) {
		constexpr int SV = V::SizeParameter, SW = W::SizeParameter;
		std::string a = "#" + std::to_string(i), b = "#" + std::to_string(j);
		int op = g.pick(7);
		if constexpr (SV > 0 && SW > 0 && SV != SW) {
			// statically different: only parts can be exchanged
			v.slice(0, 2) = w.slice(1, 2); if (&e == (ME*)&f) return; e[0] = f[1]; e[1] = f[2]; log += a + " head=" + b + " part;"; return;
		} else {
		bool fits = SV == Resizable || e.size() == f.size();
		if (op == 0 && fits) { v = w; e = f; log += a + "=" + b + ";"; assigns++; }
		else if (op == 1 && fits) { if (i == j && SV == Resizable) { v = v.as_slice(); log += a + "=its own view;"; } else { const W& c = w; v = c.as_slice(); e = f; log += a + "=view of " + b + ";"; } assigns++; }
		else if (op == 2) { // part of one into part of the other
			int n = std::min(v.size(), w.size()); if (!n) return; int l = g.range(1, n), s = g.range(0, v.size() - l), t = g.range(0, w.size() - l); if (i == j && t != s && std::abs(s - t) < l) return;
			v.slice(s, l) = w.slice(t, l); ME old = f; for (int k = 0; k < l; k++) e[s + k] = old[t + k]; log += a + ".slice(" + std::to_string(s) + "," + std::to_string(l) + ")=" + b + ".slice(" + std::to_string(t) + ");"; assigns++; }
		else if (op == 3 && SV == Resizable && i != j && w.size() > 0) { // take a part: the size follows
			int l = g.range(1, w.size()), t = g.range(0, w.size() - l); v = w.slice(t, l); e.assign(f.begin() + t, f.begin() + t + l); log += a + "=" + b + ".slice(" + std::to_string(t) + "," + std::to_string(l) + ");"; assigns++; resizes++; }
		else if (op == 4 && i != j) { // swap
			if constexpr (SV == SW) { if (SV == Resizable || v.size() == w.size()) { int k = g.pick(3); if (k == 0) { using std::swap; swap(v, w); } else if (k == 1) std::swap(v, w); else { if constexpr (SV < 0) v.swap(w); else { using std::swap; swap(v, w); } } std::swap(e, f); log += "swap(" + a + "," + b + ");"; } }
			else if (v.size() == w.size()) { using std::swap; auto x = v.as_slice(); auto y = w.as_slice(); swap(x, y); std::swap(e, f); log += "swap views of " + a + "," + b + ";"; } }
		else if (op == 5) { if constexpr (std::is_same<P, double>::value) { if (fits && e.size() && f.size()) { bool k = true; for (auto& x : f) if (!x.known) k = false; if (!k || SV == Resizable) return; for (auto& x : e) if (!x.known) k = false; if (!k) return; v += w; for (size_t q = 0; q < e.size(); q++) e[q].v += f[q].v; if (i == j) for (size_t q = 0; q < e.size(); q++) {} log += a + "+=" + b + ";"; } } }
		else if (op == 6 && i != j && v.size() == w.size()) { // element-wise swap of a part
			int n = v.size(); if (!n) return; int l = g.range(1, n), s = g.range(0, n - l); auto x = v.slice(s, l); auto y = w.slice(s, l); using std::swap; swap(x, y); for (int k = 0; k < l; k++) std::swap(e[s + k], f[s + k]); log += "swap parts of " + a + "," + b + ";"; }
		}
	}
	void run(int steps) {
		for (int s = 0; s < steps; s++) {
			g.live(log + " (next step)");
			int op = o.size() < 2 ? 0 : g.pick(10);
			if (op == 0 && o.size() < 8) { switch (g.pick(5)) { case 0: create<R>(); break; case 1: create<D>(); break; case 2: create<A>(); break; case 3: create<R>(); break; case 4: create<Big>(); break; } }
			else if (op == 1 && o.size() > 2) { int i = g.pick(o.size()); o.erase(o.begin() + i); m.erase(m.begin() + i); log += "destroy #" + std::to_string(i) + ";"; }
			else if (op <= 4) { int i = g.pick(o.size()); std::visit([&](auto& p) { one(*p, m[i], i); }, o[i]); }
			else { int i = g.pick(o.size()), j = g.pick(o.size()); std::visit([&](auto& p, auto& q) { two(*p, m[i], *q, m[j], i, j); }, o[i], o[j]); }
			check();
		}
	}
};

template<class P> struct MatPool {
	typedef Matrix<2, 3, P> A; typedef Matrix<12, 12, P, ColMajor> Big; typedef Matrix<Dynamic, Dynamic, P> D; typedef Matrix<Dynamic, Dynamic, P, ColMajor> C; typedef Matrix<2, Dynamic, P> S; typedef Matrix<Dynamic, 3, P, ColMajor> T3;
	typedef std::variant<std::unique_ptr<A>, std::unique_ptr<Big>, std::unique_ptr<D>, std::unique_ptr<C>, std::unique_ptr<S>, std::unique_ptr<T3>> Obj;
	std::vector<Obj> o; std::vector<MMd> m; Gen& g; double next = 1; std::string log; int assigns = 0;
	MatPool(Gen& g_): g(g_) {}
	template<class M> struct Dim; 
	template<int R, int Cc, class Q, class B> struct Dim<Matrix<R, Cc, Q, B>> { static const int r = R, c = Cc; };
	template<class M> static constexpr bool compat(int r, int c) { return (Dim<M>::r < 0 || Dim<M>::r == r) && (Dim<M>::c < 0 || Dim<M>::c == c); }
	template<class M> void look(const M& v, const MMd& e, const std::string& w) {
		if (v.num_rows() != e.r || v.num_cols() != e.c) FAIL(w << ": " << v.num_rows() << "x" << v.num_cols() << " instead of " << e.r << "x" << e.c << "   history: " << log);
		for (int i = 0; i < e.r; i++) for (int j = 0; j < e.c; j++) if (e.e[i * e.c + j].known && !same_value<double>((double)v(i, j), e.e[i * e.c + j].v)) FAIL(w << ": entry (" << i << "," << j << ") is " << (double)v(i, j) << " instead of " << e.e[i * e.c + j].v << "   history: " << log);
	}
	void check() { for (size_t i = 0; i < o.size(); i++) std::visit([&](auto& p) { look(*p, m[i], "object " + std::to_string(i)); }, o[i]); }
	template<class M> void fill(M& v, MMd& e) { bool edgy = g.chance(25); for (int i = 0; i < e.r; i++) for (int j = 0; j < e.c; j++) { double x = edgy && g.flag() ? edge_value<double>(g) : next; v(i, j) = P(x); e.e[i * e.c + j] = { true, x }; next++; } }
	template<class M> static M byvalue(const M& v) { M c(v); return c; }
	template<class M> void create() {
		int r = Dim<M>::r > 0 ? Dim<M>::r : g.size(1, 5, 30), c = Dim<M>::c > 0 ? Dim<M>::c : g.size(1, 5, 30);
		std::unique_ptr<M> p; MMd e{ r, c, ME(r * c, E{ false, 0 }) };
		std::string nm = "#" + std::to_string(o.size()) + "=" + std::to_string(Dim<M>::r) + "x" + std::to_string(Dim<M>::c);
		int how = g.pick(6);
		bool done = false;
		if (how >= 2 && !o.empty()) {
			int s = g.pick(o.size());
			std::visit([&](auto& q) {
				typedef typename std::decay<decltype(*q)>::type Q;
				if constexpr ((Dim<M>::r > 0 && Dim<Q>::r > 0 && Dim<M>::r != Dim<Q>::r) || (Dim<M>::c > 0 && Dim<Q>::c > 0 && Dim<M>::c != Dim<Q>::c)) return;
				else { if (!compat<M>(q->num_rows(), q->num_cols())) return;
					e = m[s]; done = true;
					if (how == 2) p.reset(new M(*q)); else if (how == 3) { auto t = q->T(); p.reset(new M(t.T())); } else if (how == 4) { if constexpr (std::is_same<M, Q>::value) { M t(*q); p.reset(new M(std::move(t))); } else p.reset(new M(q->slice(0, 0, q->num_rows(), q->num_cols()))); } else { if constexpr (std::is_same<M, Q>::value) p.reset(new M(byvalue(*q))); else { const Q& cq = *q; p.reset(new M(cq)); } }
					log += nm + "(copy " + std::to_string(how) + " of #" + std::to_string(s) + ");"; }
			}, o[s]);
		}
		if (!done) {
			if constexpr (Dim<M>::r > 0 && Dim<M>::c > 0) p.reset(new M()); else p.reset(new M(r, c));
			if (how == 1) { if (r == c && g.flag()) { if constexpr (Dim<M>::r < 0 || Dim<M>::c < 0 || Dim<M>::r == Dim<M>::c) *p = Identity; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) e.e[i * c + j] = { true, i == j ? 1. : 0. }; log += nm + "=Identity;"; } else log += nm + " uninitialised;"; } else { fill(*p, e); log += nm + " filled;"; }
		}
		o.push_back(std::move(p)); m.push_back(e);
	}
	template<class M> void one(M& v, MMd& e, int i) {
		std::string nm = "#" + std::to_string(i);
		switch (g.pick(6)) {
			case 0: { int r = g.pick(e.r), c = g.pick(e.c); v(r, c) = P(next); e.e[r * e.c + c] = { true, next }; next++; log += nm + " element;"; break; }
			case 1: { const M& c = v; v = c; log += nm + "=itself;"; break; }
			case 2: { v = Zeros; for (auto& x : e.e) x = { true, 0 }; log += nm + "=Zeros;"; break; }
			case 3: { M t(v); t(0, 0) = P(-5); log += nm + " copied and the copy changed;"; break; }
			case 4: { int r = g.pick(e.r); Vector<Dynamic, P> w(e.c); for (int j = 0; j < e.c; j++) { w[j] = P(next); e.e[r * e.c + j] = { true, next }; next++; } v[r] = w; log += nm + " row;"; break; }
			case 5: { int c = g.pick(e.c); Vector<Dynamic, P> w(e.r); for (int j = 0; j < e.r; j++) { w[j] = P(next); e.e[j * e.c + c] = { true, next }; next++; } v.T()[c] = w; log += nm + " column;"; break; }
		}
	}
	template<class M, class Q> void two(M& v, MMd& e, Q& w, MMd& f, int i, int j) {
		std::string a = "#" + std::to_string(i), b = "#" + std::to_string(j);
		int op = g.pick(4);
		if (op == 0 || op == 3) { // blocks
			int r = g.range(1, std::min(e.r, f.r)), c = g.range(1, std::min(e.c, f.c)), r0 = g.range(0, e.r - r), c0 = g.range(0, e.c - c), r1 = g.range(0, f.r - r), c1 = g.range(0, f.c - c);
			if (i == j) return;
			v.slice(r0, c0, r, c) = w.slice(r1, c1, r, c); for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) e.e[(r0 + x) * e.c + c0 + y] = f.e[(r1 + x) * f.c + c1 + y];
			log += a + " block=" + b + " block;"; assigns++; return; }
		if (op == 1) { // rows
			if (e.c != f.c) return; int r = g.pick(e.r), s = g.pick(f.r); ME old(f.e.begin() + s * f.c, f.e.begin() + s * f.c + f.c); Vector<Dynamic, P> t = w[s]; v[r] = t; for (int y = 0; y < e.c; y++) e.e[r * e.c + y] = old[y]; log += a + " row=" + b + " row;"; assigns++; return; }
		if constexpr (!((Dim<M>::r > 0 && Dim<Q>::r > 0 && Dim<M>::r != Dim<Q>::r) || (Dim<M>::c > 0 && Dim<Q>::c > 0 && Dim<M>::c != Dim<Q>::c))) {
			if (e.r == f.r && e.c == f.c) { v = w; e.e = f.e; log += a + "=" + b + ";"; assigns++; }
		}
	}
	void run(int steps) {
		for (int s = 0; s < steps; s++) {
			g.live(log + " (next step)");
			int op = o.size() < 2 ? 0 : g.pick(8);
			if (op == 0 && o.size() < 7) { switch (g.pick(6)) { case 0: create<D>(); break; case 1: create<C>(); break; case 2: create<A>(); break; case 3: create<S>(); break; case 4: create<T3>(); break; case 5: create<Big>(); break; } }
			else if (op == 1 && o.size() > 2) { int i = g.pick(o.size()); o.erase(o.begin() + i); m.erase(m.begin() + i); log += "destroy #" + std::to_string(i) + ";"; }
			else if (op <= 3) { int i = g.pick(o.size()); std::visit([&](auto& p) { one(*p, m[i], i); }, o[i]); }
			else { int i = g.pick(o.size()), j = g.pick(o.size()); std::visit([&](auto& p, auto& q) { two(*p, m[i], *q, m[j], i, j); }, o[i], o[j]); }
			check();
		}
	}
};

// allocation ledger
#if PART == 0
long g_news = 0;
void* operator new[](std::size_t n) { g_news++; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete[](void* p) noexcept { if (p) g_news--; free(p); }
void operator delete[](void* p, std::size_t) noexcept { if (p) g_news--; free(p); }
#else
extern long g_news;
#endif

// ---- as elements of standard containers
template<class V, class Make, class Same, class Key> void contained(Gen& g, const char* what, Make make, Same same, Key key) {
	long news = g_news; { std::vector<V> c; std::vector<double> m; std::string log; double next = 0; int steps = g.range(1, g.chance(20) ? 40 : 12);
		int pre = g.range(0, 20); auto put = [&] { double x = std::round(g.uniform(-20, 20)); if (g.flag()) c.push_back(make(x)); else { V t(make(x)); c.push_back(t); } m.push_back(x); }; for (int i = 0; i < pre; i++) put();
		for (int st = 0; st < steps; st++) { int op = g.pick(11), n = c.size(); int at = n ? g.pick(n) : 0, to = n ? g.range(at, n) : 0; switch (op) {
			case 0: put(); log += "push_back;"; break; case 1: { double x = next++; V t(make(x)); c.insert(c.begin() + at, t); m.insert(m.begin() + at, x); log += "insert;"; break; } case 2: { double x = next++; c.insert(c.begin() + at, make(x)); m.insert(m.begin() + at, x); log += "insert temporary;"; break; }
			case 3: if (n) { c.erase(c.begin() + at, c.begin() + to); m.erase(m.begin() + at, m.begin() + to); log += "erase;"; } break; case 4: c.reserve(n + g.range(1, 20)); log += "reserve;"; break;
			case 5: std::sort(c.begin(), c.end(), [&](const V& a, const V& b) { return key(a) < key(b); }); std::sort(m.begin(), m.end()); log += "sort;"; break; case 6: std::stable_sort(c.begin(), c.end(), [&](const V& a, const V& b) { return key(a) > key(b); }); std::sort(m.begin(), m.end(), std::greater<double>()); log += "stable_sort;"; break;
			case 7: std::rotate(c.begin(), c.begin() + at, c.end()); std::rotate(m.begin(), m.begin() + at, m.end()); log += "rotate;"; break; case 8: std::reverse(c.begin() + at, c.begin() + to); std::reverse(m.begin() + at, m.begin() + to); log += "reverse;"; break;
			case 9: { std::vector<V> d(c); c.swap(d); if (g.flag() && n) { c = d; } log += "copy of all;"; break; } case 10: { std::make_heap(c.begin(), c.end(), [&](const V& a, const V& b) { return key(a) < key(b); }); std::sort_heap(c.begin(), c.end(), [&](const V& a, const V& b) { return key(a) < key(b); }); std::sort(m.begin(), m.end()); log += "heap sort;"; break; } }
			if (c.size() != m.size()) FAIL(what << ": " << c.size() << " elements"); for (size_t i = 0; i < m.size(); i++) if (!same(c[i], m[i])) FAIL(what << ": element " << i << " is wrong after " << log); g.nontrivial(m.size() > 1); }
		g.note(what, log); }
	if (g_news != news) FAIL(what << ": " << (g_news - news) << " array allocations were never freed");
}
template<class Pool> void history(Gen& g, const char* what) {
	long live = Cell::live, news = g_news; std::string log;
	{
		Pool p(g);
		int steps = g.range(2, g.chance(20) ? 60 : 18);
		try { p.run(steps); } catch (...) { g.note(what, p.log); throw; }
		g.note(what, p.log); g.nontrivial(p.assigns > 0); log = p.log;
	}
	if (Cell::live != live) FAIL((Cell::live - live) << " elements were never destroyed (negative: destroyed twice)   history: " << log);
	if (g_news != news) FAIL((g_news - news) << " array allocations were never freed   history: " << log);
}
#if PART == 0
PROP(vectors, 6) { history<VecPool<double>>(g, "history"); }
#elif PART == 1
PROP(vectors_of_owning_elements, 4) { history<VecPool<Cell>>(g, "history"); }
#elif PART == 2
PROP(matrices, 4) { history<MatPool<double>>(g, "history"); }
#elif PART == 3
PROP(matrices_of_owning_elements, 3) { history<MatPool<Cell>>(g, "history"); }
// containers of vectors: growth moves and copies them
PROP(containers, 2) {
	long news = g_news;
	{
		std::vector<Vector<>> a; std::vector<Vector<Resizable>> b; std::vector<Vector<200>> c; std::vector<Matrix<>> d; std::vector<ME> ma;
		double next = 1; int n = g.range(2, 20); bool inserted = false;
		std::vector<double> first;
		for (int i = 0; i < n; i++) {
			int len = g.range(1, 9); Vector<> v(len); for (int k = 0; k < len; k++) v[k] = next++;
			Vector<200> w = Zeros; w.slice(0, len) = v; w.slice(190, len) = v; Matrix<> m(len, 2); m.T()[0] = v; m.T()[1] = -v; Vector<Resizable> r(v);
			first.push_back(v[0]); ME e; for (int k = 0; k < len; k++) e.push_back({ true, v[k] });
			a.push_back(v); b.push_back(r); c.push_back(w); d.push_back(m); ma.push_back(e);
			if (g.chance(20) && i) { inserted = true; Vector<Resizable> t(b[g.pick(i)]); t.resize(3); }
		}
		if (g.flag()) { int k = g.pick(n); b.erase(b.begin() + k); b.insert(b.begin() + k, Vector<Resizable>(a[k])); }
		for (int i = 0; i < n; i++) {
			int len = ma[i].size(); if (a[i].size() != len || b[i].size() != len || d[i].num_rows() != len) FAIL("sizes inside a container");
			for (int k = 0; k < len; k++) { double x = ma[i][k].v; REQUIRE(a[i][k] == x, "dynamic vector in a container"); REQUIRE(b[i][k] == x, "resizable vector in a container"); REQUIRE(c[i][k] == x && c[i][190 + k] == x, "large static vector in a container"); REQUIRE(d[i](k, 0) == x && d[i](k, 1) == -x, "dynamic matrix in a container"); }
		}
		g.nontrivial(n > 2); g.note("n", n); (void)inserted;
	}
	if (g_news != news) FAIL((g_news - news) << " array allocations were never freed");
}
template<class V> V make_contained(double x, int n) { V v(n); for (int i = 0; i < v.size(); i++) v[i] = x + i; return v; }
template<class V> bool same_contained(const V& v, double x, int n) { if (v.size() != n) return false; for (int i = 0; i < n; i++) if (v[i] != x + i) return false; return true; }
PROP(algorithms, 3) {
	int n = g.range(1, 6); g.note("size", n);
	switch (g.pick(7)) {
		case 0: case 1: contained<Vector<>>(g, "dynamic vectors", [&](double x) { return make_contained<Vector<>>(x, n); }, [&](const Vector<>& v, double x) { return same_contained(v, x, n); }, [](const Vector<>& v) { return v[0]; }); break;
		case 2: contained<Vector<4>>(g, "static vectors", [&](double x) { return make_contained<Vector<4>>(x, 4); }, [&](const Vector<4>& v, double x) { return same_contained(v, x, 4); }, [](const Vector<4>& v) { return v[0]; }); break;
		case 3: contained<Vector<150>>(g, "large static vectors", [&](double x) { return make_contained<Vector<150>>(x, 150); }, [&](const Vector<150>& v, double x) { return same_contained(v, x, 150); }, [](const Vector<150>& v) { return v[0]; }); break;
		case 4: contained<Vector<Resizable>>(g, "resizable vectors", [&](double x) { return make_contained<Vector<Resizable>>(x, 1 + std::abs((int)x) % 4); }, [&](const Vector<Resizable>& v, double x) { return same_contained(v, x, 1 + std::abs((int)x) % 4); }, [](const Vector<Resizable>& v) { return v[0]; }); break;
		case 5: contained<Matrix<>>(g, "dynamic matrices", [&](double x) { Matrix<> m(n, 2); for (int i = 0; i < n; i++) m[i] = makeVector(x + i, -x); return m; }, [&](const Matrix<>& m, double x) { if (m.num_rows() != n || m.num_cols() != 2) return false; for (int i = 0; i < n; i++) if (m(i, 0) != x + i || m(i, 1) != -x) return false; return true; }, [](const Matrix<>& m) { return m(0, 0); }); break;
		case 6: contained<DiagonalMatrix<>>(g, "dynamic diagonal matrices", [&](double x) { return DiagonalMatrix<>(make_contained<Vector<>>(x, n)); }, [&](const DiagonalMatrix<>& d, double x) { return same_contained(d.diagonal_slice(), x, n); }, [](const DiagonalMatrix<>& d) { return d[0]; }); break;
	}
}
#endif
