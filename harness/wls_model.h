#pragma once
#include "num.h"
// stacked normal equations, with the size of what was summed up
struct Model {
	int n; RM C, aC; RV v, av; int terms = 0; bool full = true; // full: both triangles of the accumulator are meaningful
	Model(int n_): n(n_), C(n_, n_), aC(n_, n_), v(n_), av(n_) {}
	void info(const RM& m) { C = add(C, m); aC = add(aC, absm(m)); terms++; }
	// rows J (k x n), values m, weight matrix w
	void meas(const RM& J, const RV& m, const RM& w) {
		RM jt = mul(T(J), w), ajt = mul(absm(T(J)), absm(w)); C = add(C, mul(jt, J)); aC = add(aC, mul(ajt, absm(J))); v = add(v, mul(jt, m)); av = add(av, mul(ajt, absv(m))); terms += 2 * J.r + 1;
	}
	void merge(const Model& o) { C = add(C, o.C); aC = add(aC, o.aC); v = add(v, o.v); av = add(av, o.av); terms += o.terms + 1; full = full && o.full; }
};
inline RM gen_weight(Gen& g, int k) { // symmetric, positive (semi)definite
	RM w(k, k); int c = g.pick(4);
	if (c == 0) for (int i = 0; i < k; i++) w(i, i) = g.logpos(1e-2, 1e2);
	else if (c == 1) w = RM::eye(k);
	else if (c == 2) { RM a = gen_dense(g, k, k); w = mul(a, T(a)); }
	else { RM a(k, k); for (auto& x : a.a) x = g.small(3); w = mul(a, T(a)); }
	return w;
}
inline RM gen_J(Gen& g, int r, int c) { RM m(r, c); int k = g.pick(3); for (auto& x : m.a) x = k == 0 ? (LD)g.small(4) : k == 1 ? g.uniform(-2, 2) : g.real(); return m; }
inline LD gen_w(Gen& g) { return g.pick(4) == 0 ? 1 : g.pick(5) == 0 ? 0 : g.logpos(1e-3, 1e3); }
template<class P> RM sym(RM w) { w = roundto<P>(w); for (int i = 0; i < w.r; i++) for (int j = 0; j < i; j++) w(i, j) = w(j, i); return w; }
