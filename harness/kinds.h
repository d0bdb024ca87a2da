// Present the same mathematical vector / matrix in every storage form the
// library has: static, dynamic, resizable, slices of bigger objects with static
// and dynamic sizes and strides, rows and columns of both layouts, transposes,
// wrapped foreign memory, const views.  After the callback the surroundings of a
// view are checked to be untouched.
#pragma once
#include "common.h"

const double JUNK = 777;

enum { VK_STATIC = 1, VK_DYN = 2, VK_RESIZ = 4, VK_SSLICE = 8, VK_DSLICE = 16, VK_COL = 32, VK_WRAP = 64, VK_CONST = 128, VK_ROW = 256, VK_DIAG = 512, VK_DWRAP = 1024, VK_CSLICE = 2048, VK_ALL = 4095 };
inline const char* vk_name(int k) {
	static const char* n[] = { "static", "dynamic", "resizable", "static slice", "dynamic slice", "column view", "static wrap", "const", "row view", "diagonal view", "dynamic wrap", "const slice" };
	return n[k];
}

// run f on an n-vector with contents x in a generated form. N>0: n==N, static forms allowed; N<0 (Dynamic): only dynamic forms
template<int N, class P, int MASK, class F> struct WithVec {
	template<int K, class Dummy = void> struct Do { static void go(const RV&, F&, bool) {} };

	static void go(Gen& g, const RV& x, F& f, bool mut) {
		// kinds allowed
		std::vector<int> ks;
		for (int k = 0; k < 12; k++) if (MASK & (1 << k)) {
			bool st = k == 0 || k == 3 || k == 6;
			if (st && N < 0) continue;
			if (mut && (k == 7 || k == 11)) continue;
			ks.push_back(k);
		}
		int k = g.from(ks);
		g.tag(std::string("form ") + vk_name(k));
		g.note("form", vk_name(k));
		call(k, x, f);
	}
	static void junkcheck(bool ok, const char* w) { if (!ok) FAIL("elements outside the " << w << " changed"); }

	static void call(int k, const RV& x, F& f) {
		const int n = (int)x.size();
		if (k == 0) { if constexpr ((MASK & VK_STATIC) && N > 0) { Vector<N, P> v; put(v, x); f(v); } }
		else if (k == 1) { if constexpr (MASK & VK_DYN) { Vector<Dynamic, P> v(n); put(v, x); f(v); } }
		else if (k == 2) { if constexpr (MASK & VK_RESIZ) { Vector<Resizable, P> v(n); put(v, x); f(v); } }
		else if (k == 3) { if constexpr ((MASK & VK_SSLICE) && N > 0) {
			Vector<N + 3, P> w; for (int i = 0; i < N + 3; i++) w[i] = (P)JUNK;
			auto s = w.template slice<2, N>(); put(s, x); f(s);
			junkcheck(w[0] == (P)JUNK && w[1] == (P)JUNK && w[N + 2] == (P)JUNK, "static slice"); } }
		else if (k == 4) { if constexpr (MASK & VK_DSLICE) {
			Vector<Dynamic, P> w(n + 3); for (int i = 0; i < n + 3; i++) w[i] = (P)JUNK;
			auto s = w.slice(1, n); put(s, x); f(s);
			junkcheck(w[0] == (P)JUNK && w[n + 2] == (P)JUNK && w[n + 1] == (P)JUNK, "dynamic slice"); } }
		else if (k == 5) { if constexpr (MASK & VK_COL) {
			if constexpr (N > 0) {
				Matrix<N, 3, P> m; for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) m(i, j) = (P)JUNK;
				auto t = m.T(); auto s = t[1]; put(s, x); f(s);
				for (int i = 0; i < n; i++) junkcheck(m(i, 0) == (P)JUNK && m(i, 2) == (P)JUNK, "column");
			} else {
				Matrix<Dynamic, Dynamic, P> m(n, 3); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) m(i, j) = (P)JUNK;
				auto t = m.T(); auto s = t[1]; put(s, x); f(s);
				for (int i = 0; i < n; i++) junkcheck(m(i, 0) == (P)JUNK && m(i, 2) == (P)JUNK, "column");
			} } }
		else if (k == 6) { if constexpr ((MASK & VK_WRAP) && N > 0) {
			P b[N + 2]; for (int i = 0; i < N + 2; i++) b[i] = (P)JUNK;
			auto s = wrapVector<N>(b + 1); put(s, x); f(s);
			junkcheck(b[0] == (P)JUNK && b[N + 1] == (P)JUNK, "wrapped memory"); } }
		else if (k == 7) { if constexpr (MASK & VK_CONST) {
			if constexpr (N > 0) { Vector<N, P> v; put(v, x); const Vector<N, P>& c = v; f(c); }
			else { Vector<Dynamic, P> v(n); put(v, x); const Vector<Dynamic, P>& c = v; f(c); } } }
		else if (k == 8) { if constexpr (MASK & VK_ROW) {
			if constexpr (N > 0) {
				Matrix<3, N, P, ColMajor> m; for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) m(j, i) = (P)JUNK;
				auto s = m[1]; put(s, x); f(s);
				for (int i = 0; i < n; i++) junkcheck(m(0, i) == (P)JUNK && m(2, i) == (P)JUNK, "row");
			} else {
				Matrix<Dynamic, Dynamic, P, ColMajor> m(3, n); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) m(j, i) = (P)JUNK;
				auto s = m[1]; put(s, x); f(s);
				for (int i = 0; i < n; i++) junkcheck(m(0, i) == (P)JUNK && m(2, i) == (P)JUNK, "row");
			} } }
		else if (k == 9) { if constexpr (MASK & VK_DIAG) {
			auto body = [&](auto& m) {
				for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = (P)JUNK;
				auto s = m.diagonal_slice(); put(s, x); f(s);
				for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) junkcheck(m(i, j) == (P)JUNK, "diagonal");
			};
			if constexpr (N > 0) { Matrix<N, N, P> m; body(m); } else { Matrix<Dynamic, Dynamic, P> m(n, n); body(m); } } }
		else if (k == 10) { if constexpr (MASK & VK_DWRAP) {
			std::vector<P> b(n + 2, (P)JUNK);
			auto s = wrapVector(&b[1], n); put(s, x); f(s);
			junkcheck(b[0] == (P)JUNK && b[n + 1] == (P)JUNK, "wrapped memory"); } }
		else if (k == 11) { if constexpr (MASK & VK_CSLICE) {
			Vector<Dynamic, P> w(n + 2); for (int i = 0; i < n + 2; i++) w[i] = (P)JUNK;
			{ auto t = w.slice(1, n); put(t, x); }
			const Vector<Dynamic, P>& c = w;
			if constexpr (N > 0) { const auto s = c.template slice<1, N>(); f(s); }
			else { const auto s = c.slice(1, n); f(s); } } }
	}
};
template<int N, class P, int MASK, class F> void with_vec(Gen& g, const RV& x, F&& f, bool mut = false) { WithVec<N, P, MASK, F>::go(g, x, f, mut); }

enum { MK_STATIC = 1, MK_STATICCOL = 2, MK_DYN = 4, MK_DYNCOL = 8, MK_SSLICE = 16, MK_DSLICE = 32, MK_T = 64, MK_DTSLICE = 128, MK_WRAP = 256, MK_SEMI = 512, MK_SEMICOL = 1024, MK_CONST = 2048, MK_DWRAP = 4096, MK_SSLICECOL = 8192, MK_ALL = 16383 };
inline const char* mk_name(int k) {
	static const char* n[] = { "static row-major", "static col-major", "dynamic row-major", "dynamic col-major", "static slice", "dynamic slice", "static transpose", "dynamic transposed slice", "wrapped", "dynamic columns", "dynamic rows col-major", "const", "dynamic wrapped", "static slice of col-major" };
	return n[k];
}
template<int R, int C, class P, int MASK, class F> struct WithMat {
	static void go(Gen& g, const RM& x, F& f, bool mut) {
		std::vector<int> ks;
		for (int k = 0; k < 14; k++) if (MASK & (1 << k)) {
			bool dyn = k == 2 || k == 3 || k == 5 || k == 7 || k == 12;
			if (!dyn && (R < 0 || C < 0) && k != 11) continue;
			if (mut && k == 11) continue;
			ks.push_back(k);
		}
		int k = g.from(ks);
		g.tag(std::string("form ") + mk_name(k));
		g.note("form", mk_name(k));
		call(k, x, f);
	}
	template<class M> static void blank(M& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m(i, j) = (P)JUNK; }
	template<class M> static void outside(const M& m, int r0, int c0, int r, int c) {
		for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++)
			if ((i < r0 || i >= r0 + r || j < c0 || j >= c0 + c) && m(i, j) != (P)JUNK) FAIL("entry (" << i << "," << j << ") outside the viewed block changed");
	}
	static void call(int k, const RM& x, F& f) {
		const int r = x.r, c = x.c;
		constexpr bool S = R > 0 && C > 0;
		if (k == 0) { if constexpr (S && (MASK & MK_STATIC)) { Matrix<R, C, P> m; put(m, x); f(m); } }
		else if (k == 1) { if constexpr (S && (MASK & MK_STATICCOL)) { Matrix<R, C, P, ColMajor> m; put(m, x); f(m); } }
		else if (k == 2) { if constexpr (MASK & MK_DYN) { Matrix<Dynamic, Dynamic, P> m(r, c); put(m, x); f(m); } }
		else if (k == 3) { if constexpr (MASK & MK_DYNCOL) { Matrix<Dynamic, Dynamic, P, ColMajor> m(r, c); put(m, x); f(m); } }
		else if (k == 4) { if constexpr (S && (MASK & MK_SSLICE)) { Matrix<R + 2, C + 3, P> m; blank(m); auto s = m.template slice<1, 2, R, C>(); put(s, x); f(s); outside(m, 1, 2, r, c); } }
		else if (k == 5) { if constexpr (MASK & MK_DSLICE) { Matrix<Dynamic, Dynamic, P> m(r + 2, c + 3); blank(m); auto s = m.slice(2, 1, r, c); put(s, x); f(s); outside(m, 2, 1, r, c); } }
		else if (k == 6) { if constexpr (S && (MASK & MK_T)) { Matrix<C, R, P> m; auto s = m.T(); put(s, x); f(s); } }
		else if (k == 7) { if constexpr (MASK & MK_DTSLICE) { Matrix<Dynamic, Dynamic, P> m(c + 1, r + 2); blank(m); auto t = m.T(); auto s = t.slice(1, 0, r, c); put(s, x); f(s); outside(m, 0, 1, c, r); } }
		else if (k == 8) { if constexpr (S && (MASK & MK_WRAP)) { P b[R * C + 2]; b[0] = b[R * C + 1] = (P)JUNK; auto s = wrapMatrix<R, C>(b + 1); put(s, x); f(s); if (b[0] != (P)JUNK || b[R * C + 1] != (P)JUNK) FAIL("memory around the wrapped matrix changed"); } }
		else if (k == 9) { if constexpr (S && (MASK & MK_SEMI)) { Matrix<R, Dynamic, P> m(R, c); put(m, x); f(m); } }
		else if (k == 10) { if constexpr (S && (MASK & MK_SEMICOL)) { Matrix<Dynamic, C, P, ColMajor> m(r, C); put(m, x); f(m); } }
		else if (k == 11) { if constexpr (MASK & MK_CONST) {
			if constexpr (S) { Matrix<R, C, P> m; put(m, x); const Matrix<R, C, P>& q = m; f(q); }
			else { Matrix<Dynamic, Dynamic, P> m(r, c); put(m, x); const Matrix<Dynamic, Dynamic, P>& q = m; f(q); } } }
		else if (k == 12) { if constexpr (MASK & MK_DWRAP) { std::vector<P> b(r * c + 2, (P)JUNK); auto s = wrapMatrix(&b[1], r, c); put(s, x); f(s); if (b[0] != (P)JUNK || b[r * c + 1] != (P)JUNK) FAIL("memory around the wrapped matrix changed"); } }
		else if (k == 13) { if constexpr (S && (MASK & MK_SSLICECOL)) { Matrix<R + 1, C + 1, P, ColMajor> m; blank(m); auto s = m.template slice<0, 1, R, C>(); put(s, x); f(s); outside(m, 0, 1, r, c); } }
	}
};
template<int R, int C, class P, int MASK, class F> void with_mat(Gen& g, const RM& x, F&& f, bool mut = false) { WithMat<R, C, P, MASK, F>::go(g, x, f, mut); }
