// N10: decompositions are values.  Histories of computing, copying, moving, assigning, swapping and asking over a
// pool of decompositions of one kind; whatever was done before, an object answers like a new one of its last matrix.
#include "num.h"
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <memory>
#include <utility>
#ifndef PART
#define PART 0
#endif
namespace {
template<int N, class P> struct Rhs { Vector<N, P> b; Matrix<N, 2, P> B; Rhs(int n): b(n), B(n, 2) {} };
inline RV one(LD x) { return RV(1, x); }
template<class M> RV flat(const M& m) { RM r = rm(m); return r.a; }
enum { SPD = 1, SYM = 2 };
template<int N_, class P_> struct Base { static constexpr int N = N_; typedef P_ P; typedef Matrix<N, N, P> M; typedef Rhs<N, P> R; };
template<int N, class P> struct KChol: Base<N, P> {
	typedef Cholesky<N, P> D; enum { WANT = SPD, NQ = 9, ROBUST = 1 << 4, RECOMPUTE = 1 }; static const char* name() { return "Cholesky"; }
	static void compute(D& d, const Matrix<N, N, P>& m) { d.compute(m); }
	static RV ask(D& d, int q, const Rhs<N, P>& r) { switch (q) { case 0: return rv(d.backsub(r.b)); case 1: return flat(d.backsub(r.B)); case 2: return flat(d.get_inverse()); case 3: return one(d.determinant()); case 4: return one(d.rank()); case 5: return one(d.mahalanobis(r.b)); case 6: return flat(d.get_L()); case 7: return flat(d.get_D()); default: return flat(d.get_unscaled_L()); } }
};
template<int N, class P> struct KLapChol: Base<N, P> {
	typedef Lapack_Cholesky<N, P> D; enum { WANT = SPD, NQ = 7, ROBUST = 1 << 4, RECOMPUTE = 1 }; static const char* name() { return "Lapack_Cholesky"; }
	static void compute(D& d, const Matrix<N, N, P>& m) { d.compute(m); }
	static RV ask(D& d, int q, const Rhs<N, P>& r) { switch (q) { case 0: return rv(d.backsub(r.b)); case 1: return flat(d.backsub(r.B)); case 2: return flat(d.get_inverse()); case 3: return one(d.determinant()); case 4: return one(d.rank()); case 5: return one(d.mahalanobis(r.b)); default: return flat(d.get_L()); } }
};
template<int N, class P> struct KLU: Base<N, P> {
	typedef LU<N, P> D; enum { WANT = 0, NQ = 6, ROBUST = 1 << 3 | 1 << 4 | 1 << 5, RECOMPUTE = 1 }; static const char* name() { return "LU"; }
	static void compute(D& d, const Matrix<N, N, P>& m) { d.compute(m); }
	static RV ask(D& d, int q, const Rhs<N, P>& r) { switch (q) { case 0: return rv(d.backsub(r.b)); case 1: return flat(d.backsub(r.B)); case 2: return flat(d.get_inverse()); case 3: return one(d.determinant()); case 4: return flat(d.get_lu()); default: return one(d.get_info()); } }
};
template<class D, class R> RV ask_svd(D& d, int q, const R& r) { typedef typename std::decay<decltype(r.b[0])>::type P; switch (q) { case 0: return rv(d.backsub(r.b)); case 1: return flat(d.backsub(r.B)); case 2: return flat(d.get_pinv()); case 3: return one(d.determinant()); case 4: return one(d.rank()); case 5: return flat(d.get_U()); case 6: return flat(d.get_VT()); case 7: return rv(d.get_diagonal()); case 8: return rv(d.backsub(r.b, P(1.7))); case 9: return flat(d.get_pinv(P(2.3))); default: return one(d.rank(P(2.3))); } }
template<int N, class P> struct KSVD: Base<N, P> {
	typedef SVD<N, N, P> D; enum { WANT = 0, NQ = 11, ROBUST = 1 << 2 | 1 << 3 | 1 << 4 | 1 << 7, RECOMPUTE = 1 }; static const char* name() { return "SVD"; }
	static void compute(D& d, const Matrix<N, N, P>& m) { d.compute(m); }
	static RV ask(D& d, int q, const Rhs<N, P>& r) { return ask_svd(d, q, r); }
};
template<int N, class P> struct KSQSVD: KSVD<N, P> { typedef SQSVD<N, P> D; static const char* name() { return "SQSVD"; } static void compute(D& d, const Matrix<N, N, P>& m) { d.compute(m); } static RV ask(D& d, int q, const Rhs<N, P>& r) { return ask_svd(d, q, r); } };
template<int N, class P> struct KGR: Base<N, P> {
	typedef GR_SVD<N, N, P> D; enum { WANT = 0, NQ = 10, ROBUST = 1 << 2 | 1 << 5 | 1 << 6, RECOMPUTE = 0 }; static const char* name() { return "GR_SVD"; }
	static void compute(D&, const Matrix<N, N, P>&) {}
	static RV ask(D& d, int q, const Rhs<N, P>& r) { switch (q) { case 0: return rv(d.backsub(r.b)); case 1: return flat(d.backsub(r.B)); case 2: return flat(d.get_pinv()); case 3: return flat(d.get_U()); case 4: return flat(d.get_V()); case 5: return rv(d.get_diagonal()); case 6: return one(d.get_largest_singular_value()); case 7: return one(d.get_smallest_singular_value()); case 8: return one(d.get_smallest_singular_value_index()); default: return rv(d.backsub(r.b, P(1.7))); } }
};
template<int N, class P> struct KEig: Base<N, P> {
	typedef SymEigen<N, P> D; enum { WANT = SYM, NQ = 12, ROBUST = 1 << 2 | 1 << 3 | 1 << 5 | 1 << 6 | 1 << 7, RECOMPUTE = 1 }; static const char* name() { return "SymEigen"; }
	static void compute(D& d, const Matrix<N, N, P>& m) { d.compute(m); }
	static RV ask(D& d, int q, const Rhs<N, P>& r) { switch (q) { case 0: return rv(d.backsub(r.b)); case 1: return flat(d.backsub(r.B)); case 2: return flat(d.get_pinv()); case 3: return one(d.get_determinant()); case 4: return flat(d.get_evectors()); case 5: return rv(d.get_evalues()); case 6: return one(d.is_posdef()); case 7: return one(d.is_negdef()); case 8: return flat(d.get_sqrtm()); case 9: return flat(d.get_isqrtm()); case 10: return flat(d.get_pinv(1.7)); default: return flat(d.get_isqrtm(1.7)); } }
};
template<int N, class P> struct KQR: Base<N, P> {
	typedef QR<N, N, P> D; enum { WANT = 0, NQ = 2, ROBUST = 0, RECOMPUTE = 0 }; static const char* name() { return "QR"; } static void compute(D&, const Matrix<N, N, P>&) {}
	static RV ask(D& d, int q, const Rhs<N, P>&) { return q ? flat(d.get_Q()) : flat(d.get_R()); }
};
template<int N, class P> struct KQRL: Base<N, P> {
	typedef QR_Lapack<N, N, P> D; enum { WANT = 0, NQ = 3, ROBUST = 0, RECOMPUTE = 0 }; static const char* name() { return "QR_Lapack"; } static void compute(D&, const Matrix<N, N, P>&) {}
	static RV ask(D& d, int q, const Rhs<N, P>&) { return q == 0 ? flat(d.get_R()) : q == 1 ? flat(d.get_Q()) : rv(d.get_P()); }
};
template<class K> struct History {
	static constexpr int N = K::N; typedef typename K::P P; typedef typename K::M M; typedef typename K::D D; typedef typename K::R R;
	Gen& g; int n; std::vector<RM> mats; std::vector<bool> good; std::vector<R> rhs; std::map<int, RV> known; std::string log;
	std::vector<std::unique_ptr<D>> o; std::vector<int> at; int last_done = 0;
	History(Gen& g_, int n_): g(g_), n(n_) {}
	void gen() {
		int k = g.range(2, 4); for (int i = 0; i < k; i++) {
			bool ok = i == 0 || !g.chance(30); RM a(n, n); if (ok) { RV s(n); LD sc = g.logpos(0.1, 10); for (int j = 0; j < n; j++) { s[j] = sc * (j + 1) * g.uniform(0.95, 1.05); if (K::WANT == SYM && g.chance(i ? 40 : 0)) s[j] = -s[j]; } RM u = gen_orth(g, n); a = from_svd(u, s, K::WANT ? u : gen_orth(g, n)); if (K::WANT) a = scale(add(a, T(a)), 0.5L); }
			else if (n > 1 && g.flag() && K::WANT == SPD) { a = RM::eye(n); a(0, n - 1) = a(n - 1, 0) = 2; } /* indefinite */ else for (int j = 0; j < n; j++) a(j, j) = g.chance(50) ? 0 : g.range(1, 5);
			a = roundto<P>(a); if (K::WANT) for (int x = 0; x < n; x++) for (int y = 0; y < x; y++) a(x, y) = a(y, x); mats.push_back(a); good.push_back(ok); g.note(("matrix " + std::to_string(i)).c_str(), show(a)); }
		for (int i = 0; i < 2; i++) { R r(n); for (int x = 0; x < n; x++) { r.b[x] = (P)g.uniform(-5, 5); for (int y = 0; y < 2; y++) r.B(x, y) = (P)g.uniform(-5, 5); } rhs.push_back(r); }
	}
	M matrix(int k) { M m(n, n); put(m, mats[k]); return m; }
	std::unique_ptr<D> fresh(int k) { M m = matrix(k); auto p = std::make_unique<D>(m); spoil(m); return p; }
	void spoil(M& m) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = std::numeric_limits<P>::quiet_NaN(); } // what happens to the matrix afterwards does not matter
	int question(int k) { if (good[k]) return g.pick(K::NQ); int q = g.pick(K::NQ); return (K::ROBUST >> q) & 1 ? q : -1; }
	void check(int i, int q, int r) {
		if (q < 0) return; int key = (at[i] * 64 + q) * 2 + r; auto it = known.find(key); if (it == known.end()) { auto d = fresh(at[i]); it = known.emplace(key, K::ask(*d, q, rhs[r])).first; }
		const RV& want = it->second; RV got = K::ask(*o[i], q, rhs[r]); if (got.size() != want.size()) FAIL("object " << i << ", question " << q << ": " << got.size() << " numbers instead of " << want.size() << "   " << log);
		LD mx = 0; for (LD x : want) if (std::isfinite(x)) mx = std::max(mx, std::fabs(x)); LD tol = (sizeof(P) == 4 ? 2e-3L : 1e-9L) * mx;
		for (size_t j = 0; j < want.size(); j++) if (!(std::isnan(want[j]) ? std::isnan(got[j]) : got[j] == want[j] || std::fabs(got[j] - want[j]) <= tol)) FAIL("object " << i << " of matrix " << at[i] << ", question " << q << ", number " << j << " is " << got[j] << " but " << want[j] << " from a new object   " << log);
	}
	void step() {
		int op = o.size() < 2 ? 0 : g.pick(12); int k = g.pick(mats.size()), i = o.empty() ? 0 : g.pick(o.size()), j = o.empty() ? 0 : g.pick(o.size()); auto S = [](int x) { return std::to_string(x); };
		if (op == 0 && o.size() < 4) { log += S(o.size()) + "=new(" + S(k) + "); "; o.push_back(fresh(k)); at.push_back(k); }
		else if (op == 1 && o.size() < 4) { log += S(o.size()) + "=copy of " + S(i) + "; "; o.push_back(std::make_unique<D>(*o[i])); at.push_back(at[i]); }
		else if (op <= 3 && K::RECOMPUTE) { log += S(i) + ".compute(" + S(k) + "); "; M m = matrix(k); K::compute(*o[i], m); spoil(m); at[i] = k; last_done++; }
		else if (op == 4) { log += S(i) + "=" + S(j) + "; "; *o[i] = *o[j]; at[i] = at[j]; last_done += i != j; }
		else if (op == 5) { log += S(i) + " moved away and assigned; "; D t(std::move(*o[i])); *o[i] = t; last_done++; }
		else if (op == 6 && i != j) { log += "swap " + S(i) + "," + S(j) + "; "; std::swap(*o[i], *o[j]); std::swap(at[i], at[j]); last_done++; }
		else if (op == 7 && o.size() > 1) { log += "destroy " + S(i) + "; "; o.erase(o.begin() + i); at.erase(at.begin() + i); }
		else if (op == 8) { log += S(i) + "=new(" + S(k) + ") assigned; "; M m = matrix(k); *o[i] = D(m); at[i] = k; last_done++; }
		else { int q = question(at[i]), r = g.pick(2); log += S(i) + "?" + S(q) + "; "; check(i, q, r); }
		for (size_t x = 0; x < o.size(); x++) if (g.chance(40)) check(x, question(at[x]), g.pick(2));
	}
	void run() {
		gen(); int steps = g.range(1, g.chance(20) ? 40 : 15); g.tag(K::name()); try { for (int s = 0; s < steps; s++) { g.live(log + " (next step)"); step(); } for (size_t x = 0; x < o.size(); x++) for (int q = 0; q < (int)K::NQ; q++) if (good[at[x]] || ((K::ROBUST >> q) & 1)) check(x, q, 0); } catch (...) { g.note("history", log); throw; }
		g.note("history", log); g.nontrivial(last_done > 0 || (!K::RECOMPUTE && o.size() > 1));
	}
};
template<class K> void history(Gen& g, int n) { History<K> h(g, n); h.run(); }
}
#define SIZES(K, name, w) PROP(name, w) { switch (g.pick(4)) { case 0: history<K<3, double>>(g, 3); break; case 1: history<K<5, double>>(g, 5); break; default: history<K<Dynamic, double>>(g, g.range(1, 6)); } }
#if PART == 0
SIZES(KChol, cholesky, 2) SIZES(KLapChol, lapack_cholesky, 2) PROP(cholesky_float, 1) { history<KChol<Dynamic, float>>(g, g.range(1, 4)); }
#elif PART == 1
SIZES(KLU, lu, 2) SIZES(KSVD, svd, 2)
#elif PART == 2
SIZES(KEig, symeigen, 3) PROP(symeigen_small, 2) { if (g.flag()) history<KEig<2, double>>(g, 2); else history<KEig<3, float>>(g, 3); }
#elif PART == 3
SIZES(KQR, qr, 1) SIZES(KQRL, qr_lapack, 1) PROP(gr_svd, 1) { if (g.flag()) history<KGR<3, double>>(g, 3); else history<KGR<5, double>>(g, 5); } PROP(sqsvd, 1) { if (g.flag()) history<KSQSVD<3, double>>(g, 3); else history<KSQSVD<Dynamic, double>>(g, g.range(1, 5)); }
#endif
