// V08: streaming out and in.
#include "kinds.h"
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#ifndef PART
#define PART 0
#endif
template<class P> struct El { static P gen(Gen& g) {
	if (std::is_integral<P>::value) return (P)(g.chance(20) ? g.range(-30000, 30000) : g.small(20));
	if constexpr (std::is_floating_point<P>::value) if (g.chance(15)) { P e = edge_value<P>(g, false); if (e == 0 || std::fabs(e) >= std::numeric_limits<P>::min()) return e; }
	switch (g.pick(6)) { case 0: return P(g.small(9)); case 1: return P(g.uniform(-1, 1)); case 2: return P(g.logmag(1e-30, 1e30)); case 3: return P(g.uniform(-1e6, 1e6)); case 4: return P(0); default: return P(g.small(999) / 3.0); } }
	static void full(std::ostream& o) { o.precision(std::numeric_limits<P>::max_digits10); } };
template<class P> bool alike(const P& a, const P& b) { if constexpr (std::is_arithmetic<P>::value) return same_value<P>(a, b); else return a == b; }
template<class P> struct El<std::complex<P>> { static std::complex<P> gen(Gen& g) { P a = El<P>::gen(g), b = El<P>::gen(g); return std::complex<P>(a, b); } static void full(std::ostream& o) { El<P>::full(o); } };
// formatting chosen by the user of the stream
struct Fmt { int prec, width, mode; bool pos; };
static Fmt gen_fmt(Gen& g) { Fmt f; f.prec = g.range(0, 12); f.width = g.flag() ? 0 : g.range(1, 40); f.mode = g.pick(3); f.pos = g.chance(20); return f; }
static void setfmt(std::ostream& o, const Fmt& f) { o.precision(f.prec); if (f.mode == 1) o.setf(std::ios::scientific, std::ios::floatfield); if (f.mode == 2) o.setf(std::ios::fixed, std::ios::floatfield); if (f.pos) o.setf(std::ios::showpos); }
template<class P> std::string token(const P& x, const Fmt& f) { std::ostringstream o; setfmt(o, f); o << x; return o.str(); }
// rows: expected tokens per line; line structure, order and field positions
static void check_text(const std::string& s, const std::vector<std::vector<std::string>>& rows, bool lines, int width, const char* what) {
	std::vector<std::string> ls; std::string cur; for (char c : s) { if (c == '\n') { ls.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty() || !lines) ls.push_back(cur);
	if (ls.size() != rows.size()) FAIL(what << ": " << ls.size() << " lines instead of " << rows.size() << " in \"" << s << "\"");
	for (size_t i = 0; i < rows.size(); i++) {
		std::vector<std::string> tk; std::vector<size_t> end; size_t p = 0; const std::string& l = ls[i];
		while (p < l.size()) { while (p < l.size() && l[p] == ' ') p++; size_t b = p; while (p < l.size() && l[p] != ' ') p++; if (p > b) { tk.push_back(l.substr(b, p - b)); end.push_back(p); } }
		if (tk != rows[i]) FAIL(what << ": line " << i << " is \"" << l << "\"");
		size_t e = 0; for (size_t k = 0; k < tk.size(); k++) { size_t w = std::max<size_t>(tk[k].size(), width); e += w; if (end[k] != e) FAIL(what << ": field " << k << " of line " << i << " ends in column " << end[k] << " instead of " << e << " (field width " << width << ") in \"" << l << "\""); e += 1; }
	}
}
template<int N, class P> void vtext(Gen& g, int n) {
	std::vector<P> x(n); for (auto& e : x) e = El<P>::gen(g); Fmt f = gen_fmt(g); g.note("n", n); g.note("prec", f.prec); g.note("width", f.width); g.note("mode", f.mode); g.nontrivial(n > 1); g.tag("vector text"); g.tag("field width", f.width > 0);
	std::vector<std::string> row; for (auto& e : x) row.push_back(token(e, f));
	RV z(n, 0);
	with_vec<N, P, VK_STATIC | VK_DYN | VK_RESIZ | VK_DSLICE | VK_COL>(g, z, [&](auto& v) { for (int i = 0; i < n; i++) v[i] = x[i]; const auto& cv = v;
		std::ostringstream o; setfmt(o, f); o.width(f.width); o << cv; check_text(o.str(), { row }, false, f.width, "vector");
		std::ostringstream q; setfmt(q, f); const P last = n ? x[0] : P(1); q << "<" << cv << ">" << last; std::string want = "<"; for (auto& t : row) want += t + " "; std::string got = q.str(); 
		if (got.substr(0, 1) != "<" || got.find(">") == std::string::npos || got.substr(got.find(">") + 1) != token(last, f)) FAIL("text around a vector: \"" << got << "\"");
	}, true);
}
template<int R, int C, class P> void mtext(Gen& g, int r, int c) {
	std::vector<P> x(r * c); for (auto& e : x) e = El<P>::gen(g); Fmt f = gen_fmt(g); g.note("r", r); g.note("c", c); g.note("prec", f.prec); g.note("width", f.width); g.note("mode", f.mode); g.nontrivial(r > 1 && c > 1); g.tag("matrix text"); g.tag("field width", f.width > 0);
	std::vector<std::vector<std::string>> rows(r); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) rows[i].push_back(token(x[i * c + j], f));
	RM z(r, c);
	with_mat<R, C, P, MK_STATIC | MK_STATICCOL | MK_DYN | MK_DYNCOL | MK_DSLICE | MK_T>(g, z, [&](auto& m) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = x[i * c + j]; const auto& cm = m;
		std::ostringstream o; setfmt(o, f); o.width(f.width); o << cm; check_text(o.str(), rows, true, f.width, "matrix"); }, true);
}
#if PART == 0
PROP(vector_text, 3) { switch (g.pick(5)) { case 0: vtext<3, double>(g, 3); break; case 1: vtext<Dynamic, double>(g, g.size(0, 12, 40)); break; case 2: vtext<4, int>(g, 4); break; case 3: vtext<Dynamic, float>(g, g.size(0, 6, 40)); break; case 4: vtext<1, double>(g, 1); break; } }
#endif
#if PART == 1
PROP(matrix_text, 3) { switch (g.pick(4)) { case 0: mtext<3, 2, double>(g, 3, 2); break; case 1: { int r = g.size(0, 6, 40), c = g.size(0, 6, 40); mtext<Dynamic, Dynamic, double>(g, r, c); break; } case 2: mtext<2, 4, int>(g, 2, 4); break; case 3: mtext<4, 1, float>(g, 4, 1); break; } }
#endif

// ---- round trips: a sequence of objects written to one stream and read back into objects of the same shape
#if PART == 2 || PART == 3
struct Item { std::function<void(std::ostream&)> out; std::function<void(std::istream&)> in; std::function<void()> check; };
template<int N, class P> Item vitem(Gen& g, int n) {
	auto x = std::make_shared<std::vector<P>>(n); for (auto& e : *x) e = El<P>::gen(g); int src = g.pick(3), dst = g.pick(3);
	struct St { Vector<Dynamic, P> big; Matrix<Dynamic, Dynamic, P> m; Vector<Resizable, P> r; Vector<Dynamic, P> d; St(int n): big(n + 2), m(n, 2), r(n), d(n) {} };
	auto a = std::make_shared<St>(n), b = std::make_shared<St>(n); for (int i = 0; i < n + 2; i++) b->big[i] = P(-5); for (int i = 0; i < n; i++) b->m(i, 0) = b->m(i, 1) = b->r[i] = b->d[i] = P(-5);
	Item it;
	it.out = [=](std::ostream& o) { El<P>::full(o); for (int i = 0; i < n; i++) a->big[i + 1] = a->m(i, 1) = a->d[i] = (*x)[i]; if (src == 0) o << a->d; else if (src == 1) o << a->big.slice(1, n); else o << a->m.T()[1]; };
	it.in = [=](std::istream& i) { if (dst == 0) i >> b->d; else if (dst == 1) { auto s = b->big.slice(1, n); i >> s; } else i >> b->r; };
	it.check = [=] { for (int i = 0; i < n; i++) { P got = dst == 0 ? b->d[i] : dst == 1 ? b->big[i + 1] : b->r[i]; if (!alike<P>(got, (*x)[i])) FAIL("element " << i << " of a vector of " << n << " came back as " << got << " instead of " << (*x)[i]); } if (b->big[0] != P(-5) || b->big[n + 1] != P(-5)) FAIL("elements outside the slice read into changed"); if (b->r.size() != n) FAIL("size changed"); };
	return it;
}
template<class P> Item mitem(Gen& g, int r, int c) {
	auto x = std::make_shared<std::vector<P>>(r * c); for (auto& e : *x) e = El<P>::gen(g); int src = g.pick(3), dst = g.pick(4);
	struct St { Matrix<Dynamic, Dynamic, P> m, big; Matrix<Dynamic, Dynamic, P, ColMajor> w; Matrix<Dynamic, Dynamic, P> t; St(int r, int c): m(r, c), big(r + 2, c + 2), w(r, c), t(c, r) {} };
	auto a = std::make_shared<St>(r, c), b = std::make_shared<St>(r, c); for (int i = 0; i < r + 2; i++) for (int j = 0; j < c + 2; j++) b->big(i, j) = P(-5);
	Item it;
	it.out = [=](std::ostream& o) { El<P>::full(o); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a->m(i, j) = a->w(i, j) = a->t(j, i) = (*x)[i * c + j]; if (src == 0) o << a->m; else if (src == 1) o << a->w; else o << a->t.T(); };
	it.in = [=](std::istream& i) { if (dst == 0) i >> b->m; else if (dst == 1) i >> b->w; else if (dst == 2) { auto s = b->big.slice(1, 1, r, c); i >> s; } else { auto s = b->t.T(); i >> s; } };
	it.check = [=] { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { P got = dst == 0 ? b->m(i, j) : dst == 1 ? b->w(i, j) : dst == 2 ? b->big(i + 1, j + 1) : b->t(j, i); if (!alike<P>(got, (*x)[i * c + j])) FAIL("entry (" << i << "," << j << ") of a " << r << "x" << c << " matrix came back as " << got << " instead of " << (*x)[i * c + j]); }
		for (int i = 0; i < r + 2; i++) for (int j = 0; j < c + 2; j++) if ((i < 1 || i > r || j < 1 || j > c) && b->big(i, j) != P(-5)) FAIL("entries outside the slice read into changed"); };
	return it;
}
// group elements: the matrix entries must come back to rounding
static RM hom(const SO2<>& x) { return rm(x.get_matrix()); }
template<class P> RM hom(const SO3<P>& x) { return rm(x.get_matrix()); }
template<class G> RM homse(const G& x) { int n = x.get_translation().size(); RM m(n, n + 1); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) m(i, j) = x.get_rotation().get_matrix()(i, j); m(i, n) = x.get_translation()[i]; } return m; }
template<class P> RM hom(const SE2<P>& x) { return homse(x); }
template<class P> RM hom(const SE3<P>& x) { return homse(x); }
template<class G> RM homsim(const G& x) { RM m = homse(x); RM o(m.r, m.c + 1); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o(i, j) = m(i, j); for (int i = 0; i < m.r; i++) o(i, m.c) = x.get_scale(); return o; }
template<class P> RM hom(const SIM2<P>& x) { return homsim(x); }
template<class P> RM hom(const SIM3<P>& x) { return homsim(x); }
template<int N, class P> RM hom(const SL<N, P>& x) { return rm(x.get_matrix()); }
template<class G, class P> Item gitem(const G& x, const char* nm, double relscale) {
	auto a = std::make_shared<G>(x), b = std::make_shared<G>();
	Item it; it.out = [=](std::ostream& o) { El<P>::full(o); o << *a; if (nm[0] != 'S' || nm[1] == 'l') o << " "; }; it.in = [=](std::istream& i) { i >> *b; };
	it.check = [=] { RM p = hom(*a), q = hom(*b); same(q, p, (relscale + (double)maxabs(p)) * eps<P>() * 32, std::string(nm) + " read back"); };
	return it;
}
#endif
#if PART == 2
PROP(sequence, 6) {
	std::vector<Item> s; int k = g.range(1, 6); g.nontrivial(k > 1); g.note("objects", k); g.tag("sequence of vectors and matrices");
	for (int i = 0; i < k; i++) switch (g.pick(8)) {
		case 0: s.push_back(vitem<Dynamic, double>(g, g.range(0, 7))); break; case 1: s.push_back(vitem<Dynamic, float>(g, g.range(0, 7))); break; case 2: s.push_back(vitem<Dynamic, int>(g, g.range(0, 7))); break;
		case 3: { int r = g.range(0, 5), c = g.range(0, 5); s.push_back(mitem<double>(g, r, c)); break; } case 4: { int r = g.range(1, 4), c = g.range(1, 4); s.push_back(mitem<float>(g, r, c)); break; } case 5: { int r = g.range(1, 4), c = g.range(1, 4); s.push_back(mitem<int>(g, r, c)); break; }
		case 6: s.push_back(vitem<Dynamic, std::complex<double>>(g, g.range(1, 4))); break; case 7: { int r = g.range(1, 4), c = g.range(1, 4); s.push_back(mitem<std::complex<double>>(g, r, c)); break; }
	}
	std::stringstream io; int sep = g.pick(3); for (auto& i : s) { i.out(io); if (sep == 1) io << " "; if (sep == 2) io << "\n\n"; }
	g.note("text", io.str()); for (auto& i : s) i.in(io); if (io.fail()) FAIL("the stream failed while reading back: \"" << io.str() << "\""); for (auto& i : s) i.check();
	std::string rest; io >> rest; if (!rest.empty()) FAIL("text left over after reading everything back: \"" << rest << "\"");
}
PROP(static_sizes, 2) {
	// static objects and plain variables interleaved
	Vector<3> v; Matrix<2, 3> m; Vector<4, float> f; Matrix<3, 2, double, ColMajor> c; for (int i = 0; i < 3; i++) v[i] = El<double>::gen(g); for (int i = 0; i < 6; i++) { m(i / 3, i % 3) = El<double>::gen(g); c(i / 2, i % 2) = El<double>::gen(g); } for (int i = 0; i < 4; i++) f[i] = El<float>::gen(g); g.nontrivial(); g.tag("static sequence"); double d = El<double>::gen(g);
	std::stringstream io; io.precision(17); io << v << m << d << "\n" << f << "\n" << c; Vector<3> v2; Matrix<2, 3> m2; Vector<4, float> f2; Matrix<3, 2, double, ColMajor> c2; double d2; io >> v2 >> m2 >> d2 >> f2 >> c2; if (io.fail()) FAIL("reading failed: \"" << io.str() << "\"");
	same(rv(v2), rv(v), 0, "Vector<3>"); same(rm(m2), rm(m), 0, "Matrix<2,3>"); same(rv(f2), rv(f), 0, "Vector<4,float>"); same(rm(c2), rm(c), 0, "ColMajor"); if (d2 != d) FAIL("plain number between objects");
}
// hand-written text: any white space between the elements, and whatever follows the last one stays in the stream
PROP(reading_stops, 3) {
	int r = g.range(1, 4), c = g.range(1, 4); bool vector = g.flag(); if (vector) r = 1; std::vector<int> x(r * c); std::string t; static const char* ws[] = { " ", "\n", "\t", "  ", "\r\n", " \n\t " }; if (g.flag()) t += ws[g.pick(6)];
	for (int i = 0; i < r * c; i++) { x[i] = g.small(99); if (i) t += ws[g.pick(6)]; t += std::to_string(x[i]); }
	static const char* tails[] = { "", ";", "]rest", " 17", "\n", ",5" }; std::string tail = tails[g.pick(6)]; g.note("text", t + tail); g.nontrivial(r * c > 1); g.tag("hand-written text"); g.tag("end of stream after the last element", tail.empty());
	std::istringstream i(t + tail); 
	auto vt = [&](auto v) { i >> v; for (int k = 0; k < c; k++) if ((double)v[k] != x[k]) FAIL("element " << k << " read as " << v[k]); };
	auto mt = [&](auto m) { i >> m; for (int a = 0; a < r; a++) for (int k = 0; k < c; k++) if ((double)m(a, k) != x[a * c + k]) FAIL("entry (" << a << "," << k << ") read as " << m(a, k)); };
	if (vector) switch (g.pick(3)) { case 0: vt(Vector<>(c)); break; case 1: vt(Vector<Dynamic, int>(c)); break; case 2: if (c == 3) vt(Vector<3, float>()); else vt(Vector<Resizable>(c)); break; }
	else switch (g.pick(3)) { case 0: mt(Matrix<>(r, c)); break; case 1: mt(Matrix<Dynamic, Dynamic, int, ColMajor>(r, c)); break; case 2: if (r == 2 && c == 3) mt(Matrix<2, 3>()); else mt(Matrix<Dynamic, Dynamic, float>(r, c)); break; }
	if (i.fail()) FAIL("the stream failed although all elements are there"); std::string rest; i.clear(); std::getline(i, rest, '\0'); if (rest != tail) FAIL("after reading, \"" << rest << "\" is left instead of \"" << tail << "\"");
}
#endif
#if PART == 3
static RV tw(Gen& g, int n, double t) { RV v(n); for (auto& x : v) x = g.uniform(-t, t); return v; }
PROP(groups, 6) {
	std::vector<Item> s; int k = g.range(1, 4); g.nontrivial(); g.note("objects", k);
	for (int i = 0; i < k; i++) { double T = g.logpos(1e-3, 1e3); switch (g.pick(10)) {
		case 0: { g.tag("SO2"); s.push_back(gitem<SO2<>, double>(SO2<>(g.uniform(-4, 4)), "SO2", 1)); break; }
		case 1: { g.tag("SE2"); SE2<> x(SO2<>(g.uniform(-4, 4)), vec<2>(tw(g, 2, T))); s.push_back(gitem<SE2<>, double>(x, "SE2", 1)); break; }
		case 2: { g.tag("SO3"); s.push_back(gitem<SO3<>, double>(SO3<>(vec<3>(tw(g, 3, 3))), "SO3", 1)); break; }
		case 3: { g.tag("SE3"); SE3<> x(SO3<>(vec<3>(tw(g, 3, 3))), vec<3>(tw(g, 3, T))); s.push_back(gitem<SE3<>, double>(x, "SE3", 1)); break; }
		case 4: { g.tag("SIM2"); double sc = g.logpos(1e-2, 1e2); SIM2<> x(SO2<>(g.uniform(-4, 4)), vec<2>(tw(g, 2, T)), sc); s.push_back(gitem<SIM2<>, double>(x, "SIM2", 1)); break; }
		case 5: { g.tag("SIM3"); double sc = g.logpos(1e-2, 1e2); SIM3<> x(SO3<>(vec<3>(tw(g, 3, 3))), vec<3>(tw(g, 3, T)), sc); s.push_back(gitem<SIM3<>, double>(x, "SIM3", 1)); break; }
		case 6: { g.tag("SL<2>"); s.push_back(gitem<SL<2>, double>(SL<2>(vec<3>(tw(g, 3, 1))), "SL<2>", 1)); break; }
		case 7: { g.tag("SL<3>"); s.push_back(gitem<SL<3>, double>(SL<3>(vec<8>(tw(g, 8, 0.7))), "SL<3>", 2)); break; }
		case 8: { g.tag("SO3<float>"); s.push_back(gitem<SO3<float>, float>(SO3<float>(vec<3, float>(tw(g, 3, 3))), "SO3<float>", 1)); break; }
		case 9: { g.tag("SE3<float>"); SE3<float> x(SO3<float>(vec<3, float>(tw(g, 3, 3))), vec<3, float>(tw(g, 3, T))); s.push_back(gitem<SE3<float>, float>(x, "SE3<float>", 1)); break; }
	} }
	std::stringstream io; for (auto& i : s) i.out(io); g.note("text", io.str()); for (auto& i : s) i.in(io); if (io.fail()) FAIL("the stream failed while reading back: \"" << io.str() << "\""); for (auto& i : s) i.check();
}
PROP(group_text, 2) {
	// rows of [R | t], one per line
	double T = g.logpos(1e-2, 1e2); Fmt f = gen_fmt(g); if (f.width > 0 && g.flag()) f.width = 0; g.nontrivial(); std::string txt; RM m; std::ostringstream o; setfmt(o, f); o.width(f.width);
	switch (g.pick(6)) {
		case 0: { g.tag("SE3 text"); SE3<> x(SO3<>(vec<3>(tw(g, 3, 3))), vec<3>(tw(g, 3, T))); m = homse(x); o << x; break; }
		case 1: { g.tag("SE2 text"); SE2<> x(SO2<>(g.uniform(-4, 4)), vec<2>(tw(g, 2, T))); m = homse(x); o << x; break; }
		case 2: { g.tag("SO3 text"); SO3<> x(vec<3>(tw(g, 3, 3))); m = hom(x); o << x; break; }
		case 3: { g.tag("SO2 text"); SO2<> x(g.uniform(-4, 4)); m = hom(x); o << x; break; }
		case 4: { g.tag("SIM3 text"); SIM3<> x(SO3<>(vec<3>(tw(g, 3, 3))), vec<3>(tw(g, 3, T)), 2.0); m = homse(x); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) *= 2; o << x; break; }
		case 5: { g.tag("SL text"); SL<3> x(vec<8>(tw(g, 8, 0.7))); m = hom(x); o << x; break; }
	}
	std::vector<std::vector<std::string>> rows(m.r); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) rows[i].push_back(token((double)m(i, j), f));
	check_text(o.str(), rows, true, f.width, "group element");
}
#endif
