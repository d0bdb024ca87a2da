// V09: wrapped foreign memory, handed-out data pointers, planar complex arrays and
// named elements: the library and the raw memory stay two views of one thing.
#include "common.h"
#include <TooN/internal/planar_complex.hh>
#include <TooN/named_elements.h>
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
#if PART == 0
typedef double P;
#else
typedef int P;
#endif
static P val(Gen& g) { return std::is_integral<P>::value ? P(g.small(50)) : P(g.small(200) / 4.0); }
// one wrapper: where its element (i,j) lives in the buffer
struct W { int kind, off, r, c; };
static const char* WN[] = { "wrapVector(p,n)", "wrapVector<4>(p)", "Vector<Dynamic,P,Reference>(p,n)", "Vector<3,P,Reference>(p)", "wrapMatrix(p,r,c)", "wrapMatrix<2,3>(p)", "wrapMatrix<2,Dynamic>(p,2,c)", "wrapMatrix<Dynamic,2>(p,r,2)", "Matrix<Dynamic,Dynamic,P,Reference::ColMajor>(p,r,c)", "Matrix<3,2,P,Reference::ColMajor>(p)", "Matrix<3,2,P,Reference::RowMajor>(p)", "Matrix<Dynamic,Dynamic,P,Reference::RowMajor>(p,r,c)", "Matrix<Dynamic,2,P,Reference::ColMajor>(p,r,2)", "Matrix<2,Dynamic,P,Reference::ColMajor>(p,2,c)" };
static int at(const W& w, int i, int j) { return w.kind == 8 || w.kind == 9 || w.kind >= 12 ? w.off + j * w.r + i : w.off + i * w.c + j; }
static W genw(Gen& g, int size) {
	W w; w.kind = g.pick(14); w.r = 1; w.c = 1;
	switch (w.kind) { case 0: case 2: w.c = g.range(1, 8); break; case 1: w.c = 4; break; case 3: w.c = 3; break; case 4: case 8: case 11: w.r = g.range(1, 5); w.c = g.range(1, 5); break; case 5: w.r = 2; w.c = 3; break; case 6: case 13: w.r = 2; w.c = g.range(1, 5); break; case 7: case 12: w.c = 2; w.r = g.range(1, 5); break; default: w.r = 3; w.c = 2; }
	w.off = g.range(0, size - w.r * w.c); return w;
}
template<class F, class G> void use(const W& w, P* b, F&& fv, G&& fm) {
	P* p = b + w.off;
	switch (w.kind) {
		case 0: { auto v = wrapVector(p, w.c); fv(v); break; } case 1: { auto v = wrapVector<4>(p); fv(v); break; } case 2: { Vector<Dynamic, P, Reference> v(p, w.c); fv(v); break; } case 3: { Vector<3, P, Reference> v(p); fv(v); break; }
		case 4: { auto m = wrapMatrix(p, w.r, w.c); fm(m); break; } case 5: { auto m = wrapMatrix<2, 3>(p); fm(m); break; } case 6: { auto m = wrapMatrix<2, Dynamic>(p, 2, w.c); fm(m); break; } case 7: { auto m = wrapMatrix<Dynamic, 2>(p, w.r, 2); fm(m); break; }
		case 8: { Matrix<Dynamic, Dynamic, P, Reference::ColMajor> m(p, w.r, w.c); fm(m); break; } case 9: { Matrix<3, 2, P, Reference::ColMajor> m(p); fm(m); break; } case 10: { Matrix<3, 2, P, Reference::RowMajor> m(p); fm(m); break; } case 11: { Matrix<Dynamic, Dynamic, P, Reference::RowMajor> m(p, w.r, w.c); fm(m); break; }
		case 12: { Matrix<Dynamic, 2, P, Reference::ColMajor> m(p, w.r, 2); fm(m); break; } case 13: { Matrix<2, Dynamic, P, Reference::ColMajor> m(p, 2, w.c); fm(m); break; }
	}
}
PROP(wrappers, 6) {
	const int SZ = 30; std::vector<P> real(SZ), model(SZ); for (int i = 0; i < SZ; i++) real[i] = model[i] = val(g);
	const P* base = &real[0]; int n = g.range(1, 4); std::vector<W> ws; for (int i = 0; i < n; i++) ws.push_back(genw(g, SZ)); int steps = g.range(1, 12); g.nontrivial(steps > 1);
	for (auto& w : ws) { g.note("w", std::string(WN[w.kind]) + " at " + std::to_string(w.off) + " " + std::to_string(w.r) + "x" + std::to_string(w.c)); g.tag(WN[w.kind]); }
	auto check = [&](const char* what) {
		if (&real[0] != base) FAIL("buffer moved");
		for (int i = 0; i < SZ; i++) if (real[i] != model[i]) FAIL("after " << what << ": memory element " << i << " is " << real[i] << " instead of " << model[i]);
		for (auto& w : ws) use(w, &real[0],
			[&](auto& v) { if (v.size() != w.c) FAIL(WN[w.kind] << ": size"); for (int j = 0; j < w.c; j++) { if (v[j] != model[at(w, 0, j)]) FAIL("after " << what << ": " << WN[w.kind] << " element " << j); if (&v[j] != &real[at(w, 0, j)]) FAIL(WN[w.kind] << " element " << j << " is not in place"); } },
			[&](auto& m) { if (m.num_rows() != w.r || m.num_cols() != w.c) FAIL(WN[w.kind] << ": size"); for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) { if (m(i, j) != model[at(w, i, j)] || m[i][j] != model[at(w, i, j)] || m.T()(j, i) != model[at(w, i, j)]) FAIL("after " << what << ": " << WN[w.kind] << " entry (" << i << "," << j << ")"); if (&m(i, j) != &real[at(w, i, j)]) FAIL(WN[w.kind] << " entry not in place"); } });
	};
	check("construction");
	for (int s = 0; s < steps; s++) {
		W w = ws[g.pick(n)]; int op = g.pick(11); const char* what = ""; int i = g.pick(w.r), j = g.pick(w.c); P x = val(g); std::vector<P> d(w.r * w.c); for (auto& e : d) e = val(g);
		auto set = [&](int a, int b, P y) { model[at(w, a, b)] = y; };
		g.note("op", op);
		switch (op) {
			case 0: what = "raw write"; real[at(w, i, j)] = x; set(i, j, x); break;
			case 1: what = "element write"; use(w, &real[0], [&](auto& v) { v[j] = x; }, [&](auto& m) { if (x < 0) m(i, j) = x; else m[i][j] = x; }); set(i, j, x); break;
			case 2: what = "assignment from an object"; use(w, &real[0], [&](auto& v) { Vector<Dynamic, P> o(w.c); for (int k = 0; k < w.c; k++) o[k] = d[k]; v = o; }, [&](auto& m) { Matrix<Dynamic, Dynamic, P> o(w.r, w.c); for (int a = 0; a < w.r; a++) for (int b = 0; b < w.c; b++) o(a, b) = d[a * w.c + b]; m = o; }); for (int a = 0; a < w.r; a++) for (int b = 0; b < w.c; b++) set(a, b, d[a * w.c + b]); break;
			case 3: what = "+= expression"; use(w, &real[0], [&](auto& v) { Vector<Dynamic, P> o(w.c); for (int k = 0; k < w.c; k++) o[k] = d[k]; v += o + o; }, [&](auto& m) { Matrix<Dynamic, Dynamic, P> o(w.r, w.c); for (int a = 0; a < w.r; a++) for (int b = 0; b < w.c; b++) o(a, b) = d[a * w.c + b]; m += o + o; }); for (int a = 0; a < w.r; a++) for (int b = 0; b < w.c; b++) set(a, b, model[at(w, a, b)] + 2 * d[a * w.c + b]); break;
			case 4: { what = "*= scalar"; P y = P(g.small(3)); if (g.flag()) y = 1; bool big = false; for (auto e : model) if (std::fabs((double)e) > 1e6) big = true; if (big) y = 0; use(w, &real[0], [&](auto& v) { v *= y; }, [&](auto& m) { m *= y; }); for (int a = 0; a < w.r; a++) for (int b = 0; b < w.c; b++) set(a, b, model[at(w, a, b)] * y); break; }
			case 5: what = "Zeros / Ones"; use(w, &real[0], [&](auto& v) { v = Ones * x; }, [&](auto& m) { m = Ones * x; }); for (int a = 0; a < w.r; a++) for (int b = 0; b < w.c; b++) set(a, b, x); break;
			case 6: { what = "write through a slice"; int l = g.range(1, w.c - j), h = g.range(1, w.r - i); use(w, &real[0], [&](auto& v) { v.slice(j, l) = Ones * x; }, [&](auto& m) { m.slice(i, j, h, l) = Ones * x; }); for (int a = i; a < i + h; a++) for (int b = j; b < j + l; b++) set(a, b, x); break; }
			case 7: what = "write through the transpose / a row"; use(w, &real[0], [&](auto& v) { v.as_col()(j, 0) = x; }, [&](auto& m) { m.T()[j] = Ones * x; }); if (w.kind < 4) set(0, j, x); else for (int a = 0; a < w.r; a++) set(a, j, x); break;
			case 8: { what = "assignment between wrappers"; W u = ws[g.pick(n)]; if (u.r != w.r || u.c != w.c) break; 
				// overlapping source and destination have no defined element order
				if (!(u.off + u.r * u.c <= w.off || w.off + w.r * w.c <= u.off)) break;
				std::vector<P> s2 = model; use(w, &real[0], [&](auto& v) { use(u, &real[0], [&](auto& q) { if (q.size() == v.size()) if constexpr ((std::decay_t<decltype(q)>::SizeParameter < 0) || (std::decay_t<decltype(v)>::SizeParameter < 0) || int(std::decay_t<decltype(q)>::SizeParameter) == int(std::decay_t<decltype(v)>::SizeParameter)) v = q; }, [&](auto&) {}); }, [&](auto&) {});
				if (w.kind < 4 && u.kind < 4) for (int b = 0; b < w.c; b++) set(0, b, s2[at(u, 0, b)]); break; }
			case 9: what = "copying a wrapper aliases, reading a copy does not"; use(w, &real[0], [&](auto& v) { auto cp(v); cp[j] = x; Vector<Dynamic, P> o(v); o[j] = x + 1; }, [&](auto& m) { auto cp(m); cp(i, j) = x; Matrix<Dynamic, Dynamic, P> o(m); o(i, j) = x + 1; }); set(i, j, x); break;
			case 10: { what = "const wrapper reads"; const P* cp = &real[0] + w.off; if (w.kind < 4) { auto v = wrapVector(cp, w.c); for (int b = 0; b < w.c; b++) if (v[b] != model[at(w, 0, b)]) FAIL("read-only wrapper element " << b); if (w.c >= 2) { auto v2 = wrapVector<2>(cp); P sum = v2 * v2; P want = model[w.off] * model[w.off] + model[w.off + 1] * model[w.off + 1]; if (sum != want) FAIL("dot product of a read-only wrapper"); } }
				else { auto m = wrapMatrix(cp, w.r, w.c); for (int a = 0; a < w.r; a++) for (int b = 0; b < w.c; b++) if (m(a, b) != model[w.off + a * w.c + b]) FAIL("read-only wrapper entry"); Vector<Dynamic, P> o(w.c); for (int b = 0; b < w.c; b++) o[b] = b + 1; Vector<Dynamic, P> r = m * o; for (int a = 0; a < w.r; a++) { P want = 0; for (int b = 0; b < w.c; b++) want += model[w.off + a * w.c + b] * P(b + 1); if (r[a] != want) FAIL("product with a read-only wrapper"); } } break; }
		}
		check(what);
	}
}
// the address handed out gives the elements in layout order
PROP(data_pointers, 3) {
	int r = g.range(1, 6), c = g.range(1, 6), which = g.pick(9); g.nontrivial(r * c > 1); g.note("r", r); g.note("c", c); g.note("which", which);
	auto mchk = [&](auto& m, bool colmajor) { int R = m.num_rows(), C = m.num_cols(); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = P(10 * i + j); auto* p = m.get_data_ptr(); const auto& cm = m; const auto* q = cm.get_data_ptr(); if (q != p) FAIL("const data pointer differs");
		for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { int k = colmajor ? j * R + i : i * C + j; if (p[k] != P(10 * i + j)) FAIL("data[" << k << "] is not entry (" << i << "," << j << ")"); p[k] = P(k + 100); if (m(i, j) != P(k + 100)) FAIL("write through the data pointer"); } };
	auto vchk = [&](auto& v) { int n = v.size(); for (int i = 0; i < n; i++) v[i] = P(i + 3); auto* p = v.get_data_ptr(); const auto& cv = v; if (cv.get_data_ptr() != p) FAIL("const data pointer differs"); for (int i = 0; i < n; i++) { if (p[i] != P(i + 3)) FAIL("data[" << i << "]"); p[i] = P(i * 2); if (v[i] != P(i * 2)) FAIL("write through the data pointer"); } };
	switch (which) {
		case 0: { Matrix<Dynamic, Dynamic, P> m(r, c); mchk(m, false); break; } case 1: { Matrix<Dynamic, Dynamic, P, ColMajor> m(r, c); mchk(m, true); break; } case 2: { Matrix<3, 4, P> m; mchk(m, false); break; } case 3: { Matrix<3, 4, P, ColMajor> m; mchk(m, true); break; }
		case 4: { Vector<Dynamic, P> v(r); vchk(v); break; } case 5: { Vector<5, P> v; vchk(v); break; } case 6: { Vector<Resizable, P> v(r); v.resize(c); vchk(v); break; } case 7: { Matrix<4, Dynamic, P, ColMajor> m(4, c); mchk(m, true); break; } case 8: { Matrix<Dynamic, 3, P> m(r, 3); mchk(m, false); break; }
	}
}
#endif
#if PART == 2
typedef std::complex<double> C;
PROP(planar_complex, 3) {
	int n = 6; std::vector<double> arrays(3 * n, -77.); int layout = g.pick(4), delta = g.range(1 - n, n); g.tag(layout == 3 ? "overlapping arrays" : layout == 0 ? "imaginary array after the real one" : layout == 1 ? "imaginary array before the real one" : "apart");
	double* re = &arrays[layout == 3 ? n - 1 : layout == 1 ? n : 0]; double* im = &arrays[layout == 3 ? delta + n - 1 : layout == 0 ? n : layout == 1 ? 0 : 2 * n]; for (int i = 0; i < n; i++) { re[i] = g.small(9); im[i] = g.small(9); } g.nontrivial();
	auto z = [&](int i) { return C(re[i], im[i]); };
	Vector<6, C, ReferencePlanarComplex> v(std::make_pair(&re[0], &im[0])); Vector<Dynamic, C, ReferencePlanarComplex> d(std::make_pair(&re[0], &im[0]), n);
	int steps = g.range(1, 6);
	for (int s = 0; s < steps; s++) {
		int i = g.pick(n); re[i] = g.small(9); im[i] = g.small(9); int a = g.range(0, n - 2), l = g.range(1, n - a);
		if (v.size() != n) FAIL("size"); if (d.size() != n) FAIL("dynamic size");
		for (int k = 0; k < n; k++) { if (v[k] != z(k)) FAIL("element " << k << " is " << v[k] << " instead of " << z(k)); if (d[k] != z(k)) FAIL("dynamic wrapper element " << k); }
		auto sl = v.slice(a, l); if (sl.size() != l) FAIL("slice size"); for (int k = 0; k < l; k++) if (sl[k] != z(a + k)) FAIL("slice element " << k); auto ss = v.slice<2, 3>(); for (int k = 0; k < 3; k++) if (ss[k] != z(2 + k)) FAIL("static slice element " << k); auto s2 = v.slice<1, 4>().slice(1, 2); for (int k = 0; k < 2; k++) if (s2[k] != z(2 + k)) FAIL("slice of slice element " << k);
		Vector<6, C> o(v), w = v + o * 2.0; C dt = v * o, wd = 0; for (int k = 0; k < n; k++) { if (o[k] != z(k)) FAIL("copy"); if (w[k] != z(k) * 3.0) FAIL("sum"); wd += z(k) * z(k); } if (std::abs(dt - wd) > 1e-9) FAIL("dot product " << dt << " instead of " << wd);
		Matrix<2, 6, C> m; for (int p = 0; p < 2; p++) for (int q = 0; q < 6; q++) m(p, q) = C(p + 1, q - 2); Vector<2, C> mv = m * v; for (int p = 0; p < 2; p++) { C t = 0; for (int q = 0; q < 6; q++) t += m(p, q) * z(q); if (std::abs(mv[p] - t) > 1e-9) FAIL("matrix times planar vector"); }
	}
}
#endif
#if PART == 3
TOON_MAKE_NAMED_ELEMENT_VECTOR(Cam, f, u, v, w, q);
PROP(named_elements, 3) {
	double x[5]; for (auto& e : x) e = g.small(99) / 4.0; g.nontrivial(); TooN::Vector<5> src; for (int i = 0; i < 5; i++) src[i] = x[i];
	auto is = [&](const Cam<>& c, const double* y, const char* what) { double nm[5] = { c.f, c.u, c.v, c.w, c.q }; for (int i = 0; i < 5; i++) { if (nm[i] != y[i]) FAIL(what << ": member " << i); if (c[i] != y[i]) FAIL(what << ": element " << i); if (&c[i] != &c.f + i) FAIL(what << ": address"); } if (c.size() != 5) FAIL("size"); };
	Cam<> a; a.f = x[0]; a.u = x[1]; a.v = x[2]; a.w = x[3]; a.q = x[4]; is(a, x, "members written");
	Cam<> b(src); is(b, x, "constructed from a vector"); Cam<> c; c = src; is(c, x, "assigned from a vector"); Cam<> d(a); d.u = 1000; is(a, x, "copy is independent"); Cam<> z = Zeros; double zz[5] = { 0 }; is(z, zz, "Zeros");
	int i = g.pick(5); double y = g.small(99); x[i] = y; a[i] = y; is(a, x, "element written"); TooN::Vector<5> o = a * 2; for (int k = 0; k < 5; k++) if (o[k] != 2 * x[k]) FAIL("expression with named elements"); a += src; for (int k = 0; k < 5; k++) x[k] += src[k]; is(a, x, "+=");
	a.slice<1, 3>() = TooN::makeVector(7, 8, 9); x[1] = 7; x[2] = 8; x[3] = 9; is(a, x, "slice written"); Fill(a) = 5, 4, 3, 2, 1; double f[5] = { 5, 4, 3, 2, 1 }; is(a, f, "Fill"); std::stringstream io; io << a; Cam<> r = Zeros; io >> r; is(r, f, "streamed");
	TooN::Matrix<5> m = TooN::Identity; m(0, 4) = 2; Cam<> p(m * a); double pp[5] = { 7, 4, 3, 2, 1 }; is(p, pp, "product"); Cam<float> h; h = a; if (h.f != 5 || h.q != 1) FAIL("float"); Cam<> e; e = a; e.q = 77; is(a, f, "assignment copies"); swap(e, a); if (a.q != 77 || e.q != 1) FAIL("swap");
}
#endif
