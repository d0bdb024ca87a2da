// V12: what is wrong by the types alone does not compile; what is right does. Generated programs, judged by a model of sizes and
// constness, given to the compiler.
#include "pbt.h"
#include <spawn.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
using namespace pbt;
extern char** environ;
static std::string S(int n) { return n < 0 ? "Dynamic" : std::to_string(n); }
template<class... A> static std::string cat(const A&... a) { std::ostringstream o; (o << ... << a); return o.str(); }

// ---- the compiler
static std::string base() { static std::string b; if (b.empty()) { char p[4096]; ssize_t n = readlink("/proc/self/exe", p, sizeof p - 1); b = std::string(p, n > 0 ? n : 0); } return b; }
static int run(std::vector<std::string> args, const std::string& out) {
	std::vector<char*> v; for (auto& a : args) v.push_back(&a[0]); v.push_back(0);
	posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2);
	pid_t p; int e = posix_spawnp(&p, v[0], &fa, 0, &v[0], environ); posix_spawn_file_actions_destroy(&fa); if (e) return -1;
	int st; while (waitpid(p, &st, 0) < 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
static const char* HEADERS[] = {"TooN", "Cholesky", "LU", "SVD", "QR", "SymEigen", "Lapack_Cholesky", "GR_SVD", "QR_Lapack", "determinant", "gaussian_elimination", "gauss_jordan", "helpers", "so2", "so3", "se2", "se3", "sim2", "sim3", "sl", "wls", "irls"};
static std::vector<std::string> common() {
#ifdef USE_GCC
	return {"g++", "-std=c++17", "-w", "-fmax-errors=0", "-DTOON_USE_LAPACK", "-fsyntax-only", "-I", TOON_DIR};
#else
	return {"clang++", "-std=c++17", "-w", "-ferror-limit=0", "-DTOON_USE_LAPACK", "-fsyntax-only", "-I", TOON_DIR};
#endif
}
// a directory for one run of the compiler
static std::string dir() { const char* t = getenv("TMPDIR"); std::string s = std::string(t && *t ? t : "/tmp") + "/v12-XXXXXX"; return mkdtemp(&s[0]) ? s : std::string(); }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
// headers compiled once beside the program of this check
static std::string prepared() {
	static std::string h; if (!h.empty()) return h;
	std::string p = base() + ".pre.h", lock = base() + ".lock"; int fd = open(lock.c_str(), O_RDWR | O_CREAT, 0600); flock(fd, LOCK_EX);
#ifdef USE_GCC
	std::string pch = p + ".gch";
#else
	std::string pch = p + ".pch";
#endif
	struct stat st; if (stat(pch.c_str(), &st)) {
		std::ofstream o(p); for (auto x : HEADERS) o << "#include <TooN/" << x << ".h>\n"; o << "#include <TooN/named_elements.h>\nusing namespace TooN; using std::abs;\n"; o.close();
		auto a = common(); for (auto& x : a) if (x == "-fsyntax-only") x = "-Wno-pragma-once-outside-header";
#ifndef USE_GCC
		a.insert(a.end(), {"-Xclang", "-fno-pch-timestamp"});
#endif
		std::string tmp = pch + cat(".", getpid()); a.insert(a.end(), {"-x", "c++-header", p, "-o", tmp}); std::string d = dir(), log = d + "/log"; int r = run(a, log); std::string why = r ? slurp(log) : ""; unlink(log.c_str()); rmdir(d.c_str());
		if (r) { flock(fd, LOCK_UN); close(fd); throw Fail{"the headers do not compile: " + why.substr(0, 600)}; }
		rename(tmp.c_str(), pch.c_str());
	}
	flock(fd, LOCK_UN); close(fd); return h = p;
}
// 0: compiles, 1: does not, -1: no answer
static int compile(const std::string& text, std::string& log) {
	std::string pre = prepared(), d = dir(), f = d + "/p.cc", l = d + "/log"; { std::ofstream o(f); o << text; }
	auto a = common();
#ifdef USE_GCC
	a.insert(a.end(), {"-include", pre, f});
#else
	a.insert(a.end(), {"-include-pch", pre + ".pch", f});
#endif
	int r = run(a, l); log = slurp(l); unlink(f.c_str()); unlink(l.c_str()); rmdir(d.c_str()); return r == 0 ? 0 : r == 1 && log.find("error") != std::string::npos ? 1 : -1;
}

// ---- the model
struct O { std::string decl, expr; int r = -1, c = 0; bool vec = true, constant = false, resizable = false, temp = false; };
static int count_ = 0; // names
static std::string name() { return cat("x", count_++); }
static int dim(Gen& g, int p = 30) { return g.chance(p) ? -1 : g.range(1, 4); }
static std::string numbers(int n) { std::string s; for (int i = 0; i < n; i++) s += cat(i ? "," : "", i + 1, "."); return s; }
static O vec(Gen& g, int n, bool constant = false, bool writeable = false) {
	O o; o.r = n; o.constant = constant; std::string x = name(), k = constant ? "const " : "";
	if (n > 0) switch (g.pick(writeable || constant ? 8 : 9)) {
		case 0: case 1: o.decl = cat(k, "Vector<", n, "> ", x, " = Zeros;"); o.expr = x; break;
		case 2: o.decl = cat(k, "Matrix<2,", n, "> ", x, " = Zeros;"); o.expr = x + "[1]"; break;
		case 3: o.decl = cat(k, "Matrix<", n, ",2> ", x, " = Zeros;"); o.expr = x + ".T()[1]"; break;
		case 4: o.decl = cat(k, "Vector<", n + 2, "> ", x, " = Zeros;"); o.expr = cat(x, ".slice<1,", n, ">()"); break;
		case 5: o.decl = cat(k, "Vector<> ", x, "(9);"); o.expr = cat(x, ".slice<2,", n, ">()"); break;
		case 6: o.decl = cat(constant ? "const " : "", "double ", x, "p[9] = {}; ", "Vector<", n, ", ", constant ? "const double" : "double", ", Reference> ", x, "(", x, "p);"); o.expr = x; if (constant) { o.decl = cat("double ", x, "p[9] = {}; const Vector<", n, ", double, Reference> ", x, "(", x, "p);"); } break;
		case 7: o.decl = cat(k, "Matrix<", n, ",", n, ",double,ColMajor> ", x, " = Zeros;"); o.expr = x + ".diagonal_slice()"; break;
		case 8: o.decl = ""; o.expr = "makeVector(" + numbers(n) + ")"; o.temp = true; break;
	} else switch (g.pick(5)) {
		case 0: o.decl = cat(k, "Vector<> ", x, "(3);"); o.expr = x; break;
		case 1: o.decl = cat(k, "Vector<Resizable> ", x, "(3);"); o.expr = x; o.resizable = true; break;
		case 2: o.decl = cat(k, "Vector<5> ", x, " = Zeros;"); o.expr = x + ".slice(1,3)"; break;
		case 3: o.decl = cat(k, "Matrix<2,Dynamic> ", x, "(2,3);"); o.expr = x + "[0]"; break;
		case 4: o.decl = cat(k, "Matrix<> ", x, "(3,4);"); o.expr = x + ".T()[2]"; break;
	}
	return o;
}
static O mat(Gen& g, int r, int c, bool constant = false) {
	O o; o.vec = false; o.r = r; o.c = c; o.constant = constant; std::string x = name(), k = constant ? "const " : "", ra = r > 0 ? S(r) : "3", ca = c > 0 ? S(c) : "2"; bool st = r > 0 && c > 0;
	switch (g.pick(6)) {
		case 0: case 1: o.decl = cat(k, "Matrix<", S(r), ",", S(c), "> ", x, st ? std::string(" = Zeros;") : cat("(", ra, ",", ca, ");")); o.expr = x; break;
		case 2: o.decl = cat(k, "Matrix<", S(r), ",", S(c), ",double,ColMajor> ", x, st ? std::string(" = Zeros;") : cat("(", ra, ",", ca, ");")); o.expr = x; break;
		case 3: o.decl = cat(k, "Matrix<", S(c), ",", S(r), "> ", x, st ? std::string(" = Zeros;") : cat("(", ca, ",", ra, ");")); o.expr = x + ".T()"; break;
		case 4: o.decl = cat(k, "Matrix<6,7> ", x, " = Zeros;"); o.expr = cat(x, ".slice<", S(r > 0 ? 1 : -1), ",", S(c > 0 ? 2 : -1), ",", S(r), ",", S(c), ">(1,2,", ra, ",", ca, ")"); break;
		case 5: o.decl = cat("double ", x, "p[49] = {}; ", k, "Matrix<", S(r), ",", S(c), ",double,Reference::RowMajor> ", x, "(", x, "p", st ? std::string() : cat(", ", ra, ", ", ca), ");"); o.expr = x; break;
	}
	return o;
}
static bool eq(int a, int b) { return a < 0 || b < 0 || a == b; }
struct Stmt { std::string text; bool valid = true; std::string kind; };
// a size agreeing with n or not
static int partner(Gen& g, int n, bool want) { if (want) return n < 0 ? dim(g) : g.chance(25) ? -1 : n; return n < 0 ? -1 : n + 1 + g.pick(2); }
static Stmt vector_pair(Gen& g, bool want) {
	int n = want ? dim(g) : g.range(1, 4), m = partner(g, n, want); Stmt s; s.kind = "vectors"; if (!want && g.flag()) std::swap(n, m);
	O a = vec(g, n, g.chance(20)), b = vec(g, m, g.chance(20)); s.valid = eq(n, m); std::string d = a.decl + " " + b.decl + " ", x = a.expr, y = b.expr;
	switch (g.pick(8)) {
		case 0: s.text = cat(d, "Vector<> r(", x, " + ", y, ");"); break; case 1: s.text = cat(d, "Vector<> r(", x, " - ", y, ");"); break; case 2: s.text = cat(d, "double r = ", x, " * ", y, ";"); break;
		case 3: s.text = cat(d, "Vector<> r(diagmult(", x, ", ", y, "));"); break; case 4: s.text = cat(d, "bool r = ", x, " == ", y, ";"); break; case 5: s.text = cat(d, "bool r = ", x, " != ", y, ";"); break;
		case 6: s.text = cat(d, "Vector<> r(", x, ".as_diagonal() * ", y, ");"); break; case 7: s.text = cat(d, "Vector<> r(2 * ", x, " - ", y, " / 3);"); break;
	}
	return s;
}
static Stmt vector_assign(Gen& g, bool want) {
	int n = want ? dim(g) : g.range(1, 4), m = partner(g, n, want); Stmt s; s.kind = "assignment of vectors"; if (!want && g.flag()) std::swap(n, m);
	O a = vec(g, n, false, true), b = vec(g, m, g.chance(20)); s.valid = eq(n, m); std::string d = a.decl + " " + b.decl + " ", x = a.expr, y = b.expr;
	switch (g.pick(7)) {
		case 0: s.text = cat(d, x, " = ", y, ";"); break; case 1: s.text = cat(d, x, " += ", y, ";"); break; case 2: s.text = cat(d, x, " -= ", y, ";"); break;
		case 3: s.text = cat(d, x, " = -", y, ";"); break; case 4: s.text = cat(d, x, " = ", y, " * 2.;"); break; case 5: s.text = cat(d, x, " += ", y, " + ", y, ";"); break;
		case 6: s.text = cat(b.decl, " Vector<", S(n), "> r(", y, ");"); break;
	}
	return s;
}
static Stmt matrix_pair(Gen& g, bool want) {
	int r = want ? dim(g) : g.range(1, 4), c = want ? dim(g) : g.range(1, 4), r2 = partner(g, r, true), c2 = partner(g, c, true); if (!want) { if (g.flag()) r2 = partner(g, r, false); else c2 = partner(g, c, false); } Stmt s; s.kind = "matrices";
	O a = mat(g, r, c, g.chance(20)), b = mat(g, r2, c2, g.chance(20)); s.valid = eq(r, r2) && eq(c, c2); std::string d = a.decl + " " + b.decl + " ", x = a.expr, y = b.expr;
	switch (g.pick(4)) { case 0: s.text = cat(d, "Matrix<> r(", x, " + ", y, ");"); break; case 1: s.text = cat(d, "Matrix<> r(", x, " - ", y, ");"); break; case 2: s.text = cat(d, "bool r = ", x, " == ", y, ";"); break; case 3: s.text = cat(d, "bool r = ", x, " != ", y, ";"); break; }
	return s;
}
static Stmt matrix_assign(Gen& g, bool want) {
	int r = want ? dim(g) : g.range(1, 4), c = want ? dim(g) : g.range(1, 4), r2 = partner(g, r, true), c2 = partner(g, c, true); if (!want) { if (g.flag()) r2 = partner(g, r, false); else c2 = partner(g, c, false); } Stmt s; s.kind = "assignment of matrices";
	O a = mat(g, r, c), b = mat(g, r2, c2, g.chance(20)); s.valid = eq(r, r2) && eq(c, c2); std::string d = a.decl + " " + b.decl + " ", x = a.expr, y = b.expr;
	switch (g.pick(6)) { case 0: s.text = cat(d, x, " = ", y, ";"); break; case 1: s.text = cat(d, x, " += ", y, ";"); break; case 2: s.text = cat(d, x, " -= ", y, ";"); break; case 3: s.text = cat(d, x, " = ", y, " * 2.;"); break; case 4: s.text = cat(d, x, " = -", y, ";"); break; case 5: s.text = cat(b.decl, " Matrix<", S(r), ",", S(c), "> r(", y, ");"); break; }
	return s;
}
static Stmt products(Gen& g, bool want) {
	int r = dim(g), k = want ? dim(g) : g.range(1, 4), c = dim(g), k2 = partner(g, k, want); Stmt s; s.kind = "products"; if (!want && g.flag()) std::swap(k, k2); s.valid = eq(k, k2);
	switch (g.pick(7)) {
		case 0: { O a = mat(g, r, k, g.chance(20)), b = mat(g, k2, c, g.chance(20)); s.text = cat(a.decl, b.decl, " Matrix<> r(", a.expr, " * ", b.expr, ");"); break; }
		case 1: { O a = mat(g, r, k, g.chance(20)), b = vec(g, k2, g.chance(20)); s.text = cat(a.decl, b.decl, " Vector<> r(", a.expr, " * ", b.expr, ");"); break; }
		case 2: { O a = vec(g, k, g.chance(20)), b = mat(g, k2, c, g.chance(20)); s.text = cat(a.decl, b.decl, " Vector<> r(", a.expr, " * ", b.expr, ");"); break; }
		case 3: { O a = vec(g, k, g.chance(20)), b = mat(g, k2, c, g.chance(20)); s.text = cat(a.decl, b.decl, " Matrix<> r(", a.expr, ".as_diagonal() * ", b.expr, ");"); break; }
		case 4: { O a = mat(g, r, k, g.chance(20)), b = vec(g, k2, g.chance(20)); s.text = cat(a.decl, b.decl, " Matrix<> r(", a.expr, " * ", b.expr, ".as_diagonal());"); break; }
		case 5: { O a = vec(g, k), b = mat(g, k2, c); s.text = cat(a.decl, b.decl, " Matrix<> r(diagmult(", a.expr, ", ", b.expr, "));"); break; }
		case 6: { O a = mat(g, r, k), b = vec(g, k2); s.text = cat(a.decl, b.decl, " Matrix<> r(diagmult(", a.expr, ", ", b.expr, "));"); break; }
	}
	return s;
}
static Stmt product_result(Gen& g, bool want) { // the product's size against what it is assigned to
	int r = want ? dim(g) : g.range(1, 4), k = dim(g), c = dim(g); Stmt s; s.kind = "result of a product"; int q = partner(g, r, want); s.valid = eq(r, q);
	switch (g.pick(5)) {
		case 0: { O a = mat(g, r, k), b = vec(g, k), t = vec(g, q, false, true); s.text = cat(a.decl, b.decl, t.decl, " ", t.expr, " = ", a.expr, " * ", b.expr, ";"); break; }
		case 1: { O a = mat(g, k, r), b = vec(g, k), t = vec(g, q, false, true); s.text = cat(a.decl, b.decl, t.decl, " ", t.expr, " += ", b.expr, " * ", a.expr, ";"); break; }
		case 2: { O a = mat(g, r, k), b = mat(g, k, c), t = mat(g, q, c); s.text = cat(a.decl, b.decl, t.decl, " ", t.expr, " = ", a.expr, " * ", b.expr, ";"); break; }
		case 3: { O a = mat(g, c, k), b = mat(g, k, r), t = mat(g, c, q); s.text = cat(a.decl, b.decl, t.decl, " ", t.expr, " -= ", a.expr, " * ", b.expr, ";"); break; }
		case 4: { O a = mat(g, r, k), b = mat(g, k, c); s.text = cat(a.decl, b.decl, " Matrix<", S(q), ",", S(c), "> r(", a.expr, " * ", b.expr, ");"); break; }
	}
	return s;
}
static Stmt slices(Gen& g, bool want) {
	int n = g.range(1, 6), l = want ? g.range(0, n) : g.range(0, n + 2), st = want ? g.range(0, n - l) : std::max(0, n - l + 1 + g.pick(2)); Stmt s; s.kind = "slices"; s.valid = st + l <= n; bool k = g.flag(); std::string c = k ? "const " : "", x = name(); if (l == 0 && want) { l = 1; st = g.range(0, n - 1); } s.valid = st + l <= n;
	if (!want && g.chance(20)) { st = -3; s.valid = false; } // -1 stands for run-time bounds
	switch (g.pick(7)) {
		case 0: s.text = cat(c, "Vector<", n, "> ", x, " = Zeros; auto y = ", x, ".slice<", st, ",", l, ">();"); break;
		case 1: s.text = cat(c, "Matrix<", n, ",3> ", x, " = Zeros; auto y = ", x, ".slice<", st, ",1,", l, ",2>();"); break;
		case 2: s.text = cat(c, "Matrix<3,", n, "> ", x, " = Zeros; auto y = ", x, ".slice<1,", st, ",2,", l, ">();"); break;
		case 3: s.text = cat(c, "Matrix<2,", n, "> ", x, " = Zeros; auto y = ", x, "[1].slice<", st, ",", l, ">();"); break;
		case 4: s.text = cat(c, "Matrix<", n, ",4,double,ColMajor> ", x, " = Zeros; auto y = ", x, ".T()[2].slice<", st, ",", l, ">();"); break;
		case 5: s.text = cat(c, "Matrix<", n, ",4> ", x, " = Zeros; auto y = ", x, ".T().slice<0,", st, ",3,", l, ">();"); break;
		case 6: s.text = cat(c, "Vector<", n + 2, "> ", x, " = Zeros; auto y = ", x, ".slice<2,", n, ">().slice<", st, ",", l, ">();"); break;
	}
	return s;
}
static Stmt writes(Gen& g, bool want) { // objects that are const, and views of them, are read only
	bool k = !want; Stmt s; s.kind = "read-only objects"; s.valid = want;
	if (g.flag()) {
		int n = g.range(2, 4); O a = vec(g, g.chance(30) ? -1 : n, k, true); std::string d = a.decl + " ", x = a.expr; if (k && g.flag()) { std::string y = name(); if (x.find('[') != std::string::npos || x.find('.') != std::string::npos) { d += cat("auto ", y, " = ", x, "; "); x = y; } }
		bool st = a.r > 0; int form = g.pick(15); if (!st && form >= 13) form = 0;
		switch (form) {
			case 0: s.text = cat(d, x, "[1] = 1;"); break; case 1: s.text = cat(d, x, "[0]++;"); break; case 2: s.text = cat(d, x, " *= 2;"); break; case 3: s.text = cat(d, x, " /= 2;"); break; case 4: s.text = cat(d, x, " = Zeros(", a.r > 0 ? a.r : 3, ");"); break;
			case 5: s.text = cat(d, x, " += ", x, ";"); break; case 6: s.text = cat(d, x, " -= ", x, ";"); break; case 7: s.text = cat(d, x, " += 1.;"); s.text = cat(d, x, ".slice(0,1)[0] = 1;"); break; case 8: s.text = cat(d, x, ".slice<0,1>()[0] = 1;"); break;
			case 9: s.text = cat(d, x, ".as_row()(0,0) = 1;"); break; case 10: s.text = cat(d, x, ".as_col()(0,0) = 1;"); break; case 11: s.text = cat(d, "Fill(", x, ") = 1., 2.", a.r == 3 || a.r < 0 ? ", 3." : a.r == 4 ? ", 3., 4." : "", ";"); if (x.find('.') != std::string::npos || x.find('[') != std::string::npos) s.text = cat(d, x, "[0] += 1;"); break;
			case 12: s.text = cat(d, "double& r = ", x, "[0];"); break; case 13: s.text = cat(d, x, ".as_diagonal()[0] = 1;"); break; case 14: s.text = cat(d, x, ".slice<0,2>() *= 3;"); break;
		}
	} else {
		int r = g.range(2, 4), c = g.range(2, 4); O a = mat(g, g.chance(30) ? -1 : r, g.chance(30) ? -1 : c, k); std::string d = a.decl + " ", x = a.expr; if (k && g.flag() && x.find('.') != std::string::npos) { std::string y = name(); d += cat("auto ", y, " = ", x, "; "); x = y; }
		switch (g.pick(13)) {
			case 0: s.text = cat(d, x, "[1][0] = 1;"); break; case 1: s.text = cat(d, x, "(1,0) = 1;"); break; case 2: s.text = cat(d, x, " *= 2;"); break; case 3: s.text = cat(d, x, " = Zeros(", a.r > 0 ? a.r : 3, ",", a.c > 0 ? a.c : 2, ");"); break; case 4: s.text = cat(d, x, " += ", x, ";"); break; case 5: s.text = cat(d, x, "[0] = ", x, "[1];"); break; case 6: s.text = cat(d, x, ".T()[0][1] = 1;"); break;
			case 7: s.text = cat(d, x, ".slice(0,0,1,2)(0,0) = 1;"); break; case 8: s.text = cat(d, x, ".slice<0,0,1,2>()[0][1] = 1;"); break; case 9: s.text = cat(d, x, ".diagonal_slice()[0] = 1;"); break; case 10: s.text = cat(d, x, ".T().slice<0,0,1,1>()(0,0) = 1;"); break; case 11: s.text = cat(d, "double& r = ", x, "(0,0);"); break; case 12: s.text = cat(d, x, ".T()[0].slice<0,1>()[0] = 1;"); break;
		}
	}
	return s;
}
static Stmt initialisers(Gen& g, bool want) {
	Stmt s; s.kind = "initialisers"; int n = g.range(1, 5), m = want ? n : n + 1 + g.pick(2); std::string x = name(); s.valid = n == m;
	switch (g.pick(10)) {
		case 6: n++, m++; if (!want && g.flag()) std::swap(n, m); s.text = cat("Vector<", n, "> ", x, " = Data(", numbers(m), ");"); break;
		case 7: case 9: { int r = g.range(1, 3); s.text = cat("Matrix<", r, ",", n, "> ", x, "; ", x, " = Data(", numbers(want ? r * n : r * n + (r * n > 1 && g.flag() ? -1 : 1)), ");"); break; }
		case 8: n++, m++; if (!want && g.flag()) std::swap(n, m); s.text = cat("Matrix<2,", n, "> ", x, " = Zeros; ", x, "[1] = Data(", numbers(m), ");"); break;
		case 0: s.text = cat("Vector<", n, "> ", x, "; Fill(", x, ") = ", numbers(m), ";"); break;
		case 1: { int r = g.range(1, 3); s.text = cat("Matrix<", r, ",", n, "> ", x, "; Fill(", x, ") = ", numbers(want ? r * n : r * n + 1), ";"); break; }
		case 2: if (!want && g.flag()) std::swap(n, m); s.text = cat("Vector<", n, "> ", x, " = makeVector(", numbers(m), ");"); break;
		case 3: if (!want && g.flag()) std::swap(n, m); s.text = cat("Vector<", n, "> ", x, "; ", x, " = makeVector(", numbers(m), ");"); break;
		case 4: if (!want && g.flag()) std::swap(n, m); s.text = cat("Matrix<3,", n, "> ", x, " = Zeros; ", x, "[1] = makeVector(", numbers(m), ");"); break;
		case 5: { O t = vec(g, n, false, true); s.text = cat(t.decl, t.expr, " += makeVector(", numbers(m), ");"); break; }
	}
	return s;
}
static Stmt solvers(Gen& g, bool want) {
	Stmt s; s.kind = "solvers"; int n = g.range(2, 4), m = want ? n : n + 1; bool wrong = !want; s.valid = want; int dyn = g.chance(25); (void)wrong;
	std::string A = cat("Matrix<", n, "> a = Identity; "), R = cat("Matrix<", n, ",", m, "> a = Zeros; "), v = cat("Vector<", m, "> b = Zeros; "), M = cat("Matrix<", m, ",2> b = Zeros; "), W = cat("WLS<", n, "> w; "), J = cat("IRLS<", n, ",double,RobustII> w; ");
	switch (g.pick(42)) {
		case 0: s.text = A + v + "auto r = gaussian_elimination(a, b);"; break;
		case 1: s.text = A + v + cat("Cholesky<", n, "> d(a); Vector<> r(d.backsub(b));"); break;
		case 2: s.text = A + v + cat("LU<", n, "> d(a); Vector<> r(d.backsub(b));"); break;
		case 3: s.text = cat("Matrix<", n, ",", n - 1, "> a = Zeros; ") + v + cat("SVD<", n, ",", n - 1, "> d(a); Vector<> r(d.backsub(b));"); break;
		case 4: s.text = A + v + cat("SymEigen<", n, "> d(a); Vector<> r(d.backsub(b));"); break;
		case 5: s.text = R + "double r = determinant(a);"; break;
		case 6: s.text = cat("Matrix<", m, "> a = Identity; Cholesky<", n, "> d(a);"); break;
		case 7: s.text = cat("Matrix<", m, "> a = Identity; LU<", n, "> d(a);"); break;
		case 8: s.text = W + v + "w.add_mJ(1., b);"; break;
		case 9: s.text = A + M + "Matrix<> r(gaussian_elimination(a, b));"; break;
		case 10: s.text = A + M + cat("Cholesky<", n, "> d(a); Matrix<> r(d.backsub(b));"); break;
		case 11: s.text = A + M + cat("LU<", n, "> d(a); Matrix<> r(d.backsub(b));"); break;
		case 12: s.text = A + M + cat("SymEigen<", n, "> d(a); Matrix<> r(d.backsub(b));"); break;
		case 13: s.text = R + "double r = determinant_LU(a);"; break;
		case 14: s.text = R + "double r = determinant_gaussian_elimination(a);"; break;
		case 15: s.text = R + "double r = trace(a);"; break;
		case 16: s.text = R + "Symmetrize(a);"; break;
		case 17: s.text = cat("Matrix<", n, ",", m, "> a = Identity;"); break;
		case 18: s.text = R + "a = Identity;"; break;
		case 19: s.text = R + "a += Identity;"; break;
		case 20: s.text = R + "Matrix<> r(a - Identity);"; break;
		case 21: s.text = R + cat("SymEigen<", n, "> d(a);"); break;
		case 22: s.text = R + cat("Cholesky<", n, "> d(a);"); break;
		case 23: s.text = R + cat("LU<", n, "> d(a);"); break;
		case 24: s.text = R + cat("Lapack_Cholesky<", n, "> d(a);"); break;
		case 25: s.text = A + v + cat("Lapack_Cholesky<", n, "> d(a); Vector<> r(d.backsub(b));"); break;
		case 26: s.text = A + M + cat("Lapack_Cholesky<", n, "> d(a); Matrix<> r(d.backsub(b));"); break;
		case 27: s.text = W + v + "w.add_prior(b);"; break;
		case 28: s.text = W + cat("Matrix<", m, "> b = Zeros; w.add_prior(b);"); break;
		case 29: s.text = W + cat("Vector<2> e = Zeros; Matrix<2,", m, "> j = Zeros; w.add_mJ_rows(e, j, Matrix<2>(Identity));"); break;
		case 30: s.text = W + cat("Vector<2> e = Zeros; Matrix<", m, ",2> j = Zeros; w.add_mJ(e, j, Matrix<2>(Identity));"); break;
		case 31: s.text = W + cat("Vector<2> e = Zeros; Matrix<", n, ",2> j = Zeros; w.add_mJ(e, j, Matrix<", want ? 2 : 3, ">(Identity));"); break;
		case 32: s.text = J + v + "w.add_mJ(1., b);"; break;
		case 33: s.text = W + cat("WLS<", m, "> q; w += q;"); break;
		case 34: s.text = R + "auto r = exp(a);"; break;
		case 35: s.text = R + "auto r = log(a);"; break;
		case 36: s.text = R + "auto r = sqrt(a);"; break;
		case 37: s.text = cat("Matrix<", n, ",", n + 1, "> a = Zeros; Matrix<", m, ",", n + 1, "> b = Zeros; swap(a, b);"); break;
		case 38: s.text = cat("Matrix<", n + 1, ",", n, "> a = Zeros; Matrix<", n + 1, ",", m, "> b = Zeros; swap(a, b);"); break;
		case 39: s.text = cat("Vector<", n, "> a = Zeros; ") + v + "Vector<> r(a.as_diagonal() * b);"; break;
		case 40: s.text = cat("Vector<", n, "> a = Zeros; ") + v + "Vector<> r((a.as_diagonal() * b.as_diagonal()).diagonal_slice());"; break;
		case 41: s.text = cat("Matrix<", m, ",", n, "> a = Identity; QR<", n, ",", n, "> d(a);"); break;
	}
	(void)dyn; return s;
}
static Stmt groups(Gen& g, bool want) {
	Stmt s; s.kind = "groups"; s.valid = want; struct T { const char* t; int hom, alg, pt; } t[] = {{"SO2<>", 2, 1, 2}, {"SO3<>", 3, 3, 3}, {"SE2<>", 3, 3, 2}, {"SE3<>", 4, 6, 3}, {"SIM2<>", 3, 4, 2}, {"SIM3<>", 4, 7, 3}, {"SL<3>", 3, 8, 3}}; int i = g.pick(7); auto& q = t[i]; std::string d = cat(q.t, " s; ");
	int bad = q.hom + 1 + g.pick(2);
	int wrong = q.alg + 1 + g.pick(2), rp = i == 1 || i == 3 || i == 5; std::string av = cat("Vector<", want ? q.alg : wrong, "> v = Zeros; ");
	if (i == 0) av = ""; // angles are plain numbers
	switch (g.pick(9)) {
		case 4: if (i == 0) { s.text = cat(d, "Vector<", want ? 2 : bad, "> v = Zeros; Vector<> r(s * v);"); break; } s.text = cat(av, q.t, " r = ", q.t, "::exp(v);"); break;
		case 5: if (i == 3 || i == 5 || i == 4 || i == 2) s.text = cat(d, "Matrix<", want ? q.alg : wrong, "> m = Zeros; Matrix<> r(s.adjoint(m));"); else s.text = cat("Vector<", want ? 3 : 4, "> v = Zeros; Matrix<> r(cross_product_matrix(v));"); break;
		case 6: if (i == 3 || i == 5) s.text = cat(d, av, "Vector<> r(s.trinvadjoint(v));"); else s.text = cat("Vector<3> a = makeVector(1., 0., 0.); Vector<", want ? 3 : 4, "> b = Zeros; SO3<> r(a, b);"); break;
		case 7: if (i == 3 || i == 5) s.text = cat(d, "Matrix<", want ? q.alg : wrong, "> m = Zeros; Matrix<> r(s.trinvadjoint(m));"); else s.text = cat("Vector<3> v = Zeros; Vector<", want ? 3 : 2, "> w = Zeros; Vector<> r(SO3<>::generator_field(1, ", want ? "v" : "w.slice<0,1>()", "));"); break;
		case 8: s.text = cat("Matrix<", q.hom, "> m = Identity; Matrix<2,", want ? q.hom : bad, "> n = Zeros; ", d, rp || i == 6 || i == 0 ? "Matrix<> r(n * s);" : "Matrix<> r(n * s);"); break;
		case 0: s.text = cat(d, "Vector<", want ? (g.flag() ? q.pt : q.hom) : bad, "> v = Zeros; Vector<> r(s * v);"); break;
		case 1: s.text = cat(d, "Matrix<", want ? q.hom : bad, ",3> m = Zeros; Matrix<> r(s * m);"); break;
		case 2: if (i == 0) s.text = cat(d, "Vector<", want ? 2 : bad, "> v = Zeros; Vector<> r(v * s);"); else s.text = cat("Vector<", want ? q.alg : q.alg + 1 + g.pick(2), "> v = Zeros; ", q.t, " r(v);"); break;
		case 3: if (i == 0 || i == 1 || i == 6) s.text = cat(d, "Matrix<2,", want ? q.hom : bad, "> m = Zeros; Matrix<> r(m * s);"); else s.text = cat(d, "Vector<", want ? q.alg : q.alg + 1, "> v = Zeros; Vector<> r(s.adjoint(v));"); break;
	}
	return s;
}
static Stmt misc(Gen& g, bool want) {
	Stmt s; s.kind = "other operations"; s.valid = want; int n = want ? 3 : (g.flag() ? 2 : 4);
	switch (g.pick(5)) {
		case 0: s.text = cat("Vector<3> a = Zeros; Vector<", n, "> b = Zeros; auto r = a ^ b;"); break;
		case 1: s.text = cat("Vector<", n, "> a = Zeros; Vector<3> b = Zeros; auto r = a ^ b;"); break;
		case 2: s.text = cat("Vector<", want ? "Resizable" : g.flag() ? "3" : "Dynamic", "> a", want ? "" : "(3)", "; a.resize(4);"); break;
		case 3: s.text = cat("Matrix<3,", n, "> a = ", want ? "Identity" : "Zeros", "; double t = trace(a);"); break;
		case 4: s.text = cat("Vector<3> a = Zeros; Vector<", n, "> b = Zeros; swap(a, b);"); break;
	}
	return s;
}
static Stmt protectors(Gen& g, bool want) { // what an object hands out follows the constness of the object, and the matrices of group elements are never writeable
	Stmt s; s.kind = "parts of read-only objects"; s.valid = want; std::string k = want ? "" : "const "; const char* gs[] = {"SE2<>", "SE3<>", "SIM2<>", "SIM3<>"}; const char* all[] = {"SO2<>", "SO3<>", "SE2<>", "SE3<>", "SIM3<>", "SL<3>"}; const char* mats[] = {"SO2<>", "SO3<>", "SL<3>", "SL<4>"}; std::string t = gs[g.pick(4)], d = cat(k, t, " s = ", t, "(); ");
	switch (g.pick(9)) {
		case 0: s.text = cat(d, "s.get_translation()[0] = 1;"); break; case 1: s.text = cat(d, "s.get_rotation() = ", t.find("2") != std::string::npos ? "SO2" : "SO3", "<>();"); break; case 2: { std::string u = all[g.pick(6)]; s.text = cat(k, u, " s = ", u, "(); s *= ", u, "();"); break; }
		case 3: { std::string u = mats[g.pick(4)]; s.text = cat(u, " s; ", want ? "double r = " : "", "s.get_matrix()(0,1)", want ? "" : " = 1", ";"); break; }
		case 4: { std::string u = mats[g.pick(4)]; s.text = cat(u, " s; ", want ? "double r = " : "", "s.get_matrix()", g.flag() ? ".T()" : "", "[0][1]", want ? "" : " = 1", ";"); break; }
		case 5: { const char* f[] = {"get_C_inv()[0][0] = 1", "get_vector()[0] = 1", "get_mu()[0] = 1", "clear()", "compute()", "add_prior(1.)", "add_mJ(1., w0)"}; s.text = cat("Vector<3> w0 = Zeros; WLS<3> w; ", k, "WLS<3>& q = w; q.", f[g.pick(7)], ";"); break; }
		case 6: { const char* f[] = {"get_evectors()[0][0] = 1", "get_evalues()[0] = 1", "compute(a)"}; s.text = cat("Matrix<3> a = Identity; ", k, "SymEigen<3> e(a); e.", f[g.pick(3)], ";"); break; }
		case 7: { const char* u[] = {"SIM2<>", "SIM3<>"}; t = u[g.flag()]; s.text = cat(k, t, " s = ", t, "(); s.get_scale() = 2;"); break; }
		case 8: { s.text = cat("Matrix<3> a = Identity; LU<3> l(a); ", want ? "double r = " : "", "l.get_lu()[0][0]", want ? "" : " = 1", ";"); break; }
	}
	return s;
}
static Stmt any(Gen& g, bool want) {
	switch (g.pick(16)) { case 12: return protectors(g, want); case 0: return vector_pair(g, want); case 1: return vector_assign(g, want); case 2: return matrix_pair(g, want); case 3: return matrix_assign(g, want); case 4: return products(g, want); case 5: return product_result(g, want); case 6: return slices(g, want); case 7: case 8: return writes(g, want); case 9: return initialisers(g, want); case 10: case 13: case 14: return solvers(g, want); case 15: return groups(g, want); default: return misc(g, want); }
}
static void works() { static pid_t who = 0; if (who == getpid()) return; who = getpid(); std::string log; if (compile("void f() { Vector<2> v = makeVector(1., 2.); }\n", log)) throw Fail{"a vector of two numbers does not compile: " + log.substr(0, 400)}; }
// every statement on a line of its own: those that no message names are compiled by themselves
static void judge_wrong(Gen& g, const std::vector<std::string>& v) {
	std::string text; for (size_t i = 0; i < v.size(); i++) text += cat("void f", i, "() { ", v[i], " }\n");
	g.note("program", text); std::string log; int r = compile(text, log); works();
	for (size_t i = 0; i < v.size(); i++) {
		if (r == 1 && log.find(cat("p.cc:", i + 1, ":")) != std::string::npos) continue;
		std::string l2, t = cat("void f() { ", v[i], " }\n"); int q = compile(t, l2); if (q < 0) q = compile(t, l2); if (q < 0) { g.discard(); return; }
		if (q == 0) throw Fail{"a program wrong by its types compiles: " + v[i]};
	}
}
static void judge_right(Gen& g, const std::string& text) {
	g.note("program", text); std::string log; int r = compile(text, log); if (r == 0) return;
	works(); r = compile(text, log); if (r < 0) { g.discard(); return; } // twice, and only if the compiler works at all
	if (r == 1) { size_t p = log.find("error"); throw Fail{"a correct program does not compile: " + log.substr(p == std::string::npos ? 0 : p, 300)}; }
}
PROP(wrong, 1) { count_ = 0; int n = g.range(1, 10); std::vector<std::string> v; for (int i = 0; i < n; i++) { Stmt s = any(g, false); if (s.valid) continue; g.tag(s.kind); v.push_back(s.text); } if (v.empty()) g.discard(); g.nontrivial(); judge_wrong(g, v); }
PROP(right, 1) { count_ = 0; int n = g.range(1, 10); std::string t; for (int i = 0; i < n; i++) { Stmt s = any(g, true); if (!s.valid) g.discard(); g.tag(s.kind); t += cat("void f", i, "() { ", s.text, " }\n"); } g.nontrivial(); judge_right(g, t); }
