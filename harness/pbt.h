// A small deterministic property-based-testing engine.
//
// A test is a function of a choice source (pbt::Gen): every random decision a
// case makes is one bounded integer drawn from it.  The draws of a case are
// recorded, so a failing case *is* its list of draws: shrinking edits that
// list (dropping and lowering entries) and the replay file stores it.
//
// Cases run in forked workers; the draws live in memory shared with the
// parent, so a case that crashes (signal, sanitizer report, abort) or burns its
// CPU allowance is shrunk and replayed exactly like one that fails a check.
//
// Everything is a function of (VERIF_SEED, test name, case number).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

typedef long double LD;

struct Fail { std::string msg; };
struct Discard {};

const int MAXCHOICES = 1 << 15;

class Gen {
	// recording (shared with the parent)
	uint64_t* rec_; volatile uint32_t* nrec_;
	// replay
	const uint64_t* in_; size_t nin_; size_t pos_; bool replay_;
	uint64_t s_[2];
	uint64_t next() {
		// xorshift128+
		uint64_t a = s_[0], b = s_[1];
		s_[0] = b; a ^= a << 23; s_[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
		return s_[1] + b;
	}
public:
	bool verbose = false;
	std::string notes;
	std::vector<std::string> tags;
	std::string finding;      // set by a test when the input falls in a recorded finding's class
	bool nontrivial_ = false;
	uint64_t hash = 1469598103934665603ull;
	uint64_t ndraw = 0;

	Gen(uint64_t* rec, volatile uint32_t* nrec): rec_(rec), nrec_(nrec), in_(0), nin_(0), pos_(0), replay_(false) { *nrec_ = 0; }
	void seed(uint64_t a, uint64_t b) {
		auto mix = [](uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); };
		s_[0] = mix(a) ^ mix(mix(b)); s_[1] = mix(s_[0] + b + 1) | 1;
		for (int i = 0; i < 4; i++) next();
	}
	void replay(const uint64_t* v, size_t n) { in_ = v; nin_ = n; replay_ = true; }

	// A choice in [0, max]; 0 is the simplest.
	uint64_t draw(uint64_t max) {
		uint64_t v;
		if (replay_) { v = pos_ < nin_ ? in_[pos_] : 0; pos_++; if (v > max) v = max; }
		else if (max == ~0ull) v = next();
		else v = next() % (max + 1);
		uint32_t n = *nrec_;
		if (n >= (uint32_t)MAXCHOICES) throw Discard();
		rec_[n] = v; *nrec_ = n + 1;
		hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29;
		ndraw++;
		return v;
	}
	int range(int lo, int hi) { return lo + (int)draw((uint64_t)((int64_t)hi - lo)); }
	// a size: mostly lo..hi, now and then (1 in 50) up to big, where blocked or unrolled code paths would begin
	int size(int lo, int hi, int big) { return draw(49) == 49 ? range(lo, big) : range(lo, hi); }
	bool chance(int pct) { return draw(99) >= (uint64_t)(100 - pct); }   // false is simplest
	bool flag() { return draw(1) != 0; }
	int pick(int n) { return (int)draw(n - 1); }
	template<class T> const T& from(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
	// signed small integer, simplest 0
	int small(int mag) { uint64_t c = draw(2 * (uint64_t)mag); int k = (int)((c + 1) / 2); return (c & 1) ? k : -k; }
	// uniform in [0,1)
	double unit() { return (double)draw((1ull << 40) - 1) / (double)(1ull << 40); }
	double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
	// A "typical" real number: integers, halves, generic values, and at times zeros
	// and values of very different scale.  |x| in {0} U [1e-3, 1e3] mostly.
	double real() {
		switch (draw(7)) {
			case 0: return small(4);
			case 1: return small(8) / 2.0;
			case 2: case 3: case 4: return uniform(-2, 2);
			case 5: return uniform(-100, 100);
			case 6: return uniform(-1, 1) * std::pow(10., small(3));
			default: return 0;
		}
	}
	// never zero, magnitude within [lo,hi], log-uniform
	double logmag(double lo, double hi) { double u = unit(); double m = lo * std::pow(hi / lo, u); return flag() ? -m : m; }
	double logpos(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
	// exactly representable integers, so that sums and products are exact
	double integer(int mag) { return small(mag); }
	// N(0,1)-like
	double gauss() { double s = 0; for (int i = 0; i < 3; i++) s += uniform(-1, 1); return s; }

	void tag(const std::string& t) { tags.push_back(t); }
	void tag(const std::string& t, bool b) { if (b) tags.push_back(t); }
	void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
	void discard() { throw Discard(); }
	template<class T> void note(const char* k, const T& v) {
		if (!verbose) return;
		std::ostringstream o; o.precision(17); o << k << "=" << v << "; "; notes += o.str(); live("");
	}
	// text to show as the input when the case ends in a crash
	char* live_ = nullptr; size_t livecap_ = 0;
	void live(const std::string& t) { if (live_) { std::string n = notes + t; size_t k = n.size() < livecap_ - 1 ? n.size() : livecap_ - 1; std::memcpy(live_, n.data(), k); live_[k] = 0; } }
};

typedef void (*TestFn)(Gen&);
struct Test { const char* name; int weight; TestFn fn; };
inline std::vector<Test>& registry() { static std::vector<Test> r; return r; }
struct Reg { Reg(const char* n, int w, TestFn f) { registry().push_back(Test{n, w, f}); } };

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(name, weight): weight = relative number of cases
#define PROP(name, weight) \
	static void name(pbt::Gen& g); \
	static pbt::Reg PBT_CAT(reg_, name)(#name, weight, name); \
	static void name(pbt::Gen& g)

#define FAIL(msg) do { std::ostringstream o_; o_.precision(17); o_ << msg << "   [" << __FILE__ << ":" << __LINE__ << "]"; throw pbt::Fail{o_.str()}; } while (0)
#define REQUIRE(cond, msg) do { if (!(cond)) FAIL("expected " #cond ": " << msg); } while (0)

// |a-b| <= tol, false for NaN unless both are NaN-free
inline bool within(LD a, LD b, LD tol) { LD d = a - b; if (d < 0) d = -d; return d <= tol; }
#define CLOSE(a, b, tol, msg) do { pbt::LD a_ = (a), b_ = (b), t_ = (tol); if (!pbt::within(a_, b_, t_)) FAIL(#a " = " << (long double)a_ << " but should be " << (long double)b_ << " (tolerance " << (long double)t_ << "): " << msg); } while (0)

int main_(int argc, char** argv);
} // namespace pbt
