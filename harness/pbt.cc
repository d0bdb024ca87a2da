// Driver of the engine in pbt.h: forks workers, runs cases, shrinks, replays.
#include "pbt.h"
#include <atomic>
#include <algorithm>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
using namespace std;

namespace pbt {
namespace {
const int MAXTESTS = 64, MAXTAGS = 256, MAXSAMPLES = 12;
struct Tag { char name[56]; uint64_t n; };
struct Slot {
	volatile uint64_t k; volatile uint32_t nrec; volatile int state; // 0 running 1 done 2 failed
	uint64_t rec[MAXCHOICES];
	char msg[4000]; char notes[4000]; char finding[64];
	uint64_t eval[MAXTESTS], disc[MAXTESTS], nontriv[MAXTESTS], draws;
	uint32_t ntags; Tag tags[MAXTAGS];
	uint32_t nsamples; int sample_test[MAXSAMPLES]; char samples[MAXSAMPLES][700];
};
struct Shared { atomic<uint64_t> next; atomic<int> stop; atomic<uint64_t> ndistinct; atomic<uint64_t> bench; };
const uint64_t HSIZE = 1ull << 22;
atomic<uint64_t>* htab;
Shared* sh;
vector<int> sched;
uint64_t seed_ = 1;
set<string> known;
int cpu_limit = 60;

template<class T> T* shm(size_t n) {
	void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (T*)p;
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
uint64_t strhash(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
void put(char* dst, size_t n, const string& s) { size_t m = min(n - 1, s.size()); memcpy(dst, s.data(), m); dst[m] = 0; }

bool count_distinct(uint64_t h) {
	if (!h) h = 1;
	if (sh->ndistinct.load(memory_order_relaxed) > HSIZE * 3 / 4) return false;
	uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 42;
	for (;; i = (i + 1) & (HSIZE - 1)) {
		uint64_t v = htab[i].load(memory_order_relaxed);
		if (v == h) return false;
		if (v == 0) {
			uint64_t z = 0;
			if (htab[i].compare_exchange_strong(z, h)) { sh->ndistinct++; return true; }
			if (z == h) return false;
		}
	}
}
void arm(int secs) { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &t, 0); }

enum { OK = 0, FAILED = 10, DISCARDED = 11, KNOWN = 12 };

// Runs one case in this process.
int run_case(int t, Gen& g, string& msg) {
	try { registry()[t].fn(g); }
	catch (Fail& f) { msg = f.msg; }
	catch (Discard&) { return DISCARDED; }
	catch (std::exception& e) { msg = string("unexpected exception: ") + e.what(); }
	catch (...) { msg = "an operation on valid arguments was rejected (exception of the library's own error reporting)"; }
	if (msg.empty()) return OK;
	if (!g.finding.empty() && known.count(g.finding)) return KNOWN;
	return FAILED;
}

void worker(Slot* s, uint64_t ncases, double deadline, int W, uint64_t chunk) {
	map<string, int> tagidx;
	for (;;) {
		uint64_t k0 = sh->next.fetch_add(chunk);
		if (k0 >= ncases || now() > deadline) break;
		for (uint64_t k = k0; k < k0 + chunk && k < ncases; k++) {
			if (sh->stop.load(memory_order_relaxed)) { s->state = 1; fflush(0); _exit(0); }
			int t = sched[k % sched.size()];
			s->k = k;
			Gen g(s->rec, &s->nrec);
			g.seed(seed_ ^ strhash(registry()[t].name), k);
			g.verbose = s->nsamples < (uint32_t)MAXSAMPLES && s->eval[t] < 400;
			arm(cpu_limit);
			string msg;
			int r = run_case(t, g, msg);
			s->draws += g.ndraw;
			if (r == DISCARDED) { s->disc[t]++; continue; }
			s->eval[t]++;
			if (r == KNOWN) g.tags.push_back("known finding " + g.finding);
			if (r == FAILED) { put(s->msg, sizeof s->msg, msg); put(s->notes, sizeof s->notes, g.notes); s->state = 2; sh->stop = 1; fflush(0); _exit(0); }
			for (auto& tg : g.tags) {
				string nm = string(registry()[t].name) + ": " + tg;
				auto it = tagidx.find(nm);
				if (it == tagidx.end()) { if (s->ntags >= (uint32_t)MAXTAGS) continue; put(s->tags[s->ntags].name, 56, nm); it = tagidx.emplace(nm, s->ntags++).first; }
				s->tags[it->second].n++;
			}
			if (g.nontrivial_) {
				s->nontriv[t]++;
				count_distinct(g.hash ^ strhash(registry()[t].name));
				if (g.verbose && !g.notes.empty() && s->nsamples < (uint32_t)MAXSAMPLES) {
					int same = 0; for (uint32_t i = 0; i < s->nsamples; i++) same += s->sample_test[i] == t;
					if (same < 1) { s->sample_test[s->nsamples] = t; put(s->samples[s->nsamples++], 700, string(registry()[t].name) + ": " + g.notes); }
				}
			}
		}
	}
	s->state = 1; fflush(0); _exit(0);
}

// Runs given choices in a child.  Returns OK/FAILED/DISCARDED/KNOWN; crash and CPU exhaustion are FAILED.
int probe(Slot* s, int t, const vector<uint64_t>& c, string& msg, string& notes, const char* errfile, int limit) {
	s->nrec = 0; s->msg[0] = s->notes[0] = 0;
	fflush(0);
	pid_t p = fork();
	if (p < 0) { perror("fork"); exit(2); }
	if (!p) {
		int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(fd, 2); dup2(fd, 1);
		rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		Gen g(s->rec, &s->nrec); g.replay(c.data(), c.size()); g.verbose = true; g.live_ = s->notes; g.livecap_ = sizeof s->notes;
		arm(limit);
		string m; int r = run_case(t, g, m);
		put(s->msg, sizeof s->msg, m); put(s->notes, sizeof s->notes, g.notes);
		fflush(0); _exit(r);
	}
	int st; while (waitpid(p, &st, 0) < 0);
	msg = s->msg; notes = s->notes;
	if (WIFEXITED(st)) {
		int e = WEXITSTATUS(st);
		if (e == OK || e == FAILED || e == DISCARDED || e == KNOWN) return e;
		msg = "the process ended with status " + to_string(e) + " (sanitizer report)";
		return FAILED;
	}
	int sig = WTERMSIG(st);
	msg = sig == SIGVTALRM ? string("no termination: more than ") + to_string(limit) + " s of CPU time used by one case" : string("killed by signal ") + to_string(sig) + " (" + strsignal(sig) + ")";
	return FAILED;
}

vector<uint64_t> trimmed(Slot* s) { vector<uint64_t> v(s->rec, s->rec + s->nrec); while (!v.empty() && v.back() == 0) v.pop_back(); return v; }

vector<uint64_t> shrink(Slot* s, int t, vector<uint64_t> best, int limit) {
	double end = now() + 45; int probes = 0;
	auto simpler = [](const vector<uint64_t>& a, const vector<uint64_t>& b) {
		if (a.size() != b.size()) return a.size() < b.size();
		return a < b;
	};
	auto attempt = [&](const vector<uint64_t>& c) {
		if (now() > end || probes > 4000) return false;
		probes++;
		string m, n;
		if (probe(s, t, c, m, n, 0, limit) != FAILED) return false;
		vector<uint64_t> u = s->nrec ? trimmed(s) : c;
		if (u.size() > c.size()) u = c;
		if (!simpler(u, best)) { if (!simpler(c, best)) return false; u = c; }
		best = u; return true;
	};
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t w = max<size_t>(1, best.size() / 2); w >= 1; w /= 2) {
			for (size_t i = 0; i + w <= best.size();) {
				vector<uint64_t> c = best; c.erase(c.begin() + i, c.begin() + i + w);
				if (attempt(c)) progress = true; else i += w;
			}
			for (size_t i = 0; i + w <= best.size(); i += w) {
				vector<uint64_t> c = best; bool any = false;
				for (size_t j = i; j < i + w; j++) { any |= c[j] != 0; c[j] = 0; }
				if (any && attempt(c)) progress = true;
			}
			if (w == 1) break;
		}
		for (size_t i = 0; i < best.size(); i++) {
			uint64_t lo = 0;
			while (i < best.size() && lo < best[i]) {
				uint64_t mid = lo + (best[i] - lo) / 2;
				vector<uint64_t> c = best; c[i] = mid;
				if (attempt(c)) progress = true; else lo = mid + 1;
			}
		}
	}
	return best;
}

string jstr(const string& s) {
	string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}
} // namespace

int main_(int argc, char** argv) {
	uint64_t ncases = 1000; int jobs = 8; double tlimit = 300; string out, rout, rep, only;
	for (int i = 1; i < argc; i++) {
		string a = argv[i]; auto nxt = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") seed_ = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--cases") ncases = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--jobs") jobs = atoi(nxt().c_str());
		else if (a == "--time") tlimit = atof(nxt().c_str());
		else if (a == "--cpu") cpu_limit = atoi(nxt().c_str());
		else if (a == "--out") out = nxt();
		else if (a == "--replay-out") rout = nxt();
		else if (a == "--replay") rep = nxt();
		else if (a == "--test") only = nxt();
		else if (a == "--known") known.insert(nxt());
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	auto& R = registry();
	sort(R.begin(), R.end(), [](const Test& a, const Test& b) { return strcmp(a.name, b.name) < 0; });
	if (R.size() > (size_t)MAXTESTS) { fprintf(stderr, "too many tests\n"); return 2; }
	int maxw = 0; for (auto& t : R) maxw = max(maxw, t.weight);
	for (int r = 0; r < maxw; r++) for (size_t i = 0; i < R.size(); i++) if (R[i].weight > r && (only.empty() || only == R[i].name)) sched.push_back(i);
	if (sched.empty()) { fprintf(stderr, "no tests\n"); return 2; }
	signal(SIGPIPE, SIG_IGN);

	if (!rep.empty()) {
		// "test NAME", then "choices a b c ..."
		ifstream f(rep); string w, name; vector<uint64_t> c; string line;
		while (getline(f, line)) { istringstream l(line); l >> w; if (w == "test") l >> name; if (w == "choices") { uint64_t v; while (l >> v) c.push_back(v); } }
		int t = -1; for (size_t i = 0; i < R.size(); i++) if (name == R[i].name) t = i;
		if (t < 0) { fprintf(stderr, "no such test: %s\n", name.c_str()); return 2; }
		Slot* s = shm<Slot>(sizeof(Slot)); string m, n;
		int r = probe(s, t, c, m, n, (rep + ".stderr").c_str(), cpu_limit);
		if (r == FAILED) { printf("FAILS %s\n  %s\n  input: %s\n", name.c_str(), m.c_str(), n.c_str()); return 1; }
		printf(r == DISCARDED ? "DISCARDED %s\n  input: %s\n" : r == KNOWN ? "KNOWN FINDING %s\n  input: %s\n" : "PASSES %s\n  input: %s\n", name.c_str(), n.c_str());
		return 0;
	}

	double t0 = now();
	sh = shm<Shared>(sizeof(Shared)); new (sh) Shared(); sh->next = 0; sh->stop = 0; sh->ndistinct = 0;
	htab = shm<atomic<uint64_t>>(HSIZE * 8);
	vector<Slot*> S(jobs); vector<pid_t> P(jobs);
	uint64_t chunk = max<uint64_t>(1, min<uint64_t>(32, ncases / (jobs * 8) + 1));
	vector<int> crashed(jobs, 0);
	fflush(0);
	for (int i = 0; i < jobs; i++) {
		S[i] = shm<Slot>(sizeof(Slot));
		P[i] = fork();
		if (P[i] < 0) { perror("fork"); return 2; }
		if (!P[i]) {
			rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
			int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); if (!getenv("PBT_STDERR")) dup2(fd, 2);
			worker(S[i], ncases, t0 + tlimit, jobs, chunk);
		}
	}
	for (int i = 0; i < jobs; i++) {
		int st; pid_t p = wait(&st);
		int j = find(P.begin(), P.end(), p) - P.begin();
		if (j < jobs && S[j]->state == 0) {
			// SIGKILL is the machine's doing (memory guard), not the case's
			if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "a worker was killed\n"); sh->stop = 1; crashed[j] = 2; }
			else { crashed[j] = 1; sh->stop = 1; }
		}
	}
	uint64_t ev = 0, dis = 0, nt = 0, draws = 0; map<string, uint64_t> tags; vector<string> samples; map<string, uint64_t> pertest;
	for (auto s : S) {
		for (size_t t = 0; t < R.size(); t++) { ev += s->eval[t]; dis += s->disc[t]; nt += s->nontriv[t]; pertest[R[t].name] += s->eval[t]; }
		draws += s->draws;
		for (uint32_t i = 0; i < s->ntags; i++) tags[s->tags[i].name] += s->tags[i].n;
	}
	{ set<int> seen; for (auto s : S) for (uint32_t i = 0; i < s->nsamples; i++) if (seen.insert(s->sample_test[i]).second && samples.size() < 24) samples.push_back(s->samples[i]); }

	bool oom = false; int bad = -1;
	for (int i = 0; i < jobs; i++) {
		if (crashed[i] == 2) oom = true;
		if ((S[i]->state == 2 || crashed[i] == 1) && (bad < 0 || S[i]->k < S[bad]->k)) bad = i;
	}
	int rc = 0; string what, notes;
	if (bad >= 0) {
		int t = sched[S[bad]->k % sched.size()];
		vector<uint64_t> orig(S[bad]->rec, S[bad]->rec + S[bad]->nrec), c = orig;
		string m0 = S[bad]->state == 2 ? S[bad]->msg : "crash";
		Slot* s = shm<Slot>(sizeof(Slot));
		string err = rout + ".stderr";
		int lim = m0 == "crash" ? min(cpu_limit, 20) : cpu_limit;
		auto thrice = [&](const vector<uint64_t>& v) { for (int i = 0; i < 3; i++) if (probe(s, t, v, what, notes, err.c_str(), lim) != FAILED) return false; return true; };
		bool first = thrice(orig);
		if (first) {
			bool hang = what.find("no termination") == 0;
			c = shrink(s, t, orig, hang ? min(lim, 5) : lim);
			if (!thrice(c)) { c = orig; first = thrice(c); }
		}
		if (first) {
			ofstream f(rout); f << "# " << what << "\n# input: " << notes << "\ntest " << R[t].name << "\nseed " << seed_ << " case " << S[bad]->k << "\nchoices";
			for (auto v : c) f << ' ' << v;
			f << "\n"; f.close();
			printf("FAILS %s (case %llu, %zu draws shrunk to %zu)\n  %s\n  input: %s\n", R[t].name, (unsigned long long)S[bad]->k, orig.size(), c.size(), what.c_str(), notes.c_str());
			ifstream e(err); string line; for (int i = 0; i < 12 && getline(e, line); i++) printf("  | %s\n", line.c_str());
			rc = 1;
		} else { printf("a failure of %s (case %llu) did not reproduce: %s\n", R[t].name, (unsigned long long)S[bad]->k, m0.c_str()); rc = 3; }
	} else if (oom) rc = 4;
	if (!out.empty()) {
		ofstream f(out);
		f << "{\"evaluations\":" << ev << ",\"discarded\":" << dis << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << sh->ndistinct.load() << ",\"draws\":" << draws << ",\"wall\":" << now() - t0
		  << ",\"rc\":" << rc << ",\"complete\":" << (sh->next.load() >= ncases ? "true" : "false") << ",\"failure\":" << jstr(what) << ",\"input\":" << jstr(notes) << ",\"tests\":{";
		bool c = false; for (auto& p : pertest) { f << (c ? "," : "") << jstr(p.first) << ":" << p.second; c = true; }
		f << "},\"tags\":{"; c = false; for (auto& p : tags) { f << (c ? "," : "") << jstr(p.first) << ":" << p.second; c = true; }
		f << "},\"samples\":["; c = false; for (auto& x : samples) { f << (c ? "," : "") << jstr(x); c = true; }
		f << "]}\n";
	}
	return rc;
}
} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
