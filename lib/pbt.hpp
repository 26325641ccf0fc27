// Property-based testing runner used by every check in /verif/checks.
//
// A suite is a function of a stream of choices (pbt::Src).  Cases are generated
// from VERIF_SEED, run in forked workers (so that a crash, a sanitizer report or
// an endless loop is an outcome like any other), and the first failing case is
// shrunk on its choice stream and replayed three times before it is reported.
#pragma once
#include <cinttypes>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

constexpr int EXIT_FAIL = 77, EXIT_SAN = 78, EXIT_DISCARD = 79;
constexpr size_t MAX_CHOICES = 1 << 16;
constexpr int MAX_LABELS = 160;
constexpr size_t HASH_SLOTS = 1 << 22;
constexpr int MAX_WORKERS = 16;
constexpr size_t MSG = 16384;

struct LabelSlot { char name[80]; std::atomic<uint64_t> count; std::atomic<int> used; };

struct WorkerSlot {
	std::atomic<uint64_t> current;   // case number being run
	std::atomic<uint64_t> beat;      // increments per case
	std::atomic<uint32_t> nchoices;
	uint64_t choices[MAX_CHOICES];
	char msg[MSG];
	char log[MSG];
	int nsamples;
	char samples[6][2400];
	char sampleSuite[6][64];
};

struct Shared {
	std::atomic<uint64_t> evaluations, discards, nontrivial, distinct, hashFull;
	std::atomic<uint64_t> suiteEvals[64];
	std::atomic<uint64_t> suiteNontrivial[64];
	std::atomic<int> stop;
	LabelSlot labels[MAX_LABELS];
	WorkerSlot w[MAX_WORKERS];
	std::atomic<uint64_t> hashes[HASH_SLOTS];
};

inline uint64_t mix(uint64_t x) {
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

struct Globals {
	Shared *sh = nullptr;
	WorkerSlot *slot = nullptr;   // where the running case records itself
	int suite = 0;
	bool nontriv = false;
	size_t logLen = 0;
	std::set<std::string> caseLabels;
	uint64_t seed = 1;
	bool thorough = false;
	std::string property, scratch;
	bool replaying = false;
	std::map<std::string, std::string> known; // listed findings of this property
};
inline Globals &G() { static Globals g; return g; }

// ---- reporting from inside a case -------------------------------------------------

[[noreturn]] inline void failv(const char *fmt, va_list ap) {
	WorkerSlot *s = G().slot;
	char buf[MSG];
	vsnprintf(buf, sizeof buf, fmt, ap);
	if (s != nullptr) { snprintf(s->msg, MSG, "%s", buf); }
	fprintf(stderr, "PROPERTY FAILED: %s\n", buf);
	fflush(stderr);
	_exit(EXIT_FAIL);
}
__attribute__((format(printf, 1, 2), noreturn))
inline void fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); failv(fmt, ap); }

__attribute__((format(printf, 1, 2)))
inline void log(const char *fmt, ...) {
	WorkerSlot *s = G().slot;
	if (s == nullptr || G().logLen + 400 > MSG) return;
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(s->log + G().logLen, MSG - G().logLen - 2, fmt, ap);
	va_end(ap);
	if (n < 0) return;
	G().logLen = std::min(G().logLen + (size_t)n, MSG - 3);
	s->log[G().logLen++] = '\n';
	s->log[G().logLen] = 0;
}
inline void label(const std::string &n) { G().caseLabels.insert(n); }
inline void nontrivial() { G().nontriv = true; }
inline void discard() { _exit(EXIT_DISCARD); }

// Is this failure a finding listed in known_findings.txt? If so it is counted, not reported.
inline bool knownFinding(const char *id) {
	if (G().known.count(id) == 0) return false;
	label(std::string("known finding: ") + id);
	return true;
}

#define CHECK(cond, ...) do { if (!(cond)) { \
	char _m[4096]; snprintf(_m, sizeof _m, __VA_ARGS__); \
	pbt::fail("%s  [%s]", _m, #cond); } } while (0)

inline std::string quote(const std::string &s, size_t max = 200) {
	std::string o = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		if (o.size() > max) { o += "..."; break; }
		unsigned char c = (unsigned char)s[i];
		char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c >= 32 && c < 127) o += (char)c;
		else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
	}
	return o + "\"";
}

// ---- choices ------------------------------------------------------------------------

struct Src {
	const std::vector<uint64_t> *rep = nullptr;
	size_t pos = 0;
	uint64_t st;
	uint64_t (*via)(void *, uint64_t) = nullptr; // choices made elsewhere
	void *viaState = nullptr;
	explicit Src(uint64_t seed) : st(seed) {}
	explicit Src(const std::vector<uint64_t> *r) : rep(r), st(0) {}
	uint64_t raw() { st += 0x9e3779b97f4a7c15ULL; return mix(st); }
	// Uniform in [0, n). n == 0 means the full 64 bit range.
	uint64_t below(uint64_t n) {
		uint64_t v;
		if (via != nullptr) return via(viaState, n);
		if (rep != nullptr) {
			v = pos < rep->size() ? (*rep)[pos] : 0;
			if (n != 0) v %= n;
		} else {
			v = raw();
			if (n != 0) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
		}
		pos++;
		WorkerSlot *s = G().slot;
		if (s != nullptr) {
			uint32_t k = s->nchoices.load(std::memory_order_relaxed);
			if (k >= MAX_CHOICES) _exit(EXIT_DISCARD);
			s->choices[k] = v;
			s->nchoices.store(k + 1, std::memory_order_relaxed);
		}
		return v;
	}
	int64_t range(int64_t lo, int64_t hi) { // inclusive
		return (int64_t)((uint64_t)lo + below((uint64_t)hi - (uint64_t)lo + 1));
	}
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // 0 shrinks to false
	// Small values are more likely; shrinks to lo.
	int64_t small(int64_t lo, int64_t hi) {
		uint64_t span = (uint64_t)hi - (uint64_t)lo;
		switch (below(4)) {
		case 0: case 1: return range(lo, (int64_t)((uint64_t)lo + std::min<uint64_t>(span, 4)));
		case 2: return range(lo, (int64_t)((uint64_t)lo + std::min<uint64_t>(span, 32)));
		default: return range(lo, hi);
		}
	}
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[below(N)]; }
	// One of the weighted alternatives.
	int weighted(std::initializer_list<int> w) {
		uint64_t t = 0; for (int x : w) t += (uint64_t)x;
		uint64_t r = below(t); int i = 0;
		for (int x : w) { if (r < (uint64_t)x) return i; r -= (uint64_t)x; i++; }
		return 0;
	}
	std::string chars(const char *alphabet, size_t len) {
		std::string s; size_t n = strlen(alphabet);
		for (size_t i = 0; i < len; i++) s += alphabet[below(n)];
		return s;
	}
	std::string bytes(size_t len) {
		std::string s;
		for (size_t i = 0; i < len; i++) s += (char)below(256);
		return s;
	}
};

// ---- suites -------------------------------------------------------------------------

struct Suite {
	std::string name;
	std::function<void(Src &)> fn;
	uint64_t quick, thorough;
	std::string rule;
};
inline std::vector<Suite> &suites() { static std::vector<Suite> v; return v; }
inline void suite(const char *name, std::function<void(Src &)> fn,
	uint64_t quick, uint64_t thorough, const char *rule) {
	suites().push_back({ name, fn, quick, thorough, rule });
}

inline double now() {
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

inline void bump(const std::string &n, uint64_t by = 1) {
	Shared *sh = G().sh;
	uint64_t h = 1469598103934665603ULL;
	for (char c : n) h = (h ^ (unsigned char)c) * 1099511628211ULL;
	for (int k = 0; k < MAX_LABELS; k++) {
		LabelSlot &l = sh->labels[(h + (uint64_t)k) % MAX_LABELS];
		int u = l.used.load();
		if (u == 0) {
			int e = 0;
			if (l.used.compare_exchange_strong(e, 1)) {
				snprintf(l.name, sizeof l.name, "%s", n.c_str());
				l.used.store(2);
				l.count += by; return;
			}
			u = e;
		}
		while (l.used.load() == 1) { }
		if (strncmp(l.name, n.c_str(), sizeof l.name - 1) == 0) { l.count += by; return; }
	}
}

inline bool addHash(uint64_t h) {
	Shared *sh = G().sh;
	if (h == 0) h = 1;
	for (uint64_t k = 0; k < 64; k++) {
		std::atomic<uint64_t> &slot = sh->hashes[(h + k) & (HASH_SLOTS - 1)];
		uint64_t v = slot.load(std::memory_order_relaxed);
		if (v == h) return false;
		if (v == 0) {
			uint64_t e = 0;
			if (slot.compare_exchange_strong(e, h)) return true;
			if (e == h) return false;
		}
	}
	sh->hashFull++;
	return false; // undercounts rather than overcounts
}

inline void cpuLimit(int seconds) {
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &it, nullptr);
}

inline void runCase(int suiteIdx, Src &src, int cpu) {
	Globals &g = G();
	g.suite = suiteIdx; g.nontriv = false; g.logLen = 0; g.caseLabels.clear();
	g.slot->nchoices.store(0); g.slot->msg[0] = 0; g.slot->log[0] = 0;
	cpuLimit(cpu);
	suites()[(size_t)suiteIdx].fn(src);
}

// Optional hook run once per process before any case.
inline std::function<void()> &processInit() { static std::function<void()> f; return f; }

struct Outcome { bool failed = false, hang = false; std::string what, err, log; };

inline std::string readFile(const std::string &p, size_t max) {
	std::string s; FILE *f = fopen(p.c_str(), "rb");
	if (f == nullptr) return s;
	char b[4096]; size_t n;
	while (s.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f);
	return s;
}

inline std::string describe(int status, bool wall, const char *msg) {
	char b[256];
	if (wall) return "hang: no progress (blocked)";
	if (WIFEXITED(status)) {
		int c = WEXITSTATUS(status);
		if (c == EXIT_FAIL) return std::string(msg);
		if (c == EXIT_SAN) return "memory error (sanitizer report)";
		snprintf(b, sizeof b, "process exited with code %d inside a case", c);
		return b;
	}
	if (WIFSIGNALED(status)) {
		int s = WTERMSIG(status);
		if (s == SIGPROF) return "hang: endless loop (CPU limit of the case exceeded)";
		snprintf(b, sizeof b, "crash: signal %d (%s)%s", s, strsignal(s), s == SIGABRT ? " - assertion or abort" : "");
		return b;
	}
	return "unknown";
}

// Runs one explicit choice list in a child of this (pristine) process.
inline Outcome tryChoices(int suiteIdx, const std::vector<uint64_t> &ch,
	std::vector<uint64_t> *used, int cpu, double wallLimit) {
	Globals &g = G();
	Outcome o;
	WorkerSlot *slot = &g.sh->w[MAX_WORKERS - 1];
	slot->nchoices = 0; slot->msg[0] = 0; slot->log[0] = 0;
	std::string errp = g.scratch + "/shrink.err";
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(fd, 2); dup2(fd, 1); close(fd);
		g.slot = slot;
		setpgid(0, 0);
		if (processInit()) processInit()();
		Src s(&ch);
		runCase(suiteIdx, s, cpu);
		cpuLimit(0);
		_exit(0);
	}
	double t0 = now(); int status = 0; bool wall = false;
	for (;;) {
		pid_t r = waitpid(pid, &status, WNOHANG);
		if (r == pid) break;
		if (now() - t0 > wallLimit) { wall = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
		usleep(300);
	}
	kill(-pid, SIGKILL);
	bool ok = !wall && WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == EXIT_DISCARD);
	o.failed = !ok;
	if (!ok) {
		o.what = describe(status, wall, slot->msg);
		o.hang = wall || (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF);
		o.err = readFile(errp, 12000);
		o.log = slot->log;
	}
	if (used != nullptr) {
		used->assign(slot->choices, slot->choices + slot->nchoices.load());
	}
	return o;
}

inline double &shrinkBudget() { static double b = -1; return b; } // seconds
inline std::vector<uint64_t> shrink(int suiteIdx, std::vector<uint64_t> best, bool hang, int *attempts) {
	double t0 = now(); double budget = shrinkBudget() >= 0 ? shrinkBudget() : hang ? 40 : 45; int cpu = hang ? 3 : 10;
	*attempts = 0;
	auto ok = [&](const std::vector<uint64_t> &c) {
		(*attempts)++;
		std::vector<uint64_t> used;
		Outcome o = tryChoices(suiteIdx, c, &used, cpu, hang ? 6 : 20);
		if (!o.failed) return false;
		if (used.size() < c.size()) best = used; else best = c;
		return true;
	};
	auto left = [&] { return now() - t0 < budget; };
	bool progress = true;
	while (progress && left()) {
		progress = false;
		for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && left(); k /= 2) {
			for (size_t i = 0; i + k <= best.size() && left();) {
				std::vector<uint64_t> c = best;
				c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
				size_t before = best.size();
				if (ok(c) && best.size() < before) progress = true;
				else i += k;
			}
			if (k == 1) break;
		}
		for (size_t k = 16; k >= 2 && left(); k /= 2)
			for (size_t i = 0; i + k <= best.size() && left(); i += k) {
				std::vector<uint64_t> c = best; bool any = false;
				for (size_t j = i; j < i + k; j++) { any |= c[j] != 0; c[j] = 0; }
				if (any && ok(c)) progress = true;
			}
		for (size_t i = 0; i < best.size() && left(); i++) {
			if (best[i] == 0) continue;
			std::vector<uint64_t> c = best; c[i] = 0;
			if (ok(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
			for (int step = 0; step < 64 && hi - lo > 1 && left(); step++) {
				uint64_t mid = lo + (hi - lo) / 2;
				c = best; if (i >= c.size()) break;
				c[i] = mid;
				if (ok(c)) { hi = mid; progress = true; if (i >= best.size()) break; }
				else lo = mid;
			}
		}
	}
	return best;
}

inline std::string jsonEsc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}

struct Options {
	std::string property, evidence, replayDir, replayFile, level = "exploration", only;
	std::vector<std::string> assumptions;
	int workers = 7;
	double quickCap = 300, thoroughCap = 780;
	int caseCpu = 20;
	double scale = 1.0;
};

inline int replayMain(const Options &o) {
	FILE *f = fopen(o.replayFile.c_str(), "r");
	if (f == nullptr) { fprintf(stderr, "cannot open %s\n", o.replayFile.c_str()); return 2; }
	char line[4096]; std::string suiteName; std::vector<uint64_t> ch;
	while (fgets(line, sizeof line, f) != nullptr) {
		if (strncmp(line, "suite ", 6) == 0) { suiteName = line + 6; while (!suiteName.empty() && suiteName.back() == '\n') suiteName.pop_back(); }
		else if (strncmp(line, "choice ", 7) == 0) ch.push_back(strtoull(line + 7, nullptr, 10));
	}
	fclose(f);
	for (size_t i = 0; i < suites().size(); i++) if (suites()[i].name == suiteName) {
		Outcome r = tryChoices((int)i, ch, nullptr, o.caseCpu, 120);
		if (r.failed) {
			printf("%s\n--- case\n%s\n--- output\n%s\n", r.what.c_str(), r.log.c_str(), r.err.c_str());
			printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), o.replayFile.c_str());
			return 1;
		}
		printf("replay passes\n");
		return 0;
	}
	fprintf(stderr, "no suite '%s' in this binary\n", suiteName.c_str());
	return 3;
}

inline int runMain(int argc, char **argv, const Options &defaults = Options()) {
	Options o = defaults;
	Globals &g = G();
	const char *e;
	if ((e = getenv("VERIF_SEED")) != nullptr) g.seed = strtoull(e, nullptr, 10);
	if ((e = getenv("VERIF_TIER")) != nullptr) g.thorough = strcmp(e, "thorough") == 0;
	std::string traceOut;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--property") o.property = val();
		else if (a == "--evidence") o.evidence = val();
		else if (a == "--replaydir") o.replayDir = val();
		else if (a == "--replay") o.replayFile = val();
		else if (a == "--only") o.only = val();
		else if (a == "--workers") o.workers = atoi(val().c_str());
		else if (a == "--scratch") g.scratch = val();
		else if (a == "--prefix") { std::string p = val(); for (auto &s : suites()) s.name = p + "-" + s.name; }
		else if (a == "--share") { double f = atof(val().c_str()); o.quickCap *= f; o.thoroughCap *= f; }
		else if (a == "--scale") o.scale = atof(val().c_str());
		else if (a == "--cap") o.quickCap = o.thoroughCap = atof(val().c_str());
		else if (a == "--shrink") shrinkBudget() = atof(val().c_str());
		else if (a == "--level") o.level = val();
		else if (a == "--known") { std::string v = val(); size_t c = v.find('='); if (c != std::string::npos) g.known[v.substr(0, c)] = v.substr(c + 1); }
	}
	g.property = o.property;
	if (g.scratch.empty()) { char t[] = "/tmp/pbtXXXXXX"; g.scratch = mkdtemp(t); }
	g.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (g.sh == MAP_FAILED) { perror("mmap"); return 2; }
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	if (!o.replayFile.empty()) { g.replaying = true; return replayMain(o); }

	double t0 = now();
	double cap = g.thorough ? o.thoroughCap : o.quickCap;
	// The plan: suites are interleaved so that a time cap cuts all of them evenly.
	struct Item { int suite; uint64_t n; };
	std::vector<Item> plan;
	uint64_t total = 0, most = 0;
	for (size_t i = 0; i < suites().size(); i++) {
		if (!o.only.empty() && suites()[i].name != o.only) continue;
		uint64_t n = (uint64_t)((double)(g.thorough ? suites()[i].thorough : suites()[i].quick) * o.scale);
		if (n == 0) n = 1;
		plan.push_back({ (int)i, n }); total += n; most = std::max(most, n);
	}
	auto locate = [&](uint64_t k, int *suiteIdx, uint64_t *idx) -> void {
		// case number -> suite by proportional interleaving in blocks of 1/256
		const uint64_t B = 256;
		uint64_t acc = 0;
		for (uint64_t b = 0; b < B; b++) {
			uint64_t bl = 0;
			for (auto &p : plan) bl += p.n * (b + 1) / B - p.n * b / B;
			if (k < acc + bl) {
				uint64_t r = k - acc;
				for (auto &p : plan) {
					uint64_t lo = p.n * b / B, cnt = p.n * (b + 1) / B - lo;
					if (r < cnt) { *suiteIdx = p.suite; *idx = lo + r; return; }
					r -= cnt;
				}
			}
			acc += bl;
		}
		*suiteIdx = plan[0].suite; *idx = 0;
	};
	int W = o.workers;
	if (W > MAX_WORKERS - 1) W = MAX_WORKERS - 1;
	std::vector<pid_t> pids((size_t)W, 0);
	std::vector<uint64_t> nextCase((size_t)W), lastBeat((size_t)W, 0);
	std::vector<double> beatTime((size_t)W, now());
	std::vector<int> unrepro((size_t)W, 0);
	for (int w = 0; w < W; w++) nextCase[(size_t)w] = (uint64_t)w;
	auto errPath = [&](int w) { return g.scratch + "/worker" + std::to_string(w) + ".err"; };
	auto spawn = [&](int w) {
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid != 0) { pids[(size_t)w] = pid; beatTime[(size_t)w] = now(); return; }
		int fd = open(errPath(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(fd, 2); dup2(fd, 1); close(fd);
		setpgid(0, 0);
		WorkerSlot *slot = &g.sh->w[w];
		g.slot = slot;
		if (processInit()) processInit()();
		for (uint64_t k = nextCase[(size_t)w]; k < total && g.sh->stop.load() == 0; k += (uint64_t)W) {
			int si; uint64_t idx;
			locate(k, &si, &idx);
			slot->current.store(k); slot->beat++;
			uint64_t h = mix(g.seed * 0x51ed27f5ULL + 7);
			for (char c : suites()[(size_t)si].name) h = mix(h ^ (unsigned char)c);
			Src s(mix(h ^ mix(idx)));
			g.sh->evaluations++; g.sh->suiteEvals[si]++;
			runCase(si, s, o.caseCpu);
			for (auto &l : g.caseLabels) bump(l);
			if (g.nontriv) {
				g.sh->nontrivial++;
				uint64_t hh = mix((uint64_t)si);
				for (uint32_t j = 0; j < slot->nchoices; j++) hh = mix(hh ^ slot->choices[j]);
				if (addHash(hh)) { g.sh->distinct++; g.sh->suiteNontrivial[si]++; }
				// keep one sample per suite and worker, up to six
				bool have = false;
				for (int q = 0; q < slot->nsamples; q++) have |= strcmp(slot->sampleSuite[q], suites()[(size_t)si].name.c_str()) == 0;
				if (!have && slot->nsamples < 6) {
					snprintf(slot->sampleSuite[slot->nsamples], 64, "%s", suites()[(size_t)si].name.c_str());
					snprintf(slot->samples[slot->nsamples], 2400, "%s", slot->log);
					slot->nsamples++;
				}
			}
		}
		cpuLimit(0);
		slot->current.store(UINT64_MAX);
		_exit(0);
	};
	for (int w = 0; w < W; w++) spawn(w);
	int alive = W; bool capped = false;
	struct Failure { int suite; uint64_t k; std::vector<uint64_t> choices; std::string what, err, log; bool hang; };
	std::vector<Failure> failures; uint64_t unreproducible = 0;
	std::string unreproWhat;
	auto kill1 = [&](int w) { if (pids[(size_t)w] > 0) { kill(-pids[(size_t)w], SIGKILL); kill(pids[(size_t)w], SIGKILL); } };
	Failure final; bool have = false; int shrinkAttempts = 0;
	while (alive > 0) {
		bool any = false;
		for (int w = 0; w < W; w++) {
			if (pids[(size_t)w] <= 0) continue;
			int status;
			pid_t r = waitpid(pids[(size_t)w], &status, WNOHANG);
			WorkerSlot *slot = &g.sh->w[w];
			bool wall = false;
			if (r == 0) {
				uint64_t b = slot->beat.load();
				if (b != lastBeat[(size_t)w]) { lastBeat[(size_t)w] = b; beatTime[(size_t)w] = now(); }
				if (now() - beatTime[(size_t)w] > 40) {
					wall = true; kill1(w); waitpid(pids[(size_t)w], &status, 0);
				} else continue;
			}
			any = true;
			kill(-pids[(size_t)w], SIGKILL);
			pids[(size_t)w] = 0;
			if (!wall && WIFEXITED(status) && WEXITSTATUS(status) == 0) { alive--; continue; }
			uint64_t k = slot->current.load();
			if (!wall && WIFEXITED(status) && WEXITSTATUS(status) == EXIT_DISCARD) {
				g.sh->discards++;
				nextCase[(size_t)w] = k + (uint64_t)W;
				if (nextCase[(size_t)w] < total) spawn(w); else alive--;
				continue;
			}
			// A failing case: confirm it from a pristine process, shrink, confirm three times.
			Failure f; uint64_t idx;
			locate(k, &f.suite, &idx); f.k = k;
			f.choices.assign(slot->choices, slot->choices + slot->nchoices.load());
			f.what = describe(status, wall, slot->msg);
			f.err = readFile(errPath(w), 12000); f.log = slot->log;
			f.hang = wall || (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF);
			int confirm = 0;
			for (int c = 0; c < 3; c++) confirm += tryChoices(f.suite, f.choices, nullptr, o.caseCpu, f.hang ? 20 : 100).failed ? 1 : 0;
			if (confirm < 3) {
				unreproducible++;
				unreproWhat = f.what + "\n" + f.err;
				fprintf(stderr, "note: case %" PRIu64 " of suite %s failed once (%s) but only %d/3 on replay\n%s\n",
					idx, suites()[(size_t)f.suite].name.c_str(), f.what.c_str(), confirm, f.err.substr(0, 1500).c_str());
				nextCase[(size_t)w] = k + (uint64_t)W;
				if (++unrepro[(size_t)w] < 50 && nextCase[(size_t)w] < total) spawn(w); else alive--;
				continue;
			}
			g.sh->stop = 1;
			for (int x = 0; x < W; x++) { kill1(x); if (pids[(size_t)x] > 0) waitpid(pids[(size_t)x], nullptr, 0); pids[(size_t)x] = 0; }
			alive = 0;
			std::vector<uint64_t> small = shrink(f.suite, f.choices, f.hang, &shrinkAttempts);
			int again = 0; Outcome last;
			for (int c = 0; c < 3; c++) { Outcome oo = tryChoices(f.suite, small, nullptr, o.caseCpu, f.hang ? 20 : 100); if (oo.failed) { again++; last = oo; } }
			if (again == 3) { f.choices = small; f.what = last.what; f.err = last.err; f.log = last.log; }
			final = f; have = true;
			break;
		}
		if (have) break;
		if (!capped && now() - t0 > cap) { capped = true; g.sh->stop = 1; }
		if (!any) usleep(2000);
	}
	double wall = now() - t0;
	std::string replayPath;
	if (have) {
		mkdir(o.replayDir.c_str(), 0700);
		replayPath = o.replayDir + "/" + o.property + "-" + suites()[(size_t)final.suite].name + "-" + std::to_string(g.seed) + ".txt";
		FILE *f = fopen(replayPath.c_str(), "w");
		if (f != nullptr) {
			fprintf(f, "property %s\nsuite %s\n", o.property.c_str(), suites()[(size_t)final.suite].name.c_str());
			for (uint64_t c : final.choices) fprintf(f, "choice %" PRIu64 "\n", c);
			std::string text = "failure: " + final.what + "\n--- case\n" + final.log + "\n--- output\n" + final.err;
			fprintf(f, "# shrink attempts: %d\n# ", shrinkAttempts);
			for (char c : text) { fputc(c, f); if (c == '\n') fputs("# ", f); }
			fputc('\n', f);
			fclose(f);
		}
	}
	if (!o.evidence.empty()) {
		FILE *f = fopen(o.evidence.c_str(), "w");
		if (f == nullptr) { perror("evidence"); return 2; }
		std::string rule;
		for (auto &p : plan) {
			if (!rule.empty()) rule += " | ";
			rule += suites()[(size_t)p.suite].name + ": " + suites()[(size_t)p.suite].rule;
		}
		fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %" PRIu64 ",\n \"level\": \"%s\",\n \"coverage\": {\n",
			o.property.c_str(), g.thorough ? "thorough" : "quick", g.seed, o.level.c_str());
		fprintf(f, "  \"evaluations\": %" PRIu64 ",\n  \"distinct_nontrivial\": %" PRIu64 ",\n", g.sh->evaluations.load(), g.sh->distinct.load());
		fprintf(f, "  \"planned\": %" PRIu64 ",\n  \"time_capped\": %s,\n  \"discarded\": %" PRIu64 ",\n  \"unreproducible\": %" PRIu64 ",\n",
			total, capped ? "true" : "false", g.sh->discards.load(), unreproducible);
		fprintf(f, "  \"rule\": \"%s\",\n  \"suites\": {", jsonEsc(rule).c_str());
		bool first = true;
		for (auto &p : plan) {
			fprintf(f, "%s\n   \"%s\": {\"evaluations\": %" PRIu64 ", \"distinct_nontrivial\": %" PRIu64 "}", first ? "" : ",",
				suites()[(size_t)p.suite].name.c_str(), g.sh->suiteEvals[p.suite].load(), g.sh->suiteNontrivial[p.suite].load());
			first = false;
		}
		fprintf(f, "\n  },\n  \"classes\": {");
		std::map<std::string, uint64_t> ls;
		for (auto &l : g.sh->labels) if (l.used.load() == 2) ls[l.name] = l.count.load();
		first = true;
		for (auto &l : ls) { fprintf(f, "%s\n   \"%s\": %" PRIu64, first ? "" : ",", jsonEsc(l.first).c_str(), l.second); first = false; }
		fprintf(f, "\n  },\n  \"samples\": [");
		first = true; std::set<std::string> seen;
		for (int w = 0; w < W; w++) for (int q = 0; q < g.sh->w[w].nsamples; q++) {
			if (!seen.insert(g.sh->w[w].sampleSuite[q]).second) continue;
			fprintf(f, "%s\n   \"%s: %s\"", first ? "" : ",", g.sh->w[w].sampleSuite[q], jsonEsc(g.sh->w[w].samples[q]).c_str());
			first = false;
		}
		fprintf(f, "\n  ]\n },\n \"assumptions\": [");
		first = true;
		for (auto &a : o.assumptions) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jsonEsc(a).c_str()); first = false; }
		fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, have ? 1 : 0);
		fclose(f);
	}
	if (have) {
		printf("suite %s: %s\n--- case (shrunk, %zu choices, %d attempts)\n%s\n--- output\n%s\n", suites()[(size_t)final.suite].name.c_str(),
			final.what.c_str(), final.choices.size(), shrinkAttempts, final.log.c_str(), final.err.substr(0, 6000).c_str());
		printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), replayPath.c_str());
		return 1;
	}
	for (auto &l : g.sh->labels) if (l.used.load() == 2 && strncmp(l.name, "known finding: ", 15) == 0 && g.known.count(l.name + 15))
		printf("KNOWN-FINDING: property=%s %s\n", o.property.c_str(), g.known[l.name + 15].c_str());
	printf("%s: held on %" PRIu64 " cases (%" PRIu64 " distinct non-trivial), %.1f s%s\n", o.property.c_str(),
		g.sh->evaluations.load(), g.sh->distinct.load(), wall, capped ? " (time cap)" : "");
	return 0;
}

} // namespace pbt

extern "C" __attribute__((used, visibility("default"))) const char *__asan_default_options() {
	return "exitcode=78:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:"
		"max_malloc_fill_size=4194304:malloc_fill_byte=167:detect_stack_use_after_return=1:"
		"quarantine_size_mb=24:symbolize=1:print_summary=1:check_initialization_order=0:detect_odr_violation=0";
}
extern "C" __attribute__((used, visibility("default"))) const char *__ubsan_default_options() {
	return "exitcode=78:halt_on_error=1:print_stacktrace=1";
}
