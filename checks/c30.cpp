// C30: signals under every thread schedule.
#include "alloc.hpp"
#include "sched.hpp"
#include "fiftyone.h"
#include <unordered_set>
using namespace pbt;
extern "C" {
fiftyoneDegreesSignal *sigCreate() asm("fiftyoneDegreesSignalCreate");
void sigClose(fiftyoneDegreesSignal *) asm("fiftyoneDegreesSignalClose");
void sigSet(fiftyoneDegreesSignal *) asm("fiftyoneDegreesSignalSet");
void sigWait(fiftyoneDegreesSignal *) asm("fiftyoneDegreesSignalWait");
}
namespace {
struct Ev { bool set; int thread; uint64_t from, to; bool done; };
// Is there an order of the operations, consistent with their times, in which every wait that
// ended found the signal set (and reset it), and every wait still blocked would find it not set?
bool explained(const std::vector<Ev> &h) {
	size_t n = h.size(); if (n > 40) return true;
	uint64_t all = 0; bool blocked = false;
	for (size_t i = 0; i < n; i++) { if (h[i].done) all |= 1ull << i; else blocked = true; }
	std::set<std::pair<uint64_t, bool>> seen; std::vector<std::pair<uint64_t, bool>> todo = { { 0, true } };
	while (!todo.empty()) {
		auto st = todo.back(); todo.pop_back();
		if (!seen.insert(st).second) continue;
		if (st.first == all) { if (!(blocked && st.second)) return true; continue; }
		uint64_t first = UINT64_MAX; // the earliest end of those left: nothing that began later may come before it
		for (size_t i = 0; i < n; i++) if (h[i].done && !(st.first >> i & 1)) first = std::min(first, h[i].to);
		for (size_t i = 0; i < n; i++) if (h[i].done && !(st.first >> i & 1) && h[i].from <= first) {
			if (!h[i].set && !st.second) continue;
			todo.push_back({ st.first | 1ull << i, h[i].set });
		}
	}
	return false;
}
void events(Src &s) {
	sched::begin(); alloc::begin(); sched::W().mayBlock = true;
	size_t nsig = (size_t)s.range(1, 2);
	std::vector<fiftyoneDegreesSignal *> sig; std::vector<std::vector<Ev>> hist(nsig);
	for (size_t i = 0; i < nsig; i++) { sig.push_back(sigCreate()); CHECK(sig[i] != nullptr, "no signal was made"); }
	size_t T = (size_t)s.range(2, 5); std::vector<std::vector<std::pair<bool, size_t>>> scripts(T);
	log("%zu signals, %zu threads", nsig, T);
	for (size_t t = 0; t < T; t++) {
		int kind = (int)s.below(3); size_t n = (size_t)s.range(1, 4); std::string d;
		for (size_t i = 0; i < n; i++) {
			bool set = kind == 0 ? true : kind == 1 ? false : s.chance(1, 2); size_t g = (size_t)s.below(nsig);
			scripts[t].push_back({ set, g }); d += (set ? "set" : "wait") + std::to_string(g) + " ";
		}
		log(" thread %zu: %s", t, d.c_str());
	}
	size_t left = T, blockedOnce = 0;
	std::vector<std::function<void()>> fs;
	auto act = [&](bool set, size_t g, int t) {
		size_t k = hist[g].size(); hist[g].push_back({ set, t, sched::now(), UINT64_MAX, false });
		sched::yield();
		if (set) sigSet(sig[g]); else sigWait(sig[g]);
		hist[g][k].to = sched::now(); hist[g][k].done = true;
		sched::yield();
	};
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] { for (auto &op : scripts[t]) act(op.first, op.second, (int)t); left--; });
	sched::run(s, fs);
	auto judge = [&](const char *when) {
		for (size_t g = 0; g < nsig; g++) {
			size_t sets = 0, waits = 0, blocked = 0;
			for (Ev &e : hist[g]) { if (e.set) sets++; else if (e.done) waits++; else blocked++; if (e.set) CHECK(e.done, "a thread which sets signal %zu is blocked", g); }
			CHECK(waits <= sets + 1, "%zu waits on signal %zu ended %s although it was set only %zu times", waits, g, when, sets);
			CHECK(explained(hist[g]), "signal %zu %s: %zu sets, %zu waits ended and %zu still blocked cannot be explained by any order of them", g, when, sets, waits, blocked);
		}
	};
	judge("after the threads ran");
	// whoever waits is let through by further sets, one for one
	size_t guard = 0;
	while (left > 0) {
		CHECK(guard++ < 40, "waiting threads are not let through by further sets"); blockedOnce++;
		size_t g = 0, waiting = 0; for (size_t i = 0; i < nsig; i++) for (Ev &e : hist[i]) if (!e.done) { g = i; waiting++; }
		if (waiting == 0) fail("a thread is blocked although no wait is under way");
		sched::more(s, { [&] { act(true, g, 99); } });
		size_t now = 0; (void)now;
		judge("after a further set");
	}
	// and it works sequentially
	for (size_t g = 0; g < nsig; g++) {
		sched::more(s, { [&] { act(true, g, 100); act(true, g, 100); act(false, g, 100); } });
		judge("in the end");
		bool through = false;
		sched::more(s, { [&] { act(false, g, 101); through = true; } });
		CHECK(!through, "a wait went through although the signal was used up");
		sched::more(s, { [&] { act(true, g, 102); } });
		CHECK(through, "a set did not let the waiting thread through");
	}
	for (auto *x : sig) sigClose(x);
	alloc::expectNone("by the signals");
	if (blockedOnce) label("waits left over");
	if (sched::W().preemptions >= 2 && T > 2) nontrivial();
}
void create(Src &s) {
	sched::begin(); alloc::begin();
	int kind = (int)s.below(4);
	if (kind == 0) alloc::arm(0, false); else if (kind < 3) sched::W().initFails = kind - 1;
	log("creation %s", kind == 0 ? "without memory" : kind < 3 ? "with a failing lock or condition" : "works");
	fiftyoneDegreesSignal *x = sigCreate();
	alloc::disarm(); bool failed = kind == 0 || (kind < 3 && sched::W().initFails < 0); sched::W().initFails = -1;
	CHECK((x == nullptr) == failed, "creation %s", failed ? "reported a signal" : "reported none");
	if (x != nullptr) { sigWait(x); size_t n = (size_t)s.range(0, 3); for (size_t i = 0; i < n; i++) { sigSet(x); if (s.chance(1, 2)) sigSet(x); sigWait(x); } }
	sigClose(x);
	alloc::expectNone("by the signal");
	for (auto &c : sched::W().conds) CHECK(c.second.destroyed, "a condition was not destroyed");
	for (auto &m : sched::W().mutexes) CHECK(m.second.destroyed, "a lock was not destroyed");
	nontrivial();
}
}
int main(int argc, char **argv) {
	suite("events", events, 200000, 8000000, "2 to 5 threads set and wait for 1 or 2 signals under a drawn schedule with spurious wake-ups; at least 2 preemptions and 3 threads");
	suite("create", create, 300, 2000, "a signal is made (with or without faults), used and closed");
	Options o; o.assumptions = { "POSIX implementation; sequentially consistent interleavings of the compiled memory accesses" };
	alloc::install();
	return runMain(argc, argv, o);
}
