// C23: reloading and using a data set from several threads.
#include "probe.hpp"
#include "sched.hpp"
#include "resource.h"
#include <deque>
namespace {
typedef fiftyoneDegreesResourceHandle Handle;
struct Set { int id; DataSetProbe *d = nullptr; const Content *content = nullptr; bool freed = false; int users = 0; uint64_t from = 0, to = UINT64_MAX; bool installed = false; Str path; };
struct Model { std::deque<Set> all; bool closing = false; uint64_t opStart[64] = { 0 }; } *M;
Set *known(DataSetProbe *d) { for (Set &x : M->all) if (x.d == d) return &x; return nullptr; }
void freeSet(void *p) {
	Set *x = known((DataSetProbe *)p); CHECK(x != nullptr, "an unknown data set is freed");
	CHECK(!x->freed, "data set %d is freed twice", x->id); CHECK(x->users == 0, "data set %d is freed while %d thread(s) use it", x->id, x->users);
	if (!M->closing) { bool replaced = false; for (Set &y : M->all) replaced |= &y != x && y.installed; CHECK(replaced, "data set %d is freed although nothing replaced it", x->id); }
	x->freed = true; freeProbe(p);
}
// Which data set a thread is loading, so that it is known before it can be acquired.
Set *loading[64];
void begun(DataSetProbe *d) { Set *x = loading[sched::self() + 1]; if (x) x->d = d; }
Status fromMemory(void *set, const void *config, fiftyoneDegreesPropertiesRequired *required, void *memory, long size, fiftyoneDegreesException *e) { begun((DataSetProbe *)set); sched::yield(); Status r = initDataSetFromMemory(set, config, required, memory, size, e); sched::yield(); return r; }
Status fromFile(void *set, const void *config, fiftyoneDegreesPropertiesRequired *required, const char *name, fiftyoneDegreesException *e) { begun((DataSetProbe *)set); sched::yield(); Status r = initDataSetFromFile(set, config, required, name, e); sched::yield(); return r; }
// Listed finding, as in C10.
bool tolerate(const sched::Block &b, uintptr_t a, bool write) {
	if (write || sched::self() < 0 || b.hi - b.lo != sizeof(Handle)) return false;
	size_t o = a - b.lo;
	if (!(o < sizeof(((Handle *)0)->counter) || (o >= offsetof(Handle, manager) && o < offsetof(Handle, manager) + sizeof(void *)))) return false;
	if (M->opStart[sched::self()] > b.when) return false;
	return knownFinding("handle-seen-after-free");
}
int superseded(const Set &r, uint64_t t) { for (Set &x : M->all) if (x.installed && r.to != UINT64_MAX && x.from > r.to && x.to < t) return x.id; return -1; }
void reload(Src &s) {
	sched::begin(); alloc::begin(); int fds = coll::openFds(); Model model; M = &model; sched::W().tolerate = tolerate; memset(loading, 0, sizeof loading);
	ProbeConfig c; memset(&c, 0, sizeof c); c.b.allInMemory = s.chance(1, 2); c.concurrency = 5; c.overridable = s.chance(1, 2); c.b.usesUpperPrefixedHeaders = false; compared = -1;
	c.strings.concurrency = c.numbers.concurrency = 5; if (s.chance(1, 3)) c.strings.loaded = c.numbers.loaded = 3;
	std::deque<Content> contents; contents.push_back(make(s, 1, nullptr)); contents.push_back(make(s, 2, &contents[0])); contents.push_back(make(s, 3, &contents[0]));
	contents.push_back(contents[1]); contents[3].bytes[0] ^= 1; contents[3].ok = false; contents.push_back(contents[2]); contents[4].bytes.pop_back(); contents[4].ok = false;
	Str stem = G().scratch + "/r" + std::to_string(getpid()) + "-"; std::vector<Str> paths; for (size_t i = 0; i < contents.size(); i++) { paths.push_back(stem + std::to_string(i)); spit(paths.back(), contents[i].bytes); }
	auto *m = (fiftyoneDegreesResourceManager *)malloc(sizeof(fiftyoneDegreesResourceManager));
	auto next = [&](size_t content, bool file) -> Set & { M->all.emplace_back(); Set &x = M->all.back(); x.id = (int)M->all.size() - 1; x.content = &contents[content]; if (file) x.path = paths[content]; return x; };
	fiftyoneDegreesPropertiesRequired required = fiftyoneDegreesPropertiesDefault; bool firstFile = s.chance(1, 2);
	{
		FIFTYONE_DEGREES_EXCEPTION_CREATE Set &x = next(0, firstFile); x.d = (DataSetProbe *)fiftyoneDegreesMalloc(sizeof(DataSetProbe));
		Status st = firstFile ? initDataSetFromFile(x.d, &c, &required, paths[0].c_str(), exception) : initDataSetFromMemory(x.d, &c, &required, (void *)contents[0].bytes.data(), (long)contents[0].bytes.size(), exception);
		CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS, "the first data set was refused with %d", (int)st);
		fiftyoneDegreesResourceManagerInit(m, x.d, &x.d->b.b.handle, freeSet); x.installed = true; x.to = 0;
	}
	size_t T = (size_t)s.range(2, 4); int reloaders = (int)s.range(1, 3);
	std::vector<std::string> scripts(T); // U use, R release oldest, r release newest, M reload from memory, F from a file, m and f with damaged data
	log("%s, first from %s, %zu threads", c.b.allInMemory ? "in memory" : "streamed", firstFile ? "a file" : "memory", T);
	for (size_t t = 0; t < T; t++) {
		size_t n = (size_t)s.range(1, 5);
		for (size_t i = 0; i < n; i++) scripts[t] += (int)t < reloaders && s.chance(3, 5) ? "MMFFmf"[s.below(6)] : "URr"[s.below(3)];
		log(" thread %zu: %s", t, scripts[t].c_str());
	}
	struct Held { DataSetProbe *d; Set *x; }; std::vector<std::vector<Held>> held(T); size_t uses = 0, reloads = 0, refused = 0;
	auto look = [&](const Held &h, size_t t, const char *when) {
		CHECK(!h.x->freed, "thread %zu uses data set %d which is freed (%s)", t, h.x->id, when);
		CHECK(h.d->serial == h.x->content->serial && h.d->b.b.handle != nullptr && h.d->b.b.config == &c, "thread %zu sees another data set than the one it acquired (%s)", t, when);
		auto *a = h.d->b.b.available; CHECK(a != nullptr && a->count == contents[0].properties.size(), "data set %d has %u properties instead of %zu", h.x->id, a ? a->count : 0, contents[0].properties.size());
		const Str &p = contents[0].properties[(size_t)h.x->id % contents[0].properties.size()]; int i = fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, p.c_str());
		CHECK(i >= 0 && (size_t)i < h.x->content->properties.size() && low(h.x->content->properties[(size_t)i]) == low(p), "property %s of data set %d is at %d", quote(p).c_str(), h.x->id, i);
	};
	auto give = [&](size_t t, bool newest) {
		auto &v = held[t]; size_t k = newest ? v.size() - 1 : 0; Held h = v[k]; v.erase(v.begin() + (long)k); look(h, t, "until it is released"); h.x->users--;
		M->opStart[t] = sched::now(); fiftyoneDegreesDataSetProbeRelease(h.d); M->opStart[t] = UINT64_MAX;
	};
	std::vector<std::function<void()>> fs;
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] {
		for (char op : scripts[t]) {
			M->opStart[t] = UINT64_MAX; sched::yield();
			for (Held &h : held[t]) look(h, t, "while it is held");
			if (op == 'U') {
				uint64_t from = M->opStart[t] = sched::now(); DataSetProbe *d = fiftyoneDegreesDataSetProbeGet(m); M->opStart[t] = UINT64_MAX;
				Set *x = known(d); CHECK(x != nullptr, "an unknown data set was acquired");
				int y = superseded(*x, from); CHECK(y < 0, "thread %zu acquired data set %d which %d had replaced before it asked", t, x->id, y);
				x->users++; uses++; held[t].push_back({ d, x }); look(held[t].back(), t, "when it was acquired");
			} else if (strchr("MFmf", op)) {
				bool ok = op == 'M' || op == 'F', file = op == 'F' || op == 'f'; size_t k = ok ? 1 + (t + reloads) % 2 : 3 + (t + reloads) % 2; if (!file && !ok) k = 3;
				Set &x = next(k, file); loading[t + 1] = &x; x.from = M->opStart[t] = sched::now(); if (ok) x.installed = true;
				FIFTYONE_DEGREES_EXCEPTION_CREATE
				Status st = file ? reloadFile(m, paths[k].c_str(), sizeof(DataSetProbe), fromFile, exception) : reloadMemory(m, (void *)contents[k].bytes.data(), (long)contents[k].bytes.size(), sizeof(DataSetProbe), fromMemory, exception);
				M->opStart[t] = UINT64_MAX; loading[t + 1] = nullptr; reloads++;
				CHECK((st == FIFTYONE_DEGREES_STATUS_SUCCESS) == ok, "reloading %s data gave status %d", ok ? "good" : "damaged", (int)st);
				if (ok) { x.to = sched::now(); CHECK(x.d != nullptr && (x.freed || x.d->b.b.handle != nullptr), "a data set without a handle was installed"); } else { x.freed = true; refused++; }
			} else if (!held[t].empty()) give(t, op == 'r');
		}
		while (!held[t].empty()) { sched::yield(); give(t, false); }
	});
	sched::run(s, fs);
	Set *active = nullptr; for (Set &x : M->all) if (x.d == m->active->resource) active = &x;
	CHECK(active != nullptr && !active->freed, "the active data set is unknown or freed");
	{ int y = superseded(*active, UINT64_MAX); CHECK(y < 0, "data set %d is active although %d was installed after it", active->id, y); }
	for (Set &x : M->all) CHECK(x.freed == (&x != active), "data set %d is %s freed after the threads ran", x.id, x.freed ? "already" : "not");
	M->closing = true; fiftyoneDegreesResourceManagerFree(m); CHECK(active->freed, "the active data set is not freed with the manager"); free(m);
	alloc::expectNone("after everything was released"); CHECK(coll::openFds() == fds, "%d descriptors at the end, %d before", coll::openFds(), fds);
	for (auto &p : paths) unlink(p.c_str());
	if (refused) label("a reload was refused"); if (reloaders > 1) label("several threads reload");
	if (sched::W().preemptions >= 3 && uses > 0 && reloads - refused > 0) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("reload", reload, 150000, 30000000, "2 to 4 threads use, release and reload one data set under a drawn schedule; at least 3 preemptions, a use and a reload");
	Options o; o.assumptions = { "Sequentially consistent interleavings of the library's memory accesses.", "The memory of a freed handle is not used for another one during a case.", "The source of a reload does not change while it is read." };
	alloc::install();
	return runMain(argc, argv, o);
}
