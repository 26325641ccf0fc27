// C10: replacing a shared resource under every thread schedule.
#include "alloc.hpp"
#include "sched.hpp"
#include "resource.h"
#include <deque>
using namespace pbt;
namespace {
typedef fiftyoneDegreesResourceHandle Handle;
struct Res {
	int id; fiftyoneDegreesResourceHandle *handle = nullptr; bool freed = false, shouldLive = false; int users = 0;
	uint64_t from = 0, to = UINT64_MAX; // of its installation
	bool installed = false, refused = false;
};
struct Model { std::deque<Res> all; bool managerGone = false; uint64_t opStart[64] = { 0 }; } *M;
void freeRes(void *p) {
	Res *r = (Res *)p;
	CHECK(!r->freed, "resource %d is freed twice", r->id);
	CHECK(r->users == 0, "resource %d is freed while %d thread(s) use it", r->id, r->users);
	if (!M->managerGone) {
		bool replaced = false; for (Res &x : M->all) replaced |= &x != r && x.installed;
		CHECK(replaced, "resource %d is freed although nothing replaced it", r->id);
	}
	r->freed = true;
}
// Listed finding: a thread inside an acquire or release which began before a handle was freed may
// still look at the use count or the manager of that handle.
bool tolerate(const sched::Block &b, uintptr_t a, bool write) {
	if (write || sched::self() < 0) return false;
	if (b.hi - b.lo != sizeof(Handle)) return false;
	size_t o = a - b.lo;
	if (!(o < sizeof(((Handle *)0)->counter) || (o >= offsetof(Handle, manager) && o < offsetof(Handle, manager) + sizeof(void *)))) return false;
	if (M->opStart[sched::self()] > b.when) return false;
	return knownFinding("handle-seen-after-free");
}
int superseded(const Res &r, uint64_t t) { // replaced for certain before t?
	for (Res &x : M->all) if (x.installed && r.to != UINT64_MAX && x.from > r.to && x.to < t) return x.id;
	return -1;
}
void check(const Res *r, size_t t, const char *when) { CHECK(!r->freed, "thread %zu uses resource %d which is freed (%s)", t, r->id, when); }
void replace(Src &s) {
	sched::begin(); alloc::begin(); Model model; M = &model; sched::W().tolerate = tolerate;
	size_t T = (size_t)s.range(2, 4); int replacers = (int)s.range(1, 2);
	fiftyoneDegreesResourceManager *m = (fiftyoneDegreesResourceManager *)malloc(sizeof *m);
	auto make = [&]() -> Res & { M->all.emplace_back(); Res &r = M->all.back(); r.id = (int)M->all.size() - 1; return r; };
	Res &first = make(); first.installed = true; first.to = 0;
	fiftyoneDegreesResourceManagerInit(m, &first, &first.handle, freeRes);
	CHECK(first.handle != nullptr && m->active == first.handle, "the first resource was not installed");
	std::vector<std::string> scripts(T); // U use, R release oldest, r release newest, X replace
	log("%zu threads", T);
	for (size_t t = 0; t < T; t++) {
		size_t n = (size_t)s.range(1, 7);
		for (size_t i = 0; i < n; i++) scripts[t] += (int)t < replacers && s.chance(2, 5) ? 'X' : "URr"[s.below(3)];
		log(" thread %zu: %s", t, scripts[t].c_str());
	}
	bool keep = s.chance(1, 3); // threads keep what they hold until the manager is being freed
	struct Held { Handle *h; Res *r; }; std::vector<std::vector<Held>> held(T);
	size_t uses = 0, replaces = 0, heldOver = 0;
	auto give = [&](size_t t, bool newest) {
		auto &v = held[t]; size_t k = newest ? v.size() - 1 : 0; Held h = v[k]; v.erase(v.begin() + (long)k);
		check(h.r, t, "until it is released"); h.r->users--;
		M->opStart[t] = sched::now(); fiftyoneDegreesResourceHandleDecUse(h.h); M->opStart[t] = UINT64_MAX;
	};
	std::vector<std::function<void()>> fs;
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] {
		for (char op : scripts[t]) {
			M->opStart[t] = UINT64_MAX; sched::yield();
			for (Held &h : held[t]) { check(h.r, t, "while it is held"); CHECK(h.h->resource == h.r, "the resource of a handle changed"); CHECK(fiftyoneDegreesResourceHandleGetUse(h.h) >= 1, "a handle in use counts no user"); }
			if (op == 'U') {
				uint64_t from = M->opStart[t] = sched::now();
				Handle *h = fiftyoneDegreesResourceHandleIncUse(m);
				M->opStart[t] = UINT64_MAX;
				CHECK(h != nullptr, "no handle was acquired");
				Res *r = nullptr; for (Res &x : M->all) if (x.handle == h || x.handle == nullptr) { if (x.handle == h) r = &x; }
				if (r == nullptr) { CHECK(h->resource != nullptr, "a handle without resource was acquired"); r = (Res *)h->resource; bool known = false; for (Res &x : M->all) known |= &x == r; CHECK(known, "an unknown handle was acquired"); }
				check(r, t, "when it was acquired");
				CHECK(h->resource == r, "the handle acquired has another resource");
				int x = superseded(*r, from);
				CHECK(x < 0, "thread %zu acquired resource %d which %d had replaced before it asked", t, r->id, x);
				r->users++; uses++; held[t].push_back({ h, r });
			} else if (op == 'X') {
				Res &r = make(); r.from = M->opStart[t] = sched::now(); r.installed = true;
				fiftyoneDegreesResourceReplace(m, &r, &r.handle);
				M->opStart[t] = UINT64_MAX; r.to = sched::now();
				CHECK(r.handle != nullptr, "a replacement was refused");
				replaces++;
			} else if (!held[t].empty()) give(t, op == 'r');
		}
		while (!keep && !held[t].empty()) { sched::yield(); give(t, false); }
	});
	sched::run(s, fs);
	// what is active is what was installed last; everything else without users is gone
	Res *active = nullptr; for (Res &r : M->all) if (r.handle == m->active) active = &r;
	CHECK(active != nullptr, "the active handle belongs to no resource that was installed");
	CHECK(!active->freed, "the active resource %d is freed", active->id);
	{ int x = superseded(*active, UINT64_MAX); CHECK(x < 0, "resource %d is active although %d was installed after it", active->id, x); }
	auto settled = [&](const char *when, Res *act) {
		for (Res &r : M->all) {
			if (&r == act || r.users > 0) CHECK(!r.freed, "resource %d is freed %s", r.id, when);
			else CHECK(r.freed, "resource %d is not freed %s", r.id, when);
			if (!r.freed) CHECK(fiftyoneDegreesResourceHandleGetUse(r.handle) == r.users, "resource %d counts %d users instead of %d %s", r.id, fiftyoneDegreesResourceHandleGetUse(r.handle), r.users, when);
		}
	};
	settled("after the threads ran", active);
	for (auto &v : held) heldOver += v.size();
	// the manager is freed while those who still hold something release it
	M->managerGone = true; fs.clear();
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] { while (!held[t].empty()) { sched::yield(); give(t, false); } });
	fs.push_back([&] { sched::yield(); M->opStart[T] = sched::now(); fiftyoneDegreesResourceManagerFree(m); M->opStart[T] = UINT64_MAX; });
	sched::run(s, fs);
	settled("after the manager was freed", nullptr);
	CHECK(m->active == nullptr, "the manager still has an active resource");
	fiftyoneDegreesResourceManagerFree(m); // nothing left to free
	free(m);
	alloc::expectNone("by the manager");
	if (heldOver) label("held while the manager was freed"); if (replaces > 1) label("several replacements");
	if (sched::W().preemptions >= 3 && uses > 1 && replaces > 0) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("replace", replace, 2000000, 100000000, "2 to 4 threads acquire, hold, release and replace one resource under a drawn schedule, then release while the manager is freed; at least 3 preemptions, 2 acquisitions and a replacement");
	Options o; o.assumptions = { "sequentially consistent interleavings of the compiled memory accesses; weaker memory orders are not explored", "the memory of a freed handle is not used for another one during a case" };
	alloc::install();
	return runMain(argc, argv, o);
}
