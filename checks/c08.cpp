// C08: pools under every thread schedule.
#include "alloc.hpp"
#include "sched.hpp"
#include <sys/stat.h>
extern "C" {
#include "file.h"
}
#include "fiftyone.h"
using namespace pbt;
namespace {
struct Res { int index, holder = -1; bool freed = false; std::vector<std::pair<uint64_t, uint64_t>> busy; };
struct Made { std::vector<Res *> all; } *made;
void *createOne(fiftyoneDegreesPool *, void *, fiftyoneDegreesException *) {
	Res *r = new Res; r->index = (int)made->all.size(); made->all.push_back(r); return r;
}
void freeOne(fiftyoneDegreesPool *, void *p) {
	Res *r = (Res *)p; CHECK(!r->freed, "a resource is freed twice"); CHECK(r->holder < 0, "a resource is freed while it is held"); r->freed = true;
}
struct Attempt { uint64_t from, to; int thread; };
void notNeedlessly(const std::vector<Attempt> &refused, const std::vector<std::vector<std::pair<uint64_t, uint64_t>>> &busy) {
	for (const Attempt &a : refused) for (size_t r = 0; r < busy.size(); r++) {
		bool unused = true;
		for (auto &b : busy[r]) unused &= !(b.first <= a.to && b.second >= a.from);
		CHECK(!unused, "thread %d was refused (steps %llu to %llu) although resource %zu lay unused all that time", a.thread, (unsigned long long)a.from, (unsigned long long)a.to, r);
	}
}
// A thread's script: a value > 0 takes (if fewer than that many are held), 0 returns the oldest, -1 the newest.
std::vector<int> script(Src &s, int hold) {
	std::vector<int> v; size_t n = (size_t)s.range(1, 8);
	for (size_t i = 0; i < n; i++) v.push_back(s.chance(1, 2) ? hold : s.chance(1, 3) ? -1 : 0);
	return v;
}
std::string show(const std::vector<int> &v) { std::string o; for (int x : v) o += x > 0 ? "take " : x == 0 ? "oldest " : "newest "; return o; }
void pool(Src &s) {
	sched::begin(); alloc::begin(); Made m; made = &m;
	uint16_t n = (uint16_t)s.range(1, 4); size_t T = (size_t)s.range(2, 4);
	std::vector<std::vector<int>> scripts;
	for (size_t t = 0; t < T; t++) { scripts.push_back(script(s, (int)s.range(1, 3))); }
	fiftyoneDegreesPool *p = (fiftyoneDegreesPool *)malloc(sizeof *p);
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	fiftyoneDegreesPoolInit(p, n, nullptr, createOne, freeOne, exception);
	CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && m.all.size() == n, "a pool of %d was not made", n);
	log("pool of %d, %zu threads", n, T);
	for (size_t t = 0; t < T; t++) log(" thread %zu: %s", t, show(scripts[t]).c_str());
	std::vector<Attempt> refused; size_t out = 0, most = 0, contended = 0;
	std::vector<std::function<void()>> fs;
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] {
		std::vector<fiftyoneDegreesPoolItem *> held; std::vector<uint64_t> since;
		auto give = [&](bool newest) {
			size_t k = newest ? held.size() - 1 : 0; auto *i = held[k]; uint64_t b = since[k];
			held.erase(held.begin() + (long)k); since.erase(since.begin() + (long)k);
			Res *r = (Res *)i->resource;
			CHECK(r->holder == (int)t, "resource %d held by thread %zu is marked as held by %d", r->index, t, r->holder);
			r->holder = -1; out--;
			fiftyoneDegreesPoolItemRelease(i);
			r->busy.push_back({ b, sched::now() });
		};
		for (int op : scripts[t]) {
			sched::yield();
			if (op > 0 && (int)held.size() < op) {
				FIFTYONE_DEGREES_EXCEPTION_CREATE
				uint64_t from = sched::now();
				fiftyoneDegreesPoolItem *i = fiftyoneDegreesPoolItemGet(p, exception);
				if (i == nullptr) {
					CHECK(exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "refused with status %d", (int)exception->status);
					refused.push_back({ from, sched::now(), (int)t });
				} else {
					CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "handed out with status %d", (int)exception->status);
					CHECK(i->resource != nullptr && i->pool == p, "item without its pool or resource");
					Res *r = (Res *)i->resource;
					CHECK(r->holder < 0, "resource %d handed to thread %zu while thread %d holds it", r->index, t, r->holder);
					r->holder = (int)t; held.push_back(i); since.push_back(from);
					if (++out > most) most = out;
				}
			} else if (op <= 0 && !held.empty()) give(op < 0);
		}
		while (!held.empty()) { sched::yield(); give(false); }
	});
	sched::run(s, fs);
	(void)contended;
	std::vector<std::vector<std::pair<uint64_t, uint64_t>>> busy; for (Res *r : m.all) busy.push_back(r->busy);
	notNeedlessly(refused, busy);
	// all of them can be taken again
	std::vector<fiftyoneDegreesPoolItem *> again; std::set<void *> seen;
	for (int k = 0; k < n; k++) {
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *i = fiftyoneDegreesPoolItemGet(p, exception);
		CHECK(i != nullptr, "only %d of %d resources can be taken after all were returned", k, n);
		CHECK(i->resource != nullptr && seen.insert(i->resource).second, "a resource can be taken twice after all were returned");
		again.push_back(i);
	}
	{ FIFTYONE_DEGREES_EXCEPTION_CREATE CHECK(fiftyoneDegreesPoolItemGet(p, exception) == nullptr, "more resources than there are can be taken"); }
	for (auto *i : again) fiftyoneDegreesPoolItemRelease(i);
	fiftyoneDegreesPoolFree(p);
	for (Res *r : m.all) { CHECK(r->freed, "resource %d was not freed", r->index); delete r; }
	alloc::expectNone("by the pool"); free(p);
	if (!refused.empty()) label("refused");
	if (most == n && n > 1) label("all out");
	if (sched::W().preemptions >= 3 && most > 1) nontrivial();
}
// Threads read a file through the handles of a pool.
void files(Src &s) {
	sched::begin(); alloc::begin();
	uint16_t n = (uint16_t)s.range(1, 3); size_t T = (size_t)s.range(2, 4); size_t size = 64 + (size_t)s.below(4000);
	std::string name = G().scratch + "/f" + std::to_string(getpid()), data;
	for (size_t i = 0; i < size; i++) data += (char)(i * 131 + (i >> 8) * 17);
	FILE *f = fopen(name.c_str(), "wb"); fwrite(data.data(), 1, size, f); fclose(f);
	fiftyoneDegreesFilePool *p = (fiftyoneDegreesFilePool *)malloc(sizeof *p); memset(p, 0, sizeof *p);
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	CHECK(fiftyoneDegreesFilePoolInit(p, name.c_str(), n, exception) == FIFTYONE_DEGREES_STATUS_SUCCESS, "no pool");
	std::vector<std::vector<std::pair<size_t, size_t>>> reads(T);
	for (auto &r : reads) { size_t k = (size_t)s.range(1, 4); for (size_t i = 0; i < k; i++) { size_t at = (size_t)s.below(size); r.push_back({ at, 1 + (size_t)s.below(std::min<size_t>(size - at, 40)) }); } }
	log("%d handles, %zu threads, %zu bytes", n, T, size);
	std::vector<Attempt> refused; std::map<void *, int> holder; std::map<void *, std::vector<std::pair<uint64_t, uint64_t>>> busy; size_t done = 0;
	std::vector<std::function<void()>> fs;
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] {
		for (auto &r : reads[t]) {
			sched::yield();
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			uint64_t from = sched::now();
			fiftyoneDegreesFileHandle *h = fiftyoneDegreesFileHandleGet(p, exception);
			if (h == nullptr) { CHECK(FIFTYONE_DEGREES_EXCEPTION_FAILED, "refused without a reason"); refused.push_back({ from, sched::now(), (int)t }); continue; }
			CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "handed out with status %d", (int)exception->status);
			CHECK(holder.emplace(h, (int)t).second, "a file handle is held by two threads");
			char b[64]; fseek(h->file, (long)r.first, SEEK_SET); sched::yield();
			CHECK(fread(b, 1, r.second, h->file) == r.second && memcmp(b, data.data() + r.first, r.second) == 0, "a handle read other bytes than the file's at %zu", r.first);
			holder.erase(h);
			fiftyoneDegreesFileHandleRelease(h);
			busy[h].push_back({ from, sched::now() }); done++;
		}
	});
	sched::run(s, fs);
	if (busy.size() == n) { std::vector<std::vector<std::pair<uint64_t, uint64_t>>> v; for (auto &b : busy) v.push_back(b.second); notNeedlessly(refused, v); }
	else CHECK(busy.size() < n && refused.empty(), "a thread was refused a handle while %zu of %d were never used, or there are too many", busy.size(), n);
	std::set<void *> seen;
	for (int k = 0; k < n; k++) { FIFTYONE_DEGREES_EXCEPTION_CREATE auto *h = fiftyoneDegreesFileHandleGet(p, exception); CHECK(h != nullptr && seen.insert(h).second, "only %d of %d handles can be taken afterwards", k, n); }
	for (auto *h : seen) fiftyoneDegreesFileHandleRelease((fiftyoneDegreesFileHandle *)h);
	fiftyoneDegreesFilePoolRelease(p); free(p); unlink(name.c_str());
	alloc::expectNone("by the file pool");
	if (!refused.empty()) label("file refused");
	if (sched::W().preemptions >= 3 && done > 2) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("pool", pool, 600000, 25000000, "2 to 4 threads take and return resources of a pool of 1 to 4 under a drawn schedule; at least 3 preemptions and 2 resources out at once");
	suite("files", files, 60000, 2500000, "threads read a file through a pool of handles; at least 3 preemptions and 3 reads");
	Options o; o.assumptions = { "sequentially consistent interleavings of the compiled memory accesses; weaker memory orders are not explored" };
	alloc::install();
	return runMain(argc, argv, o);
}
