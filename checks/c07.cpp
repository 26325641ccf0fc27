// C07: pools over every history of taking and returning.
#include "coll.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <unordered_set>
using namespace pbt;
namespace {
struct Made { std::vector<int *> all; std::unordered_set<int *> known; std::map<int *, int> freed; int failAt = -1; };
Made *made;
void *createOne(fiftyoneDegreesPool *, void *state, fiftyoneDegreesException *exception) {
	CHECK(state == made, "the creator was given another state");
	if ((int)made->all.size() == made->failAt) { exception->status = FIFTYONE_DEGREES_STATUS_FILE_FAILURE; exception->func = "createOne"; return nullptr; }
	int *r = (int *)malloc(sizeof(int)); *r = (int)made->all.size(); made->all.push_back(r); made->known.insert(r); return r;
}
void freeOne(fiftyoneDegreesPool *, void *r) {
	CHECK(made->known.count((int *)r), "a resource that was never made is freed");
	CHECK(++made->freed[(int *)r] == 1, "a resource is freed twice"); free(r);
}
void pool(Src &s) {
	alloc::begin(); Made m; made = &m;
	uint32_t n = s.chance(1, 300) ? 65535 - (uint32_t)s.below(2) : s.chance(1, 40) ? 0 : s.chance(1, 25) ? (uint32_t)s.range(41, 1200) : (uint32_t)s.small(1, 40);
	bool own = s.chance(1, 10); // the resources are not the pool's to free
	if (n > 0 && s.chance(1, 8)) m.failAt = (int)s.below(n);
	fiftyoneDegreesPool *p = (fiftyoneDegreesPool *)malloc(sizeof *p); memset(p, 0xA7, sizeof *p);
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	log("concurrency %u, creation fails at %d%s", n, m.failAt, own ? ", not freed" : ""); if (own) label("nothing to free resources with");
	void *r = fiftyoneDegreesPoolInit(p, (uint16_t)n, &m, createOne, own ? nullptr : freeOne, exception);
	if (m.failAt >= 0) {
		label("creation fails");
		CHECK(FIFTYONE_DEGREES_EXCEPTION_FAILED && exception->status == FIFTYONE_DEGREES_STATUS_FILE_FAILURE, "the reason the resource could not be created was not reported");
		fiftyoneDegreesPoolFree(p);
	} else {
		CHECK(r == p && FIFTYONE_DEGREES_EXCEPTION_OKAY, "a pool of %u refused", n);
		CHECK(m.all.size() == n, "%zu resources were made for a concurrency of %u", m.all.size(), n);
		std::vector<fiftyoneDegreesPoolItem *> out; std::set<void *> outRes; size_t refused = 0, full = 0;
		auto take = [&] {
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			fiftyoneDegreesPoolItem *i = fiftyoneDegreesPoolItemGet(p, exception);
			if (out.size() == n) {
				CHECK(i == nullptr, "an item was handed out while all %u are out", n);
				CHECK(exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "refused with status %d", (int)exception->status); refused++; return;
			}
			CHECK(i != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY, "refused with %zu of %u out (status %d)", out.size(), n, (int)exception->status);
			CHECK(i->pool == p && i->resource != nullptr, "item without its pool or resource");
			CHECK(m.known.count((int *)i->resource), "unknown resource");
			CHECK(outRes.insert(i->resource).second, "a resource was handed out twice");
			out.push_back(i); if (out.size() == n) full++;
		};
		auto give = [&] (size_t k) { auto *i = out[k]; out[k] = out.back(); out.pop_back(); outRes.erase(i->resource); fiftyoneDegreesPoolItemRelease(i); };
		size_t steps = (size_t)s.range(0, 120); bool draining = false;
		for (size_t k = 0; k < steps; k++) {
			if (s.chance(1, 10)) draining = !draining;
			if (!out.empty() && s.chance(draining ? 3 : 1, 4)) give((size_t)s.below(out.size())); else take();
		}
		while (!out.empty() && s.chance(3, 4)) give((size_t)s.below(out.size()));
		if (s.chance(1, 2) || n > 60000) { // all of them can still be taken
			while (!out.empty()) give(out.size() - 1);
			for (uint32_t k = 0; k <= n; k++) take();
			if (s.chance(1, 2)) while (!out.empty()) give((size_t)s.below(out.size()));
		}
		if (full > 1 && refused > 0 && n > 2) nontrivial();
		if (refused) label("exhausted");
		if (s.chance(1, 12)) { // forgetting a pool frees nothing
			fiftyoneDegreesPool copy = *p; fiftyoneDegreesPoolReset(p);
			CHECK(m.freed.empty() && p->stack == nullptr && p->count == 0, "reset released resources or kept the stack");
			fiftyoneDegreesPoolFree(p); CHECK(m.freed.empty(), "freeing a pool that was reset released resources");
			*p = copy; label("reset");
		}
		fiftyoneDegreesPoolFree(p);
	}
	if (own) for (int *x : m.all) freeOne(nullptr, x);
	CHECK(m.freed.size() == m.all.size(), "%zu of %zu resources were freed", m.freed.size(), m.all.size());
	fiftyoneDegreesPoolFree(p); // a freed pool may be freed again
	alloc::expectNone("after the pool was freed"); free(p);
}
void filePool(Src &s) {
	alloc::begin(); int fds = coll::openFds();
	std::string path = G().scratch + "/p" + std::to_string(getpid()), content = s.bytes((size_t)s.small(1, 3000));
	FILE *f = fopen(path.c_str(), "wb"); fwrite(content.data(), 1, content.size(), f); fclose(f);
	fiftyoneDegreesFilePool p; memset(&p, 0, sizeof p); fiftyoneDegreesFilePoolReset(&p);
	uint16_t n = (uint16_t)s.range(1, 9);
	int wrong = (int)s.below(12); // some can't be opened
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	std::string name = path; struct rlimit old, lim; getrlimit(RLIMIT_NOFILE, &old); lim = old; bool fails = false;
	if (wrong == 0) { name += "-missing"; fails = true; log("missing file"); }
	if (wrong == 1) { content.clear(); (void)!truncate(path.c_str(), 0); fails = true; log("empty file"); }
	if (wrong == 2) { n = 0; fails = true; log("no handles"); }
	if (wrong == 3) { name += "/x"; fails = true; log("not a directory"); }
	if (wrong == 4) { // only some descriptors left
		int top = 0; for (int i = 0; i < 512; i++) if (fcntl(i, F_GETFD) != -1) top = i; (void)top;
		int room = (int)s.below(n), used = 0, at = 0; for (at = 0; used <= room; at++) if (fcntl(at, F_GETFD) == -1) used++;
		lim.rlim_cur = (rlim_t)at - 1; setrlimit(RLIMIT_NOFILE, &lim); fails = true; log("descriptors for %d of %u", room, n);
	}
	fiftyoneDegreesStatusCode st = fiftyoneDegreesFilePoolInit(&p, name.c_str(), n, exception);
	setrlimit(RLIMIT_NOFILE, &old);
	if (fails) {
		label("can not be opened");
		CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS, "success reported for a pool that can not be created (case %d)", wrong);
		if (wrong == 0) CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "a missing file was reported as %d", (int)st);
		if (wrong == 2) CHECK(st == FIFTYONE_DEGREES_STATUS_INVALID_COLLECTION_CONFIG, "no handles were reported as %d", (int)st);
		if (s.chance(1, 2)) fiftyoneDegreesFilePoolRelease(&p);
	} else {
		CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS && FIFTYONE_DEGREES_EXCEPTION_OKAY, "status %d for a valid file", (int)st);
		CHECK(p.length == (long)content.size(), "length %ld of %zu bytes", p.length, content.size());
		CHECK(coll::openFds() == fds + n, "%d descriptors for %u handles", coll::openFds() - fds, n);
		struct Out { fiftyoneDegreesFileHandle *h; size_t pos; bool known; }; std::vector<Out> out; std::set<void *> have, files; size_t steps = (size_t)s.range(0, 60), reads = 0, both = 0;
		for (size_t k = 0; k < steps; k++) switch (s.below(4)) {
		case 0: {
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			auto *h = fiftyoneDegreesFileHandleGet(&p, exception);
			if (out.size() == n) { CHECK(h == nullptr && exception->status == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "more than %u handles or status %d", n, (int)exception->status); break; }
			CHECK(h != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY && h->file != nullptr, "handle refused with %zu of %u out", out.size(), n);
			CHECK(have.insert(h->file).second, "one file handle for two holders");
			files.insert(h->file); CHECK(files.size() <= n, "more than %u different files", n);
			out.push_back({ h, 0, false }); break; }
		case 1: if (!out.empty()) { size_t i = (size_t)s.below(out.size()); have.erase(out[i].h->file); fiftyoneDegreesFileHandleRelease(out[i].h); out.erase(out.begin() + (long)i); } break;
		case 2: if (!out.empty()) { auto &o = out[(size_t)s.below(out.size())]; o.pos = (size_t)s.below(content.size() + 1); o.known = true; CHECK(fseek(o.h->file, (long)o.pos, SEEK_SET) == 0, "seek fails"); } break;
		default: if (!out.empty()) { auto &o = out[(size_t)s.below(out.size())]; if (!o.known) break; char b[64]; size_t want = (size_t)s.below(64), got = fread(b, 1, want, o.h->file), expect = std::min(want, content.size() - o.pos);
			CHECK(got == expect && memcmp(b, content.data() + o.pos, got) == 0, "handle read %zu bytes that differ from the %zu at %zu", got, expect, o.pos); o.pos += got; reads++; if (out.size() > 1) both++; } break;
		}
		if (reads > 3 && both > 2) nontrivial();
		CHECK(coll::openFds() == fds + n, "%d descriptors for %u handles after use", coll::openFds() - fds, n);
		for (auto &o : out) fiftyoneDegreesFileHandleRelease(o.h);
		fiftyoneDegreesFilePoolRelease(&p);
	}
	CHECK(coll::openFds() == fds, "%d descriptors left open", coll::openFds() - fds);
	alloc::expectNone("after the pool was released"); unlink(path.c_str());
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "Schedules are decided by C08; here one thread acts." };
	suite("pool", pool, 40000, 6000000, "a pool of more than 2 was exhausted and refused an item");
	suite("file", filePool, 12000, 1500000, "several handles were read from in turn");
	return runMain(argc, argv, o);
}
