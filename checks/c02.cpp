// C02: the loading cache, and collections which use it, under every thread schedule.
#include "coll.hpp"
#include "sched.hpp"
using namespace pbt;
namespace {
std::string valueOf(int64_t k) {
	uint64_t h = mix((uint64_t)k); std::string v(1 + h % 24, 0);
	for (size_t i = 0; i < v.size(); i++) v[i] = (char)(mix(h + i) >> 7);
	return v;
}
struct Loader {
	bool is64 = false; std::set<int64_t> bad; std::map<int64_t, int> tries, loads; std::map<int, int64_t> byThread; uint64_t calls = 0, failures = 0;
	std::map<int, int> threadCalls;
	int64_t key(const void *p) const { int64_t k = 0; if (is64) memcpy(&k, p, 8); else { int32_t x; memcpy(&x, p, 4); k = x; } return k; }
};
void load(const void *state, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	Loader *l = (Loader *)state; int64_t k = l->key(key);
	l->calls++; l->tries[k]++; l->threadCalls[sched::self()]++;
	sched::yield();
	if (l->bad.count(k) && l->tries[k] % 2 == 1) { l->failures++; FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL); return; }
	std::string v = valueOf(k);
	char *p = (char *)fiftyoneDegreesDataMalloc(data, v.size());
	CHECK(p != nullptr, "no memory in the loader");
	data->used = (uint32_t)v.size();
	for (size_t i = 0; i < v.size(); i++) { if (i % 8 == 3) sched::yield(); p[i] = v[i]; }
	l->loads[k]++;
}
struct Held { fiftyoneDegreesCacheNode *node; int64_t key; uint64_t since; };
bool right(const fiftyoneDegreesData &d, const std::string &v) { return d.ptr != nullptr && d.used == v.size() && memcmp(d.ptr, v.data(), v.size()) == 0; }
void cache(Src &s) {
	sched::begin(); alloc::begin();
	Loader l; l.is64 = s.chance(1, 2);
	uint16_t conc = (uint16_t)s.range(1, 3); uint32_t capacity = (uint32_t)(conc * conc + s.small(0, 6));
	size_t T = (size_t)s.range(2, 4);
	fiftyoneDegreesCache *c = fiftyoneDegreesCacheCreate(capacity, conc, load, l.is64 ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &l);
	CHECK(c != nullptr, "a cache of %u for %d was refused", capacity, conc);
	uint32_t perShard = (uint32_t)c->capacity / conc;
	std::vector<int64_t> keys; size_t nk = (size_t)s.range(1, perShard + 4);
	bool oneShard = s.chance(1, 2);
	while (keys.size() < nk) keys.push_back(oneShard ? (int64_t)keys.size() * conc + (int64_t)conc * s.range(-2, 2) : (int64_t)keys.size() - s.range(0, 3));
	std::sort(keys.begin(), keys.end()); keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
	for (int64_t k : keys) if (s.chance(1, 12)) l.bad.insert(k);
	std::vector<std::vector<std::pair<int, size_t>>> scripts(T); std::vector<size_t> hold(T);
	log("cache capacity=%u concurrency=%d, %zu keys (%zu fail every other time), %zu threads", capacity, conc, keys.size(), l.bad.size(), T);
	for (size_t t = 0; t < T; t++) {
		hold[t] = (size_t)s.range(1, 3); size_t n = (size_t)s.range(1, 7); std::string d;
		for (size_t i = 0; i < n; i++) { int op = s.weighted({ 4, 2, 1 }); size_t k = (size_t)s.below(keys.size()); scripts[t].push_back({ op, k }); d += op == 0 ? "get " + std::to_string(keys[k]) + " " : op == 1 ? "release " : "look "; }
		log(" thread %zu (holds %zu): %s", t, hold[t], d.c_str());
	}
	auto shardOf = [&](int64_t k) { return abs((int)k % conc); };
	uint64_t gets = 0, refused = 0, hitsSeen = 0, shared = 0; std::map<int64_t, int> holders;
	// how many slots of each shard are or may be in use (held, or being got)
	std::vector<size_t> inUse(conc, 0);
	struct Try { uint64_t from; int shard; size_t most; }; std::vector<Try *> open;
	auto use = [&](int sh, int d) { inUse[(size_t)sh] += (size_t)d; if (d > 0) for (Try *t : open) if (t->shard == sh) t->most = std::max(t->most, inUse[(size_t)sh]); };
	std::vector<std::function<void()>> fs;
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] {
		std::vector<Held> held;
		auto look = [&] { for (Held &h : held) CHECK(right(h.node->data, valueOf(h.key)), "the item thread %zu holds for key %lld no longer has its value", t, (long long)h.key); };
		auto give = [&] {
			look(); Held h = held.front(); held.erase(held.begin()); holders[h.key]--;
			fiftyoneDegreesCacheRelease(h.node); use(shardOf(h.key), -1);
		};
		for (auto &op : scripts[t]) {
			sched::yield(); look();
			if (op.first == 0 && held.size() < hold[t]) {
				int64_t k = keys[op.second]; char *kb = (char *)malloc(l.is64 ? 8 : 4); if (l.is64) memcpy(kb, &k, 8); else { int32_t x = (int32_t)k; memcpy(kb, &x, 4); }
				FIFTYONE_DEGREES_EXCEPTION_CREATE
				int sh = shardOf(k); use(sh, 1); Try me = { sched::now(), sh, inUse[(size_t)sh] - 1 }; open.push_back(&me);
				uint64_t fails = l.failures; int calls = l.threadCalls[(int)t];
				fiftyoneDegreesCacheNode *n = fiftyoneDegreesCacheGet(c, kb, exception);
				open.erase(std::find(open.begin(), open.end(), &me)); gets++;
				bool loaded = l.threadCalls[(int)t] != calls;
				if (n == nullptr) {
					use(sh, -1);
					if (FIFTYONE_DEGREES_EXCEPTION_FAILED) CHECK(loaded && l.failures > fails && l.bad.count(k) && exception->status == FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL, "key %lld failed with status %d without its load failing", (long long)k, (int)exception->status);
					else { refused++; CHECK(me.most >= perShard, "key %lld was refused although no more than %zu of %u slots could be held", (long long)k, me.most, perShard); }
				} else {
					CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "key %lld returned with status %d", (long long)k, (int)exception->status);
					CHECK(right(n->data, valueOf(k)), "the item returned for key %lld has another value", (long long)k);
					if (!loaded) hitsSeen++;
					if (holders[k]++ > 0) shared++;
					held.push_back({ n, k, me.from });
				}
				free(kb);
			} else if (op.first == 1 && !held.empty()) give();
		}
		while (!held.empty()) { sched::yield(); give(); }
	});
	sched::run(s, fs);
	CHECK((uint64_t)c->hits + (uint64_t)c->misses == gets, "%lu hits and %lu misses were counted for %llu gets", c->hits, c->misses, (unsigned long long)gets);
	CHECK((uint64_t)c->misses == l.calls + refused && (uint64_t)c->hits == hitsSeen, "%lu hits and %lu misses were counted; %llu gets loaded, %llu were refused", c->hits, c->misses, (unsigned long long)l.calls, (unsigned long long)refused);
	// no key was loaded twice unless something could have been evicted or lost in between
	std::vector<size_t> used(conc, 0); for (auto &x : l.tries) used[(size_t)shardOf(x.first)]++;
	for (auto &x : l.loads) if (used[(size_t)shardOf(x.first)] <= perShard && l.bad.empty()) CHECK(x.second == 1, "key %lld was loaded %d times although nothing needed to be evicted", (long long)x.first, x.second);
	// each shard still works: it can hold as many keys as it has slots, all different, and no more
	l.bad.clear();
	for (int sh = 0; sh < conc; sh++) {
		std::vector<fiftyoneDegreesCacheNode *> all; std::set<void *> seen;
		for (uint32_t i = 0; i <= perShard; i++) {
			int64_t k = s.chance(1, 2) && i < keys.size() && shardOf(keys[i]) == sh ? keys[i] : 100000 + sh + (int64_t)conc * i;
			while (shardOf(k) != sh) k++;
			int32_t k32 = (int32_t)k; FIFTYONE_DEGREES_EXCEPTION_CREATE
			fiftyoneDegreesCacheNode *n = fiftyoneDegreesCacheGet(c, l.is64 ? (void *)&k : (void *)&k32, exception);
			if (i == perShard) { CHECK(n == nullptr, "a shard of %u slots holds more keys", perShard); break; }
			CHECK(n != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY, "afterwards shard %d holds only %u keys of %u", sh, i, perShard);
			CHECK(right(n->data, valueOf(k)), "afterwards key %lld has another value", (long long)k);
			CHECK(seen.insert(n).second, "afterwards one slot is given to two keys"); all.push_back(n);
		}
		while (!all.empty()) { fiftyoneDegreesCacheRelease(all.back()); all.pop_back(); }
		uint64_t calls = l.calls; // the last ones released are still there
		int64_t last = 100000 + sh + (int64_t)conc * (perShard - 1); while (shardOf(last) != sh) last++;
		int32_t l32 = (int32_t)last; FIFTYONE_DEGREES_EXCEPTION_CREATE
		if (perShard > 0 && seen.size() == perShard) {
			auto *n = fiftyoneDegreesCacheGet(c, l.is64 ? (void *)&last : (void *)&l32, exception);
			CHECK(n != nullptr && right(n->data, valueOf(last)), "afterwards a key cannot be got again");
			(void)calls; fiftyoneDegreesCacheRelease(n);
		}
	}
	fiftyoneDegreesCacheFree(c);
	alloc::expectNone("by the cache");
	if (refused) label("refused"); if (shared) label("two holders of one item"); if (hitsSeen) label("hit"); if (l.failures) label("load failed");
	if (sched::W().preemptions >= 3 && gets > 3 && (hitsSeen || refused)) nontrivial();
}

// Threads read the items of one collection in a file, whatever part of it is in memory or cached.
void collection(Src &s) {
	sched::begin(); alloc::begin();
	uint32_t size = (uint32_t)s.range(1, 12), count = (uint32_t)s.range(1, 20);
	std::vector<coll::Body> bodies;
	size_t n = (size_t)s.range(1, 2); bool strings = s.chance(1, 3);
	for (size_t i = 0; i < n; i++) {
		if (strings) {
			coll::Body d = coll::variableData(fiftyoneDegreesStringRead);
			for (uint32_t k = 0; k < count; k++) coll::addString(d, s.chars("abcxyz", (size_t)s.range(0, 20)));
			bodies.push_back(d);
		} else {
			coll::Bytes b; for (uint32_t k = 0; k < size * count; k++) b.push_back((char)(mix(k + i * 1000) & 255));
			bodies.push_back(coll::fixedData(size, count, true, b));
		}
	}
	size_t T = (size_t)s.range(2, 4); uint16_t handles = (uint16_t)s.range(2, (int64_t)T + 1);
	coll::Source src; src.build(s, bodies); src.open(handles);
	std::vector<coll::C *> cs; std::vector<coll::How> hows;
	for (size_t i = 0; i < n; i++) {
		coll::How h = coll::config(s, strings ? (uint32_t)bodies[i].body.size() : count);
		if (h.memory) h = coll::How{ false, 0, 0, 0 };
		coll::C *c = src.make(i, h);
		CHECK(c != nullptr, "collection not opened: %s", h.text().c_str());
		cs.push_back(c); hows.push_back(h); log("collection %zu: %u %s, %s", i, count, strings ? "strings" : "items", h.text().c_str());
	}
	log("%d handles, %zu threads", handles, T);
	size_t hold = (size_t)s.range(1, 2);
	std::vector<std::vector<std::pair<size_t, size_t>>> scripts(T);
	for (auto &x : scripts) { size_t k = (size_t)s.range(1, 6); for (size_t i = 0; i < k; i++) { size_t c = (size_t)s.below(n); x.push_back({ c, (size_t)s.below(count) }); } }
	size_t done = 0, refused = 0;
	std::vector<std::function<void()>> fs;
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] {
		struct Mine { coll::Item *item; size_t c, i; }; std::vector<Mine> held;
		auto look = [&] { for (Mine &m : held) { coll::Bytes b = bodies[m.c].bytes(m.i); CHECK(m.item->data.ptr != nullptr && memcmp(m.item->data.ptr, b.data(), b.size()) == 0, "the item %zu which thread %zu holds no longer has its bytes", m.i, t); } };
		auto give = [&] { look(); Mine m = held.front(); held.erase(held.begin()); coll::release(cs[m.c], m.item); if (m.item->data.allocated) fiftyoneDegreesFree(m.item->data.ptr); free(m.item); };
		for (auto &op : scripts[t]) {
			sched::yield();
			if (held.size() >= hold) give();
			look();
			coll::Item *item = (coll::Item *)malloc(sizeof *item); coll::resetItem(item);
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			void *p = cs[op.first]->get(cs[op.first], bodies[op.first].items[op.second].key, item, exception);
			if (p == nullptr) {
				const coll::How &h = hows[op.first];
				CHECK(handles < T || (h.cached() && T * hold > h.holdable()), "item %zu was refused with status %d (%d handles, %zu threads holding %zu)", op.second, (int)exception->status, handles, T, hold);
				refused++; if (item->data.allocated) fiftyoneDegreesFree(item->data.ptr); free(item); continue;
			}
			CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "item %zu returned with status %d", op.second, (int)exception->status);
			CHECK(p == item->data.ptr, "item %zu: the pointer returned is not the item's", op.second);
			held.push_back({ item, op.first, op.second }); look(); done++;
		}
		while (!held.empty()) { sched::yield(); give(); }
	});
	sched::run(s, fs);
	coll::checkPool(src, "after the threads ended");
	for (auto *c : cs) FIFTYONE_DEGREES_COLLECTION_FREE(c);
	src.close();
	alloc::expectNone("by the collections");
	if (refused) label("item refused");
	if (sched::W().preemptions >= 3 && done > 4) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("cache", cache, 250000, 9000000, "2 to 4 threads get, hold and release items of a cache of 1 to 3 shards with a slow and sometimes failing loader under a drawn schedule; at least 3 preemptions, 4 gets and a hit or a refusal");
	suite("collection", collection, 60000, 2000000, "threads read 1 or 2 collections of one file through a pool and a cache under a drawn schedule; at least 3 preemptions and 5 items read");
	Options o; o.assumptions = { "sequentially consistent interleavings of the compiled memory accesses; weaker memory orders are not explored" };
	alloc::install();
	return runMain(argc, argv, o);
}
