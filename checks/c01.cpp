// C01: the loading cache against a reference model, over generated histories.
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
using namespace pbt;

namespace {
struct Loader {
	bool is64 = false, allocs = true;
	bool failNext = false, dirtyOnFail = false;
	uint64_t calls = 0;
	int64_t lastKey = 0;
	std::map<int64_t, std::vector<uint8_t>> statics; // for the non allocating loader
};
int64_t keyOf(const Loader *l, const void *key) {
	int64_t k = 0;
	if (l->is64) memcpy(&k, key, 8); else { int32_t x; memcpy(&x, key, 4); k = x; }
	return k;
}
std::vector<uint8_t> valueOf(int64_t k) {
	uint64_t h = mix((uint64_t)k);
	std::vector<uint8_t> v(1 + h % 40);
	for (size_t i = 0; i < v.size(); i++) v[i] = (uint8_t)(mix(h + i) >> 7);
	return v;
}
void loadCb(const void *state, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	Loader *l = (Loader *)state;
	l->calls++;
	int64_t k = keyOf(l, key);
	l->lastKey = k;
	std::vector<uint8_t> v = valueOf(k);
	bool fail = l->failNext; l->failNext = false;
	if (fail && !l->dirtyOnFail) { FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL); return; }
	if (l->allocs) {
		uint8_t *p = (uint8_t *)fiftyoneDegreesDataMalloc(data, v.size());
		if (p == nullptr) pbt::fail("no memory in loader");
		data->used = (uint32_t)v.size();
		if (fail) memset(p, 0xEE, v.size()); else memcpy(p, v.data(), v.size());
	} else {
		std::vector<uint8_t> &s = l->statics[k]; s = v;
		data->ptr = s.data(); data->used = (uint32_t)s.size(); data->allocated = 0;
	}
	if (fail) FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL);
}

struct Shard {
	size_t slots = 0, capacity = 0;     // slots in use by a key (held or not)
	std::vector<int64_t> lru;           // unheld resident keys, most recent first
	std::map<int64_t, int> held;        // held resident keys and their counts
};

void model(Src &s) {
	alloc::begin();
	Loader l;
	l.is64 = s.chance(1, 2);
	l.allocs = s.chance(3, 4);
	uint16_t conc = (uint16_t)s.range(1, 6);
	uint32_t capacity = (uint32_t)(conc * conc + s.small(0, 14));
	bool badConfig = s.chance(1, 40);
	if (badConfig) capacity = (uint32_t)s.range(0, conc * conc - 1);
	log("cache capacity=%u concurrency=%u key bits=%d", capacity, conc, l.is64 ? 64 : 32);
	fiftyoneDegreesCache *c = fiftyoneDegreesCacheCreate(capacity, conc, loadCb,
		l.is64 ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &l);
	if (badConfig) {
		CHECK(c == nullptr, "a cache too small for its concurrency was created");
		alloc::expectNone("after a refused creation");
		label("refused config");
		return;
	}
	CHECK(c != nullptr, "cache not created");
	uint32_t perShard = (uint32_t)c->capacity / conc;
	CHECK((uint32_t)c->capacity >= capacity && perShard * conc >= capacity, "capacity %d less than the %u asked for", c->capacity, capacity);
	std::vector<Shard> sh(conc);
	for (auto &x : sh) x.capacity = perShard;

	// Key pool: wide values, or values falling in one shard.
	size_t nk = (size_t)s.range(1, (int64_t)perShard * 3 + 6);
	std::vector<int64_t> keys; std::set<int64_t> uniq;
	int style = (int)s.below(3);
	int64_t base = s.range(-20, 20);
	for (size_t i = 0; i < nk; i++) {
		int64_t k;
		if (style == 0) k = base + (int64_t)i;
		else if (style == 1) k = base + (int64_t)i * conc;
		else {
			static const int64_t e32[] = { 0, 1, -1, INT32_MIN, INT32_MAX, INT32_MIN + 1, 1 << 16, -(1 << 16) };
			static const int64_t e64[] = { 0, 1, -1, INT64_MIN, INT64_MAX, INT32_MIN, 1LL << 32, -(1LL << 32), (1LL << 31), (1LL << 63) + (1LL << 31) };
			if (s.chance(1, 2)) k = l.is64 ? s.pick(e64) : s.pick(e32);
			else k = l.is64 ? (int64_t)s.below(0) : (int64_t)(int32_t)s.below(1ULL << 32);
		}
		if (uniq.insert(k).second) keys.push_back(k);
	}
	auto shardOf = [&](int64_t k) { int64_t x = (int32_t)k; if (x < 0) x = -x; return (size_t)(x % conc); };

	struct Held { int64_t key; fiftyoneDegreesCacheNode *node; };
	std::vector<Held> held;
	uint64_t hits = 0, misses = 0, evictions = 0, failedLoads = 0, exhausted = 0;
	int steps = (int)s.range(1, 160);
	int bias = (int)s.below(3); // mostly get / balanced / mostly release
	for (int st = 0; st < steps; st++) {
		bool get = held.empty() || s.below(4) <= (bias == 0 ? 2u : bias == 1 ? 1u : 0u) + (held.size() < 2 ? 1u : 0u);
		if (get) {
			int64_t key = keys[s.below(keys.size())];
			bool fail = s.chance(1, 12);
			l.failNext = fail; l.dirtyOnFail = s.chance(1, 2);
			Shard &x = sh[shardOf(key)];
			uint64_t before = l.calls;
			FIFTYONE_DEGREES_EXCEPTION_CREATE;
			int32_t k32 = (int32_t)key;
			fiftyoneDegreesCacheNode *n = fiftyoneDegreesCacheGet(c, l.is64 ? (void *)&key : (void *)&k32, exception);
			l.failNext = false;
			bool loaded = l.calls != before, ok = FIFTYONE_DEGREES_EXCEPTION_OKAY;
			log("get %" PRId64 " shard %zu%s -> %s%s", key, shardOf(key), fail ? " (loader set to fail)" : "", n ? "node" : "null", loaded ? " loaded" : "");
			auto hIt = x.held.find(key);
			auto lIt = std::find(x.lru.begin(), x.lru.end(), key);
			if (hIt != x.held.end() || lIt != x.lru.end()) { // resident
				hits++;
				CHECK(!loaded, "resident key %" PRId64 " was loaded again", key);
				CHECK(n != nullptr && ok, "resident key %" PRId64 " could not be fetched", key);
				if (lIt != x.lru.end()) { x.lru.erase(lIt); x.held[key] = 0; }
				x.held[key]++;
				held.push_back({ key, n });
			} else {
				misses++;
				size_t used = x.held.size() + x.lru.size();
				if (used >= x.capacity && x.lru.empty()) {
					exhausted++;
					CHECK(!loaded, "loader called with every slot of the shard held");
					CHECK(n == nullptr, "a node was returned with every slot of the shard held");
					label("shard exhausted");
				} else {
					if (used >= x.capacity) { x.lru.pop_back(); evictions++; }
					CHECK(loaded, "key %" PRId64 " is not resident and was not loaded (the shard has %zu of %zu slots held)", key, x.held.size(), x.capacity);
					CHECK(l.lastKey == key, "loader given key %" PRId64 " instead of %" PRId64, l.lastKey, key);
					if (fail) {
						failedLoads++;
						CHECK(!ok, "failed load not reported");
						CHECK(n == nullptr, "a node was returned for a key that failed to load");
						label("failed load");
					} else {
						CHECK(n != nullptr && ok, "load of %" PRId64 " succeeded but no node was returned (%zu of %zu slots held)", key, x.held.size(), x.capacity);
						x.held[key] = 1;
						held.push_back({ key, n });
					}
				}
			}
		} else {
			size_t i = s.below(held.size());
			int64_t key = held[i].key;
			Shard &x = sh[shardOf(key)];
			log("release %" PRId64, key);
			fiftyoneDegreesCacheRelease(held[i].node);
			held.erase(held.begin() + (long)i);
			if (--x.held[key] == 0) { x.held.erase(key); x.lru.insert(x.lru.begin(), key); }
		}
		// Every held item still has its own value.
		for (auto &h : held) {
			std::vector<uint8_t> v = valueOf(h.key);
			CHECK(h.node->data.ptr != nullptr && h.node->data.used == v.size() && memcmp(h.node->data.ptr, v.data(), v.size()) == 0,
				"item held for key %" PRId64 " no longer has its value", h.key);
		}
		std::map<fiftyoneDegreesCacheNode *, int64_t> owner;
		for (auto &h : held) {
			auto it = owner.find(h.node);
			CHECK(it == owner.end() || it->second == h.key, "one slot serves two held keys");
			owner[h.node] = h.key;
		}
		CHECK(c->hits == hits && c->misses == misses, "counters hits=%lu misses=%lu, history says %" PRIu64 "/%" PRIu64, c->hits, c->misses, hits, misses);
	}
	for (auto &h : held) fiftyoneDegreesCacheRelease(h.node);
	fiftyoneDegreesCacheFree(c);
	alloc::expectNone("after the cache was freed");
	if (evictions > 0 && hits > 0) nontrivial();
	if (evictions > 0) label("evictions");
	if (hits > 0) label("hits");
	if (failedLoads > 1) label("several failed loads");
	if (conc > 1) label("several shards");
	if (style == 2) label("extreme keys");
}
// Caches of hundreds and tens of thousands of entries, filled, passed over and held whole.
void fill(Src &s) {
	alloc::begin();
	Loader l; l.is64 = s.chance(1, 2); l.allocs = s.chance(3, 4);
	bool huge = s.chance(1, 20); uint16_t conc = (uint16_t)(s.chance(1, huge ? 3 : 20) ? s.range(256, 300) : s.range(1, 16));
	uint32_t capacity = std::max<uint32_t>((uint32_t)conc * conc, (uint32_t)(huge ? s.range(65530, 70000) : s.range(250, 600))) + (uint32_t)s.below(40);
	if (capacity > 2000) label("tens of thousands of entries"); else label("hundreds of entries");
	if (conc > 255) label("hundreds of shards");
	fiftyoneDegreesCache *c = fiftyoneDegreesCacheCreate(capacity, conc, loadCb, l.is64 ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &l);
	CHECK(c != nullptr && (uint32_t)c->capacity >= capacity, "cache not created");
	uint32_t per = (uint32_t)c->capacity / conc, n = (uint32_t)c->capacity + (uint32_t)s.below(300);
	int64_t first = s.pick(std::vector<int64_t>{ 0, 1, 255, 65536, 1 << 20, INT32_MAX - 200000 });
	int64_t step = s.pick(std::vector<int64_t>{ 1, 1, 1, 3, 7 }); if (first > (1 << 20)) step = 1;
	log("capacity %u (%d) concurrency %u, %u keys from %" PRId64 " by %" PRId64 ", %d bits", capacity, c->capacity, conc, n, first, step, l.is64 ? 64 : 32);
	auto get = [&](int64_t k) { int32_t k32 = (int32_t)k; FIFTYONE_DEGREES_EXCEPTION_CREATE; auto *node = fiftyoneDegreesCacheGet(c, l.is64 ? (void *)&k : (void *)&k32, exception); CHECK(node == nullptr || FIFTYONE_DEGREES_EXCEPTION_OKAY, "an item and status %d", (int)exception->status); return node; };
	auto good = [&](fiftyoneDegreesCacheNode *x, int64_t k) { std::vector<uint8_t> v = valueOf(k); CHECK(x->data.used == v.size() && memcmp(x->data.ptr, v.data(), v.size()) == 0, "key %" PRId64 " has another's value", k); };
	std::vector<std::vector<int64_t>> shard(conc); bool hold = s.chance(1, 2);
	std::vector<fiftyoneDegreesCacheNode *> held; std::vector<int64_t> heldKeys; uint64_t hits = 0, misses = 0;
	for (uint32_t i = 0; i < n; i++) { // each once
		int64_t k = first + i * step; auto &x = shard[(size_t)(k % conc)];
		uint64_t before = l.calls; auto *node = get(k); misses++;
		if (hold && x.size() >= per) { CHECK(node == nullptr && l.calls == before, "key %u of %u was given although its shard is held", i, n); continue; }
		CHECK(node != nullptr && l.calls == before + 1 && l.lastKey == k, "key %u of %u was %s", i, n, node == nullptr ? "refused" : "there already");
		good(node, k); x.push_back(k); if (hold) { held.push_back(node); heldKeys.push_back(k); } else fiftyoneDegreesCacheRelease(node);
	}
	std::set<void *> slots; for (size_t i = 0; i < held.size(); i++) { good(held[i], heldKeys[i]); CHECK(slots.insert(held[i]).second, "two keys share a slot"); }
	for (auto *node : held) fiftyoneDegreesCacheRelease(node);
	for (auto &x : shard) { // the last ones of each shard are there, the one before is not
		size_t from = x.size() > per ? x.size() - per : 0;
		for (size_t i = from; i < x.size(); i++) { uint64_t before = l.calls; auto *node = get(x[i]); hits++; CHECK(node != nullptr && l.calls == before, "key %" PRId64 ", %zu from the last of %u in its shard, was not there", x[i], x.size() - i, per); good(node, x[i]); fiftyoneDegreesCacheRelease(node); }
		if (from > 0 && s.chance(1, 4)) { uint64_t before = l.calls; auto *node = get(x[from - 1]); misses++; CHECK(node != nullptr && l.calls == before + 1, "the shard holds more than its capacity"); good(node, x[from - 1]); fiftyoneDegreesCacheRelease(node); label("evictions"); }
	}
	CHECK(c->hits == hits && c->misses == misses, "counters hits=%lu misses=%lu, history says %" PRIu64 "/%" PRIu64, c->hits, c->misses, hits, misses);
	fiftyoneDegreesCacheFree(c); alloc::expectNone("after the cache was freed");
	nontrivial();
}
} // namespace

int main(int argc, char **argv) {
	suite("model", model, 150000, 4000000,
		"random capacity/shards/key pool (dense, one-shard, extreme), up to 120 gets (1 in 12 with a failing loader) and releases; non-trivial = at least one eviction and one hit");
	suite("fill", fill, 600, 60000, "caches of 250 to 600 and 65530 to 90000 entries in up to 300 shards filled to the last slot; every case");
	Options o;
	o.assumptions = { "single thread", "a key's shard is its 32 bit absolute value modulo the concurrency, as documented" };
	return runMain(argc, argv, o);
}
