// C06: binary searches over sorted collections.
#include "coll.hpp"
using namespace pbt;
using namespace coll;
extern "C" uint32_t *getProfileOffset(fiftyoneDegreesCollection *, const uint32_t, uint32_t *, fiftyoneDegreesException *) asm("fiftyoneDegreesProfileGetOffsetForProfileId");
namespace {
struct State { uint32_t key, size; long calls, failAt; uint32_t low, high; };
const int less_[] = { -7, -1, -256, -65536, -32769, INT_MIN, INT_MIN + 256, -(1 << 24) }, more_[] = { 9, 1, 256, 65536, 32768, INT_MAX, 255, 1 << 24 };
int compare(void *state, Item *item, long index, fiftyoneDegreesException *exception) {
	State *st = (State *)state;
	CHECK((uint32_t)index >= st->low && (uint32_t)index <= st->high, "entry %ld outside the range %u..%u was compared", index, st->low, st->high);
	if (st->calls++ == st->failAt) { FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_CORRUPT_DATA); return (int)(st->failAt % 3) - 1; }
	uint32_t v; memcpy(&v, item->data.ptr, 4);
	return v < st->key ? less_[(st->calls + st->key) & 7] : v > st->key ? more_[(st->calls + st->key) & 7] : 0;
}
void expectAllFree(C *c, Body &d, const How &cfg) {
	if (!cfg.cached()) return;
	for (uint32_t r = 0; r < cfg.concurrency; r++) {
		std::vector<std::unique_ptr<Item>> held;
		for (size_t i = r; i < d.items.size() && held.size() < cfg.holdable(); i += cfg.concurrency) {
			std::unique_ptr<Item> it(new Item); resetItem(it.get());
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			CHECK(c->get(c, d.items[i].key, it.get(), exception) != nullptr, "after the searches only %zu of %u items can be held at once", held.size(), cfg.holdable());
			held.push_back(std::move(it));
		}
		for (auto &it : held) release(c, it.get());
	}
}
void search(Src &s) {
	alloc::begin();
	uint32_t e = 4 * (uint32_t)s.range(1, 3); size_t n = (size_t)s.small(0, s.chance(1, 4) ? 400 : 24);
	if (s.chance(1, 400)) { n = (size_t)s.range(65500, 67000); label("tens of thousands of entries"); }
	std::vector<uint32_t> keys; bool dups = s.chance(1, 4); uint32_t k = s.chance(1, 3) ? 0xFFFFFE00u - (uint32_t)n * 3 : (uint32_t)s.small(0, 5);
	for (size_t i = 0; i < n; i++) { keys.push_back(k); k += dups ? (uint32_t)s.below(2) : 1 + (uint32_t)s.below(3); }
	Bytes body; for (auto v : keys) { put32(body, v); body += n > 1000 ? plenty(s, e - 4) : s.bytes(e - 4); }
	Source src; Body d = fixedData(e, (uint32_t)n, s.chance(1, 2), body);
	if (n == 0) d.elementSize = e;
	src.build(s, { d }); src.open((uint16_t)s.range(1, 2)); size_t base = alloc::live();
	How cfg = config(s, (uint32_t)n); C *c = src.make(0, cfg); CHECK(c != nullptr, "valid collection refused");
	log("%zu entries, %s", n, cfg.text().c_str());
	size_t found = 0, missed = 0, q = (size_t)s.range(1, 40); size_t live = alloc::live();
	std::vector<std::pair<std::unique_ptr<Item>, size_t>> kept;
	for (size_t j = 0; j < q; j++) {
		uint32_t lo = 1, hi = 0; // an empty range
		if (n > 0 && !s.chance(1, 12)) { lo = s.chance(1, 2) ? 0 : (uint32_t)s.below(n); hi = s.chance(1, 2) ? (uint32_t)n - 1 : (uint32_t)s.range(lo, (int64_t)n - 1); }
		uint32_t key = n > 0 && s.chance(2, 3) ? s.pick(keys) : n > 0 ? (uint32_t)(s.pick(keys) + s.range(-1, 1)) : (uint32_t)s.below(10);
		bool error = s.chance(1, 8); bool unreadable = n > 0 && s.chance(1, 10);
		State st = { key, e, 0, error ? (long)s.below(5) : -1, lo, hi };
		if (unreadable) { hi = (uint32_t)n + (uint32_t)s.below(20); lo = (uint32_t)n; st.high = hi; st.low = lo; } // every entry of the range is missing
		std::unique_ptr<Item> it(new Item); memset(it.get(), 0x5A, sizeof(Item)); it->handle = nullptr; it->collection = nullptr;
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		long r = fiftyoneDegreesCollectionBinarySearch(c, it.get(), lo, hi, &st, compare, exception);
		log("search %u in %u..%u gives %ld after %ld comparisons", key, lo, hi, r, st.calls);
		long want = -1; for (uint32_t i = lo; i <= hi && i < n; i++) if (keys[i] == key) { want = i; break; }
		if (unreadable) { CHECK(r == -1 && FIFTYONE_DEGREES_EXCEPTION_FAILED, "searching entries that are not there gives %ld, status %d", r, (int)exception->status); label("entries missing"); }
		else if (error && st.calls > st.failAt) { CHECK(r == -1 && FIFTYONE_DEGREES_EXCEPTION_FAILED, "a failing comparison gives %ld, status %d", r, (int)exception->status); label("comparison fails"); }
		else {
			CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "search failed with status %d", (int)exception->status);
			CHECK((r >= 0) == (want >= 0), "search for %u in %u..%u gives %ld, it is at %ld", key, lo, hi, r, want);
			if (r >= 0) {
				CHECK((uint32_t)r >= lo && (uint32_t)r <= hi && (size_t)r < n && keys[(size_t)r] == key, "entry %ld found is not the one searched for", r);
				CHECK(memcmp(it->data.ptr, body.data() + (size_t)r * e, e) == 0, "the item found has other content");
				found++;
				size_t max = cfg.cached() ? cfg.holdable() - 1 : 4;
				if (kept.size() < max && s.chance(1, 3)) { kept.push_back({ std::move(it), (size_t)r }); live = alloc::live(); continue; }
				release(c, it.get());
			} else missed++;
		}
		if (!cfg.cached()) alloc::expectCount(live, "after a search");
		for (auto &x : kept) CHECK(memcmp(x.first->data.ptr, body.data() + x.second * e, e) == 0, "an item found earlier changed while held");
	}
	for (auto &x : kept) release(c, x.first.get());
	expectAllFree(c, d, cfg); checkPool(src, "after the searches");
	c->freeCollection(c); alloc::expectCount(base, "after the collection was freed"); src.close(); alloc::expectNone("at the end");
	label(n == 0 ? "empty" : n == 1 ? "single entry" : "several entries");
	if (found > 0 && missed > 0) nontrivial();
}
void profiles(Src &s) {
	alloc::begin();
	size_t n = s.chance(1, 100) ? (size_t)s.range(250, 600) : s.chance(1, 400) ? (size_t)s.range(65500, 67000) : (size_t)s.small(0, 20); if (n > 20) label(n > 1000 ? "tens of thousands of profiles" : "hundreds of profiles");
	std::vector<uint32_t> ids, offs; uint32_t id = s.chance(1, 4) ? 0x7FFFFFF0u : 0; Bytes body;
	bool wide = s.chance(1, 3); std::set<uint32_t> spread; if (wide) { uint64_t seed = s.below(1ull << 40); while (spread.size() < n) spread.insert(1 + (uint32_t)(mix(seed++) % UINT32_MAX)); }
	auto next = spread.begin();
	for (size_t i = 0; i < n; i++) { if (wide) id = *next++; else id += 1 + (uint32_t)s.below(4); ids.push_back(id); offs.push_back((uint32_t)s.below(1000)); put32(body, id); put32(body, offs.back()); }
	Source src; Body d = fixedData(8, (uint32_t)n, s.chance(1, 2), body); src.build(s, { d }); src.open(1);
	How cfg = config(s, (uint32_t)n); C *c = src.make(0, cfg); CHECK(c != nullptr, "valid collection refused");
	size_t live = alloc::live(), found = 0, missed = 0;
	log("%zu profile offsets, %s", n, cfg.text().c_str());
	for (int k = 0; k < 20; k++) {
		uint32_t q = n > 0 && s.chance(1, 2) ? s.pick(ids) : n > 0 ? s.pick(ids) + (uint32_t)s.range(-1, 1) : (uint32_t)s.small(0, 5); if (s.chance(1, 10)) q = 0;
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		uint32_t out = 0xABCDABCD; uint32_t *p = getProfileOffset(c, q, &out, exception);
		auto at = std::find(ids.begin(), ids.end(), q);
		if (q == 0) { CHECK(p == nullptr && FIFTYONE_DEGREES_EXCEPTION_FAILED, "the empty profile id was found"); continue; }
		CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "looking for profile %u failed with status %d", q, (int)exception->status);
		if (at == ids.end()) { CHECK(p == nullptr, "profile %u found although there is none", q); missed++; }
		else { CHECK(p == &out && out == offs[(size_t)(at - ids.begin())], "profile %u not found or wrong offset", q); found++; }
		if (!cfg.cached()) alloc::expectCount(live, "after looking for a profile");
	}
	expectAllFree(c, d, cfg); checkPool(src, "after the searches");
	c->freeCollection(c); src.close(); alloc::expectNone("at the end");
	if (found > 0 && missed > 0) nontrivial();
	label(n == 0 ? "no profiles" : "profiles");
}
// A collection of the caller's own whose entries are worked out, so that it can have as many as an index can count.
struct Computed { uint64_t step, base; uint32_t count; size_t out; uint64_t value; uint32_t failFrom; };
void *computedGet(C *c, uint32_t i, Item *item, fiftyoneDegreesException *exception) {
	Computed *x = (Computed *)c->state; CHECK(i < x->count, "entry %u of %u was asked for", i, x->count); CHECK(x->out == 0 || fiftyoneDegreesCollectionGetIsMemoryOnly(), "entry %u was asked for while another is held", i);
	if (i >= x->failFrom) { item->data.ptr = nullptr; FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR); return nullptr; }
	x->out = 0; x->value = x->base + x->step * i; item->data.ptr = (byte *)&x->value; item->data.used = 8; item->handle = x; item->collection = c; x->out++; return item->data.ptr;
}
void computedRelease(Item *item) { ((Computed *)item->handle)->out--; item->handle = nullptr; }
struct Wanted { uint64_t key; uint32_t low, high; unsigned calls; };
int computedCompare(void *st, Item *item, long i, fiftyoneDegreesException *) {
	Wanted *w = (Wanted *)st; CHECK((uint32_t)i >= w->low && (uint32_t)i <= w->high, "entry %ld outside the range %u..%u was compared", i, w->low, w->high);
	CHECK(++w->calls <= 100, "more than 100 comparisons for %u entries", w->high - w->low + 1);
	uint64_t v; memcpy(&v, item->data.ptr, 8); return v < w->key ? -1 : v > w->key;
}
void computed(Src &s) {
	Computed x; x.count = s.chance(1, 2) ? UINT32_MAX - (uint32_t)s.small(0, 20) : 1 + (uint32_t)s.below(UINT32_MAX - 1); x.step = 1 + s.below(1000); x.base = s.below(1000); x.out = 0; x.failFrom = s.chance(1, 6) ? (uint32_t)s.below(x.count) : UINT32_MAX;
	C c; memset(&c, 0, sizeof c); c.state = &x; c.get = computedGet; c.release = computedRelease; c.count = x.count; c.size = x.count; c.elementSize = 1;
	size_t q = (size_t)s.range(1, 20), found = 0, missed = 0; bool memory = fiftyoneDegreesCollectionGetIsMemoryOnly(); // such builds release nothing
	while (q-- > 0) {
		auto index = [&] { return s.chance(1, 3) ? (uint32_t)s.small(0, std::min<int64_t>(x.count - 1, 30)) : s.chance(1, 2) ? x.count - 1 - (uint32_t)s.small(0, std::min<int64_t>(x.count - 1, 30)) : (uint32_t)s.below(x.count); };
		uint32_t lo = index(), hi = index(), at = index(); if (lo > hi) std::swap(lo, hi); if (s.chance(1, 3)) lo = 0; if (s.chance(1, 3)) hi = x.count - 1; if (s.chance(1, 2)) at = lo + (uint32_t)s.below((uint64_t)hi - lo + 1);
		int64_t off = x.step > 1 && s.chance(1, 3) ? (int64_t)s.range(1, (int64_t)x.step - 1) : 0; Wanted w = { x.base + x.step * at + (uint64_t)off, lo, hi, 0 };
		bool there = off == 0 && at >= lo && at <= hi; Item it; resetItem(&it); FIFTYONE_DEGREES_EXCEPTION_CREATE
		log("search entry %u%s in %u..%u of %u, readable before %u", at, off ? " and more" : "", lo, hi, x.count, x.failFrom);
		long r = fiftyoneDegreesCollectionBinarySearch(&c, &it, lo, hi, &w, computedCompare, exception);
		if (FIFTYONE_DEGREES_EXCEPTION_FAILED) { CHECK(hi >= x.failFrom, "status %d without a failure", (int)exception->status); CHECK(r == -1, "%ld with status %d", r, (int)exception->status); CHECK(x.out == 0 || memory, "an entry stays held after a failure"); label("entries unreadable"); continue; }
		if (there) { CHECK(r == (long)at, "entry %u in %u..%u found at %ld", at, lo, hi, r); CHECK(x.out == 1 && it.handle == &x && x.value == w.key, "the item found is not held"); computedRelease(&it); found++; }
		else { CHECK(r == -1, "what is not in %u..%u was found at %ld", lo, hi, r); CHECK(x.out == 0 || memory, "an entry stays held although nothing was found"); missed++; }
	}
	if (found > 0 && missed > 0) nontrivial();
}
}
int main(int argc, char **argv) {
	Options o;
	suite("search", search, 40000, 8000000, "something was found and something was not");
	suite("computed", computed, 20000, 4000000, "collections of up to 2^32 - 1 computed entries; something was found and something was not");
	suite("profiles", profiles, 12000, 2000000, "something was found and something was not");
	return runMain(argc, argv, o);
}
