// C29: reusable data buffers, item lists and counted arrays.
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
using namespace pbt;
namespace {
FIFTYONE_DEGREES_ARRAY_TYPE(uint64_t, int extra;)
void data(Src &s) {
	alloc::begin();
	fiftyoneDegreesData d; memset(&d, 0x5A, sizeof d);
	fiftyoneDegreesDataReset(&d);
	CHECK(d.ptr == nullptr && d.allocated == 0 && d.used == 0, "reset buffer not empty");
	size_t cap = 0, grows = 0, reuses = 0, n = (size_t)s.range(1, 40);
	std::vector<uint8_t> content;
	for (size_t i = 0; i < n; i++) {
		size_t need = s.chance(1, 400) ? (size_t)s.range(65500, 200000) : (size_t)s.small(1, s.chance(1, 8) ? 70000 : 300);
		if (cap > 0 && s.chance(1, 3)) need = (size_t)std::max<int64_t>(1, (int64_t)cap + s.range(-1, 1));
		if (s.chance(1, 12) && cap > 0) { // the owner frees and resets
			fiftyoneDegreesFree(d.ptr); fiftyoneDegreesDataReset(&d); cap = 0; content.clear();
			CHECK(d.ptr == nullptr && d.allocated == 0, "reset buffer not empty");
			alloc::expectNone("after the buffer was freed");
		}
		bool fail = s.chance(1, 12);
		if (fail) alloc::arm(0, true);
		uint64_t before = alloc::S().mallocs; byte *old = d.ptr;
		void *p = fiftyoneDegreesDataMalloc(&d, need);
		alloc::disarm();
		log("ask %zu (has %zu)%s", need, cap, fail ? " no memory" : "");
		if (need <= cap) {
			CHECK(p == old && d.ptr == old && d.allocated == cap && alloc::S().mallocs == before, "a buffer that was large enough was replaced");
			CHECK(memcmp(p, content.data(), content.size()) == 0, "content lost although the buffer was large enough");
			reuses++;
		} else if (fail) {
			CHECK(p == nullptr && d.ptr == nullptr && d.allocated == 0, "failure to allocate not reported");
			cap = 0; content.clear(); alloc::expectNone("after a failed request");
			label("no memory"); continue;
		} else {
			CHECK(p != nullptr && d.ptr == p, "no memory returned");
			auto it = alloc::S().live.find(p);
			CHECK(it != alloc::S().live.end() && it->second.size >= need && d.allocated >= need && d.allocated <= it->second.size, "buffer of %u for a request of %zu", d.allocated, need);
			cap = d.allocated; grows++;
		}
		alloc::expectCount(1, "for one buffer");
		content.assign(cap, 0); for (size_t k = 0; k < cap; k++) content[k] = (uint8_t)(k * 7 + i);
		memcpy(d.ptr, content.data(), cap);
	}
	if (cap > 0) fiftyoneDegreesFree(d.ptr);
	alloc::expectNone("at the end");
	if (grows > 1 && reuses > 0) nontrivial();
}
struct FakeCollection { fiftyoneDegreesCollection c; std::map<int, int> released; };
void fakeRelease(fiftyoneDegreesCollectionItem *i) {
	FakeCollection *f = (FakeCollection *)i->collection;
	f->released[*(int *)(i->data.ptr + 3)]++;
}
void list(Src &s) {
	alloc::begin();
	FakeCollection col[2]; for (auto &c : col) { memset(&c.c, 0, sizeof c.c); c.c.release = fakeRelease; }
	uint32_t cap = (uint32_t)s.small(0, 60); int large = s.chance(1, 100) ? 1 : s.chance(1, 2000) ? 2 : 0;
	if (large) { cap = (uint32_t)(large == 1 ? s.range(250, 600) : s.range(65500, 67000)); label(large == 1 ? "hundreds of items" : "tens of thousands of items"); }
	fiftyoneDegreesList l; memset(&l, 0x5A, sizeof l);
	if (s.chance(1, 10)) {
		alloc::arm(0, false);
		CHECK(fiftyoneDegreesListInit(&l, cap) == nullptr, "list without memory");
		alloc::disarm(); alloc::expectNone("after a failed list"); label("no memory");
	}
	if (s.chance(1, 10)) { fiftyoneDegreesListReset(&l); CHECK(l.count == 0 && l.capacity == 0 && l.items == nullptr, "reset list not empty"); fiftyoneDegreesListFree(&l); alloc::expectNone("after freeing a reset list"); label("reset list"); }
	CHECK(fiftyoneDegreesListInit(&l, cap) == &l && l.count == 0 && l.capacity == cap, "list not initialised");
	std::vector<std::vector<char>> store; store.reserve(3000);
	struct E { int id, col; void *ptr; }; std::vector<E> model; int next = 0, rounds = 0; std::map<std::pair<int, int>, int> expect;
	size_t n = (size_t)s.range(0, 120), every = large ? cap / 3 : 7; if (large) n = cap + (size_t)s.below(cap);
	auto compare = [&] {
		CHECK(l.count == model.size() && l.capacity == cap, "count %u capacity %u, model has %zu/%u", l.count, l.capacity, model.size(), cap);
		for (size_t k = 0; k < model.size(); k++) {
			CHECK((void *)fiftyoneDegreesListGetAsString(&l, (int)k) == model[k].ptr, "item %zu is not the one added there", k);
			CHECK(l.items[k].collection == &col[model[k].col].c, "item %zu has another collection", k);
		}
		for (int c = 0; c < 2; c++) for (int id = 0; id < next; id++) {
			auto e = expect.find({ c, id }); auto r = col[c].released.find(id);
			int ev = e == expect.end() ? 0 : e->second, rv = r == col[c].released.end() ? 0 : r->second;
			CHECK(ev == rv, "item %d released %d times, expected %d", id, rv, ev);
		}
	};
	for (size_t i = 0; i < n; i++) {
		if (model.size() < cap && !(large ? s.chance(1, 8 * cap) : s.chance(1, 12))) {
			std::vector<char> m(16 + s.below(8)); int id = next++; memcpy(m.data() + 3, &id, 4); store.push_back(m);
			fiftyoneDegreesCollectionItem it; memset(&it, 0, sizeof it);
			int c = (int)s.below(2); it.collection = &col[c].c; it.data.ptr = (byte *)store.back().data(); it.data.used = 7;
			fiftyoneDegreesListAdd(&l, &it); memset(&it, 0xEE, sizeof it);
			model.push_back({ id, c, store.back().data() });
		} else {
			log("release %zu items of %u", model.size(), cap);
			fiftyoneDegreesListRelease(&l); for (auto &m : model) expect[{ m.col, m.id }]++;
			if (!model.empty()) rounds++;
			model.clear();
		}
		if (i % every == 0) compare();
	}
	compare();
	log("capacity %u, %d items, freed with %zu", cap, next, model.size());
	for (auto &m : model) expect[{ m.col, m.id }]++;
	model.clear();
	fiftyoneDegreesListFree(&l); cap = 0;
	compare(); alloc::expectNone("after the list was freed");
	fiftyoneDegreesListFree(&l); compare();
	if (next > 2 && rounds > 0) nontrivial();
}
void array(Src &s) {
	alloc::begin();
	uint32_t cap = s.chance(1, 200) ? (uint32_t)s.range(65500, 67000) : (uint32_t)s.small(0, 500);
	bool fail = s.chance(1, 8);
	if (fail) alloc::arm(0, false);
	uint64_tArray *a; FIFTYONE_DEGREES_ARRAY_CREATE(uint64_t, a, cap);
	alloc::disarm();
	log("array of %u%s", cap, fail ? " no memory" : "");
	if (fail) { CHECK(a == nullptr, "array without memory"); alloc::expectNone("after a failed array"); return; }
	CHECK(a != nullptr && a->count == 0 && a->capacity == cap, "new array");
	for (uint32_t i = 0; i < cap; i++) a->items[a->count++] = mix(i);
	a->extra = 77;
	for (uint32_t i = 0; i < cap; i++) CHECK(a->items[i] == mix(i), "array content");
	CHECK((char *)a->items >= (char *)a + sizeof *a && a->capacity == cap && a->count == cap, "array header");
	fiftyoneDegreesFree(a); alloc::expectNone("after the array was freed");
	if (cap > 1) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("data", data, 60000, 2000000, "sequences of up to 40 requests around the current size, with frees and failed allocations; non-trivial = grew twice and re-used once");
	suite("list", list, 60000, 2000000, "additions up to capacity, releases and frees with items of two collections; non-trivial = 3 or more items and a release before the end");
	suite("array", array, 20000, 400000, "arrays of every capacity filled to the end; non-trivial = capacity 2 or more");
	Options o; o.assumptions = { "sizes asked of a buffer are at least 1; no item is added to a full list (an assertion in the library)" };
	return runMain(argc, argv, o);
}
