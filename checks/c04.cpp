// C04: what a collection contains does not depend on how it is stored.
#include "coll.hpp"
using namespace pbt;
using namespace coll;
namespace {
void *readInts(const fiftyoneDegreesCollectionFile *file, uint32_t offset, fiftyoneDegreesData *data, fiftyoneDegreesException *exception) {
	uint32_t n;
	return fiftyoneDegreesCollectionReadFileVariable(file, data, offset, &n, sizeof n,
		[](void *p) -> uint32_t { return (*(uint32_t *)p + 1) * 4; }, exception);
}
Body generate(Src &s) {
	size_t n = (size_t)s.small(0, s.chance(1, 6) ? 300 : 40);
	if (s.chance(1, 50)) { // large items, or very many
		if (s.chance(1, 3)) {
			label("tens of thousands of items"); n = (size_t)s.range(65500, 67000);
			if (s.chance(1, 2)) { uint32_t e = (uint32_t)s.range(1, 6); return fixedData(e, (uint32_t)n, s.chance(1, 2), plenty(s, n * e)); }
			Body d = variableData(readString); Bytes text = plenty(s, 4000); for (size_t i = 0; i < n; i++) addString(d, text.substr((i * 7) % 3990, i % 5)); return d;
		}
		bool huge = s.chance(1, 4); label(huge ? "items of tens of thousands of bytes" : "items of hundreds of bytes"); n = (size_t)s.range(1, huge ? 4 : 40);
		auto length = [&] { return (uint32_t)(huge ? s.range(16000, 17000) : s.range(50, 300)); }; // fours of bytes
		switch (s.below(5)) {
		case 0: { uint32_t e = length() * 4 + (uint32_t)s.below(4); return fixedData(e, (uint32_t)n, s.chance(1, 2), plenty(s, n * e)); }
		case 1: { Body d = variableData(readString); for (size_t i = 0; i < n; i++) addString(d, plenty(s, std::min<uint32_t>(length() * 2, 32766))); return d; }
		case 2: { Body d = variableData(readProfile); for (size_t i = 0; i < n; i++) { Bytes b; b.push_back((char)s.below(4)); put32(b, (uint32_t)i + 1); uint32_t v = length(); put32(b, v); b += plenty(s, v * 4); add(d, b); } return d; }
		case 3: { Body d = variableData(readComponent); for (size_t i = 0; i < n; i++) { Bytes b; b.push_back((char)i); put32(b, 3); put32(b, 4); uint16_t v = (uint16_t)length(); put16(b, (int16_t)v); b += plenty(s, v * 8); add(d, b); } return d; }
		default: { Body d = variableData(readInts); for (size_t i = 0; i < n; i++) { Bytes b; uint32_t v = length(); put32(b, v); b += plenty(s, v * 4); add(d, b); } return d; }
		}
	}
	switch (s.below(6)) {
	case 0: case 1: {
		uint32_t e = s.chance(1, 2) ? (uint32_t)s.range(1, 40) : s.pick(std::vector<uint32_t>{ 1, 4, 8, 14, 44 });
		return fixedData(e, (uint32_t)n, s.chance(1, 2), s.bytes(n * e));
	}
	case 2: { Body d = variableData(readString); for (size_t i = 0; i < n; i++) addString(d, s.bytes((size_t)s.small(0, s.chance(1, 12) ? 400 : 30))); return d; }
	case 3: { Body d = variableData(readProfile);
		for (size_t i = 0; i < n; i++) { Bytes b; b.push_back((char)s.below(4)); put32(b, (uint32_t)i + 1); uint32_t v = (uint32_t)s.small(0, 9); put32(b, v); b += s.bytes(v * 4); add(d, b); }
		return d; }
	case 4: { Body d = variableData(readComponent);
		for (size_t i = 0; i < n; i++) { Bytes b; b.push_back((char)i); put32(b, 3); put32(b, 4); uint16_t v = (uint16_t)s.small(1, 6); put16(b, (int16_t)v); b += s.bytes(v * 8); add(d, b); }
		return d; }
	default: { Body d = variableData(readInts); for (size_t i = 0; i < n; i++) { Bytes b; uint32_t v = (uint32_t)s.small(0, 6); put32(b, v); b += s.bytes(v * 4); add(d, b); } return d; }
	}
}
void history(Src &s) {
	alloc::begin();
	int fds = openFds();
	Source src; std::vector<Body> ds; size_t nd = (size_t)s.range(1, 3);
	for (size_t i = 0; i < nd; i++) ds.push_back(generate(s));
	src.build(s, ds);
	src.open((uint16_t)s.range(1, 4));
	size_t base = alloc::live();
	struct Opened { C *c; size_t d; How cfg; std::map<uint32_t, int> held; };
	std::vector<Opened> open; size_t no = (size_t)s.range(1, 4); bool useful = false, chained = false;
	for (size_t i = 0; i < no; i++) {
		size_t d = (size_t)s.below(nd); How cfg = config(s, (uint32_t)ds[d].items.size()); long after = -1;
		C *c = src.make(d, cfg, &after);
		log("collection %zu: %s, %zu items, %zu bytes, element %u, %s", i, cfg.text().c_str(), ds[d].items.size(), ds[d].body.size(), ds[d].elementSize, ds[d].isCount ? "count" : "length");
		CHECK(c != nullptr, "a valid collection was refused (%s)", cfg.text().c_str());
		CHECK(after == (long)(src.starts[d] + 4 + ds[d].body.size()), "source left at %ld, the collection ends at %zu", after, src.starts[d] + 4 + ds[d].body.size());
		if (ds[d].fixed) {
			CHECK(fiftyoneDegreesCollectionGetCount(c) == ds[d].count, "count %u, the data has %u", fiftyoneDegreesCollectionGetCount(c), ds[d].count);
			if (ds[d].count > 0) CHECK(c->elementSize == ds[d].elementSize, "element size %u, the data has %u", c->elementSize, ds[d].elementSize);
		}
		C *last = c; while (last->next != nullptr) last = last->next;
		CHECK(last->size == ds[d].body.size(), "size %u, the data has %zu bytes", last->size, ds[d].body.size());
		if (c->next != nullptr) { chained = true; label("chained"); }
		if (cfg.memory) label("memory"); else if (cfg.cached()) label("cached"); else label("file");
		label(ds[d].fixed ? "fixed width" : "variable width");
		open.push_back({ c, d, cfg, {} });
	}
	struct Held { size_t o, item; Item it; void *p; };
	std::vector<std::unique_ptr<Held>> held;
	auto verify = [&] (const char *when) {
		for (auto &h : held) { Body &d = ds[open[h->o].d]; Bytes want = d.bytes(h->item);
			CHECK(h->it.data.ptr == h->p && memcmp(h->p, want.data(), want.size()) == 0, "item %zu of collection %zu changed while held (%s)", h->item, h->o, when); }
	};
	size_t steps = (size_t)s.range(0, 80), gets = 0, multi = 0;
	// one reused item as well as fresh ones
	for (size_t k = 0; k < steps; k++) {
		if (!held.empty() && s.chance(2, 5)) {
			size_t i = (size_t)s.below(held.size()); auto h = std::move(held[i]); held.erase(held.begin() + (long)i);
			Opened &o = open[h->o]; log("release %zu.%zu", h->o, h->item);
			release(o.c, &h->it); if (--o.held[ds[o.d].items[h->item].key] == 0) o.held.erase(ds[o.d].items[h->item].key);
			verify("after a release"); continue;
		}
		size_t oi = (size_t)s.below(open.size()); Opened &o = open[oi]; Body &d = ds[o.d];
		if (d.items.empty()) continue;
		size_t item = s.chance(1, 6) ? (s.chance(1, 2) ? 0 : d.items.size() - 1) : (size_t)s.below(std::min<uint64_t>(d.items.size(), s.chance(1, 2) ? 6 : d.items.size()));
		uint32_t key = d.items[item].key; Bytes want = d.bytes(item);
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		if (d.fixed && d.elementSize == 4 && s.chance(1, 4) && (!o.cfg.cached() || o.held.size() < o.cfg.holdable())) {
			int32_t v = fiftyoneDegreesCollectionGetInteger32(o.c, key, exception);
			CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && (uint32_t)v == at32(want, 0), "integer %d at %u differs from the data", v, key);
			verify("after reading an integer"); continue;
		}
		std::unique_ptr<Held> h(new Held{ oi, item, {}, nullptr }); resetItem(&h->it);
		void *p = o.c->get(o.c, key, &h->it, exception);
		log("get %zu.%zu (key %u)%s", oi, item, key, p ? "" : " refused");
		if (p == nullptr) {
			// Only a cache whose slots are all held may refuse.
			CHECK(o.cfg.cached() && o.held.size() >= o.cfg.holdable() && o.held.count(key) == 0, "item %zu (key %u of %zu bytes) refused with status %d by %s while %zu other items are held", item, key, d.body.size(), (int)exception->status, o.cfg.text().c_str(), o.held.size());
			label("cache fully held"); verify("after a refusal"); continue;
		}
		gets++;
		CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "an item and status %d", (int)exception->status);
		CHECK(p == h->it.data.ptr, "pointer returned differs from the item's");
		CHECK(h->it.collection != nullptr, "item without a collection");
		if (h->it.data.used != 0 && !o.cfg.memory) { /* used may be left unset for items in memory */ }
		CHECK(memcmp(p, want.data(), want.size()) == 0, "item %zu (key %u) of %s differs from the data", item, key, o.cfg.text().c_str());
		h->p = p; o.held[key]++;
		held.push_back(std::move(h));
		if (held.size() > 1) multi++;
		verify("after a get");
	}
	if (gets > 10 && multi > 3) useful = true;
	while (!held.empty()) { auto h = std::move(held.back()); held.pop_back(); release(open[h->o].c, &h->it); verify("while releasing"); }
	checkPool(src, "after the history");
	for (auto &o : open) o.c->freeCollection(o.c);
	alloc::expectCount(base, "after the collections were freed");
	src.close();
	alloc::expectNone("after the file handles were released");
	CHECK(openFds() == fds, "%d descriptors are open, %d were", openFds(), fds);
	if (useful) nontrivial();
	(void)chained;
}
// every item of every storage form in one go, the same data
void forms(Src &s) {
	alloc::begin();
	Source src; Body d = generate(s); src.build(s, { d }); src.open((uint16_t)s.range(1, 3));
	std::vector<How> cfgs; How m; cfgs.push_back(m);
	for (uint32_t l : { 0u, 1u, (uint32_t)d.items.size() / 2, (uint32_t)d.items.size(), (uint32_t)d.items.size() + 1 })
		for (uint32_t cap : { 0u, 1u, 9u, 50u }) { How c; c.memory = false; c.loaded = l; c.capacity = cap; c.concurrency = cap == 0 ? 0 : cap == 9 ? 3 : 1; cfgs.push_back(c); }
	for (auto &c : cfgs) {
		long after; C *x = src.make(0, c, &after);
		CHECK(x != nullptr && after == (long)(src.starts[0] + 4 + d.body.size()), "collection refused or source at the wrong place (%ld) for %s", after, c.text().c_str());
		Item it; resetItem(&it);
		size_t step = 1 + d.items.size() / 400;
		for (int pass = 0; pass < 2; pass++) for (size_t k = 0; k < d.items.size(); k += k + step < d.items.size() ? step : 1) {
			size_t i = pass ? d.items.size() - 1 - k : k;
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			void *p = x->get(x, d.items[i].key, &it, exception); // the same item over and over, as callers do
			Bytes want = d.bytes(i);
			CHECK(p != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY && memcmp(p, want.data(), want.size()) == 0, "item %zu of %zu is not what the data says for %s", i, d.items.size(), c.text().c_str());
			release(x, &it);
		}
		x->freeCollection(x);
	}
	src.close(); alloc::expectNone("at the end");
	if (d.items.size() > 3) nontrivial();
	log("%zu items, %s", d.items.size(), d.fixed ? "fixed" : "variable");
}
// A collection far larger than memory would hold (a sparse file), with items anywhere in its 32 bit range.
void far_(Src &s) {
	alloc::begin();
	bool fixed = s.chance(1, 2);
	uint32_t e = fixed ? s.pick(std::vector<uint32_t>{ 1, 4, 14, 44, 4096, 65536 }) : 0;
	uint32_t bits = (uint32_t)s.range(12, 31), lead = (uint32_t)s.range(1, 9);
	uint64_t length = ((1ull << bits) | s.below(1ull << bits)) + 4096;
	if (length > UINT32_MAX - 4096) length = UINT32_MAX - 4096;
	if (fixed) length = std::max<uint64_t>(length / e, 3) * e;
	uint32_t count = fixed ? (uint32_t)(length / e) : 0;
	struct It { uint32_t key; Bytes b; };
	std::vector<It> items; std::map<uint64_t, uint64_t> used; // ranges taken
	auto place = [&] (uint32_t key, const Bytes &b) {
		uint64_t o = fixed ? (uint64_t)key * e : key;
		if (o + b.size() > length) return false;
		auto n = used.lower_bound(o); if (n != used.end() && n->first < o + b.size()) return false;
		if (n != used.begin() && std::prev(n)->second > o) return false;
		used[o] = o + b.size(); items.push_back({ key, b }); return true;
	};
	auto content = [&] { Bytes t = s.bytes((size_t)s.small(0, 20)), b; if (fixed) { b = t.substr(0, std::min<size_t>(t.size(), e)); b.resize(e); } else { put16(b, (int16_t)(t.size() + 1)); b += t; b.push_back(0); } return b; };
	uint32_t front = (uint32_t)s.range(1, 4), o = 0;
	for (uint32_t i = 0; i < front && (uint64_t)o < length; i++) { Bytes b = content(); if (place(fixed ? i : o, b)) o += (uint32_t)b.size(); }
	uint64_t space = fixed ? count : length;
	for (size_t i = 0, n = (size_t)s.range(2, 8); i < n; i++) {
		uint64_t k;
		switch (s.below(4)) {
		case 0: k = s.below(space); break;
		case 1: k = space - 1 - s.below(std::min<uint64_t>(space, 24)); break;
		case 2: k = (1ull << s.range(8, 31)) + (uint64_t)s.range(-2, 2); break;
		default: k = items[(size_t)s.below(items.size())].key + (1ull << s.range(8, 31)); break; // the same low bits as another
		}
		if (k < space) place((uint32_t)k, content());
	}
	Source src; Body d; d.fixed = fixed; d.elementSize = e; d.count = count; d.isCount = fixed && s.chance(1, 2);
	d.read = fixed ? fiftyoneDegreesCollectionReadFileFixed : readString;
	src.data = { d }; src.bytes = s.bytes(lead); src.starts = { lead };
	put32(src.bytes, d.isCount ? count : (uint32_t)length);
	src.write();
	FILE *f = fopen(src.path.c_str(), "r+b"); if (f == nullptr) abort();
	for (auto &i : items) if (fseek(f, (long)lead + 4 + (long)(fixed ? (uint64_t)i.key * e : i.key), SEEK_SET) != 0 || fwrite(i.b.data(), 1, i.b.size(), f) != i.b.size()) abort();
	fclose(f); if (truncate(src.path.c_str(), (off_t)(lead + 4 + length + s.below(5))) != 0) abort();
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	if (fiftyoneDegreesFilePoolInit(&src.pool, src.path.c_str(), 2, exception) != FIFTYONE_DEGREES_STATUS_SUCCESS) fail("no file pool for a file of %llu bytes", (unsigned long long)length);
	src.poolOpen = true; src.handles = 2; src.file = fopen(src.path.c_str(), "rb");
	log("%s, element %u, %llu bytes, %zu items", fixed ? "fixed" : "variable", e, (unsigned long long)length, items.size());
	for (int form = 0; form < 4; form++) {
		How c; c.memory = false; c.loaded = form & 1 ? front : 0; if (form & 2) { c.concurrency = 2; c.capacity = 16; }
		if (c.loaded && fixed && (uint64_t)front * e > 300000) continue;
		long after; C *x = src.make(0, c, &after);
		CHECK(x != nullptr && after == (long)(lead + 4 + length), "collection refused or source at the wrong place (%ld) for %s", after, c.text().c_str());
		C *last = x; while (last->next != nullptr) last = last->next;
		CHECK(last->size == length, "size %u of %llu", last->size, (unsigned long long)length);
		if (fixed) CHECK(fiftyoneDegreesCollectionGetCount(x) == count, "count %u of %u", fiftyoneDegreesCollectionGetCount(x), count);
		Item it; resetItem(&it);
		for (int pass = 0; pass < 2; pass++) for (auto &i : items) {
			log("%s: get %u", c.text().c_str(), i.key);
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			void *p = x->get(x, i.key, &it, exception);
			CHECK(p != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY && memcmp(p, i.b.data(), i.b.size()) == 0, "item at %u is not what the data says for %s", i.key, c.text().c_str());
			release(x, &it);
		}
		x->freeCollection(x);
	}
	src.close(); alloc::expectNone("at the end");
	if (items.size() > 3 && length > 70000) nontrivial();
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "Lengths given in bytes are multiples of the element size.", "The number of used bytes of an item held in memory is not reported by the library and is not judged." };
	suite("history", history, 45000, 8000000, "more than 10 items were taken and several were held at once");
	suite("forms", forms, 6000, 800000, "more than 3 items, in 21 storage forms");
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
	suite("far", far_, 3000, 400000, "more than 3 items in more than 70000 bytes, in up to 4 storage forms");
#endif
	return runMain(argc, argv, o);
}
