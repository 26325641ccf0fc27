// C05: bad requests, short or damaged sources and failing reads are refused cleanly.
#include "coll.hpp"
using namespace pbt;
using namespace coll;
// link-time stand-ins which let a chosen seek or read of the library fail
namespace fault { bool armed = false; int64_t at = -1, n = 0; int kind = 0; bool hit = false; }
extern "C" {
size_t __real_fread(void *, size_t, size_t, FILE *);
int __real_fseek(FILE *, long, int);
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) {
	if (fault::armed && fault::n++ == fault::at) {
		fault::hit = true;
		if (fault::kind == 0 || a * b < 2) return 0;
		size_t part = __real_fread(p, 1, a * b / 2, f); // some bytes arrive, then it fails
		return a == 0 ? 0 : part / a;
	}
	return __real_fread(p, a, b, f);
}
int __wrap_fseek(FILE *f, long o, int w) {
	if (fault::armed && fault::n++ == fault::at) { fault::hit = true; return -1; }
	return __real_fseek(f, o, w);
}
}
namespace {
typedef fiftyoneDegreesException Ex;
Body generate(Src &s) {
	size_t n = (size_t)s.small(0, 30);
	if (s.chance(1, 50)) switch (s.below(4)) { // many or large items
	case 0: label("hundreds of items"); n = (size_t)s.range(250, 700); break;
	case 1: { label("large items"); n = (size_t)s.range(1, 8); uint32_t e = (uint32_t)(s.chance(1, 4) ? s.range(65530, 66000) : s.range(250, 600)); return fixedData(e, (uint32_t)n, s.chance(1, 2), plenty(s, n * e)); }
	case 2: { label("large items"); Body d = variableData(readString); n = (size_t)s.range(1, 8); for (size_t i = 0; i < n; i++) addString(d, plenty(s, (size_t)(s.chance(1, 4) ? s.range(32700, 32766) : s.range(250, 600)))); return d; }
	default: { label("large items"); Body d = variableData(readProfile); n = (size_t)s.range(1, 8); for (size_t i = 0; i < n; i++) { Bytes b; b.push_back((char)s.below(4)); put32(b, (uint32_t)i + 1); uint32_t v = (uint32_t)(s.chance(1, 4) ? s.range(16380, 16500) : s.range(60, 300)); put32(b, v); b += plenty(s, v * 4); add(d, b); } return d; }
	}
	switch (s.below(4)) {
	case 0: case 1: { uint32_t e = (uint32_t)s.range(1, 24); return fixedData(e, (uint32_t)n, s.chance(1, 2), s.bytes(n * e)); }
	case 2: { Body d = variableData(readString); for (size_t i = 0; i < n; i++) addString(d, s.bytes((size_t)s.small(0, 30))); return d; }
	default: { Body d = variableData(readProfile);
		for (size_t i = 0; i < n; i++) { Bytes b; b.push_back((char)s.below(4)); put32(b, (uint32_t)i + 1); uint32_t v = (uint32_t)s.small(0, 9); put32(b, v); b += s.bytes(v * 4); add(d, b); }
		return d; }
	}
}
void expectRefused(C *c, uint32_t key, Item *it, const char *what) {
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	void *p = c->get(c, key, it, exception);
	CHECK(p == nullptr, "%s: key %u yielded an item", what, key);
	CHECK(FIFTYONE_DEGREES_EXCEPTION_FAILED && exception->status != FIFTYONE_DEGREES_STATUS_SUCCESS, "%s: key %u refused without a status", what, key);
}
void expectGot(C *c, Body &d, size_t i, Item *it, const char *what) {
	FIFTYONE_DEGREES_EXCEPTION_CREATE
	void *p = c->get(c, d.items[i].key, it, exception);
	CHECK(p != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY, "%s: valid item %zu refused with status %d", what, i, (int)exception->status);
	CHECK(memcmp(p, d.body.data() + d.items[i].offset, d.items[i].size) == 0, "%s: valid item %zu is not what the data says", what, i);
}
// Everything that can be held at once can still be held at once: for every remainder of the
// keys by the concurrency (the keys which could share a shard) and for mixtures.
void expectSlots(C *c, Body &d, const How &cfg, size_t from, size_t to) {
	if (!cfg.cached()) return;
	for (uint32_t r = 0; r < cfg.concurrency; r++) {
		std::vector<std::unique_ptr<Item>> held;
		for (size_t i = from; i < to && held.size() < cfg.holdable(); i++) {
			if (d.items[i].key % cfg.concurrency != r) continue;
			std::unique_ptr<Item> it(new Item); resetItem(it.get());
			expectGot(c, d, i, it.get(), "holding as many items as the cache has slots for");
			held.push_back(std::move(it));
		}
		for (auto &it : held) release(c, it.get());
	}
}
uint32_t badKey(Src &s, const Body &d) {
	uint64_t end = d.fixed && d.count > 0 ? d.count : d.body.size();
	switch (s.below(5)) {
	case 0: return (uint32_t)end;
	case 1: return UINT32_MAX - (uint32_t)s.below(3);
	case 2: return (uint32_t)std::max<uint64_t>(end, 0x80000000u + (uint64_t)s.range(-2, 2));
	case 3: // a key whose byte offset wraps to something small
		if (d.fixed && d.elementSize > 1) { uint64_t k = (0x100000000ULL + d.elementSize - 1) / d.elementSize + s.below(4); if (k >= end && k <= UINT32_MAX) return (uint32_t)k; }
		return (uint32_t)end;
	default: return (uint32_t)std::min<uint64_t>(UINT32_MAX, end + s.below(1000));
	}
}
// requests outside the data, mixed with valid ones
void range(Src &s) {
	alloc::begin(); int fds = openFds();
	Source src; Body d = generate(s); src.build(s, { d }); src.open((uint16_t)s.range(1, 3));
	size_t base = alloc::live();
	How cfg = config(s, (uint32_t)d.items.size());
	C *c = src.make(0, cfg);
	CHECK(c != nullptr, "valid collection refused");
	log("%s, %zu items %zu bytes %s", cfg.text().c_str(), d.items.size(), d.body.size(), d.fixed ? "fixed" : "variable");
	Item shared; resetItem(&shared); std::unique_ptr<Item> kept; size_t keptIndex = 0; size_t bad = 0, good = 0;
	size_t steps = (size_t)s.range(1, 60);
	for (size_t k = 0; k < steps; k++) {
		if (!d.items.empty() && s.chance(1, 2)) {
			if (kept == nullptr && s.chance(1, 4) && cfg.holdable() > 1) { kept.reset(new Item); resetItem(kept.get()); keptIndex = (size_t)s.below(d.items.size()); expectGot(c, d, keptIndex, kept.get(), "get"); continue; }
			if (kept != nullptr && cfg.cached() && cfg.holdable() < 2) { release(c, kept.get()); kept.reset(); }
			size_t i = (size_t)s.below(d.items.size());
			expectGot(c, d, i, &shared, "get"); release(c, &shared); good++;
		} else {
			uint32_t key = badKey(s, d); log("bad key %u", key);
			bool fresh = s.chance(1, 2); Item other; resetItem(&other);
			expectRefused(c, key, fresh ? &other : &shared, cfg.text().c_str()); bad++;
			if (s.chance(1, 3)) release(c, fresh ? &other : &shared); // harmless
		}
		if (kept != nullptr) CHECK(memcmp(kept->data.ptr, d.body.data() + d.items[keptIndex].offset, d.items[keptIndex].size) == 0, "an item held changed");
	}
	if (kept != nullptr) release(c, kept.get());
	expectSlots(c, d, cfg, 0, d.items.size());
	checkPool(src, "after refusals");
	c->freeCollection(c);
	alloc::expectCount(base, "after the collection was freed"); src.close(); alloc::expectNone("at the end");
	CHECK(openFds() == fds, "descriptors leaked");
	label(cfg.memory ? "memory" : cfg.cached() ? "cached" : "file");
	if (bad > 2 && good > 2) nontrivial();
}
// headers of any content at any place, whole or cut short
void headers(Src &s) {
	static const uint32_t edge[] = { 0, 1, 2, 3, 4, 7, 8, 255, 256, 65535, 65536, 0x3FFFFFFF, 0x40000000, 0x55555555, 0x55555556, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, UINT32_MAX };
	auto number = [&] { return s.chance(1, 2) ? s.pick(edge) : s.chance(1, 2) ? (uint32_t)s.small(0, 100) : (uint32_t)s.below(1ull << 32); };
	alloc::begin(); uint32_t v = number(), e = s.chance(1, 2) ? (uint32_t)s.below(9) : number(); bool isCount = s.chance(1, 2);
	if (isCount && e > 1 && s.chance(1, 3)) v = (uint32_t)std::min<uint64_t>(UINT32_MAX, (uint64_t)UINT32_MAX / e + s.below(3)); // about as much as fits
	size_t before = (size_t)s.below(9), there = s.chance(1, 6) ? (size_t)s.below(4) : 4 + (size_t)s.below(30); Bytes b = s.bytes(before); put32(b, v); b += s.bytes(40); b.resize(before + there);
	log("header %u, %zu of its and the body's bytes there, after %zu; element size %u, %s", v, there, before, e, isCount ? "a count" : "a size");
	uint64_t length = isCount ? (uint64_t)v * e : v; uint64_t count = isCount ? v : e ? v / e : 0; bool valid = there >= 4 && length <= UINT32_MAX; if (!valid) { length = count = 0; label(there < 4 ? "a short header" : "too long"); }
	byte *m = (byte *)malloc(b.size() ? b.size() : 1); memcpy(m, b.data(), b.size());
	fiftyoneDegreesMemoryReader r; r.startByte = m; r.current = m + before; r.length = (long)b.size(); r.lastByte = m + b.size();
	Source src; src.bytes = b; src.write(); FILE *f = fopen(src.path.c_str(), "rb"); if (!f || fseek(f, (long)before, SEEK_SET)) abort();
	auto h = fiftyoneDegreesCollectionHeaderFromMemory(&r, e, isCount), g = fiftyoneDegreesCollectionHeaderFromFile(f, e, isCount);
	for (auto *x : { &h, &g }) CHECK(x->length == length && x->count == count && x->startPosition == (valid ? before + 4 : 0), "the header from %s has %u items in %u bytes at %u, expected %" PRIu64 " in %" PRIu64 " at %zu", x == &h ? "memory" : "a file", x->count, x->length, x->startPosition, count, length, valid ? before + 4 : 0);
	byte *at = r.current; C *c = fiftyoneDegreesCollectionCreateFromMemory(&r, h);
	if (valid && length <= there - 4) CHECK(c != nullptr && c->size == length && r.current == m + before + 4 + length && (count == 0 || length % count || c->count == count || length == 0), "the collection in memory is %s", c ? "another" : "refused");
	else if (!valid && before == 0) CHECK(c == nullptr || c->size == 0, "a collection of %u bytes from a header which is not valid", c->size); // an empty one is as good as none
	else CHECK(c == nullptr && r.current == at, "a collection in memory of %" PRIu64 " bytes with %zu there", length, there);
	if (c != nullptr) { nontrivial(); c->freeCollection(c); }
	fclose(f); free(m); src.close(); alloc::expectNone("at the end");
	if (there >= 4 && !valid) nontrivial();
}
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
// positions in the file and integers asked for directly
void direct(Src &s) {
	alloc::begin(); int fds = openFds(); Source src; size_t n = (size_t)s.small(0, 20); uint32_t e = s.chance(1, 2) ? 4 : (uint32_t)s.range(1, 9); Body d = fixedData(e, (uint32_t)n, s.chance(1, 2), s.bytes(n * e)); src.build(s, { d }); src.open((uint16_t)s.range(1, 3));
	How cfg = config(s, (uint32_t)n); C *c = src.make(0, cfg); CHECK(c != nullptr, "valid collection refused"); log("%s, %zu items of %u bytes", cfg.text().c_str(), n, e);
	bool plain = !cfg.memory && cfg.loaded == 0 && !cfg.cached(); size_t bad = 0, good = 0;
	for (int k = 0; k < 12; k++) {
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		if (plain && s.chance(1, 2)) {
			auto *fc = (fiftyoneDegreesCollectionFile *)c->state; uint32_t o = s.chance(1, 2) && d.body.size() ? (uint32_t)s.below(d.body.size()) : s.chance(1, 2) ? (uint32_t)d.body.size() + (uint32_t)s.below(3) : UINT32_MAX - (uint32_t)s.below(5); bool in = o < d.body.size();
			std::vector<fiftyoneDegreesFileHandle *> taken; bool none = s.chance(1, 4); if (none) for (int i = 0; i < src.handles; i++) taken.push_back(fiftyoneDegreesFileHandleGet(&src.pool, exception));
			auto *h = fiftyoneDegreesCollectionReadFilePosition(fc, o, exception); log("position %u%s", o, none ? " without a free handle" : "");
			if (in && !none) { CHECK(h != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY, "position %u of %zu refused with %d", o, d.body.size(), (int)exception->status); CHECK(ftell(h->file) == (long)(src.starts[0] + 4 + o), "position %u is at %ld of the file", o, ftell(h->file)); int ch = fgetc(h->file); CHECK(ch == (unsigned char)d.body[o], "another byte at position %u", o); fiftyoneDegreesFileHandleRelease(h); good++; }
			else { CHECK(h == nullptr && FIFTYONE_DEGREES_EXCEPTION_FAILED, "position %u of %zu is %s, status %d", o, d.body.size(), h ? "there" : "not there", (int)exception->status); bad++; }
			for (auto *t : taken) fiftyoneDegreesFileHandleRelease(t); label("position");
		} else if (e >= 4) {
			bool in = n && s.chance(2, 3); uint32_t i = in ? (uint32_t)s.below(n) : badKey(s, d); int32_t v = fiftyoneDegreesCollectionGetInteger32(c, i, exception), w;
			if (in) { memcpy(&w, d.body.data() + (size_t)i * e, 4); CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && v == w, "integer %u is %d instead of %d, status %d", i, v, w, (int)exception->status); good++; } else { CHECK(FIFTYONE_DEGREES_EXCEPTION_FAILED, "integer %u of %zu is %d", i, n, v); bad++; }
		}
	}
	expectSlots(c, d, cfg, 0, d.items.size()); checkPool(src, "after direct requests"); c->freeCollection(c); src.close(); alloc::expectNone("at the end"); CHECK(openFds() == fds, "descriptors leaked");
	if (good > 1 && bad > 1) nontrivial();
}
#endif
// the source ends before the collection does
void truncated(Src &s) {
	alloc::begin(); int fds = openFds();
	Source src; Body d = generate(s); src.build(s, { d });
	size_t keep = (size_t)s.range(0, (int64_t)(4 + d.body.size())); // bytes left of header and body
	bool header = keep < 4;
	src.bytes.resize(src.starts[0] + keep);
	src.open((uint16_t)s.range(1, 3));
	size_t base = alloc::live();
	How cfg = config(s, (uint32_t)d.items.size());
	log("%s, %zu items %zu bytes, only %zu bytes of header and body there", cfg.text().c_str(), d.items.size(), d.body.size(), keep);
	C *c = src.make(0, cfg);
	bool whole = keep == 4 + d.body.size();
	if (whole) CHECK(c != nullptr, "complete collection refused");
	if (cfg.memory && !whole) CHECK(c == nullptr, "a collection in memory extends past the end of the memory");
	size_t got = 0, refused = 0;
	if (c != nullptr) {
		size_t there = header ? 0 : keep - 4; size_t lastWhole = 0;
		Item it; resetItem(&it);
		for (size_t k = 0; k < 2 * d.items.size(); k++) {
			size_t i = (size_t)s.below(d.items.size());
			bool complete = d.items[i].offset + d.items[i].size <= there;
			if (complete) { expectGot(c, d, i, &it, "complete item of a short file"); release(c, &it); got++; lastWhole = std::max(lastWhole, i + 1); }
			else { expectRefused(c, d.items[i].key, &it, "item missing from a short file"); refused++; if (s.chance(1, 2)) release(c, &it); }
		}
		size_t complete = 0; while (complete < d.items.size() && d.items[complete].offset + d.items[complete].size <= there) complete++;
		expectSlots(c, d, cfg, 0, complete);
		checkPool(src, "after refusals");
		c->freeCollection(c);
		label("streamed from a short file");
	} else label(header ? "short header refused" : "short body refused");
	alloc::expectCount(base, "afterwards"); checkPool(src, "afterwards"); src.close(); alloc::expectNone("at the end");
	CHECK(openFds() == fds, "descriptors leaked");
	if (!whole && (c == nullptr || refused > 0)) nontrivial();
}
// header or body bytes changed at random
void damaged(Src &s) {
	alloc::begin(); int fds = openFds();
	Source src; Body d = generate(s); src.build(s, { d });
	size_t flips = (size_t)s.range(1, 6); bool inHeader = false;
	for (size_t i = 0; i < flips; i++) {
		if (s.chance(1, 3)) { // the header
			uint32_t v = s.chance(1, 2) ? (uint32_t)s.small(0, 300) : (uint32_t)s.bytes(4)[0] << 24 | (uint32_t)s.below(1 << 24); if (s.chance(1, 3)) v = UINT32_MAX - (uint32_t)s.below(4);
			memcpy(&src.bytes[src.starts[0]], &v, 4); inHeader = true; log("header becomes %u", v);
		} else if (!d.items.empty()) { // the start of an item, where its size is kept
			auto &e = s.pick(d.items); size_t o = src.starts[0] + 4 + e.offset + (size_t)s.below(std::min<uint32_t>(e.size, 10));
			if (d.fixed == false && e.size >= 2 && s.chance(1, 2)) { int16_t v = (int16_t)(s.chance(1, 2) ? -s.small(1, 40) : s.range(-32768, 32767)); memcpy(&src.bytes[src.starts[0] + 4 + e.offset + (d.read == readProfile ? 7 : 0)], &v, 2); log("size at %u becomes %d", e.offset, v); }
			else src.bytes[o] = (char)s.below(256);
		}
	}
	src.open((uint16_t)s.range(1, 3));
	size_t base = alloc::live();
	How cfg; cfg.memory = false; // data in memory is trusted by design: only its extent is checked
	while (cfg.memory || cfg.loaded == INT32_MAX) cfg = config(s, (uint32_t)d.items.size());
	log("%s, %zu items %zu bytes %s", cfg.text().c_str(), d.items.size(), d.body.size(), d.fixed ? "fixed" : "variable");
	cfg.memory = cfg.loaded == 0 && d.fixed && s.chance(1, 4);
	C *c = src.make(0, cfg);
	if (c != nullptr) {
		Item it; resetItem(&it); size_t n = (size_t)s.range(1, 30), refused = 0;
		C *last = c; while (last->next != nullptr) last = last->next;
		for (size_t k = 0; k < n; k++) {
			uint32_t key = d.items.empty() || s.chance(1, 4) ? badKey(s, d) : s.pick(d.items).key;
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			void *p = c->get(c, key, &it, exception);
			CHECK((p != nullptr) == FIFTYONE_DEGREES_EXCEPTION_OKAY, "%s and status %d", p ? "an item" : "no item", (int)exception->status);
			uint32_t limit = last->elementSize != 0 ? last->count : last->size;
			if (p != nullptr) CHECK(key < limit, "an item at %u of %u", key, limit);
			if (p != nullptr && cfg.loaded == 0) {
				uint64_t from = (uint64_t)src.starts[0] + 4 + (last->elementSize ? (uint64_t)key * last->elementSize : key);
				size_t len = cfg.memory ? last->elementSize : it.data.used;
				CHECK(from + len <= src.bytes.size() && memcmp(p, src.bytes.data() + from, len) == 0, "bytes returned for key %u are not in the file", key);
			}
			if (p != nullptr) release(c, &it); else refused++;
		}
		checkPool(src, "after damaged data");
		c->freeCollection(c);
		if (refused > 0) nontrivial();
		label(inHeader ? "damaged header accepted" : "damaged body");
	} else { label("damaged data refused"); nontrivial(); }
	alloc::expectCount(base, "afterwards"); checkPool(src, "afterwards"); src.close(); alloc::expectNone("at the end");
	CHECK(openFds() == fds, "descriptors leaked");
}
// a seek or read fails during creation or during a get
void faults(Src &s) {
	alloc::begin(); int fds = openFds();
	Source src; Body d = generate(s); src.build(s, { d }); src.open((uint16_t)s.range(1, 3));
	size_t base = alloc::live();
	How cfg; do cfg = config(s, (uint32_t)d.items.size()); while (cfg.memory && s.chance(9, 10)); cfg.memory = false;
	log("%s, %zu items %zu bytes %s", cfg.text().c_str(), d.items.size(), d.body.size(), d.fixed ? "fixed" : "variable");
	size_t hits = 0; C *c = nullptr;
	if (s.chance(1, 2)) { // while creating
		// the source has to be positioned first without a fault: make() itself seeks once and reads the header
		fault::at = s.small(1, 6); fault::n = 0; fault::kind = (int)s.below(2); fault::hit = false; fault::armed = true;
		c = src.make(0, cfg); fault::armed = false;
		if (fault::hit) { hits++; label("fault while creating");
			log("fault at %" PRId64 " while creating: %s", fault::at, c ? "created" : "refused");
			if (c != nullptr) { // only the header read may fail and still give a collection: an empty one
				C *last = c; while (last->next != nullptr) last = last->next;
				CHECK(last->size == 0 || last->size == d.body.size(), "collection of %u bytes after a fault", last->size);
				Item it; resetItem(&it);
				if (last->size == 0) { if (!d.items.empty()) expectRefused(c, d.items[0].key, &it, "collection without a header"); }
				else for (size_t i = 0; i < d.items.size(); i++) { expectGot(c, d, i, &it, "collection created in spite of a fault"); release(c, &it); }
				c->freeCollection(c); c = nullptr;
			}
			alloc::expectCount(base, "after a fault while creating"); checkPool(src, "after a fault while creating");
		}
	}
	if (c == nullptr) c = src.make(0, cfg);
	CHECK(c != nullptr, "valid collection refused after a fault");
	std::unique_ptr<Item> kept; size_t keptIndex = 0; Item it; resetItem(&it);
	size_t steps = d.items.empty() ? 0 : (size_t)s.range(1, 40);
	for (size_t k = 0; k < steps; k++) {
		size_t i = (size_t)s.below(d.items.size());
		if (kept == nullptr && s.chance(1, 8) && (!cfg.cached() || cfg.holdable() > 1)) { kept.reset(new Item); resetItem(kept.get()); keptIndex = i; expectGot(c, d, i, kept.get(), "get"); continue; }
		if (s.chance(1, 2)) {
			fault::at = s.small(0, 3); fault::n = 0; fault::kind = (int)s.below(2); fault::hit = false; fault::armed = true;
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			void *p = c->get(c, d.items[i].key, &it, exception); fault::armed = false;
			if (fault::hit) { hits++; label("fault while getting"); log("fault %" PRId64 " getting %zu", fault::at, i);
				CHECK(p == nullptr && FIFTYONE_DEGREES_EXCEPTION_FAILED, "a failing seek or read gave %s, status %d", p ? "an item" : "no item", (int)exception->status); }
			else CHECK(p != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY && memcmp(p, d.body.data() + d.items[i].offset, d.items[i].size) == 0, "valid item refused or wrong, status %d", (int)exception->status);
			if (p != nullptr || s.chance(1, 2)) release(c, &it);
		} else { expectGot(c, d, i, &it, "get after a fault"); release(c, &it); }
		if (kept != nullptr) CHECK(memcmp(kept->data.ptr, d.body.data() + d.items[keptIndex].offset, d.items[keptIndex].size) == 0, "an item held changed");
	}
	if (kept != nullptr) release(c, kept.get());
	expectSlots(c, d, cfg, 0, d.items.size());
	checkPool(src, "after faults");
	c->freeCollection(c);
	alloc::expectCount(base, "after the collection was freed"); src.close(); alloc::expectNone("at the end");
	CHECK(openFds() == fds, "descriptors leaked");
	if (hits > 0) nontrivial();
}
// no handle is free, or the configuration can not work
void handles(Src &s) {
	alloc::begin(); int fds = openFds();
	Source src; Body d; do d = generate(s); while (d.items.empty()); src.build(s, { d }); src.open((uint16_t)s.range(1, 3));
	size_t base = alloc::live();
	How cfg; do cfg = config(s, (uint32_t)d.items.size()); while (cfg.memory); 
	C *c = src.make(0, cfg); CHECK(c != nullptr, "valid collection refused");
	std::vector<fiftyoneDegreesFileHandle *> taken; FIFTYONE_DEGREES_EXCEPTION_CREATE
	for (int i = 0; i < src.handles; i++) taken.push_back(fiftyoneDegreesFileHandleGet(&src.pool, exception));
	Item it; resetItem(&it); C *last = c; while (last->next != nullptr) last = last->next;
	size_t refused = 0;
	for (size_t k = 0; k < 10; k++) {
		size_t i = (size_t)s.below(d.items.size());
		bool inMemory = c->next == nullptr ? cfg.loaded > 0 : (d.fixed ? i < c->count : d.items[i].offset < c->size);
		if (inMemory) { expectGot(c, d, i, &it, "preloaded item"); release(c, &it); }
		else { expectRefused(c, d.items[i].key, &it, "no file handle is free"); refused++; }
	}
	for (auto *h : taken) fiftyoneDegreesFileHandleRelease(h);
	for (size_t i = 0; i < d.items.size(); i++) { expectGot(c, d, i, &it, "after the handles came back"); release(c, &it); }
	expectSlots(c, d, cfg, 0, d.items.size()); checkPool(src, "afterwards");
	c->freeCollection(c);
	How bad; bad.memory = false; bad.loaded = s.chance(1, 2) ? 1 : 0; bad.concurrency = (uint16_t)s.range(2, 5); bad.capacity = (uint32_t)s.range(1, bad.concurrency * bad.concurrency - 1);
	c = src.make(0, bad);
	if (c != nullptr) { CHECK(c->next == nullptr && bad.loaded > 0, "a cache smaller than its concurrency allows was created"); c->freeCollection(c); }
	else label("impossible cache refused");
	alloc::expectCount(base, "after an impossible configuration"); checkPool(src, "afterwards"); src.close(); alloc::expectNone("at the end");
	CHECK(openFds() == fds, "descriptors leaked");
	log("%s refused %zu", cfg.text().c_str(), refused);
	if (refused > 0) nontrivial();
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "Data held in memory is trusted beyond its extent: damaged item sizes are judged for items read from a file." };
	suite("range", range, 20000, 4000000, "at least three requests outside the data and three inside");
	suite("headers", headers, 30000, 2000000, "a header whose collection exists, or which can not be");
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
	suite("direct", direct, 10000, 2000000, "several requests inside and outside the data");
#endif
	suite("truncated", truncated, 20000, 4000000, "the source is short and something was refused");
	suite("damaged", damaged, 20000, 4000000, "something was refused");
	suite("faults", faults, 20000, 4000000, "a seek or read failed");
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
	suite("handles", handles, 6000, 1000000, "something was refused");
#endif
	return runMain(argc, argv, o);
}
