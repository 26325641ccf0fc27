// Body files with collections in them and every way of opening them.
#pragma once
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
#include <memory>

// declared without C linkage by the library's headers
#define DECLARE_READ(alias, name) extern "C" void *alias(const fiftyoneDegreesCollectionFile *, uint32_t, fiftyoneDegreesData *, fiftyoneDegreesException *) asm(#name)
#ifndef FIFTYONE_DEGREES_MEMORY_ONLY
DECLARE_READ(readProfile, fiftyoneDegreesProfileReadFromFile);
DECLARE_READ(readComponent, fiftyoneDegreesComponentReadFromFile);
static const fiftyoneDegreesCollectionFileRead readString = fiftyoneDegreesStringRead;
#else // collections are held in memory however they are opened: these only tell the kinds apart
template <int kind> void *noRead(const fiftyoneDegreesCollectionFile *, uint32_t, fiftyoneDegreesData *, fiftyoneDegreesException *) { abort(); }
static const fiftyoneDegreesCollectionFileRead readProfile = noRead<1>, readComponent = noRead<2>, readString = noRead<3>;
#endif

namespace coll {
typedef fiftyoneDegreesCollection C;
typedef fiftyoneDegreesCollectionItem Item;
typedef std::string Bytes;

inline void put16(Bytes &b, int16_t v) { b.append((char *)&v, 2); }
inline void put32(Bytes &b, uint32_t v) { b.append((char *)&v, 4); }
inline uint32_t at32(const Bytes &b, size_t o) { uint32_t v; memcpy(&v, b.data() + o, 4); return v; }

// many bytes from few choices
inline Bytes plenty(pbt::Src &s, size_t n) {
	Bytes b(n, '\0'); uint64_t seed = s.below(1ull << 40);
	for (size_t i = 0; i < n; i++) b[i] = (char)(pbt::mix(seed + i) >> 9);
	return b;
}
inline Bytes plentyText(pbt::Src &s, size_t n) { Bytes b = plenty(s, n); for (auto &c : b) c = (char)('a' + (unsigned char)c % 26); return b; }
// One collection's data: its body and the items in it (key = index or offset).
struct Body {
	Bytes body;
	uint32_t elementSize = 0;   // as passed to the header functions
	bool isCount = false;
	bool fixed = false;
	uint32_t count = 0;         // fixed width items
	fiftyoneDegreesCollectionFileRead read = nullptr;
	struct Entry { uint32_t key, size, offset; };
	std::vector<Entry> items;
	uint32_t header() const { return isCount ? count : (uint32_t)body.size(); }
	Bytes bytes(size_t i) const { return body.substr(items[i].offset, items[i].size); }
};
inline Body fixedData(uint32_t elementSize, uint32_t count, bool isCount, const Bytes &body) {
	Body d; d.fixed = true; d.elementSize = elementSize; d.count = count; d.isCount = isCount; d.body = body;
	d.read = fiftyoneDegreesCollectionReadFileFixed;
	for (uint32_t i = 0; i < count; i++) d.items.push_back({ i, elementSize, i * elementSize });
	return d;
}
inline Body variableData(fiftyoneDegreesCollectionFileRead read) { Body d; d.read = read; return d; }
inline uint32_t add(Body &d, const Bytes &item) {
	uint32_t o = (uint32_t)d.body.size();
	d.items.push_back({ o, (uint32_t)item.size(), o });
	d.body += item; return o;
}
inline uint32_t addString(Body &d, const Bytes &text) {
	Bytes b; put16(b, (int16_t)(text.size() + 1)); b += text; b.push_back('\0'); return add(d, b);
}

struct How {
	bool memory = true;
	uint32_t loaded = 0, capacity = 0; uint16_t concurrency = 0;
	bool cached() const { return !memory && capacity > 0 && concurrency > 0; }
	bool valid() const { return !cached() || capacity / concurrency >= concurrency; }
	// how many different items may certainly be held at once in the cached part
	uint32_t holdable() const { return !cached() ? UINT32_MAX : capacity / concurrency + capacity % concurrency; }
	std::string text() const {
		char b[100];
		if (memory) return "memory";
		snprintf(b, sizeof b, "file loaded=%u capacity=%u concurrency=%u", loaded, capacity, concurrency); return b;
	}
};
inline How config(pbt::Src &s, uint32_t count, bool mayCache = true) {
	How c;
	int k = (int)s.below(mayCache ? 7 : 4);
	c.memory = k == 0;
	if (k == 0) return c;
	bool partial = k == 2 || k == 3 || k == 5 || k == 6;
	if (partial) c.loaded = s.chance(1, 3) ? (uint32_t)std::max<int64_t>(1, (int64_t)count + s.range(-1, 1)) : s.chance(1, 5) ? UINT32_MAX : (uint32_t)s.range(1, std::max<int64_t>(1, count));
	if (c.loaded > INT32_MAX) c.loaded = INT32_MAX;
	if (k >= 4) {
		c.concurrency = (uint16_t)s.range(1, 4);
		if (s.chance(1, 60)) { pbt::label("hundreds in the cache"); c.concurrency = (uint16_t)s.range(1, 20); c.capacity = c.concurrency * c.concurrency + (uint32_t)s.range(256, 600); }
		else if (s.chance(1, 1500)) { pbt::label("tens of thousands in the cache"); c.concurrency = (uint16_t)(s.chance(1, 2) ? s.range(256, 280) : s.range(1, 4)); c.capacity = (uint32_t)s.range(65536, 68000) + (c.concurrency > 4 ? 13000 : 0); }
		else c.capacity = c.concurrency * c.concurrency + (uint32_t)s.small(0, 20);
	}
	return c;
}

// A source file holding several collections one after another.
struct Source {
	std::string path; Bytes bytes;
	std::vector<uint32_t> starts;  // of the four header bytes
	fiftyoneDegreesFilePool pool; bool poolOpen = false; uint16_t handles = 0;
	std::vector<std::pair<byte *, size_t>> blocks;
	FILE *file = nullptr;
	std::vector<Body> data;

	Source() { memset(&pool, 0, sizeof pool); }
	void build(pbt::Src &s, const std::vector<Body> &d) {
		data = d; bytes.clear(); starts.clear();
		bytes = s.bytes((size_t)s.range(1, 9)); // an empty file is no data file
		if (s.chance(1, 60)) { bytes += plenty(s, (size_t)(s.chance(1, 3) ? s.range(65530, 70000) : s.range(240, 600))); pbt::label("far into the file"); }
		for (auto &x : d) {
			starts.push_back((uint32_t)bytes.size());
			put32(bytes, x.header()); bytes += x.body;
			bytes += s.bytes((size_t)(s.chance(1, 2) ? 0 : s.below(7)));
		}
	}
	void write() {
		static int serial = 0;
		path = pbt::G().scratch + "/d" + std::to_string(getpid()) + "_" + std::to_string(serial++);
		FILE *f = fopen(path.c_str(), "wb");
		if (f == nullptr || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size()) { perror("scratch file"); abort(); }
		fclose(f);
	}
	void open(uint16_t concurrency) {
		write();
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		fiftyoneDegreesStatusCode st = fiftyoneDegreesFilePoolInit(&pool, path.c_str(), concurrency, exception);
		CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS && FIFTYONE_DEGREES_EXCEPTION_OKAY, "pool of %u handles for an existing file refused with %d", concurrency, st);
		poolOpen = true; handles = concurrency;
		file = fopen(path.c_str(), "rb");
		if (file == nullptr) { perror("scratch file"); abort(); }
	}
	void close() {
		if (poolOpen) { fiftyoneDegreesFilePoolRelease(&pool); poolOpen = false; }
		if (file != nullptr) { fclose(file); file = nullptr; }
		if (!path.empty()) unlink(path.c_str());
		path.clear();
		for (auto &b : blocks) free(b.first);
		blocks.clear();
	}
	// Opens collection i; *after (when given) receives the source position afterwards.
	C *make(size_t i, const How &c, long *after = nullptr, fiftyoneDegreesCollectionFileRead read = nullptr) {
		const Body &d = data[i];
		if (c.memory) {
			byte *m = (byte *)malloc(bytes.size() ? bytes.size() : 1);
			memcpy(m, bytes.data(), bytes.size());
			blocks.push_back({ m, bytes.size() });
			fiftyoneDegreesMemoryReader r;
			r.startByte = m; r.current = m + starts[i]; r.length = (long)bytes.size(); r.lastByte = m + bytes.size();
			auto h = fiftyoneDegreesCollectionHeaderFromMemory(&r, d.elementSize, d.isCount);
			C *x = fiftyoneDegreesCollectionCreateFromMemory(&r, h);
			if (after != nullptr) *after = (long)(r.current - r.startByte);
			return x;
		}
		if (fseek(file, starts[i], SEEK_SET) != 0) abort();
		fiftyoneDegreesCollectionConfig cc = { c.loaded, c.capacity, c.concurrency };
		auto h = fiftyoneDegreesCollectionHeaderFromFile(file, d.elementSize, d.isCount);
		C *x = fiftyoneDegreesCollectionCreateFromFile(file, &pool, &cc, h, read ? read : d.read);
		if (after != nullptr) *after = ftell(file);
		return x;
	}
};
inline void release(C *c, Item *i) { if (c->release != nullptr) c->release(i); }
inline void resetItem(Item *i) { memset(i, 0x5A, sizeof *i); fiftyoneDegreesDataReset(&i->data); i->handle = nullptr; i->collection = nullptr; }
inline int openFds() { int n = 0; for (int i = 0; i < 512; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
// every handle of the pool can be taken at once, each a different one
inline void checkPool(Source &src, const char *when) {
	std::vector<fiftyoneDegreesFileHandle *> got; std::set<void *> seen;
	for (uint16_t i = 0; i < src.handles; i++) {
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *h = fiftyoneDegreesFileHandleGet(&src.pool, exception);
		CHECK(h != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY, "only %u of %u file handles are free %s", i, src.handles, when);
		CHECK(seen.insert(h).second, "file handle handed out twice %s", when);
		got.push_back(h);
	}
	for (auto *h : got) fiftyoneDegreesFileHandleRelease(h);
}
} // namespace coll
