// Allocation accounting and allocation-failure injection through the library's own
// allocator hooks (fiftyoneDegreesMalloc and friends).
#pragma once
#include "pbt.hpp"
#include <unordered_map>
#include "memory.h"

namespace alloc {
struct Block { size_t size; uint64_t serial; bool aligned; };
struct State {
	std::unordered_map<void *, Block> live;
	uint64_t serial = 0, mallocs = 0, frees = 0, failed = 0;
	int64_t failAt = -1;      // allocation number (from 0, counted since arm) which fails
	bool failAll = false;     // ... and every later one too
	int64_t countdown = 0;
	bool armed = false;
};
inline State &S() { static State s; return s; }

inline bool shouldFail() {
	State &s = S();
	if (!s.armed) return false;
	int64_t k = s.countdown++;
	if (s.failAt >= 0 && (k == s.failAt || (s.failAll && k > s.failAt))) { s.failed++; return true; }
	return false;
}
inline void *onMalloc(size_t n) {
	if (shouldFail()) return nullptr;
	void *p = malloc(n == 0 ? 1 : n);
	if (p == nullptr) return nullptr;
	S().mallocs++;
	S().live[p] = { n, S().serial++, false };
	return p;
}
inline void *onMallocAligned(int a, size_t n) {
	if (shouldFail()) return nullptr;
	void *p = nullptr;
	if (posix_memalign(&p, (size_t)(a < 8 ? 8 : a), n == 0 ? 1 : n) != 0) return nullptr;
	S().mallocs++;
	S().live[p] = { n, S().serial++, true };
	return p;
}
inline void onFree(void *p) {
	if (p == nullptr) return;
	auto it = S().live.find(p);
	if (it == S().live.end()) pbt::fail("memory freed that is not a live allocation (double free or foreign pointer) %p", p);
	if (it->second.aligned) pbt::fail("aligned memory freed with the unaligned release");
	S().live.erase(it); S().frees++;
	free(p);
}
inline void onFreeAligned(void *p) {
	if (p == nullptr) return;
	auto it = S().live.find(p);
	if (it == S().live.end()) pbt::fail("aligned memory freed that is not a live allocation (double free or foreign pointer) %p", p);
	if (!it->second.aligned) pbt::fail("unaligned memory freed with the aligned release");
	S().live.erase(it); S().frees++;
	free(p);
}
inline void install() {
	fiftyoneDegreesMalloc = onMalloc;
	fiftyoneDegreesMallocAligned = onMallocAligned;
	fiftyoneDegreesFree = onFree;
	fiftyoneDegreesFreeAligned = onFreeAligned;
}
inline void begin() { // at the start of a case
	State &s = S();
	s.live.clear(); s.serial = s.mallocs = s.frees = s.failed = 0;
	s.failAt = -1; s.failAll = false; s.countdown = 0; s.armed = false;
	install();
}
inline void arm(int64_t failAt, bool all) { State &s = S(); s.failAt = failAt; s.failAll = all; s.countdown = 0; s.armed = true; s.failed = 0; }
inline void disarm() { S().armed = false; }
inline size_t live() { return S().live.size(); }
inline size_t liveBytes() { size_t n = 0; for (auto &b : S().live) n += b.second.size; return n; }
inline void expectNone(const char *when) {
	if (!S().live.empty()) {
		std::string d; int n = 0;
		std::vector<std::pair<uint64_t, size_t>> v;
		for (auto &b : S().live) v.push_back({ b.second.serial, b.second.size });
		std::sort(v.begin(), v.end());
		for (auto &x : v) { if (n++ > 6) break; d += " #" + std::to_string(x.first) + ":" + std::to_string(x.second) + "B"; }
		pbt::fail("%zu allocation(s) leaked %s:%s", S().live.size(), when, d.c_str());
	}
}
inline void expectCount(size_t n, const char *when) {
	if (S().live.size() != n) pbt::fail("%zu live allocation(s) %s, expected %zu", S().live.size(), when, n);
}
} // namespace alloc
