// C11: memory accounting under thread schedules.
#include "sched.hpp"
#include "memory.h"
using namespace pbt;
namespace {
struct Block { char *p; size_t size, counted; bool aligned; char pat; };
void threads(Src &s) {
	sched::begin();
	fiftyoneDegreesMemoryTrackingReset();
	bool hooks = s.chance(1, 2); if (hooks) fiftyoneDegreesSetUpMemoryTracking();
	size_t T = (size_t)s.range(2, 4); std::vector<std::vector<std::pair<int, size_t>>> scripts(T);
	log("%zu threads%s", T, hooks ? ", through the allocator functions" : "");
	for (size_t t = 0; t < T; t++) {
		size_t n = (size_t)s.range(1, 8); std::string d;
		for (size_t i = 0; i < n; i++) { int op = s.weighted({ 3, 1, 3, 1 }); size_t sz = (size_t)s.range(1, 60); scripts[t].push_back({ op, sz }); d += op == 0 ? "alloc" + std::to_string(sz) + " " : op == 1 ? "aligned" + std::to_string(sz) + " " : op == 2 ? "free " : "read "; }
		log(" thread %zu: %s", t, d.c_str());
	}
	// lo: certainly counted, hi: possibly counted
	size_t lo = 0, hi = 0, maxLo = 0, maxHi = 0; std::vector<Block> shared; size_t ops = 0, most = 0;
	struct Read { size_t lo, hi; }; std::vector<Read *> reads;
	auto moved = [&] { maxLo = std::max(maxLo, lo); maxHi = std::max(maxHi, hi); for (Read *r : reads) { r->lo = std::min(r->lo, lo); r->hi = std::max(r->hi, hi); } };
	auto M = [&](size_t n) { return hooks ? fiftyoneDegreesMalloc(n) : fiftyoneDegreesMemoryTrackingMalloc(n); };
	auto MA = [&](int a, size_t n) { return hooks ? fiftyoneDegreesMallocAligned(a, n) : fiftyoneDegreesMemoryTrackingMallocAligned(a, n); };
	auto drop = [&](size_t k) {
		Block b = shared[k]; shared.erase(shared.begin() + (long)k);
		for (size_t i = 0; i < b.size; i++) CHECK(b.p[i] == (char)(b.pat + (char)i), "byte %zu of a block changed while it was held", i);
		lo -= b.counted; moved(); ops++;
		if (b.aligned) { if (hooks) fiftyoneDegreesFreeAligned(b.p); else fiftyoneDegreesMemoryTrackingFreeAligned(b.p); }
		else { if (hooks) fiftyoneDegreesFree(b.p); else fiftyoneDegreesMemoryTrackingFree(b.p); }
		hi -= b.counted; moved();
	};
	std::vector<std::function<void()>> fs;
	for (size_t t = 0; t < T; t++) fs.push_back([&, t] {
		for (auto &op : scripts[t]) {
			sched::yield();
			if (op.first <= 1) {
				Block b; b.size = op.second; b.aligned = op.first == 1; b.counted = b.aligned ? (b.size + 15) / 16 * 16 : b.size; b.pat = (char)(t * 50 + b.size);
				hi += b.counted; moved();
				b.p = (char *)(b.aligned ? MA(16, b.size) : M(b.size));
				CHECK(b.p != nullptr, "no memory"); CHECK(!b.aligned || (uintptr_t)b.p % 16 == 0, "a block is not aligned");
				lo += b.counted; moved(); ops++;
				for (size_t i = 0; i < b.size; i++) b.p[i] = (char)(b.pat + (char)i);
				shared.push_back(b); most = std::max(most, shared.size());
			} else if (op.first == 2) { if (!shared.empty()) drop(op.second % shared.size()); }
			else {
				Read r = { lo, hi }; reads.push_back(&r);
				size_t v = fiftyoneDegreesMemoryTrackingGetAllocated();
				reads.erase(std::find(reads.begin(), reads.end(), &r));
				CHECK(v >= r.lo && v <= r.hi, "%zu bytes reported as allocated, between %zu and %zu are", v, r.lo, r.hi);
				size_t m = fiftyoneDegreesMemoryTrackingGetMax();
				CHECK(m >= std::min(r.lo, maxLo) && m <= maxHi, "maximum of %zu reported, it was at most %zu", m, maxHi);
			}
		}
	});
	sched::run(s, fs);
	CHECK(lo == hi, "harness");
	CHECK(fiftyoneDegreesMemoryTrackingGetAllocated() == lo, "%zu bytes reported as allocated after the threads ended, %zu are", fiftyoneDegreesMemoryTrackingGetAllocated(), lo);
	size_t m = fiftyoneDegreesMemoryTrackingGetMax();
	CHECK(m >= maxLo && m <= maxHi, "maximum of %zu reported, it was between %zu and %zu", m, maxLo, maxHi);
	while (!shared.empty()) drop((size_t)s.below(shared.size()));
	CHECK(fiftyoneDegreesMemoryTrackingGetAllocated() == 0, "%zu bytes reported as allocated after all were freed", fiftyoneDegreesMemoryTrackingGetAllocated());
	if (hooks) CHECK(fiftyoneDegreesUnsetMemoryTracking() == 0, "memory in use at the end");
	size_t left = 0; for (auto &b : sched::W().blocks) if (!b.second.freed) left++;
	CHECK(left == 0, "%zu blocks, or records of them, were not freed", left);
	if (sched::W().preemptions >= 3 && ops > 5) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("threads", threads, 300000, 12000000, "2 to 4 threads allocate, free each other's blocks and read the totals under a drawn schedule; at least 3 preemptions and 6 operations");
	Options o; o.assumptions = { "tracking is reset before threads use it, as its documentation asks" };
	return runMain(argc, argv, o);
}
