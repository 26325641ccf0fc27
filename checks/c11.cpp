// C11: memory accounting and memory readers.
#include "pbt.hpp"
extern "C" {
#include "tree.h"
#include "memory.h"
}
#include <sys/wait.h>
using namespace pbt;
extern "C" bool memoryAdvance(fiftyoneDegreesMemoryReader *, size_t) asm("fiftyoneDegreesMemoryAdvance");
extern "C" {
void *__real_malloc(size_t); void *__real_aligned_alloc(size_t, size_t); void __real_free(void *);
static int64_t under = 0; static bool watch = false; static int failAt = -1, calls = 0; static size_t lastAsked = 0, lastAlign = 0;
void *__wrap_malloc(size_t n) {
	if (!watch) return __real_malloc(n);
	if (calls++ == failAt) return nullptr;
	lastAsked = n; void *p = n > ((size_t)1 << 40) ? nullptr : __real_malloc(n > ((size_t)1 << 31) ? 64 : n); // a stand-in for huge blocks
	if (p) under++; return p;
}
void *__wrap_aligned_alloc(size_t a, size_t n) {
	if (!watch) return __real_aligned_alloc(a, n);
	if (calls++ == failAt) return nullptr;
	lastAlign = a; lastAsked = n; void *p = n > ((size_t)1 << 40) ? nullptr : __real_aligned_alloc(a, n > ((size_t)1 << 31) ? a : n);
	if (p) under++; return p;
}
void __wrap_free(void *p) { if (watch && p) under--; __real_free(p); }
}
namespace {
struct Watch { Watch() { watch = true; calls = 0; failAt = -1; } ~Watch() { watch = false; failAt = -1; } };
struct Block { void *p; size_t size, counted; bool aligned, real, tracked; int align; unsigned char pat; };
void tracking(Src &s) {
	under = 0; watch = false;
	std::vector<Block> live; size_t allocated = 0, max = 0; bool hooks = false; int resetLive = 0; size_t peakBlocks = 0; bool afterDrop = false;
	{ Watch w; fiftyoneDegreesMemoryTrackingReset(); } under = 0;
	auto check = [&] (const char *when) {
		size_t a = fiftyoneDegreesMemoryTrackingGetAllocated(), m = fiftyoneDegreesMemoryTrackingGetMax();
		CHECK(a == allocated, "%zu bytes reported as allocated, %zu are %s", a, allocated, when);
		CHECK(m == max, "maximum of %zu bytes reported, it was %zu %s", m, max, when);
	};
	auto touch = [&] (const Block &b, const char *when) { if (b.real) for (size_t i = 0; i < b.size; i++) CHECK(((unsigned char *)b.p)[i] == (unsigned char)(b.pat + i), "byte %zu of a block of %zu changed %s", i, b.size, when); };
	auto drop = [&] (size_t k) {
		Block b = live[k]; live[k] = live.back(); live.pop_back(); touch(b, "while it was held");
		log("free %zu%s%s", b.size, b.aligned ? " aligned" : "", b.tracked ? "" : " from before the reset");
		{ Watch w; if (b.aligned) { if (hooks && s.chance(1, 2)) fiftyoneDegreesFreeAligned(b.p); else fiftyoneDegreesMemoryTrackingFreeAligned(b.p); } else { if (hooks && s.chance(1, 2)) fiftyoneDegreesFree(b.p); else fiftyoneDegreesMemoryTrackingFree(b.p); } }
		if (b.tracked) { allocated -= b.counted; afterDrop = true; }
		check("after a release");
	};
	size_t steps = (size_t)s.small(1, 120); bool draining = false;
	for (size_t k = 0; k < steps; k++) {
		if (s.chance(1, 12)) draining = !draining;
		switch (s.weighted({ draining ? 4 : 10, draining ? 10 : 3, 1, 1, 1, 1 })) {
		case 0: {
			Block b; b.aligned = s.chance(1, 2); b.align = 1 << (int)s.range(3, 12); b.tracked = true; b.pat = (unsigned char)s.below(256);
			int kind = (int)s.below(40);
			b.size = kind == 0 ? ((size_t)4 << 30) + (size_t)s.below(1u << 30) * 5 : kind == 1 ? SIZE_MAX - (size_t)s.below(5000) : (size_t)s.small(0, 3000);
			b.real = kind > 1; int fails = s.chance(1, 20) ? (int)s.below(3) : -1;
			log("%s %zu%s%s", b.aligned ? "aligned" : "plain", b.size, b.aligned ? (" to " + std::to_string(b.align)).c_str() : "", fails >= 0 ? (" failing " + std::to_string(fails)).c_str() : "");
			bool failed; int64_t before = under;
			{ Watch w; failAt = fails; lastAsked = 0;
			if (b.aligned) b.p = hooks && s.chance(1, 2) ? fiftyoneDegreesMallocAligned(b.align, b.size) : fiftyoneDegreesMemoryTrackingMallocAligned(b.align, b.size);
			else b.p = hooks && s.chance(1, 2) ? fiftyoneDegreesMalloc(b.size) : fiftyoneDegreesMemoryTrackingMalloc(b.size);
			failed = fails >= 0 && calls > fails; }
			if (b.p == nullptr) {
				CHECK(failed || kind == 1, "no memory for %zu bytes though there is some", b.size);
				CHECK(under == before, "a failed allocation kept hold of memory"); check("after a failed allocation"); label("failed allocation"); break;
			}
			CHECK(!failed || b.p != nullptr, "memory from nowhere"); CHECK(kind != 1, "%zu bytes were allocated", b.size);
			CHECK((uintptr_t)b.p % (b.aligned ? (uintptr_t)b.align : alignof(max_align_t)) == 0, "block at %p is not aligned to %d", b.p, b.align);
			size_t now = fiftyoneDegreesMemoryTrackingGetAllocated(); b.counted = now - allocated;
			size_t top = b.aligned ? (b.size + (size_t)b.align - 1) / (size_t)b.align * (size_t)b.align : b.size;
			CHECK(b.counted >= b.size && b.counted <= top, "a block of %zu (%s%d) was counted as %zu", b.size, b.aligned ? "aligned to " : "plain ", b.align, b.counted);
			allocated += b.counted; max = std::max(max, allocated); if (b.real) for (size_t i = 0; i < b.size; i++) ((unsigned char *)b.p)[i] = (unsigned char)(b.pat + i);
			if (!b.real) label("over 4 GB");
			live.push_back(b); peakBlocks = std::max(peakBlocks, live.size()); check("after an allocation"); break; }
		case 1: if (!live.empty()) drop((size_t)s.below(live.size())); break;
		case 2: { Watch w; log("free nothing"); fiftyoneDegreesMemoryTrackingFree(nullptr); fiftyoneDegreesMemoryTrackingFreeAligned(nullptr); } check("after freeing nothing"); break;
		case 3: if (s.chance(1, 3)) { log("reset with %zu live", live.size()); { Watch w; fiftyoneDegreesMemoryTrackingReset(); } if (!live.empty()) { resetLive++; label("reset with live memory"); } for (auto &b : live) b.tracked = false; allocated = max = 0; check("after a reset"); } break;
		case 4: if (s.chance(1, 3)) { log("hooks on"); { Watch w; fiftyoneDegreesSetUpMemoryTracking(); } hooks = true; for (auto &b : live) b.tracked = false; allocated = max = 0; check("after tracking was set up");
			CHECK(fiftyoneDegreesMalloc == fiftyoneDegreesMemoryTrackingMalloc && fiftyoneDegreesFree == fiftyoneDegreesMemoryTrackingFree && fiftyoneDegreesMallocAligned == fiftyoneDegreesMemoryTrackingMallocAligned && fiftyoneDegreesFreeAligned == fiftyoneDegreesMemoryTrackingFreeAligned, "tracking was not installed"); } break;
		default: if (s.chance(1, 3)) { log("hooks off"); size_t left; { Watch w; left = fiftyoneDegreesUnsetMemoryTracking(); } CHECK(left == allocated, "%zu bytes reported as left, %zu are", left, allocated); hooks = false; for (auto &b : live) b.tracked = false; allocated = max = 0; check("after tracking was unset");
			CHECK(fiftyoneDegreesMalloc == fiftyoneDegreesMemoryStandardMalloc && fiftyoneDegreesFree == fiftyoneDegreesMemoryStandardFree && fiftyoneDegreesMallocAligned == fiftyoneDegreesMemoryStandardMallocAligned && fiftyoneDegreesFreeAligned == fiftyoneDegreesMemoryStandardFreeAligned, "the standard functions were not restored");
			label("tracking unset"); } break;
		}
		if (!live.empty() && s.chance(1, 4)) touch(live[(size_t)s.below(live.size())], "while it is held");
	}
	if (peakBlocks > 8 && afterDrop) nontrivial();
	while (!live.empty()) drop((size_t)s.below(live.size()));
	CHECK(fiftyoneDegreesMemoryTrackingGetAllocated() == 0, "bytes reported with nothing allocated");
	CHECK(under == 0, "%lld blocks of the tracker's own were not freed", (long long)under);
	fiftyoneDegreesUnsetMemoryTracking();
}
void first(Src &s) { // whichever function is used first, in a process of its own which has used none
	struct Op { int what; bool aligned; int align; size_t size; size_t which; }; std::vector<Op> plan; size_t n = (size_t)s.range(1, 12), blocks = 0;
	for (size_t k = 0; k < n; k++) { Op o = { (int)s.weighted({ 6, 2, 1, 1 }), s.chance(1, 2), 1 << (int)s.range(3, 8), (size_t)s.small(1, 900), (size_t)s.below(64) }; if (o.what == 0) blocks++; plan.push_back(o); log("%s%s %zu", o.what == 0 ? "allocate" : o.what == 1 ? "free" : o.what == 2 ? "hooks" : "read the amounts", o.what == 0 && o.aligned ? " aligned" : "", o.size); }
	if (plan[0].what != 2 && blocks > 1) nontrivial();
	pid_t pid = fork();
	if (pid == 0) {
		std::vector<Block> live; size_t allocated = 0, max = 0; bool hooks = false;
#ifdef FIFTYONE_DEGREES_MEMORY_TRACK_ENABLED
		hooks = true; CHECK(fiftyoneDegreesMalloc == fiftyoneDegreesMemoryTrackingMalloc && fiftyoneDegreesFree == fiftyoneDegreesMemoryTrackingFree && fiftyoneDegreesMallocAligned == fiftyoneDegreesMemoryTrackingMallocAligned && fiftyoneDegreesFreeAligned == fiftyoneDegreesMemoryTrackingFreeAligned, "a build with tracking starts without");
#else
		CHECK(fiftyoneDegreesMalloc == fiftyoneDegreesMemoryStandardMalloc && fiftyoneDegreesFree == fiftyoneDegreesMemoryStandardFree && fiftyoneDegreesMallocAligned == fiftyoneDegreesMemoryStandardMallocAligned && fiftyoneDegreesFreeAligned == fiftyoneDegreesMemoryStandardFreeAligned, "a build without tracking starts with it");
#endif
		auto check = [&] (const char *when) { size_t a = fiftyoneDegreesMemoryTrackingGetAllocated(), m = fiftyoneDegreesMemoryTrackingGetMax(); CHECK(a == allocated && m == max, "%zu and at most %zu bytes reported %s, %zu and %zu are right", a, m, when, allocated, max); };
		auto drop = [&] (size_t k) { Block b = live[k]; live[k] = live.back(); live.pop_back(); for (size_t i = 0; i < b.size; i++) CHECK(((unsigned char *)b.p)[i] == b.pat, "a block was changed"); if (b.aligned) { if (hooks) fiftyoneDegreesFreeAligned(b.p); else fiftyoneDegreesMemoryTrackingFreeAligned(b.p); } else if (hooks) fiftyoneDegreesFree(b.p); else fiftyoneDegreesMemoryTrackingFree(b.p); if (b.tracked) allocated -= b.counted; check("after a release"); };
		for (auto &o : plan) switch (o.what) {
		case 0: { Block b; b.aligned = o.aligned; b.size = o.size; b.tracked = true; b.pat = (unsigned char)o.size;
			b.p = o.aligned ? (hooks ? fiftyoneDegreesMallocAligned(o.align, o.size) : fiftyoneDegreesMemoryTrackingMallocAligned(o.align, o.size)) : hooks ? fiftyoneDegreesMalloc(o.size) : fiftyoneDegreesMemoryTrackingMalloc(o.size);
			CHECK(b.p != nullptr, "no memory"); memset(b.p, b.pat, b.size); b.counted = fiftyoneDegreesMemoryTrackingGetAllocated() - allocated; size_t top = o.aligned ? (b.size + (size_t)o.align - 1) / (size_t)o.align * (size_t)o.align : b.size;
			CHECK(b.counted >= b.size && b.counted <= top, "a block of %zu was counted as %zu", b.size, b.counted); allocated += b.counted; max = std::max(max, allocated); live.push_back(b); check("after an allocation"); break; }
		case 1: if (!live.empty()) drop(o.which % live.size()); break;
		case 2: fiftyoneDegreesSetUpMemoryTracking(); hooks = true; for (auto &b : live) b.tracked = false; allocated = max = 0; check("after tracking was set up"); break;
		default: check("when asked"); }
		while (!live.empty()) drop(live.size() - 1);
		CHECK(allocated == 0 && fiftyoneDegreesMemoryTrackingGetAllocated() == 0, "bytes reported with nothing allocated");
		_exit(91);
	}
	int st = 0; if (pid < 0 || waitpid(pid, &st, 0) != pid) abort();
	if (WIFEXITED(st) && WEXITSTATUS(st) == 91) return;
	if (WIFEXITED(st)) _exit(WEXITSTATUS(st)); // it has said why
	fail("tracking which nothing had set up crashed with signal %d", WTERMSIG(st));
}
void standard(Src &s) { // the default allocator
	std::vector<Block> live;
	for (size_t k = (size_t)s.range(1, 30); k-- > 0;) {
		Block b; b.align = 1 << (int)s.range(3, 13); b.size = s.chance(1, 30) ? SIZE_MAX - (size_t)s.below(9000) : (size_t)s.small(0, 2000); b.pat = (unsigned char)s.below(256); b.real = true; b.aligned = s.chance(2, 3); bool fits = b.size < 5000;
		log("%s %zu to %d", b.aligned ? "aligned" : "plain", b.size, b.align);
		{ Watch w; b.p = b.aligned ? fiftyoneDegreesMemoryStandardMallocAligned(b.align, b.size) : fiftyoneDegreesMemoryStandardMalloc(b.size);
		if (b.p != nullptr) CHECK(lastAsked >= b.size && (!b.aligned || lastAsked % (size_t)b.align == 0), "%zu bytes were asked for a block of %zu aligned to %d", lastAsked, b.size, b.align); }
		CHECK((b.p != nullptr) == fits, "%zu bytes %s", b.size, fits ? "refused" : "allocated");
		if (b.p == nullptr) continue;
		CHECK(!b.aligned || (uintptr_t)b.p % (uintptr_t)b.align == 0, "block at %p is not aligned to %d", b.p, b.align);
		for (size_t i = 0; i < b.size; i++) ((unsigned char *)b.p)[i] = (unsigned char)(b.pat + i);
		live.push_back(b); if (b.aligned && b.size % (size_t)b.align != 0) nontrivial();
	}
	for (auto &b : live) for (size_t i = 0; i < b.size; i++) CHECK(((unsigned char *)b.p)[i] == (unsigned char)(b.pat + i), "a block was changed");
	for (auto &b : live) { if (b.aligned) fiftyoneDegreesMemoryStandardFreeAligned(b.p); else fiftyoneDegreesMemoryStandardFree(b.p); }
}
void reader(Src &s) {
	size_t n = (size_t)s.small(0, 400); byte *m = (byte *)malloc(n ? n : 1);
	fiftyoneDegreesMemoryReader r = { m, m, m + n, (long)n }; size_t at = 0; int refused = 0, moved = 0;
	CHECK(!memoryAdvance(nullptr, (size_t)s.below(9)), "no reader was advanced");
	for (size_t k = (size_t)s.range(1, 40); k-- > 0 && refused < 3;) {
		size_t left = n - at, by;
		switch (s.below(6)) { case 0: by = left; break; case 1: by = left + (size_t)s.range(1, 3); break; case 2: by = SIZE_MAX - (size_t)s.below(n + 3); break; case 3: by = (size_t)1 << s.range(20, 63); break; default: by = (size_t)s.small(0, (int64_t)left); }
		bool fits = by <= left; log("advance %zu of %zu left", by, left);
		CHECK(memoryAdvance(&r, by) == fits, "advancing %zu with %zu left was %s", by, left, fits ? "refused" : "allowed");
		if (fits) { at += by; moved += by > 0; } else refused++;
		CHECK(r.current == m + at, "the reader is at %td, not %zu", r.current - m, at);
		CHECK(r.startByte == m && r.lastByte == m + n && r.length == (long)n, "the reader's limits changed");
	}
	if (moved > 1 && refused > 0) nontrivial();
	r.current = nullptr; CHECK(!memoryAdvance(&r, 0), "a reader with no position was advanced");
	free(m);
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "malloc, aligned_alloc and free are correct; blocks over 2 GB are replaced with small stand-ins.", "An aligned block may be counted as its size rounded up to the alignment.", "Memory allocated before a reset is no longer counted.", "The first use of memory tracking is not by two threads at once." };
#ifdef FIRST_USE
	suite("first-use", first, 1500, 60000, "memory was allocated twice or more before anything was set up");
#else
	suite("tracking", tracking, 40000, 5000000, "more than 8 blocks were live and some were released");
	suite("standard", standard, 12000, 1000000, "an aligned block's size was no multiple of the alignment");
	suite("reader", reader, 30000, 3000000, "the reader moved and a request that did not fit was made");
#endif
	return runMain(argc, argv, o);
}
