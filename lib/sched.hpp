// Controlled schedules.  The library is compiled with -fsanitize=thread but linked with this
// runtime instead of the sanitizer's: every instrumented memory access, atomic operation, lock
// and file read is a point where the running thread may be suspended.  "Threads" are fibers of
// one process, so a schedule is a list of choices of the case and can be replayed and shrunk.
// Memory is never reused within a case, and touching released memory is reported.
// Link with SCHED_LD of tools/config.py.  Include from one translation unit only.
#pragma once
#include "pbt.hpp"
#include <pthread.h>
#include <sched.h>
#include <ucontext.h>
#include <unordered_map>

extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_aligned_alloc(size_t, size_t);
void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fseek(FILE *, long, int);
}

namespace sched {

enum State { READY, WAIT_MUTEX, WAIT_COND, DONE };
struct Fiber {
	ucontext_t ctx; char *stack = nullptr; std::function<void()> fn;
	State state = DONE; const void *on = nullptr;
};
struct Mutex { int owner = -1; bool destroyed = false; };
struct Cond { bool destroyed = false; };
struct Block { uintptr_t lo, hi, end; bool freed = false; char *raw; uint64_t when = 0; uint64_t serial = 0; int by = -1; };
struct World {
	bool running = false, tracking = false;
	std::vector<Fiber> f; int cur = -1;
	ucontext_t main;
	pbt::Src *s = nullptr;
	int style = 0; bool all = false;
	int64_t budget = 0; uint64_t steps = 0, draws = 0, switches = 0, preemptions = 0;
	int changes = 0;
	bool fair = false; uint64_t fairAt = 120000, stepCap = 400000;
	std::map<const void *, Mutex> mutexes; std::map<const void *, Cond> conds;
	std::unordered_map<uintptr_t, uint32_t> touched;
	std::map<uintptr_t, Block> blocks; // by lo, with the margins
	uint64_t serial = 0;
	// May a touch of released memory be tolerated? (known findings)
	std::function<bool(const Block &, uintptr_t, bool)> tolerate;
	uint64_t tolerated = 0;
	bool mayBlock = false;  // run() returns when nobody can go on
	int initFails = -1;     // which creation of a lock or condition fails
};
inline World &W() { static World *w = new World; return *w; }
constexpr size_t STACK = 256 * 1024;
inline std::vector<char *> &stacks() { static auto *v = new std::vector<char *>; return *v; }

inline int self() { return W().running ? W().cur : -1; }
inline uint64_t now() { return W().steps; }

[[noreturn]] inline void stuck(const char *what) {
	std::string d;
	for (size_t i = 0; i < W().f.size(); i++) {
		Fiber &x = W().f[i];
		d += " thread " + std::to_string(i) + (x.state == DONE ? " ended" : x.state == READY ? " runs" : x.state == WAIT_MUTEX ? " waits for a lock" : " waits for a signal") + ";";
	}
	pbt::fail("%s:%s", what, d.c_str());
}

inline int64_t drawBudget() {
	World &w = W();
	if (w.fair) return 25;
	if (w.style == 0 || w.draws > 5000) return INT64_MAX;
	w.draws++;
	switch (w.style) {
	case 1: // few preemptions at arbitrary points
		if (w.changes-- <= 0) return INT64_MAX;
		return 1 + (int64_t)w.s->below(120);
	case 2: return 1 + (int64_t)w.s->below(5);
	case 3: return 1 + (int64_t)w.s->below(40);
	default: {
		uint64_t k = w.s->below(8);
		if (k == 0) return INT64_MAX;
		if (k <= 4) return 1 + (int64_t)w.s->below(4);
		return 1 + (int64_t)w.s->below(k == 7 ? 200 : 25);
	}
	}
}

// Chooses who runs next; the running fiber may go on only if it is READY.
inline void reschedule() {
	World &w = W();
	int ready[64], n = 0, me = w.cur;
	for (size_t i = 0; i < w.f.size(); i++) if (w.f[i].state == READY) ready[n++] = (int)i;
	if (n == 0) {
		bool done = true;
		for (Fiber &x : w.f) done &= x.state == DONE;
		if (!done && !w.mayBlock) stuck("the threads are blocked for ever");
		w.cur = -1;
		if (me >= 0 && w.f[(size_t)me].state != DONE) { swapcontext(&w.f[(size_t)me].ctx, &w.main); return; }
		setcontext(&w.main);
		abort();
	}
	int next;
	if (w.fair) {
		next = ready[0];
		for (int i = 0; i < n; i++) if (ready[i] > me) { next = ready[i]; break; }
	} else {
		bool can = me >= 0 && w.f[(size_t)me].state == READY;
		// a preemption goes to another thread
		if (can && n > 1) {
			int m = 0; for (int i = 0; i < n; i++) if (ready[i] != me) ready[m++] = ready[i];
			n = m; w.preemptions++;
		}
		if (n > 1 && w.style != 0 && w.draws <= 5000) { w.draws++; next = ready[w.s->below((uint64_t)n)]; }
		else next = ready[0];
	}
	w.budget = drawBudget();
	if (next == me) return;
	w.switches++; w.cur = next;
	if (me < 0 || w.f[(size_t)me].state == DONE) { setcontext(&w.f[(size_t)next].ctx); abort(); }
	swapcontext(&w.f[(size_t)me].ctx, &w.f[(size_t)next].ctx);
}

inline void count() {
	World &w = W();
	w.steps++;
	if (w.steps == w.fairAt && !w.fair) { w.fair = true; w.budget = 25; }
	if (w.steps > w.stepCap) stuck("the threads make no progress although all are scheduled fairly");
	if (--w.budget <= 0) reschedule();
}
inline void yield() { if (W().running && W().cur >= 0) count(); }

inline void checkTouch(uintptr_t a, size_t n, bool write) {
	World &w = W();
	if (!w.tracking) return;
	auto it = w.blocks.upper_bound(a + n - 1);
	if (it == w.blocks.begin()) return;
	--it;
	Block &b = it->second;
	if (a < b.end && a + n > (uintptr_t)b.raw) {
		if (a < b.lo || a + n > b.hi) pbt::fail("%s of %zu byte(s) outside a heap block of %zu bytes (offset %ld)", write ? "write" : "read", n, (size_t)(b.hi - b.lo), (long)(a - b.lo));
		if (b.freed) {
			if (w.tolerate && w.tolerate(b, a, write)) { w.tolerated++; return; }
			pbt::fail("%s of released memory by thread %d (block of %zu bytes released at step %llu by thread %d, offset %ld, now step %llu)",
				write ? "write" : "read", w.cur, (size_t)(b.hi - b.lo), (unsigned long long)b.when, b.by, (long)(a - b.lo), (unsigned long long)w.steps);
		}
	}
}

inline void point(const volatile void *p, size_t n, bool write, bool atomic) {
	World &w = W();
	uintptr_t a = (uintptr_t)p;
	if (!w.running || w.cur < 0) { checkTouch(a, n, write); return; }
	// the stack of the running fiber is nobody else's business
	char *st = w.f[(size_t)w.cur].stack;
	if ((char *)a >= st && (char *)a < st + STACK && !atomic) return;
	if (atomic || w.all) count();
	else {
		uint32_t &m = w.touched[a >> 3];
		uint32_t bit = 1u << w.cur;
		if ((m & ~bit) != 0) { m |= bit; count(); } else m |= bit;
	}
	checkTouch(a, n, write); // after the possible suspension
}

inline void entry() {
	World &w = W();
	w.f[(size_t)w.cur].fn();
	w.f[(size_t)w.cur].state = DONE;
	reschedule();
	abort();
}

// Blocks come from a fixed place, so that addresses are the same in every run of a case.
struct Arena { char *base = nullptr; size_t used = 0; };
constexpr size_t ARENA = 8 << 20;
inline Arena &arena() {
	static Arena a;
	if (a.base == nullptr) {
		void *p = mmap((void *)0x200000000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p == MAP_FAILED) { perror("arena"); _exit(2); }
		a.base = (char *)p;
	}
	return a;
}
inline bool inArena(const void *p) { return (const char *)p >= arena().base && (const char *)p < arena().base + ARENA; }

// Begins a case: forgets memory, locks and history.
inline void begin() {
	World &w = W();
	w.running = false; w.tracking = false; w.cur = -1;
	for (auto &b : w.blocks) if (!inArena(b.second.raw)) __real_free(b.second.raw);
	arena().used = 0;
	w.blocks.clear(); w.mutexes.clear(); w.conds.clear(); w.touched.clear();
	w.serial = 0; w.tolerate = nullptr; w.tolerated = 0;
	w.steps = w.draws = w.switches = w.preemptions = 0; w.fair = false; w.mayBlock = false; w.initFails = -1;
	w.fairAt = 120000; w.stepCap = 400000;
	w.tracking = true;
}
inline void style(pbt::Src &s) { // drawn before the schedule itself
	World &w = W();
	w.style = (int)s.below(5); w.changes = w.style == 1 ? 1 + (int)s.below(6) : 0;
	w.all = w.style != 0 && s.chance(1, 4);
}

// Runs more bodies as threads, next to those still blocked (mayBlock).
inline void more(pbt::Src &s, std::vector<std::function<void()>> bodies) {
	World &w = W();
	w.s = &s;
	size_t base = w.f.size();
	if (base + bodies.size() > 60) abort();
	w.f.resize(base + bodies.size());
	while (stacks().size() < w.f.size()) {
		char *p = (char *)mmap(nullptr, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
		mprotect(p, 4096, PROT_NONE);
		stacks().push_back(p + 4096);
	}
	for (size_t i = 0; i < bodies.size(); i++) {
		Fiber &x = w.f[base + i];
		x.fn = std::move(bodies[i]); x.state = READY; x.stack = stacks()[base + i];
		getcontext(&x.ctx);
		x.ctx.uc_stack.ss_sp = x.stack; x.ctx.uc_stack.ss_size = STACK; x.ctx.uc_link = nullptr;
		makecontext(&x.ctx, (void (*)())entry, 0);
	}
	w.cur = -1; w.budget = 0; w.running = true;
	w.fairAt = w.steps + 120000; w.stepCap = w.steps + 400000; w.fair = false;
	volatile bool back = false;
	getcontext(&w.main);
	if (!back) { back = true; reschedule(); }
	w.running = false; w.cur = -1;
	for (auto &m : w.mutexes) if (m.second.owner >= 0) pbt::fail("a thread ended or waits for ever while it holds a lock");
}
// Runs the bodies as threads under a schedule drawn from s until all have ended.
inline void run(pbt::Src &s, std::vector<std::function<void()>> bodies) {
	World &w = W();
	style(s);
	w.f.clear(); w.f.reserve(64); w.touched.clear();
	more(s, std::move(bodies));
}

// ---- locks ---------------------------------------------------------------------------
inline int lock(const void *m, bool tryOnly) {
	World &w = W();
	point(m, 1, true, true);
	for (;;) {
		Mutex &x = w.mutexes[m];
		if (x.destroyed) pbt::fail("a destroyed lock was used");
		if (x.owner < 0) { x.owner = w.running ? w.cur : 1000; return 0; }
		if (tryOnly) return EBUSY;
		if (!w.running) pbt::fail("the only thread waits for a lock which it holds or which was never released");
		if (x.owner == w.cur) pbt::fail("a thread waits for a lock which it holds");
		Fiber &me = w.f[(size_t)w.cur];
		me.state = WAIT_MUTEX; me.on = m;
		reschedule();
		checkTouch((uintptr_t)m, 1, true);
	}
}
inline void release(const void *m) {
	World &w = W();
	Mutex &x = w.mutexes[m];
	if (x.destroyed) pbt::fail("a destroyed lock was released");
	int me = w.running ? w.cur : 1000;
	if (x.owner != me) pbt::fail("a lock was released by a thread which does not hold it");
	x.owner = -1;
	for (Fiber &y : w.f) if (y.state == WAIT_MUTEX && y.on == m) y.state = READY;
}
} // namespace sched

extern "C" {
static bool schedInitFails() { sched::World &w = sched::W(); return w.initFails >= 0 && w.initFails-- == 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) {
	if (schedInitFails()) return ENOMEM;
	sched::point(m, 1, true, false); sched::Mutex &x = sched::W().mutexes[m];
	if (x.owner >= 0) pbt::fail("a lock was created again while it was held");
	x = sched::Mutex(); return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
	sched::point(m, 1, true, true); sched::Mutex &x = sched::W().mutexes[m];
	if (x.owner >= 0) pbt::fail("a lock was destroyed while it was held");
	if (x.destroyed) pbt::fail("a lock was destroyed twice");
	x.destroyed = true; return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return sched::lock(m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return sched::lock(m, true); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
	sched::point(m, 1, true, true); sched::release(m); sched::yield(); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { if (schedInitFails()) return ENOMEM; sched::point(c, 1, true, false); sched::W().conds[c] = sched::Cond(); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
	sched::point(c, 1, true, true); sched::Cond &x = sched::W().conds[c];
	if (x.destroyed) pbt::fail("a condition was destroyed twice");
	for (auto &f : sched::W().f) if (f.state == sched::WAIT_COND && f.on == c) pbt::fail("a condition was destroyed while a thread waits for it");
	x.destroyed = true; return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	sched::World &w = sched::W();
	sched::point(c, 1, true, true);
	if (w.conds[c].destroyed) pbt::fail("a destroyed condition was used");
	if (!w.running) pbt::fail("the only thread waits for a signal");
	bool spurious = w.style > 1 && w.draws < 4000 && w.s->chance(1, 12);
	sched::release(m);
	sched::Fiber &me = w.f[(size_t)w.cur];
	if (!spurious) { me.state = sched::WAIT_COND; me.on = c; }
	sched::reschedule();
	return sched::lock(m, false);
}
static int schedWake(pthread_cond_t *c, bool all) {
	sched::World &w = sched::W();
	sched::point(c, 1, true, true);
	if (w.conds[c].destroyed) pbt::fail("a destroyed condition was used");
	std::vector<sched::Fiber *> ws;
	for (auto &f : w.f) if (f.state == sched::WAIT_COND && f.on == c) ws.push_back(&f);
	if (ws.empty()) return 0;
	if (all) { for (auto *f : ws) f->state = sched::READY; return 0; }
	size_t k = ws.size() > 1 && w.style != 0 && w.draws <= 5000 ? (size_t)w.s->below(ws.size()) : 0;
	ws[k]->state = sched::READY;
	return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return schedWake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return schedWake(c, true); }
int __wrap_sched_yield(void) { sched::yield(); return 0; }
int __wrap_usleep(useconds_t) { sched::yield(); return 0; }

// ---- memory --------------------------------------------------------------------------
static void *schedAlloc(size_t align, size_t n) {
	sched::World &w = sched::W();
	size_t pad = align < 32 ? 32 : align;
	size_t total = pad + n + 32; total = (total + pad - 1) / pad * pad;
	if (total < n) return nullptr;
	sched::Arena &ar = sched::arena();
	char *raw = (char *)(((uintptr_t)ar.base + ar.used + pad - 1) / pad * pad);
	if (total < sched::ARENA && raw + total <= ar.base + sched::ARENA) ar.used = (size_t)(raw + total - ar.base);
	else raw = (char *)__real_aligned_alloc(pad, total);
	if (raw == nullptr) return nullptr;
	memset(raw, 0xA7, total < (1 << 20) ? total : (1 << 20));
	uintptr_t lo = (uintptr_t)raw + pad;
	sched::Block b; b.lo = lo; b.hi = lo + n; b.end = (uintptr_t)raw + total; b.raw = raw; b.serial = w.serial++;
	w.blocks[(uintptr_t)raw] = b;
	return (void *)lo;
}
void *__wrap_malloc(size_t n) { return sched::W().tracking ? schedAlloc(16, n) : __real_malloc(n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return sched::W().tracking ? schedAlloc(a < 16 ? 16 : a, n) : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { *p = __wrap_aligned_alloc(a, n); return *p == nullptr ? ENOMEM : 0; }
void *__wrap_calloc(size_t a, size_t b) {
	if (!sched::W().tracking) return __real_calloc(a, b);
	void *p = schedAlloc(16, a * b); if (p != nullptr) memset(p, 0, a * b); return p;
}
void __wrap_free(void *p) {
	if (p == nullptr) return;
	sched::World &w = sched::W();
	if (w.running && w.cur >= 0) sched::count();
	auto it = w.blocks.upper_bound((uintptr_t)p);
	if (it != w.blocks.begin()) {
		--it; sched::Block &b = it->second;
		if ((uintptr_t)p == b.lo) {
			if (b.freed) pbt::fail("memory released twice (block of %zu bytes, first by thread %d, now by thread %d)", (size_t)(b.hi - b.lo), b.by, w.cur);
			b.freed = true; b.when = w.steps; b.by = w.running ? w.cur : -1;
			return;
		}
		if ((uintptr_t)p > b.lo && (uintptr_t)p < b.hi) pbt::fail("the inside of a heap block was released");
	}
	__real_free(p);
}
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { sched::yield(); return __real_fread(b, s, n, f); }
int __wrap_fseek(FILE *f, long o, int wh) { sched::yield(); int r = __real_fseek(f, o, wh); sched::yield(); return r; }

// ---- the instrumentation's callbacks ---------------------------------------------------
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define SCHED_RW(n) \
	void __tsan_read##n(void *p) { sched::point(p, n, false, false); } \
	void __tsan_write##n(void *p) { sched::point(p, n, true, false); } \
	void __tsan_unaligned_read##n(void *p) { sched::point(p, n, false, false); } \
	void __tsan_unaligned_write##n(void *p) { sched::point(p, n, true, false); } \
	void __tsan_volatile_read##n(void *p) { sched::point(p, n, false, false); } \
	void __tsan_volatile_write##n(void *p) { sched::point(p, n, true, false); } \
	void __tsan_unaligned_volatile_read##n(void *p) { sched::point(p, n, false, false); } \
	void __tsan_unaligned_volatile_write##n(void *p) { sched::point(p, n, true, false); } \
	void __tsan_read_write##n(void *p) { sched::point(p, n, true, false); } \
	void __tsan_unaligned_read_write##n(void *p) { sched::point(p, n, true, false); }
SCHED_RW(1) SCHED_RW(2) SCHED_RW(4) SCHED_RW(8) SCHED_RW(16)
void __tsan_read_range(void *p, size_t n) { if (n != 0) sched::point(p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { if (n != 0) sched::point(p, n, true, false); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
	if (n > 8 && n <= 64 && n % 8 == 0) { // a structure is not copied in one piece
		for (size_t i = 0; i < n; i += 8) {
			uint64_t v; sched::point((const char *)s + i, 8, false, false); memcpy(&v, (const char *)s + i, 8);
			sched::point((char *)d + i, 8, true, false); memcpy((char *)d + i, &v, 8);
		}
		return d;
	}
	if (n != 0) { sched::point(s, n, false, false); sched::point(d, n, true, false); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) {
	if (n != 0) { sched::point(s, n, false, false); sched::point(d, n, true, false); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { if (n != 0) sched::point(d, n, true, false); return memset(d, v, n); }
#define SCHED_ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int) { sched::point(a, sizeof(T), false, true); return *(T *)a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int) { sched::point(a, sizeof(T), true, true); *(T *)a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { sched::point(a, sizeof(T), true, true); T o = *(T *)a; *(T *)a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { sched::point(a, sizeof(T), true, true); T o = *(T *)a; *(T *)a = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { sched::point(a, sizeof(T), true, true); T o = *(T *)a; *(T *)a = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { sched::point(a, sizeof(T), true, true); T o = *(T *)a; *(T *)a = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { sched::point(a, sizeof(T), true, true); T o = *(T *)a; *(T *)a = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { sched::point(a, sizeof(T), true, true); T o = *(T *)a; *(T *)a = o ^ v; return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
		sched::point(a, sizeof(T), false, true); T o = *(T *)a; \
		if (o == *c) { sched::checkTouch((uintptr_t)a, sizeof(T), true); *(T *)a = v; return 1; } *c = o; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int x, int y) { T o = c; __tsan_atomic##bits##_compare_exchange_strong(a, &o, v, x, y); return o; }
SCHED_ATOMIC(8, uint8_t) SCHED_ATOMIC(16, uint16_t) SCHED_ATOMIC(32, uint32_t) SCHED_ATOMIC(64, uint64_t)
SCHED_ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { sched::yield(); }
void __tsan_atomic_signal_fence(int) {}
bool sched__atomic_compare_exchange_16(volatile void *a, void *c, unsigned __int128 v, int, int) asm("__atomic_compare_exchange_16");
__attribute__((used)) bool sched__atomic_compare_exchange_16(volatile void *a, void *c, unsigned __int128 v, int, int) {
	sched::point(a, 16, false, true);
	unsigned __int128 o; memcpy(&o, (const void *)a, 16);
	if (memcmp(&o, c, 16) == 0) { sched::checkTouch((uintptr_t)a, 16, true); memcpy((void *)a, &v, 16); return true; }
	memcpy(c, &o, 16); return false;
}
bool sched__atomic_compare_exchange(size_t n, volatile void *a, void *c, void *v, int, int) asm("__atomic_compare_exchange");
__attribute__((used)) bool sched__atomic_compare_exchange(size_t n, volatile void *a, void *c, void *v, int, int) {
	sched::point(a, n, false, true);
	if (memcmp((const void *)a, c, n) == 0) { sched::checkTouch((uintptr_t)a, n, true); memcpy((void *)a, v, n); return true; }
	memcpy(c, (const void *)a, n); return false;
}
unsigned __int128 sched__atomic_load_16(const volatile void *a, int) asm("__atomic_load_16");
__attribute__((used)) unsigned __int128 sched__atomic_load_16(const volatile void *a, int) { sched::point(a, 16, false, true); unsigned __int128 o; memcpy(&o, (const void *)a, 16); return o; }
}
