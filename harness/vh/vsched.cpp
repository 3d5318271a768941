#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "vsched.h"
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <poll.h>
#include <fcntl.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <linux/futex.h>

// ============================================================ allocator (bump, never reuses)
static const size_t ARENA = 16ull << 30;
static const uintptr_t ARENA_BASE = 0x610000000000ull;
static uint8_t* const arena = (uint8_t*)ARENA_BASE;
static uint8_t* shadow;				// one byte per 16 bytes: 1 = freed
static volatile size_t arena_top;
static volatile int arena_ready;
static void arena_init()
{
	if (arena_ready) return;
	void* p = mmap(arena, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	void* s = mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED || s == MAP_FAILED) { static const char m[] = "arena mmap failed\n"; if (write(2, m, sizeof(m) - 1)) {} _exit(3); }
	shadow = (uint8_t*)s; arena_top = 4096; arena_ready = 1;
}
static inline bool in_arena(const void* p) { return (uintptr_t)p - ARENA_BASE < ARENA; }
static void* arena_alloc(size_t n, size_t align)
{
	arena_init();
	if (align < 16) align = 16;
	size_t need = 16 + ((n + 15) & ~(size_t)15) + align;
	size_t off = __sync_fetch_and_add(&arena_top, need);
	if (off + need > ARENA) { errno = ENOMEM; return nullptr; }
	uintptr_t a = ARENA_BASE + off + 16;
	a = (a + align - 1) & ~(uintptr_t)(align - 1);
	((size_t*)a)[-1] = n; ((size_t*)a)[-2] = 0xA110Cull;
	return (void*)a;
}
static void fatal_access(const char* what, const void* addr, void* pc);
static thread_local int in_rt;
extern "C" {
void* malloc(size_t n) { return arena_alloc(n, 16); }
void free(void* p)
{
	if (!p) return;
	if (!in_arena(p)) return;
	size_t* h = (size_t*)p;
	if (h[-2] == 0xF4EEDull) { fatal_access("double free", p, __builtin_return_address(0)); return; }
	if (h[-2] != 0xA110Cull) return;
	h[-2] = 0xF4EEDull;
	size_t n = h[-1];
	memset(p, 0xDD, n);
	memset(shadow + ((uintptr_t)p - ARENA_BASE) / 16, 1, (n + 15) / 16);
	// give the pages of big blocks back, they are never reused
	if (n >= (1u << 16)) { uintptr_t a = ((uintptr_t)p + 4095) & ~4095ull, e = ((uintptr_t)p + n) & ~4095ull; if (e > a) madvise((void*)a, e - a, MADV_DONTNEED); }
}
void* calloc(size_t a, size_t b) { size_t n = a * b; void* p = arena_alloc(n, 16); return p; /* fresh mmap pages are zero */ }
void* realloc(void* p, size_t n)
{
	if (!p) return malloc(n);
	size_t o = ((size_t*)p)[-1];
	void* q = malloc(n); if (!q) return q;
	memcpy(q, p, o < n ? o : n); free(p); return q;
}
void* memalign(size_t al, size_t n) { return arena_alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al); }
int posix_memalign(void** r, size_t al, size_t n) { *r = arena_alloc(n, al); return *r ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p ? ((size_t*)p)[-1] : 0; }
}

// ============================================================ scheduler
namespace {
struct Th {
	int id;
	volatile int go;
	volatile bool finished, used;
	volatile bool blocked;
	const char* where;
	uint64_t frozen_until;
	double deadline;		// 0: none (blocked without a timeout)
	pthread_t tid;
	void*(*fn)(void*); void* arg;
};
const int MAXT = 128;
Th th[MAXT];
volatile int nth;
volatile bool g_active;
Th* volatile cur;
thread_local Th* self;
uint64_t g_steps, g_switches, g_idle_rounds;
int64_t countdown;
vh::Rng rng;
vsched::Params P;
double last_progress;
bool stuck_hard = false;

double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
void futex_wait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

int64_t next_gap()
{
	// geometric with mean P.mean
	uint64_t m = P.mean; if (m < 1) m = 1;
	double u = (double)((rng.next() >> 11) + 1) / 9007199254740993.0;
	double g = -(double)m * __builtin_log(u);
	return (int64_t)g + 1;
}
void wait_go()
{
	Th* s = self;
	while (!s->go) futex_wait(&s->go, 0);
	s->go = 0;
	__sync_synchronize();
}
void hand_to(Th* t)	// pass the token without waiting
{
	cur = t; g_switches++;
	__sync_synchronize();
	t->go = 1; futex_wake(&t->go);
}
void switch_to(Th* t)
{
	if (t == self) return;
	hand_to(t); wait_go();
}
// a runnable thread other than self; prefers thawed ones. nullptr if none.
// retry: blocked threads are candidates too (they re-try their call)
Th* pick(bool retry)
{
	Th* c[MAXT]; int n = 0; Th* f[MAXT]; int nf = 0;
	for (int i = 0; i < nth; i++) {
		Th* t = &th[i];
		if (t->finished || t == self || (t->blocked && !retry)) continue;
		if (t->frozen_until > g_steps) f[nf++] = t; else c[n++] = t;
	}
	if (n) return c[rng.below((uint64_t)n)];
	if (nf) return f[rng.below((uint64_t)nf)];
	return nullptr;
}
void preempt()
{
	countdown = next_gap();
	if (P.freeze_den && rng.below(P.freeze_den) == 0) {
		static const unsigned len[] = { 100, 400, 2000, 10000, 60000 };
		self->frozen_until = g_steps + len[rng.below(5)];
	}
	Th* t = pick(rng.below(2) == 0);
	if (t) switch_to(t);
}
inline void step()
{
	g_steps++;
	if (--countdown <= 0) preempt();
}
inline bool on() { return g_active && self && !in_rt; }

[[noreturn]] void stuck(const char* extra)
{
	char b[3000]; int n = snprintf(b, sizeof(b), "stuck: every thread is blocked and nothing becomes ready%s:", extra);
	for (int i = 0; i < nth && n < 2800; i++) {
		if (th[i].finished) continue;
		n += snprintf(b + n, sizeof(b) - (size_t)n, "\n  thread %d: %s", th[i].id, th[i].where ? th[i].where : "?");
	}
	vh::die(!stuck_hard, b);
}

// called when self cannot proceed now; lets the others run, then returns to re-try
void block_round(const char* where, double deadline)
{
	Th* s = self;
	s->blocked = true; s->where = where; s->deadline = deadline;
	Th* t = pick(false);
	if (t && rng.below(3) == 0) t = pick(true);
	if (!t) {
		// nobody is runnable: let every blocked thread re-try in turn
		g_idle_rounds++;
		Th* n = nullptr;
		for (int k = 1; k <= nth; k++) { Th* q = &th[(s->id + k) % nth]; if (!q->finished) { n = q; break; } }
		if (n == s || n->id <= s->id) {	// completed a round
			double t1 = now();
			double dl = 0; for (int i = 0; i < nth; i++) if (!th[i].finished && th[i].deadline > dl) dl = th[i].deadline;
			double base = last_progress > dl ? last_progress : dl;
			if (t1 - base > P.idle_limit) stuck("");
			if (t1 - last_progress > 0.002) { struct timespec ts = { 0, 300000 }; syscall(SYS_nanosleep, &ts, nullptr); }
		}
		if (n != s) switch_to(n);
	} else switch_to(t);
	s->blocked = false;
}
void unblocked() { self->where = nullptr; self->deadline = 0; last_progress = now(); }

typedef int(*create_t)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
template<class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, ...) typedef ret(*name##_t)(__VA_ARGS__); static name##_t name##_r; if (!name##_r) { in_rt++; name##_r = real<name##_t>(#name); in_rt--; }

void* tramp(void* p)
{
	Th* t = (Th*)p;
	self = t;
	wait_go();
	void* r = t->fn(t->arg);
	in_rt++;
	if (g_active) {
		t->finished = true; t->where = nullptr;
		last_progress = now();
		Th* n = pick(false);
		if (!n) for (int i = 0; i < nth; i++) if (!th[i].finished) { n = &th[i]; break; }
		self = nullptr;
		if (n) hand_to(n);
	} else t->finished = true;
	in_rt--;
	return r;
}
}

namespace vsched {
bool active() { return g_active; }
uint64_t steps() { return g_steps; }
uint64_t tick() { static volatile uint64_t t; return __sync_add_and_fetch(&t, 1); }
uint64_t switches() { return g_switches; }
unsigned threads() { return (unsigned)nth; }
void set_stuck_is_hard(bool h) { stuck_hard = h; }
void begin(const Params& p)
{
	P = p; rng = vh::Rng(p.seed * 2654435761u + 17);
	nth = 1; memset((void*)&th[0], 0, sizeof(Th));
	th[0].id = 0; th[0].used = true; th[0].tid = pthread_self();
	self = &th[0]; cur = self; g_steps = g_switches = 0;
	countdown = next_gap(); last_progress = now();
	g_active = true;
}
void end() { g_active = false; }
void yield() { sched_yield(); }
void point() { if (on()) step(); }
void wait_until(const std::function<bool()>& pred, const char* what)
{
	if (!on()) { while (!pred()) usleep(100); return; }
	for (;;) {
		in_rt++; bool ok = pred(); in_rt--;
		if (ok) break;
		block_round(what, 0);
	}
	unblocked();
}
bool wait_for(const std::function<bool()>& pred, const char* what, double seconds)
{
	double dl = now() + seconds; bool ok;
	for (;;) {
		in_rt++; ok = pred(); in_rt--;
		if (ok || now() > dl) break;
		if (on()) block_round(what, dl); else usleep(100);
	}
	if (on()) unblocked();
	return ok;
}
}

static void fatal_access(const char* what, const void* addr, void* pc)
{
	in_rt++;
	void* bt[24]; int n = backtrace(bt, 24);
	char b[4000]; int k = snprintf(b, sizeof(b), "%s at %p (thread %d)", what, addr, self ? self->id : -1);
	// symbolize with addr2line, best effort
	char exe[512]; ssize_t el = readlink("/proc/self/exe", exe, sizeof(exe) - 1); if (el > 0) exe[el] = 0;
	FILE* m = fopen("/proc/self/maps", "r"); unsigned long base = 0; if (m) { if (fscanf(m, "%lx", &base) != 1) base = 0; fclose(m); }
	char cmd[2000]; int c = snprintf(cmd, sizeof(cmd), "addr2line -sCfpe %s", exe);
	c += snprintf(cmd + c, sizeof(cmd) - (size_t)c, " 0x%lx", (unsigned long)pc - base - 1);
	for (int i = 2; i < n && i < 14; i++) c += snprintf(cmd + c, sizeof(cmd) - (size_t)c, " 0x%lx", (unsigned long)bt[i] - base - 1);
	bool was = g_active; g_active = false;
	FILE* f = popen(cmd, "r");
	if (f) { char line[300]; while (fgets(line, sizeof(line), f) && k < 3500) { if (strstr(line, "??")) continue; k += snprintf(b + k, sizeof(b) - (size_t)k, "\n    %s", line); if (b[k - 1] == '\n') b[--k] = 0; } pclose(f); }
	(void)was;
	vh::die(false, b);
}

// ============================================================ __tsan_* runtime
static inline void access(const void* a, void* pc)
{
	if (in_arena(a) && shadow[((uintptr_t)a - ARENA_BASE) / 16]) { if (!in_rt) fatal_access("access to freed memory", a, pc); }
	if (on()) step();
}
static inline void access_range(const void* a, size_t n, void* pc)
{
	if (n && in_arena(a)) {
		const uint8_t* s = shadow + ((uintptr_t)a - ARENA_BASE) / 16; const uint8_t* e = shadow + ((uintptr_t)a - ARENA_BASE + n - 1) / 16;
		for (; s <= e; s++) if (*s) { if (!in_rt) fatal_access("access to freed memory (range)", a, pc); break; }
	}
	if (on()) step();
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void* a) { access(a, PC); } void __tsan_write##n(void* a) { access(a, PC); } \
void __tsan_unaligned_read##n(void* a) { access(a, PC); } void __tsan_unaligned_write##n(void* a) { access(a, PC); } \
void __tsan_read_write##n(void* a) { access(a, PC); } void __tsan_unaligned_read_write##n(void* a) { access(a, PC); } \
void __tsan_volatile_read##n(void* a) { access(a, PC); } void __tsan_volatile_write##n(void* a) { access(a, PC); } \
void __tsan_unaligned_volatile_read##n(void* a) { access(a, PC); } void __tsan_unaligned_volatile_write##n(void* a) { access(a, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access_range(a, n, PC); }
void __tsan_write_range(void* a, size_t n) { access_range(a, n, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, PC); }
void __tsan_vptr_read(void** a) { access(a, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access_range(s, n, PC); access_range(d, n, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access_range(s, n, PC); access_range(d, n, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, size_t n) { access_range(d, n, PC); return memset(d, v, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { access((const void*)a, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((const void*)a, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((const void*)a, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((const void*)a, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((const void*)a, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access((const void*)a, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access((const void*)a, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access((const void*)a, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { access((const void*)a, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access((const void*)a, PC); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access((const void*)a, PC); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access((const void*)a, PC); __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (on()) step(); }
void __tsan_atomic_signal_fence(int) {}

// ============================================================ blocking calls
int pthread_create(pthread_t* t, const pthread_attr_t* a, void*(*fn)(void*), void* arg)
{
	REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
	if (!on()) return pthread_create_r(t, a, fn, arg);
	if (nth >= MAXT) { vh::die(false, "harness: too many threads"); }
	Th* n = &th[nth];
	memset((void*)n, 0, sizeof(*n)); n->id = nth; n->used = true; n->fn = fn; n->arg = arg;
	in_rt++;
	int r = pthread_create_r(t, a, tramp, n);
	in_rt--;
	if (r == 0) { n->tid = *t; nth = nth + 1; }
	step();
	return r;
}
int pthread_join(pthread_t t, void** ret)
{
	REAL(int, pthread_join, pthread_t, void**);
	if (on()) {
		Th* k = nullptr; for (int i = nth - 1; i >= 0; i--) if (th[i].used && pthread_equal(th[i].tid, t)) { k = &th[i]; break; }
		if (k) { while (!k->finished) block_round("pthread_join", 0); unblocked(); }
	}
	in_rt++; int r = pthread_join_r(t, ret); in_rt--;
	return r;
}
int sched_yield(void)
{
	if (!on()) return (int)syscall(SYS_sched_yield);
	g_steps++;
	// when all the others are blocked let them re-try, our own progress may depend on it
	Th* t = pick(rng.below(2) == 0);
	if (!t) t = pick(true);
	if (t) switch_to(t);
	return 0;
}
static double ts2d(const struct timespec* ts, clockid_t c)
{
	struct timespec n; syscall(SYS_clock_gettime, c, &n);
	return now() + (double)(ts->tv_sec - n.tv_sec) + 1e-9 * (double)(ts->tv_nsec - n.tv_nsec);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
	REAL(int, pthread_mutex_lock, pthread_mutex_t*);
	if (in_arena(m) && shadow[((uintptr_t)m - ARENA_BASE) / 16] && !in_rt) fatal_access("locking a destroyed mutex", m, PC);
	if (!on()) return pthread_mutex_lock_r(m);
	step();
	bool waited = false; int r;
	while ((r = pthread_mutex_trylock(m)) == EBUSY) { waited = true; block_round("mutex_lock", 0); }
	if (waited) unblocked();
	return r;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
	REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
	if (!on()) return pthread_mutex_timedlock_r(m, ts);
	step();
	double dl = ts2d(ts, CLOCK_REALTIME); int r; bool waited = false;
	while ((r = pthread_mutex_trylock(m)) == EBUSY) { if (now() >= dl) { r = ETIMEDOUT; break; } waited = true; block_round("mutex_timedlock", dl); }
	if (waited) unblocked();
	return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
	if (in_arena(m) && shadow[((uintptr_t)m - ARENA_BASE) / 16] && !in_rt) fatal_access("unlocking a destroyed mutex", m, PC);
	int r = pthread_mutex_unlock_r(m);
	if (on()) step();
	return r;
}
struct CW { pthread_cond_t* c; Th* t; volatile bool sig, used; };
static CW cw[MAXT];
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, double dl)
{
	CW* w = &cw[self->id]; w->c = c; w->t = self; w->sig = false; w->used = true;
	pthread_mutex_unlock(m);
	int r = 0;
	bool spurious = P.spurious && rng.below(P.spurious) == 0;	// POSIX allows a wait to return without a signal
	while (!w->sig && !spurious) { if (dl > 0 && now() >= dl) { r = ETIMEDOUT; break; } block_round("cond_wait", dl); }
	w->used = false;
	unblocked();
	pthread_mutex_lock(m);
	return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
	if (!on()) return pthread_cond_wait_r(c, m);
	return cond_wait_impl(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
	if (!on()) return pthread_cond_timedwait_r(c, m, ts);
	return cond_wait_impl(c, m, ts2d(ts, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts)
{
	typedef int(*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
	static F r; if (!r) { in_rt++; r = real<F>("pthread_cond_clockwait"); in_rt--; }
	if (!on()) return r(c, m, ck, ts);
	return cond_wait_impl(c, m, ts2d(ts, ck));
}
int pthread_cond_signal(pthread_cond_t* c)
{
	REAL(int, pthread_cond_signal, pthread_cond_t*);
	if (!on()) return pthread_cond_signal_r(c);
	CW* l[MAXT]; int n = 0;
	for (int i = 0; i < MAXT; i++) if (cw[i].used && cw[i].c == c && !cw[i].sig) l[n++] = &cw[i];
	if (n) l[rng.below((uint64_t)n)]->sig = true;
	step();
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
	REAL(int, pthread_cond_broadcast, pthread_cond_t*);
	if (!on()) return pthread_cond_broadcast_r(c);
	for (int i = 0; i < MAXT; i++) if (cw[i].used && cw[i].c == c) cw[i].sig = true;
	step();
	return 0;
}
int pthread_once(pthread_once_t* o, void(*fn)(void))
{
	REAL(int, pthread_once, pthread_once_t*, void(*)(void));
	if (!on()) {
		volatile int* v0 = (volatile int*)o;
		if (*v0 == 2) return 0;
		return pthread_once_r(o, fn);
	}
	volatile int* v = (volatile int*)o;
	while (*v != 2) {
		if (*v == 0) { *v = 1; fn(); *v = 2; break; }
		block_round("pthread_once", 0);
	}
	return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
	volatile uint8_t* b = (volatile uint8_t*)g;
	for (;;) {
		if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
		if (__sync_bool_compare_and_swap(&b[1], 0, 1)) return 1;
		if (on()) block_round("static initialisation", 0); else syscall(SYS_sched_yield);
	}
}
void __cxa_guard_release(uint64_t* g) { volatile uint8_t* b = (volatile uint8_t*)g; __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE); b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { ((volatile uint8_t*)g)[1] = 0; }

static int sleep_until(double dl)
{
	while (now() < dl) block_round("sleep", dl);
	unblocked();
	return 0;
}
int nanosleep(const struct timespec* t, struct timespec* rem)
{
	if (!on()) return (int)syscall(SYS_nanosleep, t, rem);
	return sleep_until(now() + (double)t->tv_sec + 1e-9 * (double)t->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* rem)
{
	if (!on()) return syscall(SYS_clock_nanosleep, c, fl, t, rem) < 0 ? errno : 0;
	return sleep_until((fl & TIMER_ABSTIME) ? ts2d(t, c) : now() + (double)t->tv_sec + 1e-9 * (double)t->tv_nsec);
}
int usleep(useconds_t us)
{
	struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
	return nanosleep(&t, nullptr);
}
int epoll_wait(int ep, struct epoll_event* ev, int n, int timeout)
{
	REAL(int, epoll_wait, int, struct epoll_event*, int, int);
	if (!on()) return epoll_wait_r(ep, ev, n, timeout);
	step();
	double dl = timeout > 0 ? now() + timeout / 1000.0 : 0; bool waited = false; int r;
	for (;;) {
		r = epoll_wait_r(ep, ev, n, 0);
		if (r != 0 || timeout == 0) break;
		if (timeout > 0 && now() >= dl) break;
		waited = true; block_round("epoll_wait", dl);
	}
	if (waited) unblocked();
	return r;
}
int poll(struct pollfd* f, nfds_t n, int timeout)
{
	REAL(int, poll, struct pollfd*, nfds_t, int);
	if (!on()) return poll_r(f, n, timeout);
	step();
	double dl = timeout > 0 ? now() + timeout / 1000.0 : 0; bool waited = false; int r;
	for (;;) {
		r = poll_r(f, n, 0);
		if (r != 0 || timeout == 0) break;
		if (timeout > 0 && now() >= dl) break;
		waited = true; block_round("poll", dl);
	}
	if (waited) unblocked();
	return r;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv)
{
	typedef int(*F)(int, fd_set*, fd_set*, fd_set*, struct timeval*);
	static F fr; if (!fr) { in_rt++; fr = real<F>("select"); in_rt--; }
	if (!on()) return fr(n, r, w, e, tv);
	step();
	double dl = tv ? now() + (double)tv->tv_sec + 1e-6 * (double)tv->tv_usec : 0; bool waited = false; int k;
	fd_set r0, w0, e0; if (r) r0 = *r; if (w) w0 = *w; if (e) e0 = *e;
	for (;;) {
		struct timeval z = { 0,0 };
		if (r) *r = r0; if (w) *w = w0; if (e) *e = e0;
		k = fr(n, r, w, e, &z);
		if (k != 0) break;
		if (tv && now() >= dl) break;
		waited = true; block_round("select", dl);
	}
	if (waited) unblocked();
	return k;
}
#define PASS(ret, name, params, args) \
ret name params { typedef ret(*F)params; static F fr; if (!fr) { in_rt++; fr = real<F>(#name); in_rt--; } if (!on()) return fr args; step(); ret r_ = fr args; int e_ = errno; step(); errno = e_; return r_; }
PASS(ssize_t, read, (int fd, void* b, size_t n), (fd, b, n))
PASS(ssize_t, write, (int fd, const void* b, size_t n), (fd, b, n))
PASS(ssize_t, readv, (int fd, const struct iovec* v, int n), (fd, v, n))
PASS(ssize_t, writev, (int fd, const struct iovec* v, int n), (fd, v, n))
PASS(ssize_t, recv, (int fd, void* b, size_t n, int f), (fd, b, n, f))
PASS(ssize_t, send, (int fd, const void* b, size_t n, int f), (fd, b, n, f))
PASS(ssize_t, sendmsg, (int fd, const struct msghdr* m, int f), (fd, m, f))
PASS(ssize_t, recvmsg, (int fd, struct msghdr* m, int f), (fd, m, f))
PASS(int, close, (int fd), (fd))
PASS(int, shutdown, (int fd, int how), (fd, how))
PASS(int, epoll_ctl, (int ep, int op, int fd, struct epoll_event* ev), (ep, op, fd, ev))
PASS(int, accept4, (int fd, struct sockaddr* a, socklen_t* l, int f), (fd, a, l, f))
PASS(int, accept, (int fd, struct sockaddr* a, socklen_t* l), (fd, a, l))
PASS(int, connect, (int fd, const struct sockaddr* a, socklen_t l), (fd, a, l))
PASS(int, timerfd_settime, (int fd, int f, const struct itimerspec* n, struct itimerspec* o), (fd, f, n, o))
}
