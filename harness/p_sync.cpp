// C11: signals (auto-reset events), mutexes and threads.
#include <cy_core.h>
#include "vh.h"
#ifdef SCHED
#include "vsched.h"
#define YIELD() vsched::yield()
#else
#define YIELD() sys_api::thread_yield()
#endif
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <mutex>
#include <set>
#include <memory>
using namespace cyclone;
using sys_api::signal_t;
using sys_api::mutex_t;

static int64_t now_us() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (int64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000; }
static std::atomic<uint64_t> g_tick(1);
enum { NOTIFY, WAIT, TWAIT };
struct Op { int kind; int ms; bool ok; uint64_t t0, t1; int64_t us; };
// is the history of a two-state event linearizable?  (small histories only)
static bool lin(const std::vector<Op>& h)
{
	std::set<std::pair<uint32_t, bool>> seen; std::vector<std::pair<uint32_t, bool>> st; st.push_back({ 0, false });
	uint32_t all = h.size() == 32 ? ~0u : ((1u << h.size()) - 1);
	while (!st.empty()) {
		auto s = st.back(); st.pop_back(); if (!seen.insert(s).second) continue; if (s.first == all) return true;
		uint64_t minend = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!(s.first >> i & 1)) minend = std::min(minend, h[i].t1);
		for (size_t i = 0; i < h.size(); i++) {
			if ((s.first >> i & 1) || h[i].t0 > minend) continue; bool lit = s.second;
			if (h[i].kind == NOTIFY) lit = true; else if (h[i].ok) { if (!lit) continue; lit = false; } else if (lit) continue;
			st.push_back({ s.first | (1u << i), lit });
		}
	}
	return false;
}
static void do_op(signal_t s, Op& o)
{
	o.t0 = g_tick++; int64_t a = now_us();
	if (o.kind == NOTIFY) { sys_api::signal_notify(s); o.ok = true; } else if (o.kind == WAIT) { sys_api::signal_wait(s); o.ok = true; } else o.ok = sys_api::signal_timewait(s, o.ms);
	o.us = now_us() - a; o.t1 = g_tick++;
}
#ifdef SCHED
static vsched::Params sched(vh::Ctx& c) { vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 2, 4, 8, 20, 60 }); sp.freeze_den = (unsigned)c.pick({ 0, 2, 4, 8 }); return sp; }
#define BEGIN vsched::begin(sched(c))
#define END() vsched::end()
#define ISOLATE true
#define N_(a, b) a
#define J 0
#else
#define BEGIN (void)0
#define END() (void)0
#define ISOLATE false
#define N_(a, b) b
#define J 4
#endif

// every result of concurrent notify / wait / timed wait is explained by a two-state event
VH_PROP(signal_history, N_(40000, 3000), N_(600000, 40000), 60000, ISOLATE, J)
{
	unsigned T = (unsigned)c.range(2, 4); std::vector<std::vector<Op>> ops(T); unsigned total = 0; bool zero = c.chance(1, 2);
	for (unsigned i = 0; i < T; i++) { unsigned n = (unsigned)c.range(1, 5); bool notifier = i == 0 || c.chance(1, 3); for (unsigned k = 0; k < n; k++) { Op o; o.kind = notifier ? NOTIFY : (c.chance(1, 5) ? WAIT : TWAIT); o.ms = zero ? 0 : (int)c.pick({ 0, 0, 1, 2, 20 }); ops[i].push_back(o); total++; } }
	BEGIN;
	signal_t s = sys_api::signal_create(); std::atomic<unsigned> left(T); std::vector<thread_t> ts;
	for (unsigned i = 0; i < T; i++) ts.push_back(sys_api::thread_create([&, i](void*) { for (auto& o : ops[i]) do_op(s, o); left--; }, nullptr, "t"));
	// blocked waiters get extra notifications, one at a time, until all are through
	std::vector<Op> extra;
	while (left) { YIELD(); if (total + extra.size() < 30 && c.chance(1, 4)) { Op o; o.kind = NOTIFY; do_op(s, o); extra.push_back(o); } else if (total + extra.size() >= 30) { sys_api::signal_notify(s); }
#ifndef SCHED
		usleep(200);
#endif
	}
	for (auto t : ts) sys_api::thread_join(t);
	bool overflow = total + extra.size() >= 30; bool lit = sys_api::signal_timewait(s, 0), again = sys_api::signal_timewait(s, 0);
	sys_api::signal_destroy(s); END();
	std::vector<Op> h; unsigned ok = 0, no = 0; for (auto& v : ops) for (auto& o : v) { h.push_back(o); if (o.kind != NOTIFY) { if (o.ok) ok++; else no++; } } for (auto& o : extra) h.push_back(o);
	c.note("threads=%u ops=%u extra=%zu consumed=%u timeouts=%u", T, total, extra.size(), ok, no);
	if (ok && no) c.nontrivial(); if (no) c.label("timed out"); (void)lit;
	VH_CHECK(c, !again, "one notification was consumed twice");
	for (auto& o : h) if (o.kind == TWAIT && !o.ok) VH_CHECK(c, o.us >= o.ms * 1000 - 1000, "timed wait of %d ms gave up after %lld us", o.ms, (long long)o.us);
	if (!overflow) {
		Op f; f.kind = TWAIT; f.ok = lit; f.t0 = g_tick++; f.t1 = g_tick++; h.push_back(f);
		if (!lin(h)) { std::string d; for (auto& o : h) d += vh::sfmt(" [%llu-%llu %s%s]", (unsigned long long)o.t0, (unsigned long long)o.t1, o.kind == NOTIFY ? "notify" : o.kind == WAIT ? "wait" : "timewait", o.kind == NOTIFY ? "" : o.ok ? "=1" : "=0"); c.fail("no order of the operations explains the results:%s", d.c_str()); }
	}
}
// a notification always releases a waiter
VH_PROP(signal_handshake, N_(25000, 2000), N_(400000, 30000), 60000, ISOLATE, J)
{
	unsigned W = (unsigned)c.range(1, 3), n = (unsigned)c.range(1, 12); unsigned style = (unsigned)c.below(3); std::atomic<unsigned> got(0), quit(0); unsigned delay = (unsigned)c.below(10); int wait_ms = (int)c.pick({ 30000, 30999, 12345 });
	BEGIN;
	signal_t s = sys_api::signal_create(); std::vector<thread_t> ts; std::atomic<unsigned> left(W);
	for (unsigned i = 0; i < W; i++) ts.push_back(sys_api::thread_create([&](void*) { for (;;) { if (style == 1) { if (!sys_api::signal_timewait(s, wait_ms)) continue; } else if (style == 2) { if (!sys_api::signal_timewait(s, 0)) { if (quit) break; YIELD(); continue; } } else sys_api::signal_wait(s); if (quit) break; got++; } left--; }, nullptr, "w"));
	for (unsigned i = 1; i <= n; i++) {
		for (unsigned k = 0; k < delay; k++) YIELD();
		sys_api::signal_notify(s); 
#ifdef SCHED
		vsched::wait_until([&] { return got >= i; }, "a waiter consumes the notification");
#else
		int64_t t0 = now_us(); while (got < i) { if (now_us() - t0 > 6000000) c.soft_fail("notification %u was not consumed by any of %u waiters", i, W); YIELD(); }
#endif
		VH_CHECK(c, got == i, "%u notifications released %u waits", i, got.load());
	}
	quit = 1; while (left) { sys_api::signal_notify(s); YIELD(); }
	for (auto t : ts) sys_api::thread_join(t);
	unsigned g = got; sys_api::signal_destroy(s); END();
	c.note("waiters=%u notifications=%u style=%u", W, n, style); if (n > 2) c.nontrivial();
	VH_CHECK(c, g == n, "%u notifications released %u waits", n, g);
}
struct Hold { uint64_t t0, t1, lock_call; int who; };
VH_PROP(mutexes, N_(25000, 2000), N_(400000, 30000), 60000, ISOLATE, J)
{
	unsigned T = (unsigned)c.range(2, 4); struct M { int kind, ms; unsigned len; bool ok; uint64_t t0, t1, r0, r1; int64_t us; }; std::vector<std::vector<M>> ops(T); unsigned shared = 0, want = 0; std::atomic<int> inside(0); std::atomic<bool> two(false);
	for (unsigned i = 0; i < T; i++) { unsigned n = (unsigned)c.range(1, 8); while (n--) { M m; m.kind = (int)c.weighted({ 3, 2, 3, 1 }); m.ms = (int)c.pick({ 1, 2, 5, 999, 30000, 30999 }); m.len = (unsigned)c.below(6); ops[i].push_back(m); } }
	BEGIN;
	sys_api::mutex_t mx = sys_api::mutex_create(); std::vector<thread_t> ts;
	for (unsigned i = 0; i < T; i++) ts.push_back(sys_api::thread_create([&, i](void*) {
		for (auto& m : ops[i]) {
			m.t0 = g_tick++; int64_t a = now_us(); std::unique_ptr<sys_api::auto_mutex> am;
			switch (m.kind) { case 0: sys_api::mutex_lock(mx); m.ok = true; break; case 1: m.ok = sys_api::mutex_try_lock(mx, 0); break; case 2: m.ok = sys_api::mutex_try_lock(mx, m.ms); break; default: am.reset(new sys_api::auto_mutex(mx)); m.ok = true; }
			m.us = now_us() - a; m.t1 = g_tick++; m.r0 = m.r1 = 0;
			if (!m.ok) { YIELD(); continue; }
			if (inside++) two = true;
			unsigned v = *(volatile unsigned*)&shared; for (unsigned k = 0; k < m.len; k++) YIELD(); *(volatile unsigned*)&shared = v + 1;
			inside--;
			m.r0 = g_tick++; if (am) am.reset(); else sys_api::mutex_unlock(mx); m.r1 = g_tick++;
		}
	}, nullptr, "t"));
	for (auto t : ts) sys_api::thread_join(t);
	bool free_ = sys_api::mutex_try_lock(mx, 0); if (free_) sys_api::mutex_unlock(mx);
	sys_api::mutex_destroy(mx); END();
	unsigned fails = 0; for (auto& v : ops) for (auto& m : v) { if (m.ok) want++; else fails++; }
	c.note("threads=%u acquisitions=%u failed tries=%u", T, want, fails); if (fails || T > 2) c.nontrivial(); if (fails) c.label("try failed");
	VH_CHECK(c, !two && shared == want, "critical sections overlapped: %u of %u increments survived", shared, want);
	VH_CHECK(c, free_, "the mutex is still held after every owner released it");
	for (unsigned i = 0; i < T; i++) for (auto& m : ops[i]) if (!m.ok) {
		if (m.kind == 2) VH_CHECK(c, m.us >= m.ms * 1000 - 1000, "try_lock for %d ms gave up after %lld us", m.ms, (long long)m.us);
		bool busy = false; for (unsigned j = 0; j < T; j++) if (j != i) for (auto& o : ops[j]) if (o.ok && o.t0 < m.t1 && o.r1 > m.t0) busy = true;
		VH_CHECK(c, busy, "try_lock failed although nobody held the mutex during the call");
	}
}
VH_PROP(threads, N_(20000, 2000), N_(300000, 30000), 60000, ISOLATE, J)
{
	unsigned T = (unsigned)c.range(1, 5); struct Th { bool detached; unsigned len; int join_ms; thread_t h; std::atomic<unsigned> ran{ 0 }, done{ 0 }, go{ 0 }; std::string err; thread_id_t id; void* param; unsigned tries = 0; bool gate; int sleep; }; std::vector<std::unique_ptr<Th>> ts; unsigned timeouts = 0; std::string err;
	for (unsigned i = 0; i < T; i++) { ts.emplace_back(new Th); auto& t = *ts.back(); t.detached = c.chance(1, 4); t.len = (unsigned)c.below(12); t.join_ms = (int)c.pick({ -1, -1, 0, 1, 3 }); t.gate = t.join_ms >= 0 && c.chance(1, 2); t.sleep = c.chance(1, 8) ? (int)c.range(1, 3) : 0; }
	BEGIN;
	for (unsigned i = 0; i < T; i++) {
		Th* t = ts[i].get(); std::string name = vh::sfmt("name-%u", i);
		auto fn = [t, name](void* p) {
			t->ran++; t->param = p; t->id = sys_api::thread_get_current_id(); if (name != sys_api::thread_get_current_name()) t->err = "wrong thread name";
			for (unsigned k = 0; k < t->len; k++) YIELD(); while (t->gate && !t->go) YIELD();
			if (t->sleep) { int64_t a = now_us(); sys_api::thread_sleep(t->sleep); if (now_us() - a < t->sleep * 1000) t->err = "slept too little"; }
			t->done = 1;
		};
		if (t->detached) { sys_api::thread_create_detached(fn, t, name.c_str()); t->h = nullptr; } else t->h = sys_api::thread_create(fn, t, name.c_str());
	}
	for (auto& p : ts) {
		Th& t = *p;
		if (t.detached) { t.go = 1; while (!t.done) YIELD(); continue; }
		thread_id_t id = sys_api::thread_get_id(t.h);
		if (t.gate && t.join_ms >= 0) { int64_t a = now_us(); bool r = sys_api::thread_join(t.h, t.join_ms); if (r) { err = "a timed join succeeded on a running thread"; } else { timeouts++; if (now_us() - a < t.join_ms * 1000 - 1000) err = vh::sfmt("a join of %d ms gave up early", t.join_ms); } if (r) continue; }
		t.go = 1;
		if (t.join_ms < 0) sys_api::thread_join(t.h); else while (!sys_api::thread_join(t.h, t.join_ms)) { t.tries++; YIELD(); }
		if (!t.done) err = "join returned before the thread function finished";
		if (id != t.id) err = "thread_get_id differs from the id inside the thread";
	}
#ifdef SCHED
	for (int i = 0; i < 30; i++) YIELD();
#else
	if (T) usleep(300);		// let detached threads end
#endif
	END();
	c.note("threads=%u timed-out joins=%u", T, timeouts); if (timeouts || T > 2) c.nontrivial();
	if (!err.empty()) c.fail("%s", err.c_str());
	for (auto& t : ts) { VH_CHECK(c, t->err.empty(), "%s", t->err.c_str()); VH_CHECK(c, t->ran == 1 && t->done == 1 && t->param == t.get(), "the thread function ran %u times, parameter %s", t->ran.load(), t->param == t.get() ? "right" : "wrong"); }
}
int main(int argc, char** argv)
{
	vh::property_id = "C11";
	vh::nontrivial_rule = "signal histories with hits and time-outs; handshakes of >2 notifications; mutex histories with failed tries or >2 threads; thread sets with timed-out joins or >2 threads";
	vh::assumptions = { "under the scheduler, interleavings are explored under sequential consistency; condition waits may return spuriously" };
	return vh::main(argc, argv);
}
