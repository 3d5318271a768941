// C09: timers fire no earlier than due, once per due period per round, until deleted or disabled.
// step() mode: the rounds are driven here, so every due tick has to be served by the next round
// (real-time slack only for the kernel's own timer).  loop() mode: counts over a window.
#include <cy_core.h>
#include <cy_event.h>
#include "vh.h"
#include <memory>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
using namespace cyclone;
static int64_t now_us() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (int64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000; }
struct Model;
struct Timer {
	Model* m; unsigned no; uint32_t ms; Looper::event_id_t id; int64_t a, b;	// registration began / ended
	bool alive = true, on = true; int64_t upto = 0; uint64_t fired = 0; uint64_t round = 0, reg_round = 0; int64_t lastfire = 0; bool saw_off = false; int64_t end = 0;
	uint64_t due(int64_t t, int64_t slack) const { t -= slack; return t <= b ? 0 : (uint64_t)((t - b) / (ms * 1000ll)); }	// surely expired by t
	uint64_t maxdue(int64_t t) const { return t <= a ? 0 : (uint64_t)((t - a) / (ms * 1000ll)); }							// possibly expired by t
	uint64_t covered = 0;	// expirations known to be served (merged ones included): lower bound
};
struct Act { int kind; unsigned at; };	// what a callback does at its at-th firing
struct Model {
	vh::Ctx& c; Looper* L; std::vector<std::unique_ptr<Timer>> ts; std::string err, soft; unsigned changes = 0, calls = 0, incb = 0; uint64_t round = 1; bool in_step = false; int64_t total = 0; bool stepping; int64_t stall = 0;
	Model(vh::Ctx& c_, bool st) : c(c_), L(Looper::create_looper()), stepping(st) {}
	~Model() { for (auto& t : ts) if (t->alive) L->delete_event(t->id); Looper::destroy_looper(L); }
	void bad(std::string s) { if (err.empty()) err = s; }
	Timer* any() { std::vector<Timer*> v; for (auto& t : ts) if (t->alive) v.push_back(t.get()); return v.empty() ? nullptr : v[c.below(v.size())]; }
	void add(bool longp) {
		std::unique_ptr<Timer> t(new Timer); Timer* p = t.get(); t->m = this; t->no = (unsigned)ts.size(); ts.push_back(std::move(t));
		p->ms = longp && c.chance(1, 3) ? (uint32_t)c.pick({ 999, 1000, 1001, 1250, 1999, 2000 }) : c.chance(1, 5) ? (uint32_t)c.range(30, 400) : (uint32_t)c.range(1, 30); unsigned style = (unsigned)c.below(3); uint64_t tag = 0x1234567800ull + p->no;
		p->reg_round = in_step ? round : 0; p->a = now_us();
		Looper::timer_callback cb; std::string pad = "state of the callback"; if (style) cb = [this, p, tag, pad](Looper::event_id_t id, void* x) { if (tag != 0x1234567800ull + p->no || pad != "state of the callback") bad("callback state destroyed"); fire(p, id, x); }; else cb = [p](Looper::event_id_t id, void* x) { p->m->fire(p, id, x); };
		p->id = L->register_timer_event(p->ms, p, cb); p->b = now_us();
		if (p->id == Looper::INVALID_EVENT_ID) { bad("no timer"); p->alive = false; return; }
		for (auto& o : ts) if (o.get() != p && o->alive && o->id == p->id) bad(vh::sfmt("two live timers share id %u", p->id));
		if (!L->is_read(p->id)) bad("a new timer is not enabled");
		changes++;
	}
	void del(Timer* t) { t->end = now_us(); t->alive = false; t->on = false; L->delete_event(t->id); changes++; }
	void off(Timer* t) { t->on = false; t->saw_off = true; L->disable_read(t->id); if (L->is_read(t->id)) bad("a disabled timer is still enabled"); changes++; }
	void on(Timer* t) { L->enable_read(t->id); t->on = true; if (!L->is_read(t->id)) bad("an enabled timer is not enabled"); changes++; }
	void change(Timer* self) {
		switch (c.weighted({ 3, 3, 2, 2, 1 })) {
		case 0: if (ts.size() < 24) add(false); break;
		case 1: if (Timer* t = self && c.chance(1, 2) ? self : any()) if (t->alive) del(t); break;
		case 2: if (Timer* t = self && c.chance(1, 2) ? self : any()) if (t->alive && t->on) off(t); break;
		case 3: { std::vector<Timer*> v; for (auto& t : ts) if (t->alive && !t->on) v.push_back(t.get()); if (v.size()) on(v[c.below(v.size())]); break; }
		default: { int64_t x = now_us(); usleep((useconds_t)c.range(200, 4000)); stall += now_us() - x; break; }
		}
	}
	void fire(Timer* t, Looper::event_id_t id, void* x) {
		int64_t now = now_us(); calls++;
		if (x != t) bad("wrong parameter"); if (id != t->id) bad("wrong id");
		if (L->get_thread_id() != sys_api::thread_get_current_id()) bad("wrong thread");
		if (!t->alive) { bad(vh::sfmt("timer %u (%u ms) fired after it was deleted", t->no, t->ms)); return; }
		if (!t->on) { bad(vh::sfmt("timer %u (%u ms) fired while disabled", t->no, t->ms)); return; }
		t->fired++; t->lastfire = now;
		if (t->fired > t->maxdue(now)) bad(vh::sfmt("timer %u of %u ms fired %llu times within %lld us", t->no, t->ms, (unsigned long long)t->fired, (long long)(now - t->a)));
		if (stepping && t->round == round) bad("a timer fired twice in one round"); t->round = round;
		t->covered = t->maxdue(now);
		if (!done() && c.chance(1, 6) && changes < 60) { incb++; change(t); }
	}
	int64_t endtime = 0; bool done() { return now_us() >= endtime; }
};
// rounds are driven by the harness
VH_PROP(rounds, 900, 20000, 60000, false, 24)
{
	Model m(c, true); bool lng = c.chance(1, 60); m.endtime = now_us() + (lng ? 2300000 : (int64_t)c.range(15000, 90000)); unsigned n = (unsigned)c.range(1, 8); while (n--) m.add(lng);
	uint64_t served = 0, merged = 0; unsigned gap = (unsigned)c.pick({ 200, 700, 2000, 6000 });
	while (!m.done() && m.err.empty() && m.soft.empty()) {
		struct Want { Timer* t; uint64_t fired; }; std::vector<Want> w; int64_t a = now_us();
		for (auto& t : m.ts) if (t->alive && t->on) { uint64_t d = t->due(a, 8000); if (d > t->covered) { w.push_back({ t.get(), t->fired }); if (d > t->covered + 1) merged++; } }
		m.in_step = true; m.L->step(); m.in_step = false;
		for (auto& x : w) { if (x.t->fired > x.fired) served++; else if (x.t->alive && x.t->on && m.soft.empty()) m.soft = vh::sfmt("timer %u of %u ms: %llu firings, %lld us after its registration; due but not served by a round", x.t->no, x.t->ms, (unsigned long long)x.t->fired, (long long)(a - x.t->b)); }
		m.round++;
		if (c.chance(1, 8) && m.changes < 60 && !m.done()) m.change(nullptr);
		usleep(gap);
	}
	if (!m.err.empty()) c.fail("%s", m.err.c_str()); if (!m.soft.empty()) c.soft_fail("%s", m.soft.c_str());
	c.note("timers=%zu rounds=%llu firings=%u late-by-a-round=%llu merged=%llu changes=%u (in callbacks %u)", m.ts.size(), (unsigned long long)m.round, m.calls, (unsigned long long)served, (unsigned long long)merged, m.changes, m.incb);
	if (m.calls > 3 && m.changes > 2) c.nontrivial(); if (m.incb) c.label("changed in callbacks"); if (merged) c.label("several periods passed between rounds");
}
// the loop waits by itself: counts over a window
VH_PROP(looping, 900, 20000, 60000, false, 24)
{
	Model m(c, false); bool lng = c.chance(1, 60); m.endtime = now_us() + (lng ? 2300000 : (int64_t)c.range(20000, 120000)); unsigned n = (unsigned)c.range(1, 8); while (n--) m.add(lng);
	// a helper thread ends the loop; other events (pipe traffic) run beside the timers
	Pipe pipe; unsigned noise = 0; Looper::event_id_t pe = m.L->register_event(pipe.get_read_port(), Looper::kRead, nullptr, [&](Looper::event_id_t, socket_t, Looper::event_t, void*) { char b[64]; pipe.read(b, 64); noise++; }, nullptr);
	std::atomic<bool> quit(false); unsigned every = (unsigned)c.pick({ 0, 300, 2000 });
	thread_t h = sys_api::thread_create([&](void*) { while (now_us() < m.endtime + 3000) { usleep(every ? every : 3000); if (every) pipe.write("x", 1); } m.L->push_stop_request(); quit = true; }, nullptr, "stop");
	m.L->loop(); sys_api::thread_join(h); int64_t now = now_us(); m.L->delete_event(pe);
	if (!m.err.empty()) c.fail("%s", m.err.c_str());
	c.note("timers=%zu firings=%u noise=%u changes=%u (in callbacks %u) stalls=%lld us", m.ts.size(), m.calls, noise, m.changes, m.incb, (long long)m.stall);
	if (m.calls > 3 && m.changes > 2) c.nontrivial(); if (m.incb) c.label("changed in callbacks");
	int64_t over = now - m.endtime; 
	for (auto& t : m.ts) if (!t->saw_off) {
		int64_t e = t->alive ? std::min(now, m.endtime) : t->end; int64_t span = e - t->b - m.stall - 8000 - (over > 20000 ? over : 0); uint64_t want = span <= 0 ? 0 : (uint64_t)(span / (t->ms * 1000ll));
		if (t->ms < 4) want = want / 2; else if (t->ms < 20) want = want * 4 / 5;	// late rounds merge ticks
		if (t->fired < want) c.soft_fail("timer %u of %u ms fired %llu times in %lld us", t->no, t->ms, (unsigned long long)t->fired, (long long)(e - t->b));
	}
}
int main(int argc, char** argv)
{
	vh::property_id = "C09";
	vh::nontrivial_rule = "up to 24 timers (1..2000 ms) added, deleted, disabled and re-enabled from callbacks and between rounds; non-trivial = >3 firings and >2 changes";
	vh::assumptions = { "lateness bounds (8 ms slack) count only when they reproduce" };
	return vh::main(argc, argv);
}
