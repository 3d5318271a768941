// C07 / C08: the event loop against a reference model.  The truth about readiness is asked from
// the kernel (poll) right before each round; the model knows every registration and interest.
// -DIN_CALLBACK: registrations also change inside callbacks (C08).
#include <cy_core.h>
#include <cy_event.h>
#include "vh.h"
#include <map>
#include <memory>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/resource.h>
using namespace cyclone;
#if CY_POLL_TECH == CY_POLL_SELECT
static const int FD_LIMIT = FD_SETSIZE;
#else
static const int FD_LIMIT = 1 << 30;
#endif

struct Model;
struct Fd { int a = -1, b = -1; int kind = 0; bool high = false; struct Chan* ch = nullptr; uint64_t drained[2] = { 0, 0 }; };
struct Chan {
	Model* m; Fd* f; int fd; unsigned gen; Looper::event_id_t id; bool on[2] = { false, false }; bool has[2]; bool alive = true;
	uint64_t called[2] = { 0, 0 }, touched[2] = { 0, 0 }; uint64_t reg_round = 0; unsigned missed[2] = { 0, 0 }; uint64_t total[2] = { 0, 0 }; uint64_t lc[2] = { 0, 0 };
};
// callbacks whose own state is inspected again after the registrations may have changed
template<class Base> struct CallT : Base {
	Chan* ch; uint64_t tag, own = 0;	// own: the callback counts its calls
	CallT(Chan* h, int d) : ch(h), tag((uint64_t)(uintptr_t)h * 2 + (uint64_t)d) {}
	void operator()(Looper::event_id_t id, socket_t fd, Looper::event_t ev, void* p);
	__attribute__((noinline)) bool intact(Chan* h, int d) { asm volatile("" ::: "memory"); return ch == h && tag == (uint64_t)(uintptr_t)h * 2 + (uint64_t)d; }
};
struct Empty {}; struct Pad { std::string s = "some state kept by the callback, on the heap"; };
typedef CallT<Empty> SmallCall; typedef CallT<Pad> BigCall;
struct Timer { Model* m; Looper::event_id_t id; bool alive = true; unsigned fired = 0; uint32_t ms; int64_t t0; };
struct TimerCall { Timer* t; uint64_t tag; unsigned own = 0; TimerCall(Timer* x) : t(x), tag((uint64_t)(uintptr_t)x + 1) {} void operator()(Looper::event_id_t id, void* p); __attribute__((noinline)) bool intact(Timer* x) { asm volatile("" ::: "memory"); return t == x && tag == (uint64_t)(uintptr_t)x + 1; } };
struct Model {
	vh::Ctx& c; Looper* L; std::vector<std::unique_ptr<Fd>> fds; std::vector<std::unique_ptr<Chan>> chans; std::vector<Chan*> live;
	unsigned gen = 0; uint64_t round = 1; std::string err; bool cb_ops; unsigned in_cb_changes = 0, in_cb_reg = 0, in_cb_del_other = 0, in_cb_del_self = 0, changes = 0, multi = 0, calls = 0, opsleft = 300;
	bool relaxed = false, in_dispatch = false; size_t maxfd;
	Model(vh::Ctx& c_, bool cb) : c(c_), L(Looper::create_looper()), cb_ops(cb) { maxfd = c.chance(1, 3) ? 45 : 10; }
	~Model() { for (auto* ch : live) if (ch->alive) L->delete_event(ch->id); for (auto* t : tlive) L->delete_event(t->id); Looper::destroy_looper(L); for (auto& f : fds) { if (f->a >= 0) close(f->a); if (f->b >= 0) close(f->b); } }
	void bad(const char* fmt, ...) { char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (err.empty()) err = b; }

	Fd* open_fd() {
		if (fds.size() >= maxfd) return nullptr;
		std::unique_ptr<Fd> f(new Fd); f->kind = (int)c.weighted({ 4, 1, 1 }); int p[2];
		if (f->kind == 0) { if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, p)) return nullptr; f->a = p[0]; f->b = p[1]; int s = 2048; setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &s, sizeof s); setsockopt(p[1], SOL_SOCKET, SO_SNDBUF, &s, sizeof s); }
		else { if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) return nullptr; fcntl(p[1], F_SETPIPE_SZ, 4096); f->a = f->kind == 1 ? p[0] : p[1]; f->b = f->kind == 1 ? p[1] : p[0]; }
		if (c.chance(1, 24)) { int h = fcntl(f->a, F_DUPFD_CLOEXEC, 1100); if (h >= 0) { close(f->a); f->a = h; f->high = true; } }
		fds.push_back(std::move(f)); return fds.back().get();
	}
	bool can(Fd* f, int d) { return f->kind == 0 || (f->kind == 1 && d == 0) || (f->kind == 2 && d == 1); }
	unsigned truth(Fd* f) {	// bit 0: readable, bit 1: writable
		pollfd p{ f->a, POLLIN | POLLOUT | POLLRDHUP, 0 }; poll(&p, 1, 0);
		unsigned r = 0; if (p.revents & (POLLIN | POLLHUP | POLLERR | POLLRDHUP)) r |= 1; if (p.revents & (POLLOUT | POLLERR)) r |= 2; return r;
	}
	Fd* any_fd(bool freeonly) { std::vector<Fd*> v; for (auto& f : fds) if (!freeonly || !f->ch) v.push_back(f.get()); return v.empty() ? nullptr : v[c.below(v.size())]; }
	void reg() {
		Fd* f = c.chance(1, 2) ? any_fd(true) : nullptr; if (!f) f = open_fd(); if (!f) f = any_fd(true); if (!f) return;
		std::unique_ptr<Chan> h(new Chan); Chan* ch = h.get(); ch->m = this; ch->f = f; ch->fd = f->a; ch->gen = ++gen; f->ch = ch;
		bool only = c.chance(1, 5);	// some events have one callback only
		ch->has[0] = can(f, 0); ch->has[1] = can(f, 1); if (f->kind == 0 && only) ch->has[c.below(2)] = false;
		unsigned want = (unsigned)c.below(4); Looper::event_t e = 0; 
		if ((want & 1) && ch->has[0]) e |= Looper::kRead; if ((want & 2) && ch->has[1]) e |= Looper::kWrite;
		bool refused = f->a >= FD_LIMIT; ch->reg_round = in_dispatch ? round : 0;
		ch->on[0] = (e & Looper::kRead) && !refused; ch->on[1] = (e & Looper::kWrite) && !refused;
		chans.push_back(std::move(h)); live.push_back(ch);
		Looper::event_callback cr, cw;
		bool big = c.chance(1, 2);
		for (int d = 0; d < 2; d++) if (ch->has[d]) { Looper::event_callback& cb = d ? cw : cr; if (big) cb = BigCall(ch, d); else cb = SmallCall(ch, d); }
		ch->id = L->register_event(f->a, e, ch, cr, cw);
		for (auto* o : live) if (o != ch && o->alive && o->id == ch->id) bad("register_event returned id %u which is in use", ch->id);
		if (in_dispatch) in_cb_reg++;
	}
	void del(Chan* ch, bool self) {
		ch->alive = false; ch->f->ch = nullptr; ch->on[0] = ch->on[1] = false; L->delete_event(ch->id);
		for (size_t i = 0; i < live.size(); i++) if (live[i] == ch) { live.erase(live.begin() + (long)i); break; }
		if (in_dispatch) { if (self) in_cb_del_self++; else in_cb_del_other++; }
		if (c.chance(1, 2)) kill_fd(ch->f);	// the usual life: delete, then close; the number is reused soon
	}
	void kill_fd(Fd* f) { if (f->a >= 0) close(f->a); if (f->b >= 0) close(f->b); for (size_t i = 0; i < fds.size(); i++) if (fds[i].get() == f) { graveyard.push_back(std::move(fds[i])); fds.erase(fds.begin() + (long)i); f->a = f->b = -1; break; } }
	std::vector<std::unique_ptr<Fd>> graveyard;
	void set(Chan* ch, int d, bool on) {
		if (!ch->has[d]) return;
		if (on) { if (d) L->enable_write(ch->id); else L->enable_read(ch->id); if (ch->fd < FD_LIMIT) { if (!ch->on[d] && in_dispatch) ch->touched[d] = round; ch->on[d] = true; } }
		else { if (d) L->disable_write(ch->id); else L->disable_read(ch->id); ch->on[d] = false; ch->touched[d] = round; }
	}
	void traffic(Fd* f, unsigned what) {
		char b[4096]; memset(b, 'x', sizeof b);
		switch (what) {
		case 0: if (can(f, 0) && f->b >= 0) (void)!write(f->b, b, c.size(1, 600)); break;
		case 1: if (can(f, 0)) { f->drained[0] = round; while (read(f->a, b, sizeof b) > 0) {} } break;
		case 2: if (can(f, 1)) { f->drained[1] = round; while (write(f->a, b, 512) > 0) {} } break;
		case 3: if (can(f, 1) && f->b >= 0) while (read(f->b, b, sizeof b) > 0) {} break;
		case 4: if (f->b >= 0 && c.chance(1, 3)) { close(f->b); f->b = -1; f->drained[1] = f->drained[0] = round; } break;
		case 5: if (f->kind == 0 && f->b >= 0 && c.chance(1, 3)) shutdown(f->b, SHUT_WR); break;
		}
	}
	void change(Chan* self) {
		changes++; if (in_dispatch) in_cb_changes++;
		Chan* ch = nullptr; if (!live.empty()) ch = (self && self->alive && c.chance(1, 3)) ? self : live[c.below(live.size())];
		switch (c.weighted({ 4, 3, 3, 3, 2, 2, 1, 5, cb_ops ? 1u : 0u })) {
		case 8: if (tlive.size() && c.chance(1, 3)) del_timer(tlive[c.below(tlive.size())]); else add_timer(); break;
		case 0: { unsigned k = c.chance(1, 8) ? (unsigned)c.range(2, 30) : 1; while (k--) reg(); break; }
		case 1: if (ch) set(ch, 0, true); break;
		case 2: if (ch) set(ch, 1, true); break;
		case 3: if (ch) set(ch, (int)c.below(2), false); break;
		case 4: if (ch) del(ch, ch == self); break;
		case 5: if (ch) { L->disable_all(ch->id); ch->on[0] = ch->on[1] = false; ch->touched[0] = ch->touched[1] = round; } break;
		case 6: if (ch) { del(ch, ch == self); reg(); } break;
		case 7: { Fd* f = any_fd(false); if (f) traffic(f, (unsigned)c.below(6)); break; }
		}
		queries();
	}
	void queries() {
		for (auto* ch : live) {
			if (L->is_read(ch->id) != ch->on[0]) bad("is_read(%u) is %d, interest is %d", ch->id, !ch->on[0], ch->on[0]);
			if (L->is_write(ch->id) != ch->on[1]) bad("is_write(%u) is %d, interest is %d", ch->id, !ch->on[1], ch->on[1]);
		}
		if (L->is_read(Looper::INVALID_EVENT_ID) || L->is_write(Looper::INVALID_EVENT_ID)) bad("the invalid event has an interest");
	}
	void fired(Chan* ch, int d, Looper::event_id_t id, socket_t fd, Looper::event_t ev, void* p) {
		if (!err.empty()) return;
		calls++; const char* dn = d ? "write" : "read";
		if (!ch->alive) return bad("a deleted event (gen %u) got a %s callback", ch->gen, dn);
		if (!ch->on[d]) return bad("event %u got a %s callback while that interest is disabled", id, dn);
		if (id != ch->id || fd != ch->fd || p != ch || ev != (Looper::event_t)(d ? Looper::kWrite : Looper::kRead)) return bad("%s callback of event %u (fd %d) got id %u fd %d event %u and a %s parameter", dn, ch->id, ch->fd, id, fd, ev, p == ch ? "right" : "wrong");
		uint64_t lc = L->get_loop_counts();
		if (ch->lc[d] == lc + 1) return bad("event %u got two %s callbacks in one round", id, dn);
		ch->called[d] = round; ch->lc[d] = lc + 1; ch->total[d]++; ch->missed[d] = 0;
		if (!(truth(ch->f) & (1u << d)) && ch->f->drained[d] + (relaxed ? 1 : 0) < round) return bad("event %u (fd %d) got a %s callback but is not ready", id, fd, dn);
		if (cb_ops && opsleft) { unsigned k = (unsigned)c.weighted({ 4, 3, 2, 1 }); while (k-- && opsleft) { opsleft--; change(ch); } }
	}
	std::vector<std::unique_ptr<Timer>> timers; std::vector<Timer*> tlive; unsigned tfired = 0, tself = 0;
	void add_timer() {
		if (tlive.size() >= 6) return; std::unique_ptr<Timer> t(new Timer); t->m = this; t->ms = (uint32_t)c.range(1, 3); t->t0 = sys_api::performance_time_now();
		Timer* x = t.get(); tlive.push_back(x); timers.push_back(std::move(t)); if (in_dispatch) in_cb_reg++;
		x->id = L->register_timer_event(x->ms, x, TimerCall(x));
		for (auto* o : live) if (o->id == x->id) bad("register_timer_event returned id %u which is in use", x->id);
	}
	void del_timer(Timer* t) { t->alive = false; L->delete_event(t->id); for (size_t i = 0; i < tlive.size(); i++) if (tlive[i] == t) { tlive.erase(tlive.begin() + (long)i); break; } }
	void timer_fired(Timer* t, Looper::event_id_t id, void* p) {
		if (!err.empty()) return; tfired++; t->fired++;
		if (!t->alive) return bad("a deleted timer fired"); if (id != t->id || p != t) return bad("a timer fired with the wrong id or parameter");
		int64_t e = sys_api::performance_time_now() - t->t0; if (e < (int64_t)t->fired * t->ms * 1000 - 100) return bad("timer of %u ms fired %u times in %lld us", t->ms, t->fired, (long long)e);
		if (opsleft) { unsigned k = (unsigned)c.weighted({ 2, 3, 1 }); while (k-- && opsleft) { opsleft--; change(nullptr); } }
		if (t->alive && c.chance(1, 3)) { tself++; del_timer(t); if (c.chance(1, 2)) { if (c.chance(1, 2)) reg(); else add_timer(); } }
	}
	// before a round: what must be reported
	struct Want { Chan* ch; int d; };
	std::vector<Want> want;
	void snapshot() {
		want.clear();
		for (auto* ch : live) { unsigned t = truth(ch->f); for (int d = 0; d < 2; d++) if (ch->on[d] && (t & (1u << d))) want.push_back({ ch, d }); }
		if (want.size() > 1) multi++;
	}
	void verify() {
		std::map<Chan*, int> nch; for (auto& w : want) nch[w.ch]++;
		size_t n = nch.size();
		for (auto& w : want) {
			if (w.ch->called[w.d] == round || !w.ch->alive || w.ch->touched[w.d] == round) { w.ch->missed[w.d] = 0; continue; }
			w.ch->missed[w.d]++;
			size_t allow = n <= 8 ? 0 : n / 8 + 2;	// a round may serve a bounded number of events
			if (w.ch->missed[w.d] > allow) return bad("event %u (fd %d) is %s-ready and enabled but got no callback (%zu ready events, %u rounds)", w.ch->id, w.ch->fd, w.d ? "write" : "read", n, w.ch->missed[w.d]);
		}
	}
	void do_step() { snapshot(); in_dispatch = true; L->step(); in_dispatch = false; if (err.empty()) verify(); round++; }
};

template<class B> void CallT<B>::operator()(Looper::event_id_t id, socket_t fd, Looper::event_t ev, void* p)
{
	Chan* h = ch; Model* m = h->m; int d = (int)(tag & 1); own++; m->fired(h, d, id, fd, ev, p);
	if (m->err.empty() && own != h->total[d]) m->bad("a callback that was called %llu times counted %llu calls in its own state", (unsigned long long)h->total[d], (unsigned long long)own);
	if (!intact(h, d)) m->bad("the state of a running callback was destroyed by changes of registrations");
}
void TimerCall::operator()(Looper::event_id_t id, void* p) { Timer* x = t; own++; x->m->timer_fired(x, id, p); if (x->m->err.empty() && own != x->fired) x->m->bad("a timer callback called %u times counted %u calls in its own state", x->fired, own); if (!intact(x)) x->m->bad("the state of a running timer callback was destroyed"); }
static void run_case(vh::Ctx& c, bool cb)
{
	unsigned rounds = 0; bool use_loop = cb && c.chance(1, 3); std::string err;
	{
		Model m(c, cb);
		if (!use_loop) {
			while (c.more(14) && m.err.empty() && rounds < 80) {
				unsigned k = (unsigned)c.below(rounds ? 5 : 20); while (k--) m.change(nullptr);
				unsigned s = (unsigned)c.range(1, 3); while (s-- && m.err.empty()) { if (!m.tlive.empty() && c.chance(1, 3)) usleep(1200); m.do_step(); rounds++; }
			}
		} else {
			// the same through loop(): a driver event, always ready, delimits rounds and stops the loop
			int p[2]; if (pipe2(p, O_NONBLOCK | O_CLOEXEC)) return; (void)!write(p[1], "x", 1);
			unsigned total = (unsigned)c.range(3, 40); unsigned k = (unsigned)c.range(2, 20); while (k--) m.change(nullptr);
			uint64_t last = 0; std::vector<Model::Want> prev; 
			Looper::event_id_t drv = m.L->register_event(p[0], Looper::kRead, nullptr, [&](Looper::event_id_t, socket_t, Looper::event_t, void*) {
				if (m.L->get_loop_counts() <= last) m.bad("loop count went from %llu to %llu", (unsigned long long)last, (unsigned long long)m.L->get_loop_counts());
				last = m.L->get_loop_counts(); rounds++;
				// everything ready and untouched since the previous driver call must have been served
				std::map<Chan*, int> nch; for (auto& w : prev) nch[w.ch]++;
				for (auto& w : prev) {
					if (!w.ch->alive || w.ch->touched[w.d] >= m.round - 1 || w.ch->f->drained[w.d] >= m.round - 1 || w.ch->called[w.d] >= m.round - 1 || w.ch->reg_round >= m.round - 1) { w.ch->missed[w.d] = 0; continue; }
					if (++w.ch->missed[w.d] > nch.size() / 8 + 3) m.bad("event %u (fd %d) is %s-ready and enabled but got no callback in %u rounds of loop()", w.ch->id, w.ch->fd, w.d ? "write" : "read", w.ch->missed[w.d]);
				}
				m.round++; m.snapshot(); prev = m.want;
				if (!m.err.empty() || rounds >= total) m.L->push_stop_request();
				else { unsigned q = (unsigned)c.below(3); while (q-- && m.opsleft) { m.opsleft--; m.change(nullptr); } }
			}, nullptr);
			m.round = 2; m.in_dispatch = true; m.relaxed = true;
			m.L->loop();
			m.in_dispatch = false;
			m.L->delete_event(drv); close(p[0]); close(p[1]);
		}
		err = m.err;
		c.note("%s rounds=%u changes=%u(in callbacks %u: +%u -%u self -%u) calls=%u live=%zu", use_loop ? "loop" : "step", rounds, m.changes, m.in_cb_changes, m.in_cb_reg, m.in_cb_del_other, m.in_cb_del_self, m.calls, m.live.size());
		if (m.in_cb_reg && m.in_cb_del_other) c.label("deleted another and registered in a callback");
		if (m.in_cb_del_self) c.label("deleted itself"); if (m.chans.size() > 16) c.label("channel table grew"); if (use_loop) c.label("loop()"); if (m.tfired) c.label("timer fired"); if (m.tself) c.label("timer deleted itself");
		for (auto& f : m.fds) if (f->high) c.label("descriptor above 1024");
		if (cb ? (m.in_cb_changes > 2 && m.calls > 3) : (m.multi && m.changes > 3)) c.nontrivial();
	}
	if (!err.empty()) c.fail("%s", err.c_str());
}

#ifdef IN_CALLBACK
VH_PROP(callback_programs, 25000, 600000, 20000, false, 0) { run_case(c, true); }
#else
VH_PROP(rounds, 40000, 600000, 20000, false, 0) { run_case(c, false); }
// signals interrupting the wait must not produce callbacks, nor end the loop
VH_PROP(interrupted, 150, 2000, 20000, false, 0)
{
	signal(SIGALRM, SIG_IGN); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) {}; sigaction(SIGALRM, &sa, nullptr);
	Looper* L = Looper::create_looper(); unsigned n = (unsigned)c.range(1, 20), bogus = 0, ticks = 0; std::vector<int> fds;
	for (unsigned i = 0; i < n; i++) { int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, p)) break; fds.push_back(p[0]); fds.push_back(p[1]); L->register_event(p[0], Looper::kRead, nullptr, [&](Looper::event_id_t, socket_t, Looper::event_t, void*) { bogus++; }, nullptr); }
	unsigned want = (unsigned)c.range(1, 4); uint32_t ms = (uint32_t)c.range(1, 8);
	L->register_timer_event(ms, nullptr, [&](Looper::event_id_t, void*) { if (++ticks >= want || bogus > 1000) L->push_stop_request(); });
	int us = (int)c.range(50, 900); struct itimerval it = { { 0, us }, { 0, us } }; setitimer(ITIMER_REAL, &it, nullptr);
	L->loop();
	memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, nullptr);
	Looper::destroy_looper(L); for (int f : fds) close(f);
	c.note("events=%u signal every %d us, %u ticks of %u ms", n, us, ticks, ms); c.nontrivial();
	VH_CHECK(c, bogus == 0, "%u callbacks for events that never became ready", bogus);
}
#endif
int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN);
	struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &rl);
#ifdef IN_CALLBACK
	vh::property_id = "C08";
	vh::nontrivial_rule = "programs of registration changes run from inside callbacks (step() and loop()), readiness truth from poll(2); non-trivial = >2 changes made in callbacks and >3 callbacks";
#else
	vh::property_id = "C07";
	vh::nontrivial_rule = "histories of register/enable/disable/delete and traffic over up to 45 sockets and pipes, readiness truth from poll(2) before every step(); non-trivial = several events ready in one round and >3 changes";
#endif
	return vh::main(argc, argv);
}
