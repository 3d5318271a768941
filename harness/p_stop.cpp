// C10: a stop request ends the loop, whoever makes it and whenever.
#include <cy_core.h>
#include <cy_event.h>
#include "vh.h"
#ifdef SCHED
#include "vsched.h"
#endif
#include <memory>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
using namespace cyclone;

#ifdef SCHED
static void pause_(unsigned n) { while (n--) vsched::yield(); }
VH_PROP(stop_schedules, 30000, 500000, 60000, true, 0)
#else
static void pause_(unsigned n) { if (n > 20) usleep(n); else while (n--) sys_api::thread_yield(); }
VH_PROP(stop_free_running, 15000, 200000, 30000, false, 4)
#endif
{
	unsigned R = (unsigned)c.range(0, 3), E = (unsigned)c.range(0, 4); bool cb_stop = R == 0 || c.chance(1, 3), timer = c.chance(1, 3), own_destroy = R <= 1 && c.chance(1, 2), pre = c.chance(1, 10), worker = c.chance(1, 4), step_after = c.chance(1, 3);
	std::vector<unsigned> delay, reps; for (unsigned i = 0; i < R; i++) { delay.push_back((unsigned)c.size(0, 60)); reps.push_back(own_destroy ? 1 : (unsigned)c.range(1, 3)); }
	unsigned cb_at = (unsigned)c.range(1, 6), cb_len = (unsigned)c.below(4), writes = cb_stop ? 0 : (unsigned)c.range(0, 6); bool cb_churn = c.chance(1, 3);
	bool hold = c.chance(1, 2);		// the stop comes from others only, or the callback that stops is reached for sure
#ifdef SCHED
	vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 3, 8, 20, 60, 200 }); sp.freeze_den = (unsigned)c.pick({ 0, 2, 4, 8 });
#endif
	std::atomic<Looper*> L(nullptr); std::atomic<unsigned> ncb(0), incb(0), done(0), after(0); std::atomic<bool> requested(false), cb_requested(false), returned(false); std::string err;
	auto bad = [&](std::string s) { if (err.empty()) err = s; };
	std::vector<int> fds; int wr[4] = { -1, -1, -1, -1 };
	for (unsigned i = 0; i < E; i++) { int p[2]; VH_CHECK(c, pipe2(p, O_NONBLOCK | O_CLOEXEC) == 0, "pipe2"); fds.push_back(p[0]); fds.push_back(p[1]); wr[i] = p[1]; if (cb_stop || hold) (void)!write(p[1], "x", 1); }
	if (E == 0) timer = timer || cb_stop;
	if (!worker && R == 1 && cb_stop && own_destroy) cb_stop = false;
	// other threads that wake the loop up by enabling an event; they are done before anybody may destroy the looper
	bool solo = (own_destroy || worker) && (R == 0 || cb_stop || pre || worker);
	unsigned T = solo ? 0 : (unsigned)c.pick({ 0, 0, 1, 1, 2, 3 }), bursts = (unsigned)c.size(1, 40); bool ordered = own_destroy || c.chance(1, 2);
	int tp[2] = { -1, -1 }; std::atomic<unsigned> togglers(T); std::atomic<Looper::event_id_t> tid(0);
	if (T) VH_CHECK(c, socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, tp) == 0, "socketpair");
	int s1[2] = { -1, -1 }, s2[2] = { -1, -1 };
	auto callback = [&](Looper* l, int fd) {
		if (incb++) bad("two callbacks at once"); ncb++;
		if (cb_requested) bad("a callback ran after the callback that requested the stop returned");
		if (requested) after++;
		pause_(cb_len);
		if (cb_churn && fds.size() && fd >= 0) { auto id = l->register_event(fds[1], Looper::kNone, nullptr, nullptr, nullptr); l->delete_event(id); }
		if (!cb_stop && fd >= 0 && !hold) { char b[16]; (void)!read(fd, b, sizeof b); }
		bool stop = cb_stop && ncb >= cb_at;
		if (stop) { l->push_stop_request(); if (!l->is_quit_pending()) bad("no quit pending after a stop request"); pause_(cb_len); cb_requested = true; }
		incb--;
	};
	auto setup = [&](Looper* l) {
		for (unsigned i = 0; i < E; i++) l->register_event(fds[i * 2], Looper::kRead, nullptr, [&, l](Looper::event_id_t, socket_t fd, Looper::event_t, void*) { callback(l, fd); }, nullptr);
		if (T) tid = l->register_event(tp[0], Looper::kRead, nullptr, [](Looper::event_id_t, socket_t, Looper::event_t, void*) {}, [&, l](Looper::event_id_t id, socket_t, Looper::event_t, void*) { l->disable_write(id); callback(l, -1); });
		if (timer) l->register_timer_event(1, nullptr, [&, l](Looper::event_id_t, void*) { callback(l, -1); });
	};
	std::unique_ptr<WorkThread> wt; thread_t lt = nullptr;
	std::vector<thread_t> rq;
#ifdef SCHED
	vsched::begin(sp);
#endif
	if (worker) {		// the loop of a work thread, which destroys its looper itself
		if (!cb_stop && R == 0) cb_stop = true;
		own_destroy = true; for (auto& r : reps) r = 1; if (R > 1) { R = 1; }
		if (R == 1 && cb_stop) cb_stop = false;
		if (cb_stop && E == 0) timer = true;
		wt.reset(new WorkThread); wt->set_on_start([&] { setup(wt->get_looper()); return true; });
		wt->start("w"); L = wt->get_looper();
	} else lt = sys_api::thread_create([&](void*) {
		Looper* l = Looper::create_looper(); setup(l);
		if (pre) { l->push_stop_request(); cb_requested = true; }
		L = l;
		l->loop();
		if (incb) bad("the loop returned during a callback");
		returned = true;
		(void)!pipe2(s1, O_NONBLOCK | O_CLOEXEC); (void)!pipe2(s2, O_NONBLOCK | O_CLOEXEC);	// these reuse the descriptors of the loop
		if (!l->is_quit_pending()) bad("the loop returned without a stop request");
		if (step_after) { unsigned n = ncb; l->step(); if (ncb != n) bad("step() dispatched after the stop"); }
		if (own_destroy && R <= 1 && !(pre && R)) { Looper::destroy_looper(l); done = 1; }
	}, nullptr, "looper");
	for (unsigned i = 0; i < R; i++) rq.push_back(sys_api::thread_create([&, i](void*) {
		while (!L.load()) sys_api::thread_yield();
		while (ordered && togglers) sys_api::thread_yield();
		pause_(delay[i]);
		if (worker && cb_stop) return;
		for (unsigned k = 0; k < reps[i]; k++) { L.load()->push_stop_request(); requested = true; pause_(delay[i] / 4); }
	}, nullptr, "requester"));
	for (unsigned i = 0; i < T; i++) rq.push_back(sys_api::thread_create([&](void*) {
		while (!L.load()) sys_api::thread_yield();
		for (unsigned k = 0; k < bursts; k++) L.load()->enable_write(tid);
		togglers--;
	}, nullptr, "toggler"));
	for (unsigned i = 0; i < writes && E; i++) { (void)!write(wr[i % E], "y", 1); pause_(2); }
	for (auto t : rq) sys_api::thread_join(t);
	if (worker) wt->join(); else sys_api::thread_join(lt);
	char b[64]; bool dirty = false;
	for (int* s : { s1, s2 }) if (s[0] >= 0) { if (read(s[0], b, sizeof b) > 0) dirty = true; close(s[0]); close(s[1]); }
	if (!worker && !done) Looper::destroy_looper(L);
#ifdef SCHED
	uint64_t sw = vsched::switches(); vsched::end();
	c.note("requesters=%u events=%u cb-stop=%d timer=%d own-destroy=%d pre=%d worker=%d togglers=%ux%u callbacks=%u switches=%llu", R, E, cb_stop, timer, own_destroy, pre, worker, T, bursts, ncb.load(), (unsigned long long)sw);
	if (sw > 8 && (R || ncb)) c.nontrivial();
#else
	c.note("requesters=%u events=%u cb-stop=%d timer=%d own-destroy=%d pre=%d worker=%d togglers=%ux%u callbacks=%u", R, E, cb_stop, timer, own_destroy, pre, worker, T, bursts, ncb.load());
	if (R || ncb) c.nontrivial();
#endif
	for (int f : fds) close(f);
	if (T) { close(tp[0]); close(tp[1]); c.label("woken up by other threads"); }
	if (R > 1) c.label("racing requests"); if (cb_stop) c.label("stop from a callback"); if (worker) c.label("work thread"); if (pre) c.label("stop before loop()");
	if (!err.empty()) c.fail("%s", err.c_str());
	VH_CHECK(c, !dirty, "a stop request wrote into a descriptor that belongs to somebody else");
	VH_CHECK(c, after <= 1, "%u callbacks were started after a stop request had returned", after.load());
}
int main(int argc, char** argv)
{
	vh::property_id = "C10";
	vh::nontrivial_rule = "0..3 requesters, stops from callbacks, before the loop, during waits and dispatch, loopers of plain and work threads; non-trivial = a request from another thread or a callback ran (>8 context switches under the scheduler)";
	vh::assumptions = { "under the scheduler, interleavings are explored under sequential consistency" };
	return vh::main(argc, argv);
}
