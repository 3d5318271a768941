// C06: every message sent to a work thread is handled once, in order per sender, on that thread.
// SCHED: under generated schedules; otherwise free-running threads with large and many messages.
#include <cy_core.h>
#include <cy_event.h>
#include "vh.h"
#ifdef SCHED
#include "vsched.h"
#else
#include <unistd.h>
#endif
#include <memory>
#include <map>
using namespace cyclone;

struct Msg { uint16_t id; std::vector<uint8_t> data; };
struct Batch { std::vector<Msg> m; int kind; };		// one send_message call
struct Sender { unsigned no; std::vector<Batch> b; WorkThread* w; };
static void send(WorkThread& w, const Batch& b)
{
	switch (b.kind) {
	case 0: w.send_message(b.m[0].id, (uint16_t)b.m[0].data.size(), (const char*)b.m[0].data.data()); break;
	case 1: { uint16_t n = (uint16_t)b.m[0].data.size(), h = n / 2; w.send_message(b.m[0].id, h, (const char*)b.m[0].data.data(), (uint16_t)(n - h), (const char*)b.m[0].data.data() + h); break; }
	default: {
		std::vector<Packet*> ps; for (auto& m : b.m) { Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, m.id, (uint16_t)m.data.size(), (const char*)m.data.data(), 0, nullptr); ps.push_back(p); }
		if (b.kind == 2) w.send_message(ps[0]); else w.send_message((const Packet**)ps.data(), (int32_t)ps.size());
		for (auto* p : ps) { if (p->get_packet_size()) memset(p->get_packet_content(), 0xEE, p->get_packet_size()); Packet::free_packet(p); }	// the sender keeps its packets
	} }
}
struct Got { uint16_t id; };
#ifdef SCHED
VH_PROP(schedules, 30000, 500000, 60000, true, 0)
#else
VH_PROP(free_running, 15000, 200000, 30000, false, 4)
#endif
{
	unsigned S = (unsigned)c.range(1, 4); std::vector<Sender> snd(S + 2);	// S = main before the start, S+1 = the callback itself
	std::vector<std::vector<uint8_t>> payload; std::vector<unsigned> who; std::vector<unsigned> last(S + 2, 0);
	bool big = c.chance(1, 4);
	auto mk = [&](unsigned no) { Msg m; m.id = (uint16_t)payload.size(); m.data = c.blob(c.size(0, big ? 65535 : 2000, { 1000, 1024 })); payload.push_back(m.data); who.push_back(no); return m; };
	auto mkb = [&](unsigned no) { Batch b; b.kind = (int)c.weighted({ 3, 1, 1, 1 }); unsigned n = b.kind == 3 ? (unsigned)c.range(1, 5) : 1; while (n--) b.m.push_back(mk(no)); return b; };
#ifdef SCHED
	unsigned maxb = 10;
#else
	unsigned maxb = 60;
#endif
	for (unsigned i = 0; i < S; i++) { unsigned n = (unsigned)c.range(1, maxb); snd[i].no = i; while (n--) snd[i].b.push_back(mkb(i)); }
	unsigned pre = c.chance(1, 2) ? (unsigned)c.range(1, 6) : 0; snd[S].no = S; while (pre--) snd[S].b.push_back(mkb(S));
	unsigned self = c.chance(1, 3) ? (unsigned)c.range(1, 6) : 0; snd[S + 1].no = S + 1; while (self--) snd[S + 1].b.push_back(mkb(S + 1));
	bool refuse = c.chance(1, 12), early = c.chance(1, 3);	// early: senders run before and while the thread starts
	unsigned slow = c.chance(1, 3) ? (unsigned)c.range(1, 3) : 0;
	size_t total = payload.size();
#ifdef SCHED
	vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 3, 8, 20, 60, 200, 600 }); sp.freeze_den = (unsigned)c.pick({ 0, 2, 5, 12 });
#endif
	std::unique_ptr<WorkThread> w(new WorkThread);
	std::vector<uint16_t> got; std::atomic<unsigned> ngot(0), starts(0); std::string err; thread_id_t tid{}; bool started_after_msg = false; size_t selfi = 0;
	got.reserve(total + 16);
	auto bad = [&](std::string s) { if (err.empty()) err = s; };
	w->set_on_start([&]() { if (ngot) started_after_msg = true; starts++; tid = sys_api::thread_get_current_id(); if (strcmp(sys_api::thread_get_current_name(), "the-worker")) bad("the thread has another name"); return !refuse; });
	w->set_on_message([&](Packet* p) {
		if (sys_api::thread_get_current_id() != tid) bad("a message is handled on another thread");
		uint16_t id = p->get_packet_id();
		if (id >= total) bad(vh::sfmt("message %u was never sent", id));
		else if (p->get_packet_size() != payload[id].size() || memcmp(p->get_packet_content(), payload[id].data(), payload[id].size())) bad(vh::sfmt("message %u (%zu bytes) arrived altered (%u bytes)", id, payload[id].size(), p->get_packet_size()));
		got.push_back(id);
		if (selfi < snd[S + 1].b.size()) send(*w, snd[S + 1].b[selfi++]);
		for (unsigned i = 0; i < slow; i++) sys_api::thread_yield();
		ngot++;
	});
	std::vector<thread_t> ts;
#ifdef SCHED
	vsched::begin(sp);
#endif
	auto launch = [&]() { for (unsigned i = 0; i < S; i++) ts.push_back(sys_api::thread_create([&, i](void*) { for (auto& b : snd[i].b) send(*w, b); }, nullptr, "sender")); };
	for (auto& b : snd[S].b) send(*w, b);
	if (early) launch();
	w->start("the-worker");
	if (!early) launch();
	for (auto t : ts) sys_api::thread_join(t);
	if (!refuse) {
#ifdef SCHED
		vsched::wait_until([&] { return ngot.load() >= total || !err.empty(); }, "every message sent has been handled");
		for (int i = 0; i < 20; i++) vsched::yield();
#else
		int64_t t0 = sys_api::performance_time_now();
		while (ngot.load() < total) { if (sys_api::performance_time_now() - t0 > 8000000) c.soft_fail("%u of %zu messages handled, the rest is waiting while the thread is idle", ngot.load(), total); usleep(50); }
#endif
		w->get_looper()->push_stop_request();
	}
	w->join();
#ifdef SCHED
	uint64_t sw = vsched::switches(); vsched::end();
#endif
	if (w->is_running()) bad("is_running after join");
	if (refuse) { for (auto& b : snd[0].b) send(*w, b); VH_CHECK(c, got.empty(), "a thread whose start was refused handled messages"); }
	if (!err.empty()) c.fail("%s", err.c_str());
	VH_CHECK(c, starts == 1 && !started_after_msg, "the start callback ran %u times%s", starts.load(), started_after_msg ? ", after a message" : "");
	if (!refuse) {
		std::map<uint16_t, int> n; for (auto id : got) VH_CHECK(c, n[id]++ == 0, "message %u handled twice", id);
		VH_CHECK(c, got.size() == total, "%zu messages sent, %zu handled", total, got.size());
		std::vector<int> lastid(S + 2, -1);
		for (auto id : got) { unsigned s = who[id]; VH_CHECK(c, (int)id > lastid[s], "sender %u: message %u handled after %d", s, id, lastid[s]); lastid[s] = id; }
	}
#ifdef SCHED
	c.note("senders=%u messages=%zu pre-start=%zu self=%zu early=%d refuse=%d switches=%llu", S, total, snd[S].b.size(), snd[S + 1].b.size(), early, refuse, (unsigned long long)sw);
	if (total > 4 && sw > 20 && !refuse) c.nontrivial();
#else
	c.note("senders=%u messages=%zu pre-start=%zu self=%zu early=%d refuse=%d", S, total, snd[S].b.size(), snd[S + 1].b.size(), early, refuse);
	if (total > 4 && !refuse) c.nontrivial();
#endif
	if (early) c.label("sends during start"); if (refuse) c.label("start refused"); if (snd[S + 1].b.size()) c.label("sends from the callback");
}
int main(int argc, char** argv)
{
	vh::property_id = "C06";
	vh::nontrivial_rule = "1..4 senders (plus sends before start and from the callback), all send variants, sizes 0..65535; non-trivial = >4 messages (and >20 context switches under the scheduler)";
	vh::assumptions = { "under the scheduler, interleavings are explored under sequential consistency" };
	return vh::main(argc, argv);
}
