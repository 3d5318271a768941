// C03 (concurrent part): under every explored schedule the queue is a linearizable bounded FIFO:
// nothing lost, duplicated, invented or torn; real-time FIFO order; "full" and "empty" answers justified.
#include <cy_core.h>
#include "vh.h"
#include "vsched.h"
#include <vector>
#include <thread>
#include <map>
#include <memory>
#include <pthread.h>
using namespace cyclone;

struct Elem { uint32_t a, b, c, d; };
struct Op { bool push, ok; uint32_t v; uint64_t t0, t1; };


struct Worker {
	int id; bool producer; unsigned n; unsigned retries;
	std::function<bool(uint32_t)> push; std::function<bool(uint32_t&)> pop;
	volatile int* producers_left; std::vector<Op> ops; std::string err;
	unsigned mix;
};

static void* worker_main(void* p)
{
	Worker& w = *(Worker*)p;
	for (unsigned i = 0; i < w.n; i++) {
		bool do_push = w.producer;
		if (w.mix && (i % w.mix) == 0) do_push = !do_push;
		if (do_push) {
			uint32_t v = ((uint32_t)(w.id + 1) << 16) | (i + 1);
			for (unsigned k = 0; ; k++) {
				Op o; o.push = true; o.v = v; o.t0 = vsched::tick(); o.ok = w.push(v); o.t1 = vsched::tick();
				w.ops.push_back(o);
				if (o.ok || k >= w.retries) break;
				vsched::yield();
			}
		} else {
			for (unsigned k = 0; ; k++) {
				uint32_t v = 0;
				Op o; o.push = false; o.t0 = vsched::tick(); o.ok = w.pop(v); o.t1 = vsched::tick(); o.v = v;
				w.ops.push_back(o);
				if (o.ok || k >= w.retries) break;
				vsched::yield();
			}
		}
	}
	return nullptr;
}

template<uint32_t Q> static void run(vh::Ctx& c)
{
	std::unique_ptr<LockFreeQueue<Elem, Q>> q(new LockFreeQueue<Elem, Q>());
	unsigned P = (unsigned)c.range(1, 4), C = (unsigned)c.range(1, 3);
	std::vector<Worker> ws(P + C);
	bool torn = false;
	auto push = [&](uint32_t v) { Elem e{ v, ~v, v * 7u, v ^ 0x5555u }; return q->push(e); };
	auto pop = [&](uint32_t& v) { Elem e{ 0,0,0,0 }; bool r = q->pop(e); if (r) { v = e.a; if (e.b != ~e.a || e.c != e.a * 7u || e.d != (e.a ^ 0x5555u)) torn = true; } return r; };
	for (unsigned i = 0; i < P + C; i++) {
		ws[i].id = (int)i; ws[i].producer = i < P; ws[i].n = (unsigned)c.range(1, 40); ws[i].retries = (unsigned)c.pick({ 0, 1, 3, 30 });
		ws[i].push = push; ws[i].pop = pop; ws[i].mix = c.chance(1, 4) ? (unsigned)c.range(2, 5) : 0;
	}
	vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 3, 6, 12, 30, 100, 400 }); sp.freeze_den = (unsigned)c.pick({ 0, 3, 8, 20 });
	c.note("Q=%u producers=%u consumers=%u mean-gap=%u freeze=1/%u n=[", Q, P, C, sp.mean, sp.freeze_den);
	for (auto& w : ws) c.note("%s%u ", w.mix ? "mix" : w.producer ? "p" : "c", w.n);
	c.note("] ");

	std::vector<pthread_t> t(P + C);
	vsched::begin(sp);
	for (unsigned i = 0; i < P + C; i++) pthread_create(&t[i], nullptr, worker_main, &ws[i]);
	for (unsigned i = 0; i < P + C; i++) pthread_join(t[i], nullptr);
	uint64_t sw = vsched::switches();
	vsched::end();
	// quiescent
	std::vector<Op> all;
	for (auto& w : ws) all.insert(all.end(), w.ops.begin(), w.ops.end());
	unsigned in = 0, out = 0, full = 0, empty = 0;
	for (auto& o : all) { if (o.push) { if (o.ok) in++; else full++; } else { if (o.ok) out++; else empty++; } }
	VH_CHECK(c, in >= out, "%u elements accepted but %u extracted", in, out);
	VH_CHECK(c, q->size() == in - out, "size()=%u when idle, %u accepted - %u extracted", q->size(), in, out);
	for (;;) {
		uint32_t v = 0; Op o; o.push = false; o.t0 = vsched::tick(); o.ok = pop(v); o.t1 = vsched::tick(); o.v = v;
		if (!o.ok) break;
		all.push_back(o); out++;
		VH_CHECK(c, out <= in, "more elements extracted than accepted");
	}
	VH_CHECK(c, out == in, "%u elements accepted, only %u ever extracted", in, out);
	VH_CHECK(c, !torn, "an extracted element mixes bytes of different elements");
	std::map<uint32_t, std::pair<Op, Op>> el; std::map<uint32_t, int> np;
	for (auto& o : all) if (o.push && o.ok) el[o.v].first = o;
	for (auto& o : all) if (!o.push && o.ok) {
		VH_CHECK(c, el.count(o.v), "extracted element %08x was never accepted", o.v);
		VH_CHECK(c, np[o.v]++ == 0, "element %08x extracted twice", o.v);
		VH_CHECK(c, o.t1 > el[o.v].first.t0, "element %08x extracted before it was pushed", o.v);
		el[o.v].second = o;
	}
	std::vector<std::pair<Op, Op>> l; for (auto& e : el) l.push_back(e.second);
	for (auto& x : l) for (auto& y : l)
		if (x.first.t1 < y.first.t0) VH_CHECK(c, !(y.second.t1 < x.second.t0), "FIFO: %08x was pushed before %08x but extracted after it", x.first.v, y.first.v);
	// "full" and "empty" must be justified, capacity never exceeded
	for (auto& o : all) {
		if (o.push && !o.ok) {
			int hi = 0;
			for (auto& x : l) { if (x.first.t0 < o.t1) hi++; if (x.second.t1 < o.t0) hi--; }
			VH_CHECK(c, hi >= (int)Q - 1, "push answered 'full' while at most %d of %u slots were in use", hi, Q - 1);
		}
		if (!o.push && !o.ok) {
			int lo = 0;
			for (auto& x : l) { if (x.first.t1 < o.t0) lo++; if (x.second.t0 < o.t1 && x.second.t1 != 0) lo--; }
			VH_CHECK(c, lo <= 0, "pop answered 'empty' while at least %d elements were queued", lo);
		}
		if (o.push && o.ok) {
			int lo = 0;
			for (auto& x : l) { if (x.first.t1 <= o.t1) lo++; if (x.second.t0 < o.t1) lo--; }
			VH_CHECK(c, lo <= (int)Q - 1, "%d elements held by a queue of capacity %u", lo, Q - 1);
		}
	}
	c.note("switches=%llu accepted=%u full=%u empty=%u", (unsigned long long)sw, in, full, empty);
	if (full) c.label("hit-full");
	if (empty) c.label("hit-empty");
	if (sw > 20 && in > Q) { c.label("wrapped-under-contention"); c.nontrivial(); }
	if (P > 1) c.label("multi-producer"); if (C > 1) c.label("multi-consumer");
}

VH_PROP(mt_linearizable, 8000, 200000, 60000, true, 0)
{
	switch (c.below(5)) {
	case 0: run<4>(c); break; case 1: run<2>(c); break; case 2: run<8>(c); break; case 3: run<16>(c); break; case 4: run<64>(c); break;
	}
}

int main(int argc, char** argv)
{
	vh::property_id = "C03";
	vh::nontrivial_rule = "concurrent: producers and consumers run under the controlled scheduler (preemption possible at every memory access); non-trivial = more than 20 context switches and more accepted elements than slots";
	vh::assumptions = { "schedules are explored under sequential consistency (weak-memory reorderings are not)" };
	return vh::main(argc, argv);
}
