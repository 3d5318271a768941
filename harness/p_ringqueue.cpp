// C25: RingQueue against std::deque, with elements that detect misuse.
#include <cy_core.h>
#include <utility/cyu_ring_queue.h>
#include "vh.h"
#include <deque>
#include <memory>
using namespace cyclone;

static long g_live; static const char* g_err;
struct Elem {
	uint32_t v; uint32_t magic; uint32_t* heap;
	Elem() : v(0), magic(0xE1E1), heap(new uint32_t(0)) { g_live++; }
	explicit Elem(uint32_t x) : v(x), magic(0xE1E1), heap(new uint32_t(x)) { g_live++; }
	Elem(const Elem& o) : v(o.v), magic(0xE1E1), heap(o.dup()) { g_live++; }
	Elem(Elem&& o) noexcept : v(o.v), magic(0xE1E1), heap(o.heap) { o.heap = nullptr; g_live++; }
	Elem& operator=(const Elem& o) { if (this != &o) { chk(); uint32_t* x = o.dup(); delete heap; heap = x; v = o.v; } return *this; }
	Elem& operator=(Elem&& o) noexcept { if (this != &o) { chk(); delete heap; heap = o.heap; o.heap = nullptr; v = o.v; } return *this; }
	~Elem() { chk(); magic = 0xDEAD; delete heap; g_live--; }
	void chk() const { if (magic != 0xE1E1) g_err = "an element is used after its destruction"; }
	uint32_t* dup() const { chk(); return heap ? new uint32_t(value()) : nullptr; }	// copying a moved-from (unused) slot is fine, its value must not be seen
	uint32_t value() const { chk(); if (!heap) { g_err = "a moved-from element is read"; return 0; } if (*heap != v) g_err = "an element is torn"; return *heap; }
};
static uint32_t val(const Elem& e) { return e.value(); }
static uint32_t val(const uint32_t& e) { return e; }
static uint32_t val(const std::string& e) { return e.empty() ? 0 : (uint32_t)strtoul(e.c_str(), nullptr, 10); }
template<class T> T mk(uint32_t x) { return T(x); }
template<> std::string mk<std::string>(uint32_t x) { return vh::sfmt("%u-some-text-too-long-for-the-small-buffer", x); }

template<class T> static void check(vh::Ctx& c, RingQueue<T>& q, const std::deque<uint32_t>& m, size_t fixed, bool deep, size_t stop)
{
	VH_CHECK(c, q.size() == m.size(), "size is %zu, expected %zu", q.size(), m.size());
	VH_CHECK(c, q.empty() == m.empty(), "empty is %d with %zu elements", q.empty(), m.size());
	if (fixed) VH_CHECK(c, q.capacity() == fixed, "capacity is %zu, fixed at %zu", q.capacity(), fixed);
	VH_CHECK(c, q.capacity() >= m.size() && q.get_free_size() == q.capacity() - m.size(), "capacity %zu free %zu with %zu elements", q.capacity(), q.get_free_size(), m.size());
	if (!m.empty()) {
		VH_CHECK(c, val(q.front()) == m.front(), "front is %u, expected %u", val(q.front()), m.front());
		VH_CHECK(c, val(q.back()) == m.back(), "back is %u, expected %u", val(q.back()), m.back());
	}
	if (deep) {
		for (size_t i = 0; i < m.size(); i++) VH_CHECK(c, val(q.get(i)) == m[i], "get(%zu) is %u, expected %u", i, val(q.get(i)), m[i]);
		size_t n = 0; bool bad = false;
		q.walk([&](size_t i, const T& e) { if (i != n || n >= m.size() || val(e) != m[n]) bad = true; n++; return n != stop; });
		size_t want = m.empty() ? 0 : (stop && stop < m.size() ? stop : m.size());
		VH_CHECK(c, !bad && n == want, "walk visited %zu of %zu elements%s", n, want, bad ? ", wrong order" : "");
		n = 0;
		q.walk_reserve([&](size_t i, const T& e) { if (n >= m.size() || i != m.size() - 1 - n || val(e) != m[m.size() - 1 - n]) bad = true; n++; return n != stop; });
		VH_CHECK(c, !bad && n == want, "walk_reserve visited %zu of %zu elements%s", n, want, bad ? ", wrong order" : "");
		q.walk(nullptr); q.walk_reserve(nullptr);
	}
	if (g_err) c.fail("%s", g_err);
}

template<class T> static void run(vh::Ctx& c, const char* tn)
{
	size_t fixed = c.chance(1, 2) ? c.size(1, 80, { 1, 7, 8, 9, 31, 32 }) : 0;
	{
		std::unique_ptr<RingQueue<T>> q(fixed ? new RingQueue<T>(fixed) : new RingQueue<T>());
		std::deque<uint32_t> m; uint32_t next = 1; unsigned ops = 0; bool wrapped = false, grew = false, dropped = false, self = false; size_t cap0 = q->capacity(), pushed = 0;
		auto model_push = [&](uint32_t v) { if (fixed && m.size() == fixed) { m.pop_front(); dropped = true; } m.push_back(v); pushed++; };
		while (c.more(40)) {
			ops++;
			switch (c.weighted({ 6, 2, 3, 1, 1, 1 })) {
			case 0: { size_t k = c.size(1, 50); for (size_t i = 0; i < k; i++) { q->push(mk<T>(next)); model_push(next++); check<T>(c, *q, m, fixed, false, 0); } break; }
			case 1: { size_t k = c.size(0, 60, { m.size() }); q->pop(k); m.erase(m.begin(), m.begin() + (long)std::min(k, m.size())); break; }
			case 2: if (!m.empty()) { size_t k = 1 + c.below(std::min<size_t>(m.size(), 20)); for (size_t i = 0; i < k; i++) { VH_CHECK(c, val(q->front()) == m.front(), "front is %u, expected %u", val(q->front()), m.front()); q->pop(); m.pop_front(); } } break;
			case 3: if (c.chance(1, 4)) { q->reset(); m.clear(); } break;
			case 4: if (!m.empty()) {	// push copies of its own elements, also while growing
				size_t k = c.size(1, 70); self = true;
				for (size_t i = 0; i < k; i++) { size_t at = c.chance(1, 2) ? 0 : m.size() - 1; uint32_t v = m[at]; if (c.chance(1, 3)) q->push(q->get(at)); else if (at == 0) q->push(q->front()); else q->push(q->back()); model_push(v); }
			} break;
			case 5: { RingQueue<T> cp(*q); check<T>(c, cp, m, fixed, true, 0); cp.push(mk<T>(999999)); cp.pop(1); if (c.chance(1, 2)) { std::deque<uint32_t> m2 = m; *q = *std::unique_ptr<RingQueue<T>>(new RingQueue<T>(*q)); check<T>(c, *q, m2, fixed, true, 0); } break; }
			}
			if (q->capacity() != cap0) grew = true;
			if (pushed > q->capacity()) wrapped = true;
			check<T>(c, *q, m, fixed, true, c.below(4));
		}
		c.note("%s fixed=%zu ops=%u pushed=%zu final=%zu", tn, fixed, ops, pushed, m.size());
		if (grew) c.label("grew"); if (dropped) c.label("dropped-oldest"); if (self) c.label("self-push");
		if (wrapped || grew) c.nontrivial();
	}
	if (g_err) c.fail("%s", g_err);
	VH_CHECK(c, g_live == 0, "%ld elements still alive after the queue is gone", g_live);
}
VH_PROP(model, 150000, 2250000, 20000, false, 0)
{
	g_live = 0; g_err = nullptr;
	switch (c.below(3)) { case 0: run<Elem>(c, "instrumented"); break; case 1: run<uint32_t>(c, "uint32"); break; case 2: run<std::string>(c, "string"); break; }
}
int main(int argc, char** argv)
{
	vh::property_id = "C25";
	vh::nontrivial_rule = "random histories over growing and fixed queues (capacities 1..80) of integers, strings and instrumented elements; non-trivial = the queue wrapped around or grew";
	return vh::main(argc, argv);
}
