// C03 (sequential part): LockFreeQueue<T,Q> is a FIFO of capacity Q-1.
#include <cy_core.h>
#include "vh.h"
#include <deque>
#include <string>
#include <memory>
using namespace cyclone;

template<class T> T make(uint64_t v);
template<> uint32_t make<uint32_t>(uint64_t v) { return (uint32_t)v; }
template<> uint64_t make<uint64_t>(uint64_t v) { return v * 0x9E3779B97F4A7C15ull; }
template<> std::string make<std::string>(uint64_t v) { return std::string((size_t)(v % 40), (char)('a' + v % 26)) + std::to_string(v); }

template<class T, uint32_t Q> static void run(vh::Ctx& c, const char* tn)
{
	std::unique_ptr<LockFreeQueue<T, Q>> q(new LockFreeQueue<T, Q>());
	std::deque<T> m;
	uint64_t next = 1; bool saw_full = false, saw_empty = false, wrapped = false; uint64_t pushes = 0;
	c.note("LockFreeQueue<%s,%u>: ", tn, Q);
	unsigned ops = 0;
	while (c.more(30) && ops < 300) {
		ops++;
		bool push = c.chance(1, 2);
		size_t n = c.size(1, Q < 64 ? Q * 2 : 80 + (Q <= 1024 ? Q : 0), { Q - 1, Q });
		c.note("%s*%zu ", push ? "push" : "pop", n);
		for (size_t i = 0; i < n; i++) {
			if (push) {
				T v = make<T>(next++);
				bool r = q->push(v), e = m.size() < Q - 1;
				VH_CHECK(c, r == e, "push returned %d with %zu of %u elements queued", r, m.size(), Q - 1);
				if (e) { m.push_back(v); if (++pushes > Q) wrapped = true; } else { saw_full = true; break; }
			} else {
				T v = make<T>(0);
				bool r = q->pop(v), e = !m.empty();
				VH_CHECK(c, r == e, "pop returned %d with %zu elements queued", r, m.size());
				if (e) { VH_CHECK(c, v == m.front(), "pop returned an element that is not the oldest one"); m.pop_front(); }
				else { saw_empty = true; break; }
			}
			VH_CHECK(c, q->size() == m.size(), "size()=%u, %zu elements queued", q->size(), m.size());
		}
	}
	while (!m.empty()) { T v = make<T>(0); VH_CHECK(c, q->pop(v) && v == m.front(), "drain: wrong element"); m.pop_front(); }
	T v = make<T>(0);
	VH_CHECK(c, !q->pop(v) && q->size() == 0, "not empty after drain");
	if (saw_full) c.label("hit-full");
	if (saw_empty) c.label("hit-empty");
	if (wrapped) c.label("indices-wrapped");
	if (saw_full || wrapped) c.nontrivial();
}

VH_PROP(seq_model, 30000, 500000, 20000, false, 0)
{
	switch (c.below(3) * 8 + c.below(8)) {
#define R(o, T) case o + 0: run<T, 2>(c, #T); break; case o + 1: run<T, 4>(c, #T); break; case o + 2: run<T, 8>(c, #T); break; case o + 3: run<T, 16>(c, #T); break; \
	case o + 4: run<T, 32>(c, #T); break; case o + 5: run<T, 128>(c, #T); break; case o + 6: run<T, 1024>(c, #T); break; case o + 7: run<T, 64>(c, #T); break;
	R(0, uint32_t) R(8, uint64_t) R(16, std::string)
	}
}

int main(int argc, char** argv)
{
	vh::property_id = "C03";
	vh::nontrivial_rule = "sequential: random push/pop runs against a bounded FIFO model, non-trivial = the queue became full or its indices wrapped";
	return vh::main(argc, argv);
}
