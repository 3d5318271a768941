// C04: packets survive any chunking of the byte stream, from memory, ring buffer and pipe.
#include <cy_core.h>
#include <cy_event.h>
#include "vh.h"
#include <deque>
#include <memory>
#include <string.h>
using namespace cyclone;

struct Ref { size_t head; uint16_t id; std::vector<uint8_t> user, body;
	std::vector<uint8_t> wire() const {
		std::vector<uint8_t> v; size_t n = body.size();
		v.push_back((uint8_t)(n >> 8)); v.push_back((uint8_t)n); v.push_back((uint8_t)(id >> 8)); v.push_back((uint8_t)id);
		v.insert(v.end(), user.begin(), user.end()); v.insert(v.end(), body.begin(), body.end());
		return v;
	} };

static Ref gen_ref(vh::Ctx& c, size_t head, size_t maxbody)
{
	Ref r; r.head = head; r.id = (uint16_t)c.pick<uint64_t>({ 0, 1, 0xFFFF, 0x00FF, 0xFF00, c.below(65536) });
	size_t n = c.size(0, maxbody, { 255, 256, 1024 - 8 - head, 1024 - 8 - head + 1, 1024 - head, 1024, 32767, 32768, 65535 });
	r.body = c.blob(n); r.user = c.blob(head - 4);
	return r;
}
static void same(vh::Ctx& c, const Packet& p, const Ref& r, const char* where)
{
	std::vector<uint8_t> w = r.wire();
	VH_CHECK(c, p.get_packet_size() == r.body.size(), "%s: packet size %u, expected %zu", where, p.get_packet_size(), r.body.size());
	VH_CHECK(c, p.get_packet_id() == r.id, "%s: packet id %u, expected %u", where, p.get_packet_id(), r.id);
	VH_CHECK(c, p.get_memory_size() == w.size(), "%s: memory size %zu, expected %zu", where, p.get_memory_size(), w.size());
	VH_CHECK(c, p.get_memory_buf() != nullptr, "%s: no memory", where);
	for (size_t i = 0; i < w.size(); i++)
		VH_CHECK(c, (uint8_t)p.get_memory_buf()[i] == w[i], "%s: byte %zu of %zu is %02x, expected %02x (head %zu)", where, i, w.size(), (uint8_t)p.get_memory_buf()[i], w[i], r.head);
	if (r.body.size()) VH_CHECK(c, p.get_packet_content() == p.get_memory_buf() + r.head, "%s: content pointer is not behind the head", where);
	else VH_CHECK(c, p.get_packet_content() == nullptr, "%s: content of an empty packet is not null", where);
	// the documented safe tail is accessible (ASan decides) and writable
	volatile char* tail = const_cast<char*>(p.get_memory_buf()) + p.get_memory_size();
	for (int i = 0; i < 8; i++) { char x = tail[i]; tail[i] = x; }
}
static void empty(vh::Ctx& c, const Packet& p, const char* where)
{
	VH_CHECK(c, p.get_packet_size() == 0 && p.get_packet_id() == 0 && p.get_memory_size() == 0 && p.get_memory_buf() == nullptr && p.get_packet_content() == nullptr,
		"%s: a packet that was not built is not empty (size=%u id=%u mem=%zu)", where, p.get_packet_size(), p.get_packet_id(), p.get_memory_size());
}
// exact-size heap copy so that over-reads of the source are detected
struct Exact { char* p; Exact(const uint8_t* s, size_t n) { p = (char*)malloc(n ? n : 1); if (n) memcpy(p, s, n); } ~Exact() { free(p); } };

static void build(vh::Ctx& c, Packet& p, const Ref& r)
{
	size_t n = r.body.size(), k = c.chance(1, 2) ? c.size(0, n, { n }) : n;
	Exact a(r.body.data(), k), b(r.body.data() + k, n - k);
	const char* pa = (k == 0 && c.chance(1, 2)) ? nullptr : a.p; const char* pb = (k == n && c.chance(1, 2)) ? nullptr : b.p;
	p.build_from_memory(r.head, r.id, (uint16_t)k, pa, (uint16_t)(n - k), pb);
	VH_CHECK(c, p.get_memory_buf() != nullptr, "build_from_memory made no packet");
	if (r.head > 4) memcpy(p.get_memory_buf() + 4, r.user.data(), r.head - 4);
}

VH_PROP(stream, 300000, 6000000, 20000, false, 0)
{
	size_t head = 4 + (c.chance(1, 2) ? 0 : c.size(0, 64, { 2, 4, 8, 12 }));
	if (c.chance(1, 20)) head = c.size(4, 2000, { 1016, 1017, 1024 });
	size_t maxbody = c.chance(1, 8) ? 65535 : c.chance(1, 2) ? 64 : 1500;
	std::vector<Ref> refs; std::vector<uint8_t> wire;
	unsigned n = (unsigned)c.range(1, 8);
	// a pool of packet objects that are reused, so stale state of an earlier build matters
	std::vector<Packet*> pool; for (int i = 0; i < 3; i++) pool.push_back(Packet::alloc_packet());
	struct Free { std::vector<Packet*>& v; ~Free() { for (auto* p : v) Packet::free_packet(p); } } fr{ pool };
	c.note("head=%zu bodies=[", head);
	for (unsigned i = 0; i < n; i++) {
		refs.push_back(gen_ref(c, head, maxbody)); c.note("%zu ", refs.back().body.size());
		Packet* p = pool[c.below(pool.size())];
		build(c, *p, refs.back()); same(c, *p, refs.back(), "build_from_memory");
		if (c.chance(1, 3)) {
			Packet* q = Packet::alloc_packet(p);
			same(c, *q, refs.back(), "copy");
			if (c.chance(1, 2)) { p->clean(); empty(c, *p, "clean"); same(c, *q, refs.back(), "copy after clean of the original"); }
			Packet::free_packet(q); c.label("copied");
		}
		std::vector<uint8_t> w = refs.back().wire(); wire.insert(wire.end(), w.begin(), w.end());
	}
	c.note("] ");
	RingBuf rb(c.size(0, 3000, { RingBuf::kDefaultCapacity }));
	// start at an arbitrary position of the ring
	size_t pre = c.chance(1, 2) ? c.size(0, rb.capacity(), { rb.capacity() }) : 0;
	if (pre) { std::vector<uint8_t> j(pre, 0xAA); rb.memcpy_into(j.data(), pre); size_t d = rb.discard(pre); VH_CHECK(c, d == pre, "discard"); }
	size_t sent = 0, got = 0; size_t avail = 0; unsigned rounds = 0, refused = 0;
	size_t style = c.below(4);
	while (sent < wire.size()) {
		size_t left = wire.size() - sent, k;
		switch (style) {
		case 0: k = left; break;
		case 1: k = 1 + c.below(4); break;
		case 2: k = 1 + c.size(0, left, { head, 1, 2 }); break;
		default: k = 1 + c.below(left); break;
		}
		if (rounds > 200 || k > left) k = left;
		{ Exact e(wire.data() + sent, k); rb.memcpy_into(e.p, k); }
		sent += k; avail += k; rounds++;
		unsigned tries = 0;
		for (;;) {
			Packet* p = pool[c.below(pool.size())];
			size_t before = rb.size();
			VH_CHECK(c, before == avail, "ring holds %zu bytes, expected %zu", before, avail);
			bool ok = p->build_from_ringbuf(head, rb);
			size_t need = got < refs.size() ? head + refs[got].body.size() : (size_t)-1;
			VH_CHECK(c, ok == (avail >= need), "build_from_ringbuf answered %d with %zu bytes buffered, packet %zu needs %zu", ok, avail, got, need);
			if (!ok) { VH_CHECK(c, rb.size() == before, "an incomplete packet consumed %zu bytes", before - rb.size()); empty(c, *p, "incomplete packet"); refused++; break; }
			same(c, *p, refs[got], "build_from_ringbuf");
			avail -= need; got++;
			VH_CHECK(c, rb.size() == avail, "packet consumed %zu bytes instead of %zu", before - rb.size(), need);
			if (++tries > 20) break;
		}
	}
	VH_CHECK(c, got == refs.size() && rb.size() == 0, "%zu of %zu packets recovered, %zu bytes left", got, refs.size(), rb.size());
	c.note("chunks=%u", rounds);
	if (rounds > 1 && n > 1) { c.label("multi-chunk"); c.nontrivial(); }
	if (refused > rounds / 2) c.label("saw-incomplete");
	if (maxbody > 1500) c.label("heap-packets");
	if (head > 4) c.label("user-head");
}

VH_PROP(pipe_source, 100000, 2000000, 20000, false, 0)
{
	size_t head = 4 + (c.chance(1, 2) ? 0 : c.size(0, 64, { 4, 12 }));
	Pipe pipe; Packet p; std::deque<Ref> q; size_t inpipe = 0; unsigned built = 0, refused = 0;
	// the pipe's 64 KiB hold at least 15 pages worth of partially used buffers: stay well inside
	while (c.more(20)) {
		if (c.chance(1, 2)) {
			Ref r = gen_ref(c, head, c.chance(1, 6) ? 30000 : 300);
			std::vector<uint8_t> w = r.wire();
			if (inpipe + w.size() > 40000 || q.size() > 6) continue;
			Packet s; build(c, s, r);
			ssize_t k = pipe.write(s.get_memory_buf(), s.get_memory_size());
			VH_CHECK(c, k == (ssize_t)w.size(), "pipe took %zd of %zu bytes", k, w.size());
			q.push_back(r); inpipe += w.size();
		} else {
			bool ok = p.build_from_pipe(head, pipe);
			VH_CHECK(c, ok == !q.empty(), "build_from_pipe answered %d with %zu packets in the pipe", ok, q.size());
			if (ok) { same(c, p, q.front(), "build_from_pipe"); inpipe -= q.front().head + q.front().body.size(); q.pop_front(); built++; }
			else { empty(c, p, "build_from_pipe on an empty pipe"); refused++; }
		}
	}
	while (!q.empty()) { VH_CHECK(c, p.build_from_pipe(head, pipe), "packet lost in the pipe"); same(c, p, q.front(), "build_from_pipe"); q.pop_front(); built++; }
	VH_CHECK(c, !p.build_from_pipe(head, pipe), "packet from an empty pipe"); empty(c, p, "empty pipe");
	// truncated packet: never produced
	if (c.chance(1, 3)) {
		Ref r = gen_ref(c, head, 300); std::vector<uint8_t> w = r.wire(); size_t k = c.below(w.size());
		if (k) { VH_CHECK(c, pipe.write((char*)w.data(), k) == (ssize_t)k, "pipe write"); }
		VH_CHECK(c, !p.build_from_pipe(head, pipe), "a packet was built from %zu of its %zu bytes", k, w.size());
		empty(c, p, "truncated packet"); c.label("truncated");
	}
	c.note("head=%zu built=%u refused=%u", head, built, refused);
	if (built > 1) c.nontrivial();
}

int main(int argc, char** argv)
{
	vh::property_id = "C04";
	vh::nontrivial_rule = "1..8 packets with sizes around the inline/heap boundary and the 16-bit limits, cut into random chunks; non-trivial = several packets delivered in more than one chunk (ring buffer) / several packets through one pipe";
	vh::assumptions = { "head size >= 4 and total content <= 65535 (asserted preconditions)", "packets are put into a pipe whole; only ring-buffer sources are cut into chunks" };
	return vh::main(argc, argv);
}
