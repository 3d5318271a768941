// C01: RingBuf is a FIFO byte queue (model: std::string), for every sequence of memory operations.
#include <cy_core.h>
#include <cy_crypt.h>
#include "vh.h"
#include <string.h>
#include <algorithm>
#include <memory>
using namespace cyclone;

static uint32_t ref_adler(const std::string& s)
{
	uint32_t a = 1, b = 0;
	for (unsigned char ch : s) { a = (a + ch) % 65521; b = (b + a) % 65521; }
	return (b << 16) | a;
}

struct Pair {
	std::unique_ptr<RingBuf> rb;
	std::string m;		// the model: the queued bytes, oldest first
	size_t cap;
	void make(size_t c) { rb.reset(new RingBuf(c)); m.clear(); cap = c; }
};

static void invariants(vh::Ctx& c, Pair& p, const char* op)
{
	const RingBuf& rb = *p.rb;
	VH_CHECK(c, rb.size() == p.m.size(), "after %s: size()=%zu, %zu bytes are queued", op, rb.size(), p.m.size());
	VH_CHECK(c, rb.capacity() >= rb.size(), "after %s: capacity=%zu < size=%zu", op, rb.capacity(), rb.size());
	VH_CHECK(c, rb.capacity() >= p.cap, "after %s: capacity shrank %zu -> %zu", op, p.cap, rb.capacity());
	VH_CHECK(c, rb.get_free_size() == rb.capacity() - rb.size(), "after %s: free=%zu capacity=%zu size=%zu", op, rb.get_free_size(), rb.capacity(), rb.size());
	VH_CHECK(c, rb.empty() == p.m.empty(), "after %s: empty()=%d size=%zu", op, rb.empty(), p.m.size());
	VH_CHECK(c, rb.full() == (rb.size() == rb.capacity()), "after %s: full()=%d size=%zu cap=%zu", op, rb.full(), rb.size(), rb.capacity());
	p.cap = rb.capacity();
	// full content, non destructive
	std::string got(p.m.size() + 8, '\x5A');
	size_t n = rb.peek(0, &got[0], got.size());
	VH_CHECK(c, n == p.m.size(), "after %s: peek(0,all) returned %zu of %zu", op, n, p.m.size());
	VH_CHECK(c, got.compare(0, n, p.m) == 0, "after %s: content differs from the queued bytes", op);
	VH_CHECK(c, got.compare(n, 8, std::string(8, '\x5A')) == 0, "after %s: peek wrote past the returned count", op);
}

VH_PROP(fifo_model, 300000, 1500000, 20000, false, 0)
{
	Pair p[2];
	size_t caps[2];
	bool big = c.chance(1, 20);
	for (int i = 0; i < 2; i++) {
		caps[i] = c.weighted({ 3, 3, 2 }) == 0 ? (size_t)c.range(0, 16) : c.size(0, 3000, { 7, 8, 15, 16, 31, 32, 64, 127, 255, 1023, 1024, 2047 });
		p[i].make(caps[i]);
		c.note("rb%d=RingBuf(%zu) ", i, caps[i]);
		invariants(c, p[i], "construction");
	}
	// write positions inside the ring can only be guessed from outside: count how often the content
	// must have wrapped, from the model of a ring of the current capacity
	size_t wpos[2] = { 0,0 };
	bool wrapped = false, grew = false, peeked_wrapped = false;
	size_t maxn = big ? 150000 : (c.chance(1, 3) ? 4000 : 64);
	unsigned ops = 0;
	while (c.more(40) && ops < 400) {
		ops++;
		int k = (int)c.weighted({ 3, 1 });
		Pair& q = p[k]; Pair& o = p[1 - k];
		RingBuf& rb = *q.rb;
		size_t sz = q.m.size(), fr = rb.get_free_size(), cap0 = rb.capacity();
		switch (c.weighted({ 10, 8, 4, 4, 5, 4, 3, 3, 2, 1, 1 })) {
		case 0: {
			size_t n = c.size(0, maxn, { fr, fr + 1, cap0, rb.capacity() - (fr < sz ? sz : 0) });
			if (q.m.size() + n > 400000) break;
			auto b = c.blob(n);
			c.note("rb%d.in(%zu) ", k, n);
			rb.memcpy_into(b.data(), n);
			q.m.append((const char*)b.data(), n);
			if (rb.capacity() != cap0) { grew = true; wpos[k] = q.m.size(); }
			else { wpos[k] += n; if (wpos[k] > rb.capacity()) { wpos[k] -= rb.capacity() + 1; if (!q.m.empty()) wrapped = true; } }
			break; }
		case 1: {
			size_t n = c.size(0, maxn, { sz, sz / 2 + 1 });
			std::string out(n + 4, '\x77');
			c.note("rb%d.out(%zu) ", k, n);
			size_t r = rb.memcpy_out(&out[0], n);
			size_t e = std::min(n, sz);
			VH_CHECK(c, r == e, "memcpy_out(%zu) returned %zu with %zu queued", n, r, sz);
			VH_CHECK(c, out.compare(0, e, q.m, 0, e) == 0, "memcpy_out(%zu): wrong bytes", n);
			VH_CHECK(c, out.compare(e, 4, "\x77\x77\x77\x77") == 0, "memcpy_out(%zu) wrote past the returned count", n);
			q.m.erase(0, e);
			break; }
		case 2: {
			size_t n = c.chance(1, 12) ? (size_t)-1 - (size_t)c.range(0, 3) : c.size(0, maxn, { sz, sz / 2 + 1 });
			c.note("rb%d.discard(%zu) ", k, n);
			size_t r = rb.discard(n), e = std::min(n, sz);
			VH_CHECK(c, r == e, "discard(%zu) returned %zu with %zu queued", n, r, sz);
			q.m.erase(0, e);
			break; }
		case 3: {
			size_t off = c.size(0, sz + 2, { sz, sz / 2 });
			size_t n = c.chance(1, 12) ? (size_t)-1 - (size_t)c.range(0, 3) : c.size(0, maxn, { sz, sz - std::min(off, sz) });
			size_t e = off > sz ? 0 : std::min(n, sz - off);
			std::string out(e + 4, '\x66');
			c.note("rb%d.peek(%zu,%zu) ", k, off, n);
			size_t r = rb.peek(off, &out[0], n);
			VH_CHECK(c, r == e, "peek(%zu,%zu) returned %zu with %zu queued", off, n, r, sz);
			if (e) VH_CHECK(c, out.compare(0, e, q.m, off, e) == 0, "peek(%zu,%zu): wrong bytes", off, n);
			VH_CHECK(c, out.compare(e, 4, "\x66\x66\x66\x66") == 0, "peek wrote past the returned count");
			if (wrapped) peeked_wrapped = true;
			break; }
		case 4: {
			size_t off = c.size(0, sz + 2, { sz, sz / 2 });
			uint8_t b;
			if (sz && c.chance(3, 4)) b = (uint8_t)q.m[c.below(sz)]; else b = (uint8_t)c.below(256);
			c.note("rb%d.search(%zu,%02x) ", k, off, b);
			ssize_t r = rb.search(off, b);
			size_t e = off > sz ? std::string::npos : q.m.find((char)b, off);
			ssize_t ee = e == std::string::npos ? -1 : (ssize_t)e;
			VH_CHECK(c, r == ee, "search(%zu,0x%02x) returned %zd, first position is %zd (size %zu)", off, b, r, ee, sz);
			if (wrapped) peeked_wrapped = true;
			break; }
		case 5: {
			size_t off = c.size(0, sz + 2, { sz, sz / 2 });
			size_t n = c.chance(1, 12) ? (size_t)-1 - (size_t)c.range(0, 3) : c.size(0, sz + 2, { sz, sz - std::min(off, sz) });
			c.note("rb%d.checksum(%zu,%zu) ", k, off, n);
			uint32_t r = rb.checksum(off, n);
			uint32_t e = (off > sz || n > sz - off) ? 1u : ref_adler(q.m.substr(off, n));
			VH_CHECK(c, r == e, "checksum(%zu,%zu)=%08x, adler32 of those bytes is %08x (size %zu)", off, n, r, e, sz);
			break; }
		case 6: {
			c.note("rb%d.normalize ", k);
			uint8_t* b = rb.normalize();
			VH_CHECK(c, memcmp(b, q.m.data(), sz) == 0, "normalize(): flat block differs from the queued bytes");
			if (wrapped) peeked_wrapped = true;
			wpos[k] = sz;	// lower bound only, evidence
			break; }
		case 7: {
			size_t n = c.size(0, maxn, { sz, o.rb->get_free_size(), o.rb->get_free_size() + 1 });
			size_t e = std::min(n, sz);
			if (o.m.size() + e > 400000) break;
			c.note("rb%d.moveto(rb%d,%zu) ", k, 1 - k, n);
			size_t r = rb.moveto(*o.rb, n);
			VH_CHECK(c, r == e, "moveto(%zu) returned %zu with %zu queued", n, r, sz);
			o.m.append(q.m, 0, e); q.m.erase(0, e);
			invariants(c, o, "moveto(destination)");
			break; }
		case 8: {
			size_t n = c.size(0, maxn, { cap0, cap0 + 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096 });
			c.note("rb%d.resize(%zu) ", k, n);
			rb.resize(n);
			VH_CHECK(c, rb.capacity() >= n, "resize(%zu): capacity is %zu", n, rb.capacity());
			if (rb.capacity() != cap0) grew = true;
			break; }
		case 9: {
			c.note("rb%d.reset ", k);
			rb.reset(); q.m.clear(); wpos[k] = 0;
			break; }
		case 10: {	// the zero-length forms
			c.note("rb%d.zero ", k);
			char dummy = 0;
			rb.memcpy_into(&dummy, 0);
			VH_CHECK(c, rb.memcpy_out(&dummy, 0) == 0);
			VH_CHECK(c, rb.peek(0, &dummy, 0) == 0);
			VH_CHECK(c, rb.discard(0) == 0);
			break; }
		}
		invariants(c, q, "the operation");
	}
	// drain
	for (int i = 0; i < 2; i++) {
		std::string out(p[i].m.size(), 0);
		size_t r = p[i].rb->memcpy_out(&out[0], out.size());
		VH_CHECK(c, r == p[i].m.size() && out == p[i].m, "final drain of rb%d differs", i);
		VH_CHECK(c, p[i].rb->empty() && p[i].rb->get_free_size() == p[i].rb->capacity(), "rb%d not empty after drain", i);
	}
	if (wrapped) c.label("wrapped");
	if (grew) c.label("grew");
	if (peeked_wrapped) c.label("observed-while-wrapped");
	if (big) c.label("large-blocks");
	if (wrapped || grew) c.nontrivial();
}

int main(int argc, char** argv)
{
	vh::property_id = "C01";
	vh::nontrivial_rule = "random operation sequences over two RingBufs against a std::string model, every observer compared after every operation; non-trivial = the stored bytes wrapped around the end of the ring or the buffer grew";
	return vh::main(argc, argv);
}
