// C05: a pipe is a non-blocking FIFO of bytes.
#include <cy_core.h>
#include <cy_event.h>
#include "vh.h"
#include <deque>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
using namespace cyclone;

static bool readable(int fd) { struct pollfd p = { fd, POLLIN, 0 }; return poll(&p, 1, 0) == 1 && (p.revents & POLLIN); }

VH_PROP(fifo, 60000, 1200000, 10000, false, 0)
{
	Pipe pipe; std::deque<uint8_t> m;
	int rf = pipe.get_read_port(), wf = pipe.get_write_port();
	VH_CHECK(c, rf >= 0 && wf >= 0 && rf != wf, "ports %d %d", rf, wf);
	if (c.chance(1, 3)) { if (fcntl(wf, F_SETPIPE_SZ, 4096) < 0) {} c.label("one-page"); }
	size_t maxn = c.pick<size_t>({ 8, 300, 5000, 100000 });
	bool wrote_full = false, partial = false, wrapped = false; unsigned ops = 0; size_t moved = 0;
	while (c.more(30)) {
		ops++;
		if (c.chance(1, 2)) {
			size_t n = c.size(1, maxn, { 4095, 4096, 4097, 65536 });
			std::vector<uint8_t> b = c.blob(n);
			ssize_t k = pipe.write((const char*)b.data(), n);
			int e = errno;
			if (k < 0) {
				VH_CHECK(c, socket_api::is_lasterror_WOULDBLOCK() && (e == EAGAIN || e == EWOULDBLOCK), "write failed with errno %d", e);
				VH_CHECK(c, !m.empty(), "write of %zu bytes refused by an empty pipe", n); wrote_full = true;
			}
			else {
				VH_CHECK(c, k > 0 && (size_t)k <= n, "write of %zu bytes returned %zd", n, k);
				if (n <= 4096) VH_CHECK(c, (size_t)k == n, "a write of %zu bytes (<= PIPE_BUF) moved only %zd", n, k);
				if ((size_t)k < n) partial = true;
				m.insert(m.end(), b.begin(), b.begin() + k); moved += (size_t)k;
			}
		} else {
			size_t n = c.size(1, maxn, { 4096, 65536 });
			std::vector<uint8_t> b(n, 0xEE); uint8_t* exact = (uint8_t*)malloc(n);
			memset(exact, 0xEE, n);
			ssize_t k = pipe.read((char*)exact, n); b.assign(exact, exact + n); free(exact);
			if (m.empty()) { VH_CHECK(c, k < 0, "read from an empty pipe returned %zd", k); VH_CHECK(c, b[0] == 0xEE, "a refused read changed the buffer"); }
			else {
				size_t w = n < m.size() ? n : m.size();
				VH_CHECK(c, k == (ssize_t)w, "read of %zu bytes returned %zd with %zu in the pipe", n, k, m.size());
				for (size_t i = 0; i < w; i++) VH_CHECK(c, b[i] == m[i], "byte %zu is %02x, expected %02x", i, b[i], m[i]);
				if (w < n) VH_CHECK(c, b[w] == 0xEE, "read wrote past the bytes it reported");
				m.erase(m.begin(), m.begin() + (long)w); if (moved > 65536) wrapped = true;
			}
		}
		VH_CHECK(c, readable(rf) == !m.empty(), "read port readable=%d with %zu unread bytes", readable(rf), m.size());
	}
	c.note("maxn=%zu ops=%u moved=%zu", maxn, ops, moved);
	if (wrote_full) c.label("hit-full");
	if (partial) c.label("partial-write");
	if (wrapped) c.label("wrapped");
	if (ops > 5 && moved > 0) c.nontrivial();
}

VH_PROP(lifecycle, 30000, 600000, 10000, false, 0)
{
	// pipes neither leak descriptors nor mix with each other
	int base = dup(0); VH_CHECK(c, base >= 0, "dup"); ::close(base);
	{
		std::vector<Pipe*> v; struct Free { std::vector<Pipe*>& v; ~Free() { for (auto* p : v) delete p; } } fr{ v };
		unsigned n = (unsigned)c.range(1, 20);
		for (unsigned i = 0; i < n; i++) v.push_back(new Pipe());
		for (unsigned i = 0; i < n; i++) {
			VH_CHECK(c, (fcntl(v[i]->get_read_port(), F_GETFL) & O_NONBLOCK) && (fcntl(v[i]->get_write_port(), F_GETFL) & O_NONBLOCK), "a port is blocking"); VH_CHECK(c, (fcntl(v[i]->get_read_port(), F_GETFD) & FD_CLOEXEC) && (fcntl(v[i]->get_write_port(), F_GETFD) & FD_CLOEXEC), "a port is inherited by programs the process starts");
			char x = (char)i; VH_CHECK(c, v[i]->write(&x, 1) == 1, "write");
		}
		std::vector<unsigned> ord; for (unsigned i = 0; i < n; i++) ord.insert(ord.begin() + (long)c.below(ord.size() + 1), i);
		for (unsigned i : ord) { char x[4]; VH_CHECK(c, v[i]->read(x, 4) == 1 && x[0] == (char)i, "pipe %u delivered foreign bytes", i); if (c.chance(1, 2)) { delete v[i]; v[i] = new Pipe(); } }
		c.note("pipes=%u", n); if (n > 1) c.nontrivial();
	}
	int after = dup(0); ::close(after);
	VH_CHECK(c, after == base, "descriptors leaked: next free was %d, is %d", base, after);
}

VH_PROP(socket_pipe, 1500, 30000, 10000, false, 0)
{
	// the pipe made of a loopback connection (the back end of systems without pipe())
	int base = dup(0); ::close(base);
	pipe_port_t h[2] = { INVALID_SOCKET, INVALID_SOCKET };
	VH_CHECK(c, Pipe::construct_socket_pipe(h), "construct_socket_pipe failed");
	struct D { pipe_port_t* h; ~D() { if (h) Pipe::destroy_socket_pipe(h); } } d{ h };
	VH_CHECK(c, h[0] >= 0 && h[1] >= 0 && (fcntl(h[0], F_GETFL) & O_NONBLOCK) && (fcntl(h[1], F_GETFL) & O_NONBLOCK), "a port is missing or blocking"); VH_CHECK(c, (fcntl(h[0], F_GETFD) & FD_CLOEXEC) && (fcntl(h[1], F_GETFD) & FD_CLOEXEC), "a port is inherited by programs the process starts");
	std::deque<uint8_t> m; size_t moved = 0;
	while (c.more(12)) {
		if (c.chance(1, 2)) {
			size_t n = c.size(1, 20000); std::vector<uint8_t> b = c.blob(n);
			ssize_t k = socket_api::write(h[1], (char*)b.data(), n);
			if (k < 0) VH_CHECK(c, errno == EAGAIN && !m.empty(), "write failed with errno %d", errno);
			else { m.insert(m.end(), b.begin(), b.begin() + k); moved += (size_t)k; }
		} else {
			size_t n = c.size(1, 20000); std::vector<uint8_t> b(n);
			if (!m.empty()) { struct pollfd p = { h[0], POLLIN, 0 }; VH_CHECK(c, poll(&p, 1, 5000) == 1, "unread bytes never arrive"); }
			ssize_t k = socket_api::read(h[0], (char*)b.data(), n);
			if (m.empty()) { VH_CHECK(c, k < 0, "read from an empty pipe returned %zd", k); continue; }
			VH_CHECK(c, k > 0 && (size_t)k <= m.size(), "read returned %zd with %zu bytes unread", k, m.size());
			for (ssize_t i = 0; i < k; i++) VH_CHECK(c, b[(size_t)i] == m[(size_t)i], "byte %zd differs", i);
			m.erase(m.begin(), m.begin() + k);
		}
	}
	d.h = nullptr; Pipe::destroy_socket_pipe(h);
	VH_CHECK(c, h[0] == INVALID_SOCKET && h[1] == INVALID_SOCKET, "handles not invalidated");
	int after = dup(0); ::close(after);
	VH_CHECK(c, after == base, "descriptors leaked: next free was %d, is %d", base, after);
	c.note("socket pipe moved=%zu", moved); if (moved) { c.nontrivial(); c.label("socket-pipe"); }
}

int main(int argc, char** argv)
{
	vh::property_id = "C05";
	vh::nontrivial_rule = "random interleavings of reads and writes of 1..100000 bytes on a default or one-page pipe; non-trivial = more than five operations that moved bytes";
	return vh::main(argc, argv);
}
