// C02: RingBuf socket I/O neither loses, duplicates, reorders nor invents bytes.
#include <cy_core.h>
#include "vh.h"
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <algorithm>
#include <poll.h>
using namespace cyclone;

static void nb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
struct Fds { int a = -1, b = -1; ~Fds() { if (a >= 0) close(a); if (b >= 0) close(b); } };

static bool tcp_pair(Fds& f)
{
	int l = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in sa; memset(&sa, 0, sizeof(sa)); sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t sl = sizeof(sa);
	if (bind(l, (sockaddr*)&sa, sl) || listen(l, 1) || getsockname(l, (sockaddr*)&sa, &sl)) { close(l); return false; }
	f.a = socket(AF_INET, SOCK_STREAM, 0);
	if (connect(f.a, (sockaddr*)&sa, sl)) { close(l); return false; }
	f.b = accept(l, 0, 0); close(l);
	linger lg{ 1,0 }; setsockopt(f.a, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));	// no TIME_WAIT pile-up
	return f.b >= 0;
}

VH_PROP(socket_io, 12000, 250000, 30000, false, 0)
{
	Fds f;
	unsigned kind = (unsigned)c.weighted({ 5, 3, 1 });	// unix socketpair, tcp, pipe (b -> a only)
	bool pipe_mode = kind == 2;
	if (kind == 0) { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return; f.a = sv[0]; f.b = sv[1]; }
	else if (kind == 1) { if (!tcp_pair(f)) return; }
	else { int sv[2]; if (pipe(sv)) return; f.a = sv[0]; f.b = sv[1]; }
	nb(f.a); nb(f.b);
	if (!pipe_mode && c.chance(2, 3)) {
		int sz = (int)c.pick({ 2304, 4608, 20000 });
		setsockopt(f.a, SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz)); setsockopt(f.b, SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
		int one = 1; if (kind == 1) { setsockopt(f.a, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); setsockopt(f.b, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); }
	}
	size_t cap0 = c.chance(1, 2) ? (size_t)c.range(0, 32) : c.size(0, 5000, { 1023, 255, 4095 });
	RingBuf rb(cap0);
	c.note("%s cap=%zu: ", kind == 0 ? "unix" : kind == 1 ? "tcp" : "pipe", cap0);
	std::string model;		// bytes the ring must hold
	std::string to_rb;		// written by the peer, not yet read by read_socket
	std::string from_rb;	// written by write_socket, not yet received by the peer
	bool peer_wr_closed = false, peer_gone = false, did_partial_write = false, did_extra = false, did_wrap_read = false;
	size_t maxn = c.chance(1, 8) ? 200000 : 9000;
	std::vector<char> tmp(1 << 18);
	auto peer_recv = [&](size_t n) {
		ssize_t r = read(f.b, tmp.data(), std::min(n, tmp.size()));
		if (r > 0) {
			VH_CHECK(c, (size_t)r <= from_rb.size(), "peer received %zd bytes, only %zu were written", r, from_rb.size());
			VH_CHECK(c, memcmp(tmp.data(), from_rb.data(), (size_t)r) == 0, "peer received wrong bytes");
			from_rb.erase(0, (size_t)r);
		}
		return r;
	};
	unsigned ops = 0;
	while (c.more(25) && ops < 150) {
		ops++;
		switch (c.weighted({ 5, 6, 5, 4, 2, 2, 1 })) {
		case 0: {	// peer writes
			if (peer_wr_closed || peer_gone) break;
			size_t n = c.size(1, maxn, { rb.get_free_size(), rb.get_free_size() + 0xFFFF, 0xFFFF });
			auto b = c.blob(n);
			ssize_t r = write(f.b, b.data(), n);
			if (r > 0) to_rb.append((char*)b.data(), (size_t)r);
			c.note("peer.write(%zu)=%zd ", n, r);
			break; }
		case 1: {	// read_socket
			bool extra = c.chance(3, 4);
			size_t fr = rb.get_free_size(), sz = rb.size();
			if (!extra && fr == 0) break;	// nothing can be read: outside the contract
			if (kind == 1 && !to_rb.empty()) { pollfd pf{ f.a, POLLIN, 0 }; poll(&pf, 1, 2000); }
			errno = 0;
			ssize_t r = rb.read_socket(f.a, extra);
			int e = errno;
			c.note("read_socket(extra=%d)=%zd ", extra, r);
			if (r > 0) {
				VH_CHECK(c, (size_t)r <= to_rb.size(), "read_socket returned %zd, only %zu bytes were sent", r, to_rb.size());
				if (!extra) VH_CHECK(c, (size_t)r <= fr, "read_socket without extra buffer returned %zd > free %zu", r, fr);
				if ((size_t)r > fr) did_extra = true;
				if (sz && (size_t)r > 1) did_wrap_read = true;
				model.append(to_rb, 0, (size_t)r); to_rb.erase(0, (size_t)r);
			} else if (r == 0) {
				VH_CHECK(c, (peer_wr_closed || peer_gone) && to_rb.empty(), "read_socket reported end of stream with %zu bytes pending, peer %s", to_rb.size(), peer_wr_closed ? "closed" : "open");
			} else {
				if (peer_gone) { /* reset */ to_rb.clear(); break; }
				VH_CHECK(c, e == EAGAIN || e == EWOULDBLOCK, "read_socket failed with errno %d", e);
				VH_CHECK(c, to_rb.empty() || kind == 1, "read_socket: nothing read with %zu bytes pending", to_rb.size());
			}
			break; }
		case 2: {	// write_socket
			if (pipe_mode || rb.empty()) break;
			errno = 0;
			ssize_t r = rb.write_socket(f.a);
			c.note("write_socket[%zu]=%zd ", model.size(), r);
			if (r > 0) {
				VH_CHECK(c, (size_t)r <= model.size(), "write_socket returned %zd, only %zu bytes were queued", r, model.size());
				if ((size_t)r < model.size()) did_partial_write = true;
				from_rb.append(model, 0, (size_t)r); model.erase(0, (size_t)r);
			} else VH_CHECK(c, r < 0, "write_socket returned 0");
			break; }
		case 3:		// peer reads
			if (peer_gone || pipe_mode) break;
			peer_recv(c.size(1, maxn, { from_rb.size() }));
			break;
		case 4: {	// local memory operations in between move the read/write positions
			size_t n = c.size(0, maxn, { rb.size(), rb.size() / 2 });
			size_t e = std::min(n, model.size());
			std::string out(e, 0);
			size_t r = rb.memcpy_out(&out[0], e);
			VH_CHECK(c, r == e && out == model.substr(0, e), "memcpy_out differs after socket reads");
			model.erase(0, e);
			break; }
		case 5: {
			size_t n = c.size(0, maxn, { rb.get_free_size() });
			if (model.size() > 400000) break;
			auto b = c.blob(n);
			rb.memcpy_into(b.data(), n); model.append((char*)b.data(), n);
			break; }
		case 6:
			if (!peer_wr_closed && !peer_gone && c.chance(1, 3)) {
				if (c.chance(1, 2) || pipe_mode) { if (pipe_mode) { close(f.b); f.b = -1; peer_gone = true; } else shutdown(f.b, SHUT_WR); peer_wr_closed = true; c.note("peer.shutdown "); }
				else if (kind == 0) { close(f.b); f.b = -1; peer_gone = true; peer_wr_closed = true; c.note("peer.close "); }
			}
			break;
		}
		VH_CHECK(c, rb.size() == model.size(), "size()=%zu, %zu bytes are queued", rb.size(), model.size());
		VH_CHECK(c, rb.get_free_size() == rb.capacity() - rb.size(), "free/capacity/size disagree");
		std::string all(model.size(), 0);
		VH_CHECK(c, rb.peek(0, &all[0], all.size()) == model.size() && all == model, "the ring's bytes differ from what was read from the socket");
	}
	// drain both directions
	int idle = 0;
	while (!to_rb.empty() && !peer_gone) {
		pollfd pf{ f.a, POLLIN, 0 }; poll(&pf, 1, 1000);
		ssize_t r = rb.read_socket(f.a, true);
		if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK) && idle++ < 15) continue;
		VH_CHECK(c, r > 0, "drain: read_socket returned %zd with %zu bytes pending", r, to_rb.size());
		VH_CHECK(c, (size_t)r <= to_rb.size());
		model.append(to_rb, 0, (size_t)r); to_rb.erase(0, (size_t)r);
	}
	if (!pipe_mode && !peer_gone) {
		for (int it = 0; it < 20000 && (!rb.empty() || !from_rb.empty()); it++) {
			pollfd pf[2] = { { f.a, (short)(rb.empty() ? 0 : POLLOUT), 0 }, { f.b, (short)(from_rb.empty() ? 0 : POLLIN), 0 } };
			poll(pf, 2, 1000);
			if (!rb.empty()) {
				ssize_t r = rb.write_socket(f.a);
				if (r > 0) { VH_CHECK(c, (size_t)r <= model.size()); if ((size_t)r < model.size()) did_partial_write = true; from_rb.append(model, 0, (size_t)r); model.erase(0, (size_t)r); }
			}
			if (!from_rb.empty()) peer_recv(tmp.size());
		}
		VH_CHECK(c, from_rb.empty() && model.empty() && rb.empty(), "drain: %zu bytes never reached the peer", from_rb.size() + model.size());
	} else {
		std::string out(model.size(), 0);
		VH_CHECK(c, rb.memcpy_out(&out[0], out.size()) == model.size() && out == model, "final content differs");
	}
	if (did_partial_write) c.label("partial-write");
	if (did_extra) c.label("read-beyond-free-space");
	if (did_wrap_read) c.label("read-into-nonempty");
	if (peer_wr_closed) c.label("end-of-stream");
	if (did_partial_write || did_extra) c.nontrivial();
}

int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN);
	vh::property_id = "C02";
	vh::nontrivial_rule = "random interleavings of peer writes/reads/close, read_socket, write_socket and memory operations over unix/tcp/pipe descriptors with small kernel buffers; non-trivial = a write was partial or a read overflowed the free space";
	return vh::main(argc, argv);
}
