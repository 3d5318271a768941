// C33: every socket helper does to the socket what it names, observed through the system calls themselves.
#include "net.h"
#include <deque>
#include <sys/resource.h>
#include <sys/time.h>

struct Fd { int f; explicit Fd(int x = -1) : f(x) {} ~Fd() { reset(); } void reset(int x = -1) { if (f >= 0) ::close(f); f = x; } Fd(const Fd&) = delete; };
// descriptors up to (not including) n are taken
struct Pad {
	std::vector<int> v; ~Pad() { for (int f : v) close(f); }
	void to(int n) { for (;;) { int f = fcntl(0, F_DUPFD_CLOEXEC, 0); if (f < 0) break; if (f >= n) { close(f); break; } v.push_back(f); } }
};
static uint16_t port_of(int fd) { sockaddr_in a; socklen_t l = sizeof a; getsockname(fd, (sockaddr*)&a, &l); return ntohs(a.sin_port); }
static volatile sig_atomic_t g_ticks; static void on_tick(int) { g_ticks = g_ticks + 1; }
struct Ticker {
	bool on; struct sigaction old;
	Ticker(bool o, unsigned us) : on(o) { if (!on) return; g_ticks = 0; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sigaction(SIGALRM, &sa, &old); itimerval it = { { 0, (suseconds_t)us }, { 0, (suseconds_t)us } }; setitimer(ITIMER_REAL, &it, nullptr); }
	~Ticker() { if (!on) return; itimerval z = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_REAL, &z, nullptr); sigaction(SIGALRM, &old, nullptr); }
};

// check_connect: true exactly for an address that accepts within the time, one connection, nothing left behind
VH_PROP(probe, 8000, 60000, 20000, false, 0)
{
	mute();
	enum { LISTEN, REFUSED, FULL, BADADDR, NOFD }; static const char* kn[] = { "listening", "refused", "full-backlog", "bad-address", "no-descriptor" };
	int kind = (int)c.weighted({ 6, 3, 3, 1, 1 }); Pad pad;
	int base = c.pick({ 0, 0, 1016, 1023, 1024, 1025, 2000 }); if (base) base += (int)c.below(8);
	Fd ls; std::vector<int> fill; uint16_t port = 0; sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; std::string ip = c.chance(1, 2) ? my_ip() : "127.0.0.1";
	if (kind <= FULL || kind == NOFD) {
		ls.reset(raw_socket(&port, ip.c_str())); VH_CHECK(c, ls.f >= 0, "harness: socket");
		if (kind == LISTEN || kind == NOFD) VH_CHECK(c, listen(ls.f, 16) == 0, "harness: listen");
		if (kind == FULL) { VH_CHECK(c, listen(ls.f, 0) == 0, "harness: listen"); for (int i = 0; i < 6; i++) { int f = raw_socket(nullptr, ip.c_str()); fill.push_back(f); if (raw_connect(f, port, ip.c_str(), 20) != 1) break; } }
		a = lo_addr(ip.c_str(), port);
	} else { static const char* bad[] = { "240.0.0.1", "255.255.255.255", "127.0.0.1" }; unsigned k = (unsigned)c.below(3); a = lo_addr(bad[k], (uint16_t)(k == 2 ? 0 : 7)); }
	if (base) { pad.to(base); c.label(base >= 1024 ? "fd>=1024" : "fd-near-1024"); }
	struct rlimit rl, low; getrlimit(RLIMIT_NOFILE, &rl);
	if (kind == NOFD) { int f = dup(0); close(f); low = rl; low.rlim_cur = (rlim_t)f; setrlimit(RLIMIT_NOFILE, &low); }
	int tmo = kind == FULL ? (int)c.pick<size_t>({ c.size(0, 60), 1, 20 }) : kind == LISTEN ? c.pick({ -1, 5000, 20000 }) : c.pick({ -1, 0, 1, 500, 5000 });
	if (kind == BADADDR && tmo < 0) tmo = 50;
	bool sig = c.chance(1, 4); unsigned before = kind == NOFD ? 0 : count_fds(); int64_t t0 = now_us(); bool r;
	{ Ticker tk(sig, 1000 + (unsigned)c.below(4000)); r = socket_api::check_connect(a, tmo); }
	int64_t el = now_us() - t0; if (kind == NOFD) setrlimit(RLIMIT_NOFILE, &rl);
	unsigned after = kind == NOFD ? 0 : count_fds();
	VH_CHECK(c, r == (kind == LISTEN), "check_connect(%s %s:%u, %d ms) with descriptors from %d%s returned %d", kn[kind], ip.c_str(), port, tmo, base, sig && g_ticks ? ", interrupted by a signal," : "", r);
	VH_CHECK(c, after == before, "check_connect(%s, %d ms) left %d descriptors open", kn[kind], tmo, (int)after - (int)before);
	if (kind == FULL) { VH_CHECK(c, el >= tmo * 1000ll - 1000, "check_connect gave up after %lld us of %d ms", (long long)el, tmo); if (el > tmo * 1000ll + 4000000) c.soft_fail("check_connect with %d ms took %lld us", tmo, (long long)el); }
	if (kind == REFUSED && el > 4000000) c.soft_fail("check_connect of a refused port took %lld us", (long long)el);
	if (kind == LISTEN) {
		Fd s(accept4(ls.f, nullptr, nullptr, SOCK_CLOEXEC)); VH_CHECK(c, s.f >= 0, "check_connect returned true without connecting"); char b;
		pollfd p{ s.f, POLLIN, 0 }; VH_CHECK(c, poll(&p, 1, 5000) == 1 && raw_eof(read(s.f, &b, 1)), "the probing connection is not closed");
		VH_CHECK(c, accept4(ls.f, nullptr, nullptr, SOCK_CLOEXEC) < 0, "check_connect connected twice");
	}
	for (int f : fill) close(f);
	c.label(kn[kind]); if (sig) c.label("signals"); c.note("%s tmo=%d base=%d sig=%d -> %d in %lld us", kn[kind], tmo, base, sig, r, (long long)el);
	if (kind != BADADDR) c.nontrivial();
}

struct Opts { int nonblock, cloexec, ra, rp, ka, nd, lon, lt; bool operator==(const Opts& o) const { return nonblock == o.nonblock && cloexec == o.cloexec && ra == o.ra && rp == o.rp && ka == o.ka && nd == o.nd && lon == o.lon && (!lon || lt == o.lt); }
	std::string str() const { return vh::sfmt("nonblock=%d cloexec=%d reuseaddr=%d reuseport=%d keepalive=%d nodelay=%d linger=%d/%d", nonblock, cloexec, ra, rp, ka, nd, lon, lt); } };
static int gi(int fd, int lv, int o) { int v = 0; socklen_t l = sizeof v; getsockopt(fd, lv, o, &v, &l); return !!v; }
static Opts real(int fd, bool udp) { Opts o; o.nonblock = !!(fcntl(fd, F_GETFL) & O_NONBLOCK); o.cloexec = !!(fcntl(fd, F_GETFD) & FD_CLOEXEC); o.ra = gi(fd, SOL_SOCKET, SO_REUSEADDR); o.rp = gi(fd, SOL_SOCKET, SO_REUSEPORT); o.ka = gi(fd, SOL_SOCKET, SO_KEEPALIVE); o.nd = udp ? 0 : gi(fd, IPPROTO_TCP, TCP_NODELAY); struct linger l = { 0, 0 }; socklen_t n = sizeof l; getsockopt(fd, SOL_SOCKET, SO_LINGER, &l, &n); o.lon = l.l_onoff; o.lt = l.l_linger; return o; }
// options: each setter changes its own option, to what was asked, and reports whether it did
VH_PROP(options, 400000, 1200000, 10000, false, 0)
{
	mute(); bool udp = c.chance(1, 4); Fd s(socket_api::create_socket(udp)); VH_CHECK(c, s.f >= 0, "create_socket failed");
	int ty = 0, dom = 0; socklen_t l = sizeof ty; getsockopt(s.f, SOL_SOCKET, SO_TYPE, &ty, &l); l = sizeof dom; getsockopt(s.f, SOL_SOCKET, SO_DOMAIN, &dom, &l);
	VH_CHECK(c, dom == AF_INET && ty == (udp ? SOCK_DGRAM : SOCK_STREAM), "create_socket(%d) made type %d of domain %d", udp, ty, dom);
	Opts m = real(s.f, udp); VH_CHECK(c, !m.nonblock, "create_socket made a non-blocking socket");
	if (c.chance(1, 3)) { int f = fcntl(s.f, F_GETFL); fcntl(s.f, F_SETFL, f | O_APPEND); c.label("other-flags"); } int keep = fcntl(s.f, F_GETFL) & ~O_NONBLOCK;
	unsigned n = 0, fails = 0; std::string log; bool notsock = c.chance(1, 2); int pfd[2]; if (pipe2(pfd, O_CLOEXEC)) pfd[0] = pfd[1] = -1; Fd p0(pfd[0]), p1(pfd[1]); int bad = c.chance(1, 4) ? -1 : fcntl(0, F_DUPFD_CLOEXEC, 0); if (bad >= 0) close(bad);
	while (c.more(8)) {
		n++; bool on = c.chance(1, 2); unsigned op = (unsigned)c.below(7); bool wrong = c.chance(1, 8); int fd = wrong ? (notsock && op > 1 ? pfd[0] : bad) : s.f; bool r = false, want = !wrong; uint16_t lt = 0;
		switch (op) {
		case 0: r = socket_api::set_nonblock(fd, on); if (want) m.nonblock = on; break;
		case 1: r = socket_api::set_close_onexec(fd, on); if (want) m.cloexec = on; break;
		case 2: r = socket_api::set_reuse_addr(fd, on); if (want) m.ra = on; break;
		case 3: r = socket_api::set_reuse_port(fd, on); if (want) m.rp = on; break;
		case 4: r = socket_api::set_keep_alive(fd, on); if (want) m.ka = on; break;
		case 5: r = socket_api::set_nodelay(fd, on); if (udp) want = false; if (want) m.nd = on; break;
		case 6: lt = (uint16_t)c.pick<uint64_t>({ 0, 1, 30, 255, 256, 32767, 65535, c.below(65536) }); r = socket_api::set_linger(fd, on, lt); if (want) { m.lon = on; m.lt = lt; } break;
		}
		int e = errno; static const char* nm[] = { "nonblock", "close_onexec", "reuse_addr", "reuse_port", "keep_alive", "nodelay", "linger" };
		log += vh::sfmt("%s%s(%d%s)=%d ", wrong ? "!" : "", nm[op], on, op == 6 ? vh::sfmt(",%u", lt).c_str() : "", r);
		VH_CHECK(c, r == want, "set_%s(%d) on %s returned %d (errno %d)", nm[op], on, wrong ? (fd == pfd[0] ? "a pipe" : "a closed descriptor") : udp ? "a UDP socket" : "a TCP socket", r, e);
		Opts now = real(s.f, udp); VH_CHECK(c, now == m, "after %s: %s, expected %s", log.c_str(), now.str().c_str(), m.str().c_str());
		VH_CHECK(c, (fcntl(s.f, F_GETFL) & ~O_NONBLOCK) == keep, "after %s: file flags are %x, expected %x", log.c_str(), fcntl(s.f, F_GETFL) & ~O_NONBLOCK, keep);
		if (!want) fails++;
	}
	c.note("%s %s", udp ? "udp" : "tcp", log.c_str()); if (fails) c.label("refused"); if (n > 2) c.nontrivial();
}

// datagrams between several sockets: whole, in order, from whom
VH_PROP(datagrams, 60000, 120000, 10000, false, 0)
{
	mute(); struct S { int fd; sockaddr_in a; std::deque<std::pair<unsigned, std::vector<uint8_t>>> q; size_t bytes = 0; }; std::vector<S> v(2 + c.below(3)); struct G { std::vector<S>& v; ~G() { for (auto& s : v) if (s.fd >= 0) close(s.fd); } } g{ v }; for (auto& s : v) s.fd = -1;
	for (auto& s : v) { s.fd = socket_api::create_socket(true); VH_CHECK(c, s.fd >= 0, "create_socket(true) failed"); s.a = lo_addr(my_ip(), 0); VH_CHECK(c, socket_api::bind(s.fd, s.a), "bind failed"); VH_CHECK(c, socket_api::getsockname(s.fd, s.a) && s.a.sin_port, "getsockname failed"); VH_CHECK(c, socket_api::set_nonblock(s.fd, true), "set_nonblock failed"); }
	unsigned sent = 0, got = 0; bool cut = false, none = false;
	while (c.more(16)) {
		unsigned i = (unsigned)c.below(v.size()); S& s = v[i];
		if (c.chance(1, 2)) {
			unsigned j = (unsigned)c.below(v.size()); std::vector<uint8_t> b = c.blob(c.size(0, 20000, { 1, 1472, 1473 })); if (v[j].bytes + b.size() > 40000 || v[j].q.size() > 20) continue;
			ssize_t r = socket_api::sendto(s.fd, (const char*)b.data(), b.size(), v[j].a); VH_CHECK(c, r == (ssize_t)b.size(), "sendto of %zu bytes returned %zd (errno %d)", b.size(), r, errno); sent++; v[j].bytes += b.size(); v[j].q.emplace_back(i, std::move(b));
		} else {
			size_t n = c.size(1, 20000, { 1, 1472 }); uint8_t* b = (uint8_t*)malloc(n); sockaddr_in from; memset(&from, 0xAA, sizeof from); ssize_t r = socket_api::recvfrom(s.fd, b, n, from); int e = errno; std::vector<uint8_t> got_b(b, b + (r > 0 ? std::min((size_t)r, n) : 0)); free(b);
			if (s.q.empty()) { errno = e; VH_CHECK(c, r < 0 && socket_api::is_lasterror_WOULDBLOCK() && socket_api::get_lasterror() == e, "recvfrom with nothing to read returned %zd, errno %d", r, e); none = true; continue; }
			auto d = std::move(s.q.front()); s.q.pop_front(); s.bytes -= d.second.size(); size_t w = std::min(n, d.second.size()); if (w < d.second.size()) cut = true; got++;
			VH_CHECK(c, r == (ssize_t)w && std::equal(got_b.begin(), got_b.end(), d.second.begin()), "recvfrom of a datagram of %zu bytes into %zu returned %zd or other bytes", d.second.size(), n, r);
			VH_CHECK(c, from.sin_family == AF_INET && from.sin_port == v[d.first].a.sin_port && from.sin_addr.s_addr == v[d.first].a.sin_addr.s_addr, "recvfrom named %s:%u as the sender", inet_ntoa(from.sin_addr), ntohs(from.sin_port));
		}
	}
	c.note("%zu sockets, sent %u got %u", v.size(), sent, got); if (cut) c.label("truncated"); if (none) c.label("empty"); if (sent > 1 && got > 0) c.nontrivial();
}

// listen / connect / accept / names / shutdown / errors
VH_PROP(streams, 40000, 120000, 20000, false, 0)
{
	mute(); Fd l(socket_api::create_socket()); std::string ip = my_ip(); sockaddr_in a = lo_addr(ip.c_str(), 0), b, peer;
	VH_CHECK(c, l.f >= 0 && socket_api::bind(l.f, a) && socket_api::getsockname(l.f, a), "bind to %s failed (errno %d)", ip.c_str(), errno);
	VH_CHECK(c, a.sin_family == AF_INET && a.sin_port == htons(port_of(l.f)) && a.sin_addr.s_addr == lo_addr(ip.c_str(), 0).sin_addr.s_addr, "getsockname names %s:%u", inet_ntoa(a.sin_addr), ntohs(a.sin_port));
	VH_CHECK(c, !socket_api::getpeername(l.f, b), "getpeername of an unconnected socket succeeded");
	{ int d = dup(0); close(d); VH_CHECK(c, !socket_api::getsockname(d, b) && !socket_api::getpeername(d, b) && !socket_api::listen(d) && !socket_api::bind(d, a) && !socket_api::connect(d, a) && !socket_api::shutdown(d) && socket_api::get_socket_error(d) == EBADF && socket_api::accept(d, nullptr) == INVALID_SOCKET, "a closed descriptor was accepted"); }
	bool nb = c.chance(1, 2), refuse = c.chance(1, 4); Fd s(socket_api::create_socket()); VH_CHECK(c, socket_api::set_nonblock(s.f, nb), "set_nonblock failed");
	if (refuse) {
		bool r = socket_api::connect(s.f, a); int e = errno;
		if (nb && r) { pollfd p{ s.f, POLLOUT, 0 }; VH_CHECK(c, poll(&p, 1, 5000) == 1, "a refused connection does not complete"); e = socket_api::get_socket_error(s.f); VH_CHECK(c, e == ECONNREFUSED, "get_socket_error of a refused connection is %d", e); VH_CHECK(c, socket_api::get_socket_error(s.f) == 0, "the error is reported twice"); }
		else VH_CHECK(c, !r && e == ECONNREFUSED, "connect to a port without listener returned %d (errno %d)", r, e);
		{ Fd u(socket_api::create_socket()); VH_CHECK(c, !socket_api::bind(u.f, a), "the address in use was bound again"); VH_CHECK(c, !socket_api::shutdown(u.f), "shutdown of an unconnected socket succeeded"); }
		c.label("refused"); c.note("refused nb=%d", nb); c.nontrivial(); return;
	}
	VH_CHECK(c, socket_api::listen(l.f), "listen failed"); VH_CHECK(c, gi(l.f, SOL_SOCKET, SO_ACCEPTCONN) == 1, "the socket does not listen");
	Fd none; if (c.chance(1, 2)) { VH_CHECK(c, socket_api::set_nonblock(l.f, true), "set_nonblock failed"); int x = socket_api::accept(l.f, nullptr); VH_CHECK(c, x == INVALID_SOCKET && socket_api::is_lasterror_WOULDBLOCK(), "accept without a connection returned %d (errno %d)", x, errno); }
	VH_CHECK(c, socket_api::connect(s.f, a), "connect failed (errno %d)", errno); { pollfd p{ s.f, POLLOUT, 0 }; VH_CHECK(c, poll(&p, 1, 5000) == 1 && socket_api::get_socket_error(s.f) == 0, "the connection does not complete"); }
	if (nb && c.chance(1, 2)) VH_CHECK(c, socket_api::connect(s.f, a), "a second connect of a connected socket failed");
	{ pollfd p{ l.f, POLLIN, 0 }; poll(&p, 1, 5000); } bool want_addr = c.chance(1, 2); memset(&peer, 0xAA, sizeof peer); Fd t(socket_api::accept(l.f, want_addr ? &peer : nullptr)); VH_CHECK(c, t.f >= 0, "accept failed (errno %d)", errno);
	VH_CHECK(c, socket_api::getsockname(s.f, b), "getsockname failed"); auto same = [](const sockaddr_in& x, const sockaddr_in& y) { return x.sin_family == y.sin_family && x.sin_port == y.sin_port && x.sin_addr.s_addr == y.sin_addr.s_addr; };
	sockaddr_in q; if (want_addr) VH_CHECK(c, same(peer, b), "accept names %s:%u, the peer is port %u", inet_ntoa(peer.sin_addr), ntohs(peer.sin_port), ntohs(b.sin_port));
	VH_CHECK(c, socket_api::getpeername(t.f, q) && same(q, b) && socket_api::getpeername(s.f, q) && same(q, a) && socket_api::getsockname(t.f, q) && same(q, a), "the ends name each other differently");
	socket_api::set_nonblock(s.f, true); socket_api::set_nonblock(t.f, true); Stream st[2]; st[0].seed = c.raw(); st[1].seed = c.raw(); uint64_t w[2] = { 0, 0 }, rd[2] = { 0, 0 }; int fd[2] = { s.f, t.f }; bool full = false;
	while (c.more(12)) {
		unsigned d = (unsigned)c.below(2); size_t n = c.size(1, 300000, { 65536 }); std::vector<uint8_t> buf(n);
		if (c.chance(1, 2)) { st[d].fill(buf.data(), w[d], n); ssize_t r = socket_api::write(fd[d], (const char*)buf.data(), n); if (r < 0) { VH_CHECK(c, socket_api::is_lasterror_WOULDBLOCK() && w[d] > rd[d], "write failed with errno %d", errno); full = true; } else { VH_CHECK(c, r > 0 && (size_t)r <= n, "write of %zu returned %zd", n, r); w[d] += (uint64_t)r; } }
		else { ssize_t r = socket_api::read(fd[1 - d], buf.data(), n); if (r < 0) VH_CHECK(c, socket_api::is_lasterror_WOULDBLOCK(), "read failed with errno %d", errno); else { VH_CHECK(c, r > 0 && (size_t)r <= n && rd[d] + (uint64_t)r <= w[d], "read of %zu returned %zd", n, r); long k = st[d].check(buf.data(), rd[d], (size_t)r); VH_CHECK(c, k < 0, "byte %ld of %zd differs", k, r); rd[d] += (uint64_t)r; } }
	}
	unsigned d = (unsigned)c.below(2); VH_CHECK(c, socket_api::shutdown(fd[d]), "shutdown failed (errno %d)", errno);
	{ char x = 0; signal(SIGPIPE, SIG_IGN); VH_CHECK(c, socket_api::write(fd[d], &x, 1) < 0 && raw_eof(-1), "a socket that is shut down can write (errno %d)", errno); }
	// the other end reads all that was written, then the end
	std::vector<uint8_t> buf(65536); int64_t t0 = now_us(); for (;;) { ssize_t r = socket_api::read(fd[1 - d], buf.data(), buf.size()); if (r == 0) break; if (r < 0) { if (errno == ECONNRESET) { rd[d] = w[d]; break; } VH_CHECK(c, socket_api::is_lasterror_WOULDBLOCK(), "read failed with errno %d", errno); if (now_us() - t0 > 8000000) c.soft_fail("no end of stream after shutdown"); pollfd p{ fd[1 - d], POLLIN, 0 }; poll(&p, 1, 100); continue; } long k = st[d].check(buf.data(), rd[d], (size_t)r); VH_CHECK(c, k < 0 && rd[d] + (uint64_t)r <= w[d], "byte %ld after shutdown differs", k); rd[d] += (uint64_t)r; }
	VH_CHECK(c, rd[d] == w[d], "%llu of %llu bytes arrived before the end", (unsigned long long)rd[d], (unsigned long long)w[d]);
	int f = t.f; t.f = -1; socket_api::close_socket(f); VH_CHECK(c, fcntl(f, F_GETFD) == -1 && errno == EBADF, "close_socket left the descriptor open");
	c.note("nb=%d w=%llu/%llu", nb, (unsigned long long)w[0], (unsigned long long)w[1]); if (full) c.label("full"); if (w[0] + w[1]) c.nontrivial();
}

// text <-> address, byte order
VH_PROP(text, 3000000, 8000000, 10000, false, 0)
{
	mute(); uint8_t ip[4]; for (auto& b : ip) b = (uint8_t)c.pick<uint64_t>({ c.below(256), 0, 9, 10, 99, 100, 255 }); std::string s = vh::sfmt("%u.%u.%u.%u", ip[0], ip[1], ip[2], ip[3]);
	in_addr a; memset(&a, 0xAA, sizeof a); VH_CHECK(c, socket_api::inet_pton(s.c_str(), a) && memcmp(&a, ip, 4) == 0, "inet_pton(%s) is %s", s.c_str(), vh::hex(&a, 4).c_str());
	size_t n = c.size(0, 20, { s.size(), s.size() + 1 }); char* d = (char*)malloc(n ? n : 1); bool r = socket_api::inet_ntop(a, d, (socklen_t)n); bool ok = r && s == d; free(d); VH_CHECK(c, r == (n > s.size()) && (!r || ok), "inet_ntop(%s) into %zu bytes returned %d", s.c_str(), n, r);
	sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_port = (uint16_t)c.below(65536); uint16_t p = sa.sin_port; VH_CHECK(c, socket_api::resolve_hostname(s.c_str(), sa) && memcmp(&sa.sin_addr, ip, 4) == 0 && sa.sin_port == p, "resolve_hostname(%s) is %s", s.c_str(), inet_ntoa(sa.sin_addr));
	std::string m = s; bool mut = c.chance(1, 2); if (mut) { size_t at = c.below(m.size() + 1); char ch = "0123456789. -ax"[c.below(15)]; switch (c.below(3)) { case 0: m.insert(at, 1, ch); break; case 1: if (at < m.size()) m.erase(at, 1); break; default: if (at < m.size()) m[at] = ch; } }
	// strict dotted quad
	bool good = true; uint8_t w[4]; { size_t i = 0; for (int k = 0; k < 4 && good; k++) { size_t st = i; unsigned v = 0; while (i < m.size() && isdigit((unsigned char)m[i]) && i - st < 4) v = v * 10 + (unsigned)(m[i++] - '0'); if (i == st || i - st > 3 || v > 255 || (i - st > 1 && m[st] == '0')) good = false; w[k] = (uint8_t)v; if (k < 3) { if (i >= m.size() || m[i] != '.') good = false; else i++; } } if (i != m.size()) good = false; }
	r = socket_api::inet_pton(m.c_str(), a); VH_CHECK(c, r == good && (!r || memcmp(&a, w, 4) == 0), "inet_pton(\"%s\") returned %d", m.c_str(), r);
	uint32_t x = (uint32_t)c.raw(); uint8_t be[4]; memcpy(be, &x, 4); VH_CHECK(c, socket_api::ntoh_32(x) == ((uint32_t)be[0] << 24 | (uint32_t)be[1] << 16 | (uint32_t)be[2] << 8 | be[3]), "ntoh_32(%08x) is %08x", x, socket_api::ntoh_32(x));
	uint16_t y = (uint16_t)x; memcpy(be, &y, 2); VH_CHECK(c, socket_api::ntoh_16(y) == (uint16_t)(be[0] << 8 | be[1]), "ntoh_16(%04x) is %04x", y, socket_api::ntoh_16(y));
	c.note("%s %s -> %d", s.c_str(), m.c_str(), good); if (mut) c.nontrivial(); if (!good) c.label("malformed");
}

int main(int argc, char** argv)
{
	vh::property_id = "C33";
	vh::nontrivial_rule = "probe: any address but a malformed one; options: more than two setter calls; datagrams: more than one sent and one received; streams: refused or some bytes moved; text: the text was mutated";
	return vh::main(argc, argv);
}
