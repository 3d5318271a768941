// helpers of the network harnesses: position-addressed byte streams, raw loopback peers,
// injected short transfers (the harness is linked with --wrap for the I/O calls of the library).
#pragma once
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "vh.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
using namespace cyclone;

static inline int64_t now_us() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (int64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000; }
// the byte at any position is a function of (seed, position): a lost, repeated or moved byte shows
struct Stream {
	uint64_t seed = 0;
	static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	void fill(uint8_t* p, uint64_t pos, size_t n) const { for (size_t i = 0; i < n;) { uint64_t v = mix(seed + 0x9E3779B97F4A7C15ull * ((pos + i) >> 3)); for (unsigned k = (unsigned)((pos + i) & 7); k < 8 && i < n; k++, i++) p[i] = (uint8_t)(v >> (8 * k)); } }
	// index of the first wrong byte or -1
	long check(const uint8_t* p, uint64_t pos, size_t n) const { for (size_t i = 0; i < n;) { uint64_t v = mix(seed + 0x9E3779B97F4A7C15ull * ((pos + i) >> 3)); for (unsigned k = (unsigned)((pos + i) & 7); k < 8 && i < n; k++, i++) if (p[i] != (uint8_t)(v >> (8 * k))) return (long)i; } return -1; }
};
static inline std::vector<uint8_t> piece(const Stream& s, uint64_t pos, size_t n) { std::vector<uint8_t> v(n); s.fill(v.data(), pos, n); return v; }

// ---- raw peers ----
static inline sockaddr_in lo_addr(const char* ip, uint16_t port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, ip, &a.sin_addr); return a; }
// every process has a loopback address of its own: SO_REUSEADDR/REUSEPORT lets two processes share a
// port chosen by bind(0) as long as neither listens yet
static inline const char* my_ip()
{
	static char b[32]; static pid_t who; if (who == getpid()) return b; who = getpid(); unsigned p = 0; if (getentropy(&p, sizeof p)) p = (unsigned)who * 2654435761u;
	snprintf(b, sizeof b, "127.%u.%u.%u", 1 + (p & 127), (p >> 8) & 255, 1 + (p >> 16) % 254);
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a = lo_addr(b, 0); if (bind(fd, (sockaddr*)&a, sizeof a)) strcpy(b, "127.0.0.1"); close(fd); return b;
}
// bound, not yet connected; its port identifies it
static inline int raw_socket(uint16_t* port, const char* ip = nullptr, int rcvbuf = 0, int sndbuf = 0)
{
	if (!ip) ip = my_ip(); int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); if (fd < 0) return -1;
	if (rcvbuf) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf); if (sndbuf) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
	int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
	sockaddr_in a = lo_addr(ip, 0); socklen_t l = sizeof a;
	if (bind(fd, (sockaddr*)&a, sizeof a) || getsockname(fd, (sockaddr*)&a, &l)) { close(fd); return -1; }
	if (port) *port = ntohs(a.sin_port); return fd;
}
// 1 connected, 0 refused, -1 still connecting
static inline int raw_connect(int fd, uint16_t port, const char* ip = nullptr, int wait_ms = 3000)
{
	if (!ip) ip = my_ip();
	sockaddr_in a = lo_addr(ip, port); if (connect(fd, (sockaddr*)&a, sizeof a) == 0) return 1; if (errno != EINPROGRESS) return 0;
	pollfd p{ fd, POLLOUT, 0 }; if (poll(&p, 1, wait_ms) == 0) return -1; int e = 0; socklen_t l = sizeof e; getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l); return e == 0;
}
static inline void raw_reset(int fd) { struct linger l = { 1, 0 }; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(fd); }
static inline bool raw_eof(ssize_t n) { return n == 0 || (n < 0 && (errno == ECONNRESET || errno == EPIPE || errno == ENOTCONN)); }
static inline unsigned count_dir(const char* d) { unsigned n = 0; DIR* x = opendir(d); if (!x) return 0; while (readdir(x)) n++; closedir(x); return n - 3; }
static inline unsigned count_fds() { return count_dir("/proc/self/fd"); }
static inline unsigned count_threads() { unsigned n = 0; DIR* x = opendir("/proc/self/task"); while (dirent* e = readdir(x)) if (e->d_name[0] != '.') n++; closedir(x); return n; }

// ---- injected faults ----
struct Faults { std::atomic<unsigned> write_short{ 0 }, write_again{ 0 }, read_short{ 0 }, read_again{ 0 }; std::atomic<uint64_t> rng{ 1 }, injected{ 0 }; };
static Faults g_faults;	// rates per 256
static inline bool fault(std::atomic<unsigned>& rate) { unsigned r = rate.load(std::memory_order_relaxed); if (!r) return false; uint64_t x = Stream::mix(g_faults.rng.fetch_add(0x9E3779B97F4A7C15ull)); if ((x & 255) >= r) return false; g_faults.injected++; return true; }
static inline uint64_t fault_rnd(uint64_t n) { return n ? Stream::mix(g_faults.rng.fetch_add(0x9E3779B97F4A7C15ull)) % n : 0; }
static inline bool is_tcp(int fd) { int v; socklen_t l = sizeof v; int e = errno; bool r = getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &v, &l) == 0 && v == AF_INET; errno = e; return r; }
static inline size_t short_len(size_t n) { if (n <= 1) return n; switch (fault_rnd(4)) { case 0: return 1; case 1: return n - 1; default: return 1 + (size_t)fault_rnd(n - 1); } }
#ifdef NET_FAULTS
extern "C" {
ssize_t __real_write(int, const void*, size_t); ssize_t __real_writev(int, const struct iovec*, int); ssize_t __real_read(int, void*, size_t); ssize_t __real_readv(int, const struct iovec*, int); ssize_t __real_send(int, const void*, size_t, int); ssize_t __real_recv(int, void*, size_t, int);
static inline bool wf() { return g_faults.write_short.load(std::memory_order_relaxed) || g_faults.write_again.load(std::memory_order_relaxed); }
static inline bool rf() { return g_faults.read_short.load(std::memory_order_relaxed) || g_faults.read_again.load(std::memory_order_relaxed); }
static inline size_t vsum(const struct iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; }
static inline int vcut(std::vector<iovec>& o, const struct iovec* v, int n, size_t k) { for (int i = 0; i < n && k; i++) { iovec x = v[i]; if (x.iov_len > k) x.iov_len = k; k -= x.iov_len; o.push_back(x); } return (int)o.size(); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (wf() && is_tcp(fd)) { if (fault(g_faults.write_again)) { errno = EAGAIN; return -1; } if (fault(g_faults.write_short)) n = short_len(n); } return __real_write(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { if (wf() && is_tcp(fd)) { if (fault(g_faults.write_again)) { errno = EAGAIN; return -1; } if (fault(g_faults.write_short)) { std::vector<iovec> o; int k = vcut(o, v, n, short_len(vsum(v, n))); return __real_writev(fd, o.data(), k); } } return __real_writev(fd, v, n); }
ssize_t __wrap_read(int fd, void* b, size_t n) { if (rf() && is_tcp(fd)) { if (fault(g_faults.read_again)) { errno = EAGAIN; return -1; } if (fault(g_faults.read_short)) n = short_len(n); } return __real_read(fd, b, n); }
ssize_t __wrap_readv(int fd, const struct iovec* v, int n) { if (rf() && is_tcp(fd)) { if (fault(g_faults.read_again)) { errno = EAGAIN; return -1; } if (fault(g_faults.read_short)) { std::vector<iovec> o; int k = vcut(o, v, n, short_len(vsum(v, n))); return __real_readv(fd, o.data(), k); } } return __real_readv(fd, v, n); }
// the library may also use send/recv; the raw peers of the harness use MSG_DONTWAIT (left alone)
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { if (!(f & MSG_DONTWAIT) && wf() && is_tcp(fd)) { if (fault(g_faults.write_again)) { errno = EAGAIN; return -1; } if (fault(g_faults.write_short)) n = short_len(n); } return __real_send(fd, b, n, f); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { if (!(f & MSG_DONTWAIT) && rf() && is_tcp(fd)) { if (fault(g_faults.read_again)) { errno = EAGAIN; return -1; } if (fault(g_faults.read_short)) n = short_len(n); } return __real_recv(fd, b, n, f); }
}
#endif
static inline void set_faults(vh::Ctx& c, bool on) { g_faults.rng = c.raw(); g_faults.injected = 0; g_faults.write_short = on ? (unsigned)c.pick({ 0, 40, 128, 230 }) : 0; g_faults.write_again = on ? (unsigned)c.pick({ 0, 0, 30, 100 }) : 0; g_faults.read_short = on ? (unsigned)c.pick({ 0, 60, 200 }) : 0; g_faults.read_again = on ? (unsigned)c.pick({ 0, 0, 20, 80 }) : 0; }
static inline void no_faults() { g_faults.write_short = 0; g_faults.write_again = 0; g_faults.read_short = 0; g_faults.read_again = 0; }
static inline ssize_t psend(int fd, const void* b, size_t n) { return send(fd, b, n, MSG_NOSIGNAL | MSG_DONTWAIT); }
static inline ssize_t precv(int fd, void* b, size_t n) { return recv(fd, b, n, MSG_DONTWAIT); }
static inline void mute() { set_log_threshold(L_MAXIMUM_LEVEL); }
// binds P ports of a server; false when the kernel gave the same one twice
static inline bool bind_ports(TcpServer& s, unsigned P, bool reuse, std::vector<uint16_t>& ports)
{
	for (unsigned i = 0; i < P; i++) { if (!s.bind(Address(my_ip(), (uint16_t)0), reuse)) return false; ports.push_back(s.get_bind_address(i).get_port()); for (unsigned k = 0; k < i; k++) if (ports[k] == ports[i]) { ports.clear(); return false; } }
	return true;
}
