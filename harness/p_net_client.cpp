// C18: clients of scripted servers on one looper; every round is driven here.
#include "net.h"
#include <algorithm>
#include <memory>
struct Client;
static std::vector<Client*> g_clients; static std::atomic<int> g_write_fault(0); static std::atomic<bool> g_write_fired(false); static int g_no_socket = 0; static bool g_no_socket_fired = false;
extern "C" {
int __real_connect(int, const struct sockaddr*, socklen_t); ssize_t __real_write(int, const void*, size_t); ssize_t __real_writev(int, const struct iovec*, int);
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l); int __real_socket(int, int, int);
int __wrap_socket(int d, int t, int p) { if (g_no_socket > 0) { g_no_socket--; g_no_socket_fired = true; errno = EMFILE; return -1; } return __real_socket(d, t, p); }	// no descriptor left
static bool wfault(int fd) { if (g_write_fault.load() <= 0 || !is_tcp(fd)) return false; if (g_write_fault.fetch_sub(1) <= 0) return false; errno = ECONNRESET; g_write_fired = true; return true; }
ssize_t __wrap_write(int fd, const void* b, size_t n) { if (wfault(fd)) return -1; return __real_write(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { if (wfault(fd)) return -1; return __real_writev(fd, v, n); }
}
enum State { IDLE, CONNECTING, WAIT, UP };
enum Act { NOTHING, SEND, DISCONNECT, RELEASE, RECONNECT, DISC_RECONNECT, KEEP };
struct Peer { int fd; uint16_t port; std::vector<uint8_t> held; size_t in = 0, out = 0; bool half = false, eof = false, mapped = false; uint64_t seed = 0, cseed = 0; bool rst = false; };
struct Script { unsigned delay; int on_fail, on_ok, on_msg, on_close, on_sent; };
struct Env { std::string err; std::recursive_mutex mx; void bad(std::string s) { std::lock_guard<std::recursive_mutex> g(mx); if (err.empty()) err = s; } };
struct Client {
	Env& e; unsigned no; TcpClientPtr p; Looper* L; uint64_t seed; std::vector<Script> script; State st = IDLE; bool asked = false, quiet = false, fail_next = false, failed_now = false, failed_sync = false; int64_t due = 0, cancelled = 0; unsigned attempts = 0, reports = 0, ups = 0, closes = 0, life = 0, retries = 0, acts = 0;
	TcpConnectionPtr conn, keep; bool was_listening = false, was_not = false, disturbed = false, disc = false; size_t sent = 0, pending = 0, got = 0, total = 0; uint16_t port = 0, sport = 0; int lfd = -1; bool listening = false, gone = false; int in_cb = 0; Peer* peer = nullptr; std::vector<std::unique_ptr<Peer>> peers; Looper* want; int id;
	Client(Env& e_, unsigned n, Looper* l, uint64_t s) : e(e_), no(n), L(l), seed(s), want(l), id(100 + (int)n) {}
	uint64_t life_seed() const { return seed + life * 1000003ull; } static uint64_t peer_seed(uint16_t port) { return 77777ull * port; }
	// ---- server side ----
	bool open_server() { lfd = raw_socket(&sport); if (lfd < 0) return false; close(lfd); lfd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); int one = 1; setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a = lo_addr(my_ip(), sport); return bind(lfd, (sockaddr*)&a, sizeof a) == 0; }
	void set_listen(bool on) { if (on == listening) return; if (on) { if (listen(lfd, 16)) return; was_listening = true; } else { shutdown(lfd, SHUT_RD); was_not = true; if (st == CONNECTING) disturbed = true; } listening = on; }
	void accept_all() { if (!listening) return; for (;;) { sockaddr_in a; socklen_t l = sizeof a; int f = accept4(lfd, (sockaddr*)&a, &l, SOCK_NONBLOCK | SOCK_CLOEXEC); if (f < 0) break; int one = 1; setsockopt(f, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); std::unique_ptr<Peer> q(new Peer); q->fd = f; q->port = ntohs(a.sin_port); q->seed = peer_seed(q->port); peers.push_back(std::move(q)); map(); } }
	void map() { if (st == UP && !peer) for (auto it = peers.rbegin(); it != peers.rend(); ++it) if ((*it)->port == port) { if ((*it)->mapped) break; peer = it->get(); peer->mapped = true; peer->cseed = life_seed(); auto h = peer->held; peer->held.clear(); feed(*peer, h.data(), h.size()); break; } }
	void feed(Peer& q, const uint8_t* d, size_t n) { if (!q.mapped) { q.held.insert(q.held.end(), d, d + n); return; } Stream s; s.seed = q.cseed; long w = s.check(d, q.in, n); if (w >= 0) e.bad(vh::sfmt("client %u: byte %zu at its server is wrong", no, q.in + (size_t)w)); q.in += n; if (&q == peer && q.in > sent) e.bad(vh::sfmt("client %u: its server received %zu bytes, %zu were sent", no, q.in, sent)); }
	void read_peer(Peer& q, size_t max = 1 << 20) { if (q.fd < 0 || q.eof) return; uint8_t b[16384]; while (max) { ssize_t k = precv(q.fd, b, std::min(max, sizeof b)); if (k > 0) { feed(q, b, (size_t)k); max -= (size_t)k; } else { if (k == 0 || errno != EAGAIN) q.eof = true; break; } } }
	void read_peers() { for (auto& q : peers) read_peer(*q); }
	void end_peer(Peer& q, bool rst) { if (q.fd < 0) return; if (st == CONNECTING) disturbed = true; if (rst) { raw_reset(q.fd); q.rst = true; } else { int n = 0; ioctl(q.fd, FIONREAD, &n); if (n) q.rst = true; close(q.fd); } q.fd = -1; }
	Peer* any_peer() { for (auto it = peers.rbegin(); it != peers.rend(); ++it) if ((*it)->fd >= 0) return it->get(); return nullptr; }
	void peer_send(Peer& q, size_t n) { if (q.fd < 0 || q.half) return; std::vector<uint8_t> v(n); Stream s; s.seed = q.seed; s.fill(v.data(), q.out, n); ssize_t k = psend(q.fd, v.data(), n); if (k > 0) q.out += (size_t)k; }
	// ---- client side ----
	void make() { p = std::make_shared<TcpClient>(L, (void*)this, id); gone = false; st = IDLE; TcpClient* raw = p.get();
		p->m_listener.on_connected = [this, raw](TcpClientPtr c, TcpConnectionPtr cn, bool ok) -> uint32_t { if (c.get() != raw) e.bad("wrong client in a callback"); return connected(cn, ok); };
		p->m_listener.on_message = [this, raw](TcpClientPtr c, TcpConnectionPtr cn) { if (c.get() != raw) e.bad("wrong client in a callback"); message(cn); };
		p->m_listener.on_close = [this, raw](TcpClientPtr c, TcpConnectionPtr cn) { if (c.get() != raw) e.bad("wrong client in a callback"); closed(cn); }; }
	bool do_connect() {
		if (!p || st == UP || st == CONNECTING) return false; if (pending) do_disconnect();
		life++; sent = 0; pending = 0; asked = true; failed_sync = false; unsigned a = attempts; g_no_socket_fired = false; bool r = p->connect(Address(my_ip(), sport)); asked = false; no_socket(a);
		if (attempts != a + 1) { e.bad("connect() made no attempt"); return r; } if (r == failed_sync) e.bad(r ? "connect() reported no failure" : "connect() failed though the attempt is under way"); if (!r) st = IDLE; check_state("after connect()"); return r;
	}
	void do_disconnect() { if (!p) return; std::lock_guard<std::recursive_mutex> g(e.mx); if (st == WAIT) { cancelled = due; st = IDLE; } else if (st == CONNECTING) st = IDLE; else if (st == UP) { if (!disc) disc = true; } pending = 0; p->disconnect(); if (st == IDLE) check_state("after disconnect()"); }
	void do_send(size_t n) { std::lock_guard<std::recursive_mutex> g(e.mx); if (!p || n == 0) return; bool count = (st == CONNECTING && !in_cb) || (st == UP && !disc); if (st == CONNECTING && in_cb) return; if (st == UP && in_cb == 2) return; std::vector<uint8_t> v(n); Stream s; s.seed = life_seed(); s.fill(v.data(), sent, n); if (count) { sent += n; if (st == CONNECTING) pending += n; total += n; } p->send((const char*)v.data(), n); memset(v.data(), 0xEE, n); }
	void do_release() { std::lock_guard<std::recursive_mutex> g(e.mx); if (!p || st == UP) return; if (st == WAIT) cancelled = due; gone = true; st = IDLE; pending = 0; TcpClientPtr x; x.swap(p); }
	void check_state(const char* when) { if (!p || gone) return; TcpConnection::State s = p->get_connection_state(), w = st == CONNECTING ? TcpConnection::kConnecting : st == UP ? (disc ? TcpConnection::kDisconnecting : TcpConnection::kConnected) : TcpConnection::kDisconnected; if (s != w && !(st == UP && disc && s == TcpConnection::kDisconnected)) e.bad(vh::sfmt("client %u: get_connection_state() is %d %s, expected %d", no, s, when, w)); }
	void no_socket(unsigned before) { if (g_no_socket_fired && attempts == before) { attempts++; failed_now = failed_sync = true; if (st == WAIT) retries++; st = CONNECTING; } g_no_socket_fired = false; }	// an attempt that ended before connect()
	int attempt(int fd, const sockaddr* a, socklen_t l) {	// the library calls connect()
		attempts++; if (gone) e.bad("a destroyed client connects"); if (!asked) { if (st != WAIT) e.bad(vh::sfmt("client %u: an attempt in state %d nobody asked for", no, st)); else if (now_us() < due) e.bad(vh::sfmt("client %u: retried %lld us before the delay was over", no, (long long)(due - now_us()))); retries++; }
		st = CONNECTING; was_listening = listening; was_not = !listening; disturbed = false; failed_now = false; g_write_fired = false; if (g_no_socket_fired) { failed_now = failed_sync = true; errno = EBADF; return -1; } if (fail_next) { fail_next = false; failed_now = true; failed_sync = true; errno = ENETUNREACH; return -1; } return __real_connect(fd, a, l);
	}
	void act(int a, size_t n) { if (quiet && a != SEND) return; acts++; switch (a) { case SEND: do_send(n); break; case DISCONNECT: do_disconnect(); break; case RELEASE: do_release(); break; case RECONNECT: do_connect(); break; case DISC_RECONNECT: do_disconnect(); do_connect(); break; default: break; } }
	uint32_t connected(TcpConnectionPtr cn, bool ok) {
		const Script& s = script[reports % script.size()]; reports++; if (gone) { e.bad("a callback of a released client"); return 0; } if (L->get_thread_id() != sys_api::thread_get_current_id()) e.bad("wrong thread");
		if (st == WAIT && !ok && g_no_socket_fired && now_us() >= due) no_socket(attempts); g_no_socket_fired = false;
		if (st != CONNECTING) { e.bad(vh::sfmt("client %u: on_connected(%d) in state %d", no, ok, st)); return 0; }
		if (ok) {
			if (!cn) { e.bad("no connection"); return 0; } if (!was_listening || failed_now) e.bad(vh::sfmt("client %u: connected to a server that refuses", no)); if (cn->get_state() != TcpConnection::kConnected) e.bad("the new connection is not connected"); if (cn->get_id() != id) e.bad("wrong id"); if (cn->get_peer_addr().get_port() != sport || strcmp(cn->get_peer_addr().get_ip(), my_ip())) e.bad("wrong peer address"); if (cn->get_owner() != p.get() && p) e.bad("wrong owner");
			{ std::lock_guard<std::recursive_mutex> g(e.mx); st = UP; conn = cn; disc = false; got = 0; pending = 0; port = cn->get_local_addr().get_port(); peer = nullptr; ups++; } check_state("in on_connected(true)"); if (s.on_sent != NOTHING) cn->set_on_send_complete([this](TcpConnectionPtr k) { complete(k); }); in_cb++; act(s.on_ok, 1 + (s.delay * 977) % 5000); in_cb--; return s.delay;	// the value counts only after a failure
		}
		if (cn) e.bad("a connection that failed"); if (!failed_now && !was_not && !disturbed && !g_write_fired) e.bad(vh::sfmt("client %u: a connection attempt to a listening server failed", no));
		in_cb++; unsigned d = s.delay; unsigned a0 = attempts; State before = st; (void)before; bool same = true; { int a = quiet ? NOTHING : s.on_fail; acts += a != NOTHING; switch (a) { case DISCONNECT: do_disconnect(); d = 0; same = false; break; case RELEASE: do_release(); d = 0; same = false; break; case DISC_RECONNECT: do_disconnect(); do_connect(); same = false; break; default: break; } } in_cb--; (void)a0;
		uint32_t ret = s.delay; if (same) { if (d) { st = WAIT; due = now_us() + d * 1000ll; } else st = IDLE; } return ret;
	}
	void message(TcpConnectionPtr cn) {
		if (st != UP || cn != conn) { e.bad("a message without its connection"); return; } RingBuf& b = cn->get_input_buf(); std::vector<uint8_t> v(b.size()); b.memcpy_out(v.data(), v.size()); Stream s; s.seed = peer_seed(port); if (v.empty()) e.bad("a message callback without data"); long w = s.check(v.data(), got, v.size()); if (w >= 0) e.bad(vh::sfmt("client %u: received byte %zu is wrong", no, got + (size_t)w)); got += v.size();
		const Script& x = script[(reports + got) % script.size()]; if (x.on_msg != NOTHING) { in_cb++; act(x.on_msg, 1 + got % 3000); in_cb--; }
	}
	void complete(TcpConnectionPtr cn) { if (st != UP || cn != conn) { e.bad("a send-complete callback without its connection"); return; } const Script& x = script[(reports + sent) % script.size()]; if (x.on_sent == SEND && sent > 200000) return; in_cb++; act(x.on_sent, 1 + sent % 3000); in_cb--; }
	void closed(TcpConnectionPtr cn) {
		std::lock_guard<std::recursive_mutex> g(e.mx); if (st != UP || cn != conn) { e.bad(vh::sfmt("client %u: on_close in state %d", no, st)); return; } closes++; map(); if (peer && peer->half && !disc && !peer->rst && !wfaulted && got != peer->out) e.bad(vh::sfmt("client %u: %zu of %zu bytes arrived before the orderly end", no, got, peer->out));
		const Script& x = script[(reports + closes) % script.size()]; st = IDLE; conn.reset(); peer = nullptr; disc = false; if (cn->get_state() != TcpConnection::kDisconnected) e.bad("a closed connection is not disconnected"); check_state("in on_close"); in_cb += 2; act(x.on_close, 100); in_cb -= 2;
	}
	bool wfaulted = false;
};
extern "C" int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) { uint16_t port = ntohs(((const sockaddr_in*)a)->sin_port); for (Client* c : g_clients) if (c->sport == port) return c->attempt(fd, a, l); return __real_connect(fd, a, l); }
enum Op { O_LISTEN, O_UNLISTEN, O_CONNECT, O_DISCONNECT, O_SEND, O_RELEASE, O_FAIL, O_WFAULT, O_NOFD, O_PSEND, O_PCLOSE, O_PRST, O_PHALF, O_SLEEP, O_ROUNDS, OPS };
static const char* op_name[] = { "listen", "unlisten", "connect", "disconnect", "send", "release", "fail", "wfault", "nofd", "psend", "pclose", "preset", "phalf", "sleep", "rounds" };
VH_PROP(client_histories, 16000, 250000, 60000, false, 16)
{
	unsigned fds0 = count_fds();
	{
	Env e; unsigned N = (unsigned)c.weighted({ 0, 6, 2, 1 }); unsigned steps = (unsigned)(c.chance(1, 3) ? c.size(2, 60) : c.range(5, 60)); bool pusher = c.chance(1, 4), reads = c.chance(5, 6); int sndbuf = 0; (void)sndbuf;
	Looper* L = Looper::create_looper(); std::vector<std::unique_ptr<Client>> cl;
	for (unsigned i = 0; i < N; i++) { cl.emplace_back(new Client(e, i, L, c.raw())); Client& k = *cl.back(); unsigned n = (unsigned)c.range(1, 6); while (n--) { Script s; s.delay = (unsigned)c.pick({ 0, 1, 2, 5, 17, 40 }); s.on_fail = c.chance(1, 4) ? (int)c.pick({ DISCONNECT, RELEASE, DISC_RECONNECT }) : NOTHING; s.on_ok = (int)c.pick({ NOTHING, NOTHING, SEND, SEND, DISCONNECT }); s.on_msg = c.chance(1, 3) ? (int)c.pick({ SEND, SEND, DISCONNECT }) : NOTHING; s.on_close = c.chance(1, 2) ? (int)c.pick({ RECONNECT, RELEASE, DISCONNECT, DISC_RECONNECT, SEND }) : NOTHING; s.on_sent = c.chance(1, 3) ? (int)c.pick({ SEND, DISCONNECT }) : NOTHING; k.script.push_back(s); } }
	struct St { unsigned who; int op; size_t n; }; std::vector<St> prog; for (unsigned i = 0; i < N; i++) { if (c.chance(1, 2)) prog.push_back({ i, O_LISTEN, 1 }); if (c.chance(3, 4)) prog.push_back({ i, O_CONNECT, 1 }); } for (unsigned i = 0; i < steps; i++) prog.push_back({ (unsigned)c.below(N), (int)c.weighted({ 4, 2, 5, 3, 4, 1, 1, 1, 1, 4, 1, 1, 1, 3, 6 }), c.size(1, 100000) });
	g_clients.clear(); g_write_fault = 0; g_no_socket = 0; g_no_socket_fired = false; for (auto& k : cl) { g_clients.push_back(k.get()); if (!k->open_server()) c.soft_fail("no server socket"); k->make(); } bool wf = false; std::string trace;
	std::atomic<bool> quit(false); thread_t pt = 0; if (pusher) pt = sys_api::thread_create([&](void*) { unsigned i = 0; while (!quit) { { std::lock_guard<std::recursive_mutex> g(e.mx); Client& k = *cl[i++ % N]; if (k.p && k.st == UP && !k.disc && k.conn && k.sent < 2000000) k.do_send(1 + i * 37 % 900); } usleep(40); } }, nullptr, "pusher");
	auto round = [&](bool rd) { L->step(); for (auto& k : cl) { std::lock_guard<std::recursive_mutex> g(e.mx); if (k->failed_now && k->st == CONNECTING && !k->failed_sync) e.bad("no report of a failed retry"); k->accept_all(); k->map(); if (rd) k->read_peers(); k->check_state("between rounds"); } };
	for (auto& s : prog) {
		{ std::lock_guard<std::recursive_mutex> g(e.mx); if (!e.err.empty()) break; } Client& k = *cl[s.who]; if (trace.size() < 700) trace += vh::sfmt(" %s%u", op_name[s.op], s.who);
		switch (s.op) {
		case O_LISTEN: k.set_listen(true); break;
		case O_UNLISTEN: k.accept_all(); k.set_listen(false); break;
		case O_CONNECT: if (!k.p) k.make(); k.do_connect(); break;
		case O_DISCONNECT: k.do_disconnect(); break;
		case O_SEND: k.do_send(s.n); break;
		case O_RELEASE: k.do_release(); break;
		case O_FAIL: k.fail_next = true; break;
		case O_WFAULT: g_write_fault = 1; wf = true; for (auto& x : cl) x->wfaulted = true; break;
		case O_NOFD: g_no_socket = 1; break;
		case O_PSEND: if (Peer* q = k.any_peer()) k.peer_send(*q, s.n); break;
		case O_PCLOSE: if (Peer* q = k.any_peer()) k.end_peer(*q, false); break;
		case O_PRST: if (Peer* q = k.any_peer()) k.end_peer(*q, true); break;
		case O_PHALF: if (Peer* q = k.any_peer()) { if (k.st == CONNECTING) k.disturbed = true; shutdown(q->fd, SHUT_WR); q->half = true; } break;
		case O_SLEEP: { int64_t t = now_us() + (int64_t)(s.n % 12000); do { round(reads); usleep(200); } while (now_us() < t); break; }
		case O_ROUNDS: for (unsigned i = 0; i <= s.n % 4; i++) round(reads); break;
		}
	}
	auto ok = [&]() { std::lock_guard<std::recursive_mutex> g(e.mx); return e.err.empty(); };
	quit = true; if (pusher) sys_api::thread_join(pt); g_write_fault = 0; g_no_socket = 0; g_no_socket_fired = false;
	// ---- the servers appear: everybody still trying gets connected ----
	for (auto& k : cl) { k->quiet = true; k->fail_next = false; k->set_listen(true); }
	auto until = [&](std::function<bool()> f, const char* what) { int64_t t = now_us(); while (ok() && !f()) { round(true); if (now_us() - t > 4000000) { std::string d; for (auto& k : cl) d += vh::sfmt(" [%u: state %d sent %zu arrived %zu peer sent %zu got %zu]", k->no, k->st, k->sent, k->peer ? k->peer->in : 0, k->peer ? k->peer->out : 0, k->got); c.note("%s", trace.c_str()); c.soft_fail("%s%s", what, d.c_str()); } usleep(100); } };
	until([&]() { for (auto& k : cl) if (k->st == CONNECTING || k->st == WAIT) return false; return true; }, "a client does not connect though its server listens");
	until([&]() { for (auto& k : cl) if (k->st == UP && k->peer && k->peer->fd >= 0 && !k->peer->eof && !k->peer->half && !k->disc) { if (k->peer->in < k->sent || k->got < k->peer->out) return false; } return true; }, "data is missing");
	until([&]() { for (auto& k : cl) if (k->st == UP && (!k->peer || k->peer->fd < 0 || k->peer->half || k->disc)) return false; return true; }, "a connection that should end does not");
	// what was sent before disconnect() arrives, then the end
	std::vector<std::pair<Peer*, size_t>> ends; unsigned live = 0; for (auto& k : cl) if (ok() && k->st == UP) { live++; k->do_send(1 + (k->seed % 50000)); if (k->st == UP) { ends.push_back({ k->peer, k->sent }); k->do_disconnect(); } }
	until([&]() { for (auto& k : cl) if (k->st == UP) return false; return true; }, "a disconnected client gets no close callback");
	until([&]() { for (auto& x : ends) if (!x.first->eof) return false; return true; }, "a disconnected client's server sees no end");
	for (auto& x : ends) if (ok() && x.first->in != x.second) e.bad(vh::sfmt("%zu of %zu bytes sent before disconnect() arrived", x.first->in, x.second));
	until([&]() { for (auto& k : cl) for (auto& q : k->peers) if (q->fd >= 0 && !q->eof) return false; return true; }, "the server side of an abandoned connection sees no end");
	// cancelled retries stay cancelled
	int64_t lim = 0; unsigned att = 0; for (auto& k : cl) { lim = std::max(lim, k->cancelled); att += k->attempts; } while (ok() && now_us() < lim + 3000) { round(true); usleep(300); } round(true);
	unsigned ups = 0, retr = 0, rep = 0, acts = 0; size_t total = 0; for (auto& k : cl) { att -= k->attempts; ups += k->ups; retr += k->retries; rep += k->reports; acts += k->acts; total += k->total; if (ok() && k->ups != k->closes) e.bad(vh::sfmt("%u successful connections, %u close callbacks", k->ups, k->closes)); } if (att && ok()) e.bad("an attempt after the end");
	c.note("clients=%u%s steps=%u reports=%u connected=%u retries=%u acts-in-callbacks=%u sent=%zu%s:%s", N, pusher ? " +thread" : "", steps, rep, ups, retr, acts, total, wf ? " +write faults" : "", trace.c_str());
	if (!e.err.empty()) vh::die(false, e.err.c_str());
	for (auto& k : cl) { k->do_release(); for (auto& q : k->peers) if (q->fd >= 0) close(q->fd); close(k->lfd); } cl.clear(); g_clients.clear(); Looper::destroy_looper(L);
	if (ups) c.label("connected"); if (retr) c.label("retried"); if (ups && retr) c.label("retried and connected"); if (wf) c.label("write faults"); if (pusher) c.label("sending thread"); if (acts) c.label("acts in callbacks"); if (rep > 1 && steps > 4) c.nontrivial();
	}
	unsigned fds1 = count_fds(); if (fds1 != fds0) c.fail("%u descriptors before, %u after", fds0, fds1);
}
int main(int argc, char** argv)
{
	vh::property_id = "C18"; vh::child_init = mute;
	vh::nontrivial_rule = "1-3 clients, programs of server availability (listen, refuse, close, reset, half-close, immediate failure, no descriptor, failed write), calls between and inside callbacks, retry delays 0..40 ms; non-trivial = more than one report and more than four steps";
	vh::assumptions = { "loopback TCP of this kernel" };
	return vh::main(argc, argv);
}
