// C17: abusive peers beside verified ones.
#include "net.h"
#include <sys/resource.h>
#ifdef SCHED
#include "vsched.h"
static void breathe() { vsched::yield(); }
#else
static void breathe() { usleep(30); }
#endif
enum Op { CONNECT, GARBAGE, SMALL, READ, HALF, RESET, CLOSE, VANISH, CONNECT_HALF, FLOOD, OPS };
struct Bad { int fd = -1; bool on = false, half = false; };
struct Good { int fd = -1; uint16_t port = 0; Stream st; size_t sent = 0, back = 0; bool on = false; };
static void run_case(vh::Ctx& c)
{
	unsigned K = (unsigned)c.range(1, 3), G = (unsigned)c.range(1, 2), B = (unsigned)c.range(1, 6), steps = (unsigned)c.size(1, 120); size_t greet = (size_t)c.pick({ 0, 0, 100, 20000, 1000000 }), push = (size_t)c.pick({ 0, 100, 5000, 300000 });
	bool echo_all = c.chance(2, 3), server_shuts = c.chance(1, 4), exhaust = c.chance(1, 6); int sndbuf = (int)c.pick({ 0, 0, 4096 }); vh::Rng rng(c.raw()); unsigned ext_n = push ? (unsigned)c.size(0, 30) : 0;
	struct Step { unsigned who; int op; size_t n; }; std::vector<Step> prog; for (unsigned i = 0; i < steps; i++) { unsigned w = (unsigned)c.below(B); int op = (int)c.weighted({ 4, 2, 3, 2, 1, 2, 1, 2, 1, 1 }); size_t n = c.size(1, 60000); prog.push_back({ w, op, n }); }
	std::mutex mx; std::string err; auto bad = [&](std::string s) { std::lock_guard<std::mutex> g(mx); if (err.empty()) err = s; }; auto failed = [&]() { std::lock_guard<std::mutex> g(mx); return !err.empty(); };
	std::vector<Good> good(G + 1); std::set<uint16_t> good_ports; for (auto& g : good) { g.fd = raw_socket(&g.port); g.st.seed = c.raw(); good_ports.insert(g.port); if (g.fd < 0) c.soft_fail("no socket"); }
	std::atomic<unsigned> conns(0), closes(0), good_closed(0); std::vector<TcpConnectionPtr> open_conns; std::atomic<bool> quit(false), up(false); std::vector<char> blob(std::max<size_t>(greet, std::max<size_t>(push, 1)), 'g');
	std::unique_ptr<TcpServer> server(new TcpServer); std::vector<uint16_t> ports;
	server->m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { up = true; };
	server->m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr cn) {
		conns++; bool g = good_ports.count(cn->get_peer_addr().get_port()) != 0; cn->set_param(g ? (void*)1 : nullptr); if (sndbuf && !g) setsockopt(cn->get_socket(), SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
		if (!g) { std::lock_guard<std::mutex> l(mx); open_conns.push_back(cn); } if (!g && greet) cn->send(blob.data(), greet); if (!g && server_shuts && cn->get_state() == TcpConnection::kConnected && conns % 3 == 0) cn->shutdown();
	};
	server->m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr cn) {
		bool g = cn->get_param() != nullptr; RingBuf& b = cn->get_input_buf(); std::vector<char> v(b.size()); b.memcpy_out(v.data(), v.size()); if (g) { cn->send(v.data(), v.size()); return; }
		if (echo_all) for (unsigned k = 0; k < 3; k++) cn->send(v.data(), v.size()); if (server_shuts && v.size() % 5 == 0 && (cn->get_state() == TcpConnection::kConnected || cn->get_state() == TcpConnection::kDisconnecting)) cn->shutdown();
	};
	server->m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr cn) { closes++; if (cn->get_param()) good_closed++; else { std::lock_guard<std::mutex> l(mx); for (size_t i = 0; i < open_conns.size(); i++) if (open_conns[i] == cn) { open_conns.erase(open_conns.begin() + (long)i); break; } } };
	bool bound = bind_ports(*server, 1, true, ports); if (!bound) c.soft_fail("bind");
	std::vector<char> junk(65536); rng.next(); for (auto& x : junk) x = (char)rng.next(); unsigned resets = 0, exhausted = 0;
	if (!server->start((int32_t)K)) bad("start"); while (!up) breathe();
	// pushes to every abusive connection from a thread of its own
	thread_t et = sys_api::thread_create([&](void*) { for (unsigned i = 0; i < ext_n && !quit; i++) { usleep(50); std::vector<TcpConnectionPtr> v; { std::lock_guard<std::mutex> l(mx); v = open_conns; } for (auto& cn : v) cn->send(blob.data(), push); } }, nullptr, "pusher");
	int64_t last = now_us(); std::vector<uint8_t> buf(65536);
	auto serve = [&](Good& g, bool more) {
		if (!g.on) { int r = raw_connect(g.fd, ports[0]); if (r != 1) { bad("a well-behaved peer cannot connect"); return; } g.on = true; }
		if (more && g.sent - g.back < 20000) { size_t n = 1 + rng.below(3000); g.st.fill(buf.data(), g.sent, n); ssize_t k = psend(g.fd, buf.data(), n); if (k > 0) g.sent += (size_t)k; else if (k < 0 && errno != EAGAIN) bad("a well-behaved connection broke"); }
		ssize_t k = precv(g.fd, buf.data(), buf.size()); if (k > 0) { last = now_us(); if (g.back + (size_t)k > g.sent || g.st.check(buf.data(), g.back, (size_t)k) >= 0) bad("a well-behaved peer got wrong bytes"); g.back += (size_t)k; } else if (k == 0 || errno != EAGAIN) bad(vh::sfmt("a well-behaved connection was closed (%s)", k ? strerror(errno) : "eof"));
	};
	auto settle = [&](Good& g) { int64_t t = now_us(); size_t want = g.sent + 1000; while ((g.sent < want || g.back < g.sent) && !failed()) { serve(g, g.sent < want); if (now_us() - t > 8000000) { quit = true; c.soft_fail("a well-behaved peer got %zu of %zu bytes back and no more", g.back, g.sent); } if (g.back < g.sent) breathe(); } };
	for (unsigned i = 0; i < G; i++) settle(good[i]);
	std::vector<Bad> bads(B);
	auto bconnect = [&](Bad& b) { if (b.fd >= 0) close(b.fd); b = Bad(); b.fd = raw_socket(nullptr, nullptr, (int)(rng.below(2) ? 2048 : 0)); if (b.fd < 0) return; int r = raw_connect(b.fd, ports[0]); b.on = r == 1; if (!b.on) { close(b.fd); b.fd = -1; } };
	auto bend = [&](Bad& b, bool rst) { if (b.fd < 0) return; if (rst) { raw_reset(b.fd); resets++; } else close(b.fd); b = Bad(); };
	for (auto& s : prog) {
		if (failed()) break; Bad& b = bads[s.who];
		switch (s.op) {
		case CONNECT: bconnect(b); break;
		case GARBAGE: if (b.on && !b.half) psend(b.fd, junk.data(), std::min(s.n, junk.size())); break;
		case SMALL: if (b.on && !b.half) psend(b.fd, junk.data(), 1 + s.n % 40); break;
		case READ: if (b.on) precv(b.fd, buf.data(), s.n); break;
		case HALF: if (b.on) { shutdown(b.fd, SHUT_WR); b.half = true; } break;
		case RESET: bend(b, true); break;
		case CLOSE: bend(b, false); break;
		case VANISH: bconnect(b); if (s.n & 1) psend(b.fd, junk.data(), s.n % 3000); bend(b, true); break;
		case CONNECT_HALF: bconnect(b); if (b.on) { shutdown(b.fd, SHUT_WR); b.half = true; } break;
		case FLOOD: for (unsigned i = 0; i < 20; i++) { Bad x; bconnect(x); bend(x, rng.below(2)); } break;
		}
		if (rng.below(3) == 0) serve(good[rng.below(G)], true); if (rng.below(8) == 0) usleep((unsigned)rng.below(300));
	}
	if (exhaust && !failed()) {	// no descriptor left: connections wait in the backlog, the others go on
		std::vector<int> pre; for (unsigned i = 0; i < 20; i++) { int f = raw_socket(nullptr); if (f >= 0) pre.push_back(f); }
		int64_t t = now_us(); while (now_us() - t < 1000) breathe(); struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl); struct rlimit low = rl; int probe = dup(0); close(probe); low.rlim_cur = (rlim_t)probe + rng.below(6); setrlimit(RLIMIT_NOFILE, &low);
		for (int f : pre) { raw_connect(f, ports[0], nullptr, 100); exhausted++; } for (unsigned i = 0; i < G; i++) settle(good[i]);
		if (rng.below(2)) for (size_t i = 0; i + 1 < pre.size(); i += 2) { close(pre[i]); pre[i] = -1; } for (unsigned i = 0; i < G; i++) settle(good[i]);
		setrlimit(RLIMIT_NOFILE, &rl); for (int f : pre) if (f >= 0) { if (rng.below(2)) close(f); else raw_reset(f); }
	}
	for (auto& g : good) settle(g);	// the last one connects only now
	if (!failed() && good_closed) bad("a well-behaved connection got a close callback");
	for (auto& b : bads) bend(b, rng.below(2)); quit = true; sys_api::thread_join(et);
	for (auto& g : good) settle(g);
	for (auto& g : good) close(g.fd); { int64_t t = now_us(); while (closes < conns && err.empty()) { if (now_us() - t > 8000000) c.soft_fail("%u of %u connections closed after their peers went away", closes.load(), conns.load()); breathe(); } }
	open_conns.clear(); std::atomic<bool> joined(false); server->stop(); thread_t jt = sys_api::thread_create([&](void*) { server->join(); joined = true; }, nullptr, "joiner"); { int64_t t = now_us(); while (!joined) { if (now_us() - t > 10000000) c.soft_fail("join did not return"); usleep(50); } } sys_api::thread_join(jt);
	size_t echoed = 0; for (auto& g : good) echoed += g.back; c.note("threads=%u good=%u abusive=%u steps=%u resets=%u greeting=%zu pushed=%ux%zu connections=%u echoed=%zu", K, G, B, steps, resets, greet, ext_n, push, conns.load(), echoed);
	if (resets && greet + push) c.label("reset while the server sends"); if (exhausted) c.label("descriptors exhausted"); if (echo_all) c.label("unread echo piles up"); if (server_shuts) c.label("server shuts down peers");
	if (conns > G + 2 && steps > 5) c.nontrivial(); if (!err.empty()) c.fail("%s", err.c_str());
}
VH_PROP(abuse, 5000, 100000, 60000, false, 16) { run_case(c); }
int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_DFL); vh::property_id = "C17"; vh::child_init = mute;
	vh::nontrivial_rule = "programs of abusive peer actions (connect, garbage, half-close, reset, vanish, flood, descriptor exhaustion) beside 1-2 verified echo peers, with greetings, pushes from another thread and echoes pending; non-trivial = at least two abusive connections and more than five steps";
	vh::assumptions = { "loopback TCP of this kernel" };
	return vh::main(argc, argv);
}
