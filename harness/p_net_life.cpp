// C14: the callbacks of every connection follow the life cycle, on one thread.
// C16 (-DSTOP): the server is stopped in the middle of it.
#include "net.h"
#ifdef SCHED
#include "vsched.h"
static void pause_(unsigned n) { while (n--) vsched::yield(); }
static void breathe() { vsched::yield(); }
#else
static void pause_(unsigned n) { if (n > 20) usleep(n); else while (n--) sys_api::thread_yield(); }
static void breathe() { usleep(100); }
#endif
static uint64_t self() { return (uint64_t)pthread_self(); }
enum What { NONE, SEND, SHUT, SHUT_BY_SERVER, KEEP, NAME, STOP_HERE, SEND_AND_SHUT };
struct Act { int what; size_t n; };
struct Rec { int32_t id; uint64_t thread; int32_t index; TcpConnection* conn; Looper* looper; uint16_t peer_port; int state = 0; /* 1 connected 2 closed */ unsigned messages = 0, completes = 0; size_t in = 0, ate = 0; bool named = false, shut = false; struct Peer* peer = nullptr; size_t ai = 0; };
struct Peer { int fd = -1; uint16_t port = 0, target = 0; std::vector<Act> script; unsigned actions = 0, stall = 0; bool connected = false, ended = false, reset = false, half = false; size_t sent = 0, got = 0; Rec* rec = nullptr; int rcvbuf; };
#define END_AFTER 8000000
static void run_case(vh::Ctx& c)
{
#ifdef SCHED
	unsigned N = (unsigned)c.range(0, 3), K = (unsigned)c.range(1, 2), P = 1; size_t big = 300;
#else
	unsigned N = (unsigned)c.range(0, 8), K = (unsigned)c.range(1, 4), P = (unsigned)c.range(1, 3); size_t big = (size_t)c.pick({ 100, 5000, 5000, 300000 });
#endif
	bool reuse = c.chance(1, 2), late_connect = c.chance(1, 2); unsigned X = (unsigned)c.range(0, 2);	// external threads
	std::vector<Peer> peers(N); std::map<uint16_t, Peer*> by_port;
	unsigned fds0 = count_fds(), thr0 = count_threads();
	for (auto& p : peers) {
		p.rcvbuf = (int)c.pick({ 0, 0, 2048 }); p.fd = raw_socket(&p.port, nullptr, p.rcvbuf, 0); if (p.fd < 0) c.soft_fail("no socket"); by_port[p.port] = &p; p.actions = (unsigned)c.size(0, 12); p.stall = (unsigned)c.size(0, 30);
		unsigned k = (unsigned)c.size(0, 8); while (k--) p.script.push_back({ (int)c.weighted({ 3, 4, 1, 1, 1, 1,
#ifdef STOP
			1,
#else
			0,
#endif
			1 }), c.size(1, big) });
	}
	struct Ext { unsigned peer; int what; size_t n; unsigned wait; };
	std::vector<std::vector<Ext>> ext(X); for (auto& v : ext) { unsigned k = (unsigned)c.size(0, 8); while (k--) { unsigned q = (unsigned)c.below(N ? N : 1); int w = (int)c.weighted({ 4, 2, 1 }); size_t n = c.size(1, big); unsigned wt = (unsigned)c.size(0, 200); v.push_back({ q, w, n, wt }); } }
	unsigned budget = (unsigned)c.size(0, 60);	// peer actions before the stop
	vh::Rng rng(c.raw()); bool stop_twice = c.chance(1, 6), drain_late = c.chance(1, 4); unsigned stop_wait = (unsigned)c.size(0, 300); (void)stop_wait; (void)drain_late;
#ifdef SCHED
	vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 5, 20, 60, 200, 1000 }); sp.freeze_den = (unsigned)c.pick({ 0, 2, 4, 8 });
#endif
	std::mutex mx; std::string err; auto bad = [&](std::string s) { std::lock_guard<std::mutex> g(mx); if (err.empty()) err = s; };
	auto failed = [&]() { std::lock_guard<std::mutex> g(mx); return !err.empty(); };
	std::vector<std::unique_ptr<Rec>> recs; std::map<TcpConnection*, Rec*> live; std::set<int32_t> ids; std::vector<TcpConnectionPtr> keep; std::vector<std::pair<Peer*, TcpConnectionPtr>> open_conns;
	std::atomic<unsigned> connected(0), closed(0), refused_stops(0), anonymous(0); std::atomic<bool> up(false), joined(false), stopping(false);
	std::vector<Looper*> loopers(K, nullptr); std::vector<uint64_t> threads(K, 0); std::atomic<unsigned> started(0);
	std::unique_ptr<TcpServer> server(new TcpServer); std::vector<uint16_t> ports;
	auto rec_of = [&](TcpConnection* cn) -> Rec* { std::lock_guard<std::mutex> g(mx); auto it = live.find(cn); return it == live.end() ? nullptr : it->second; };
	auto common = [&](const char* where, TcpServer* s, int32_t index, Rec* r, TcpConnectionPtr& cn) {
		if (joined) bad(vh::sfmt("%s callback after join", where)); if (s != server.get()) bad("a wrong server in a callback");
		if (index < 0 || index >= (int32_t)K) { bad(vh::sfmt("%s callback with thread index %d", where, index)); return; }
		if (threads[(size_t)index] != self()) bad(vh::sfmt("%s callback of thread index %d on another thread", where, index));
		if (cn->get_looper() != loopers[(size_t)index]) bad("the connection's looper is not the one of its thread");
		if (!r) { bad(vh::sfmt("%s callback of a connection that was never connected", where)); return; }
		if (r->thread != self() || r->index != index) bad(vh::sfmt("%s callback on another thread than the connected callback", where));
		if (cn->get_id() != r->id) bad("the id of a connection changed"); if (cn->get_peer_addr().get_port() != r->peer_port) bad("the peer address of a connection changed");
		if (r->named && std::string(cn->get_name()) != vh::sfmt("peer%d", r->id)) bad("the name of a connection changed"); if (cn->get_param() != r) bad("the parameter of a connection changed");
	};
	auto act = [&](Rec* r, TcpConnectionPtr& cn) {
		if (!r->peer || r->ai >= r->peer->script.size()) return; Act a = r->peer->script[r->ai++];
		switch (a.what) {
		case SEND: case SEND_AND_SHUT: { std::vector<char> b(a.n, 'd'); cn->send(b.data(), b.size()); if (a.what == SEND) break; }	// fall through
		case SHUT: { TcpConnection::State st = cn->get_state(); if (st == TcpConnection::kConnected || st == TcpConnection::kDisconnecting) { r->shut = true; cn->shutdown(); st = cn->get_state(); if (st != TcpConnection::kDisconnecting && st != TcpConnection::kDisconnected) bad("shutdown left the connection connected"); } break; }
		case SHUT_BY_SERVER: r->shut = true; server->shutdown_connection(cn); break;
		case KEEP: { std::lock_guard<std::mutex> g(mx); keep.push_back(cn); break; }
		case NAME: cn->set_name(vh::sfmt("peer%d", r->id).c_str()); r->named = true; break;
		case STOP_HERE: refused_stops++; server->stop(); break;
		default: break;
		}
	};
	server->m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { up = true; };
	server->m_listener.on_work_thread_start = [&](TcpServer* s, int32_t i, Looper* l) { if (s != server.get() || i < 0 || i >= (int32_t)K || threads[(size_t)i]) { bad("wrong work-thread-start callback"); return; } threads[(size_t)i] = self(); loopers[(size_t)i] = l; if (l->get_thread_id() != sys_api::thread_get_current_id()) bad("a work thread's looper belongs to another thread"); started++; };
	server->m_listener.on_connected = [&](TcpServer* s, int32_t index, TcpConnectionPtr cn) {
		std::unique_ptr<Rec> n(new Rec); Rec* r = n.get(); r->id = cn->get_id(); r->thread = self(); r->index = index; r->conn = cn.get(); r->peer_port = cn->get_peer_addr().get_port();
		if (cn->get_state() != TcpConnection::kConnected) bad("not connected in the connected callback"); if (cn->get_param()) bad("a new connection has a parameter"); cn->set_param(r);
		{
			std::lock_guard<std::mutex> g(mx); if (live.count(cn.get())) { if (err.empty()) err = "two connected callbacks for one connection"; } live[cn.get()] = r; if (!ids.insert(r->id).second && err.empty()) err = vh::sfmt("two connections with id %d", r->id);
			auto it = by_port.find(r->peer_port); if (it != by_port.end()) { r->peer = it->second; if (it->second->rec && err.empty()) err = "two connections for one peer"; it->second->rec = r; open_conns.push_back({ r->peer, cn }); }
			else if (r->peer_port && err.empty()) err = vh::sfmt("a connection from unknown port %u", r->peer_port);
			recs.push_back(std::move(n));
		}
		if (!r->peer) anonymous++;	// reset before its address could be asked
		else { if (cn->get_local_addr().get_port() != r->peer->target || strcmp(cn->get_local_addr().get_ip(), my_ip()) || strcmp(cn->get_peer_addr().get_ip(), my_ip())) bad(vh::sfmt("connection reports local %s:%u and peer %s:%u, expected %s:%u and :%u", cn->get_local_addr().get_ip(), cn->get_local_addr().get_port(), cn->get_peer_addr().get_ip(), cn->get_peer_addr().get_port(), my_ip(), r->peer->target, r->peer_port)); }
		common("connected", s, index, r, cn); connected++; r->state = 1; act(r, cn);
		cn->set_on_send_complete([&, r](TcpConnectionPtr k) { r->completes++; if (r->state != 1) bad("a send-complete callback after close"); if (r->thread != self()) bad("a send-complete callback on another thread"); if (r->completes & 1) act(r, k); });
	};
	server->m_listener.on_message = [&](TcpServer* s, int32_t index, TcpConnectionPtr cn) {
		Rec* r = rec_of(cn.get()); common("message", s, index, r, cn); if (!r) return; if (r->state != 1) bad(r->state ? "a message callback after the close callback" : "a message callback before the connected callback");
		TcpConnection::State st = cn->get_state(); if (st != TcpConnection::kConnected && st != TcpConnection::kDisconnecting) bad("a message callback of a disconnected connection");
		if (cn->get_input_buf().size() == r->in - r->ate) bad("a message callback without new input"); r->in = r->ate + cn->get_input_buf().size(); r->messages++;
		if (r->peer && r->in > r->peer->script.size() * 1000) {} size_t d = cn->get_input_buf().size(); if (r->messages & 1) d /= 2; cn->get_input_buf().discard(d); r->ate += d; act(r, cn);
	};
	server->m_listener.on_close = [&](TcpServer* s, int32_t index, TcpConnectionPtr cn) {
		Rec* r = rec_of(cn.get()); common("close", s, index, r, cn); if (!r) return; if (r->state == 2) bad("two close callbacks"); if (cn->get_state() != TcpConnection::kDisconnected) bad("not disconnected in the close callback");
		r->state = 2; { std::lock_guard<std::mutex> g(mx); for (size_t i = 0; i < open_conns.size(); i++) if (open_conns[i].second == cn) { open_conns.erase(open_conns.begin() + (long)i); break; } } cn->send("gone", 4); closed++;
	};
#ifdef STOP
	int32_t wrong_start = c.pick<int32_t>({ 0, 0, 0, 0, 0, -1, 33, 34, 1000, INT32_MIN, INT32_MAX }); bool second_start = c.chance(1, 3); if (!wrong_start && c.chance(1, 2)) { if (server->start(0)) vh::die(false, "start(0) is accepted"); }
#endif
	bool bound = bind_ports(*server, P, reuse, ports);
	if (bound) for (size_t i = 0; i < peers.size(); i++) peers[i].target = ports[i % P];
#ifdef SCHED
	vsched::begin(sp);
#endif
#ifdef STOP
	if (wrong_start) { if (server->start(wrong_start)) vh::die(false, vh::sfmt("start(%d) is accepted", wrong_start).c_str()); }
#endif
	bool ok = server->start((int32_t)K); if (!ok) bad("start failed");
#ifdef STOP
	if (second_start) { if (server->start(1)) vh::die(false, "a running server is started again"); if (server->bind(Address(my_ip(), (uint16_t)0), reuse)) vh::die(false, "a running server is bound again"); }
#endif
	while (!up) breathe(); if (started != K) while (started != K) breathe();
	std::vector<thread_t> th; std::atomic<unsigned> ext_done(0);
	for (unsigned x = 0; x < X; x++) th.push_back(sys_api::thread_create([&, x](void*) { for (auto& e : ext[x]) { pause_(e.wait); TcpConnectionPtr cn; { std::lock_guard<std::mutex> g(mx); for (auto& o : open_conns) if (o.first == &peers[e.peer]) cn = o.second; } if (!cn) continue; if (e.what == 0) { std::vector<char> b(e.n, 'x'); cn->send(b.data(), b.size()); } else if (e.what == 1) server->shutdown_connection(cn); else { TcpConnection::State st = cn->get_state(); if (st == TcpConnection::kConnecting) bad("a connection in state connecting"); } if (cn->get_id() < 1) bad("a bad id"); } ext_done++; }, nullptr, "external"));
	// ---- the peers ----
	std::vector<char> buf(70000, 'p'); unsigned done_actions = 0, tried = 0;
	auto do_connect = [&](Peer& p) { tried++; int r = raw_connect(p.fd, p.target); for (int64_t t = now_us(); r == -1 && now_us() - t < 5000000;) { breathe(); pollfd f{ p.fd, POLLOUT, 0 }; if (poll(&f, 1, 0) == 1) { int e = 0; socklen_t l = sizeof e; getsockopt(p.fd, SOL_SOCKET, SO_ERROR, &e, &l); r = e == 0; } } if (r == 1) p.connected = true; else { p.ended = true; if (!stopping) bad("cannot connect to a running server"); } };
	auto drain = [&](Peer& p) { if (!p.connected || p.ended) return false; ssize_t k = precv(p.fd, buf.data(), buf.size()); if (k > 0) { for (ssize_t i = 0; i < k; i++) if (buf[(size_t)i] != 'd' && buf[(size_t)i] != 'x') { bad("the peer received a byte nobody sent"); break; } memset(buf.data(), 'p', (size_t)k); p.got += (size_t)k; return true; } if (raw_eof(k)) { p.ended = true; return true; } return false; };
	auto peer_act = [&](Peer& p) {
		if (!p.connected) { if (!p.ended) do_connect(p); return; } if (!p.actions) return; p.actions--; done_actions++;
		switch (rng.below(10)) {
		case 0: case 1: case 2: case 3: if (!p.half && !p.ended) { ssize_t k = psend(p.fd, buf.data(), 1 + rng.below(rng.below(3) ? 50 : 5000)); if (k > 0) p.sent += (size_t)k; } break;
		case 4: case 5: case 6: drain(p); break;
		case 7: if (rng.below(3) == 0 && !p.half && !p.ended) { shutdown(p.fd, SHUT_WR); p.half = true; } break;
		case 8: if (rng.below(2) == 0) { close(p.fd); p.fd = -1; p.ended = true; p.actions = 0; } break;
		case 9: if (rng.below(2) == 0) { raw_reset(p.fd); p.fd = -1; p.reset = true; p.ended = true; p.actions = 0; } break;
		}
	};
	if (!late_connect) for (auto& p : peers) do_connect(p);
	for (unsigned i = 0; i < budget && N && !failed(); i++) { peer_act(peers[rng.below(N)]); if (rng.below(3) == 0) pause_((unsigned)rng.below(peers[0].stall + 1)); }
#ifndef STOP
	// everybody connects, finishes and goes away
	for (auto& p : peers) if (!p.connected && !p.ended) do_connect(p);
	int64_t t0 = now_us(); size_t target = 0; for (auto& p : peers) target += p.connected;
	while (connected < target && !failed()) { if (now_us() - t0 > END_AFTER) c.soft_fail("%u connected callbacks for %zu peers", connected.load(), target); breathe(); }
	while (ext_done < X) breathe();
	for (auto& p : peers) if (p.fd >= 0) { if (rng.below(2)) while (drain(p)) {} if (rng.below(4)) { close(p.fd); p.fd = -1; p.ended = true; } else if (rng.below(2)) { raw_reset(p.fd); p.fd = -1; p.ended = true; } else if (!p.half) { shutdown(p.fd, SHUT_WR); p.half = true; } }
	t0 = now_us();
	while (closed < connected && !failed()) { for (auto& p : peers) drain(p); if (now_us() - t0 > END_AFTER) c.soft_fail("%u close callbacks for %u connections after all peers went away", closed.load(), connected.load()); breathe(); }
#endif
	stopping = true; server->stop();
	if (stop_twice) { pause_(stop_wait); server->stop(); }
	for (auto& p : peers) if (!p.connected && !p.ended && rng.below(2)) do_connect(p);
	for (auto& p : peers) if (rng.below(3) == 0) peer_act(p);
	for (auto t : th) sys_api::thread_join(t);
#ifdef SCHED
	server->join(); joined = true; uint64_t sw = vsched::switches(); vsched::end();
#else
	thread_t jt = sys_api::thread_create([&](void*) { server->join(); joined = true; }, nullptr, "joiner");
	int64_t t1 = now_us(); while (!joined) { if (!drain_late || now_us() - t1 > 2000) for (auto& p : peers) drain(p); if (now_us() - t1 > 10000000) { g_faults.write_short = 0; c.soft_fail("join did not return within 10 s of stop: %u connected, %u closed%s%s", connected.load(), closed.load(), err.empty() ? "" : "; ", err.c_str()); } usleep(50); }
	sys_api::thread_join(jt);
#endif
	// ---- afterwards ----
	if (err.empty() && closed != connected) bad(vh::sfmt("%u connections got a connected callback, %u a close callback", connected.load(), closed.load()));
	if (err.empty()) for (auto& r : recs) if (r->state != 2) bad("a connection without a close callback");
	open_conns.clear(); for (auto& k : keep) if (k->get_state() != TcpConnection::kDisconnected) bad("a connection is not disconnected after join"); for (auto& k : keep) k->send("late", 4); keep.clear();
	unsigned resets = 0; for (auto& p : peers) resets += p.reset; if (anonymous > resets + 0u && err.empty()) { unsigned gone = 0; for (auto& p : peers) gone += p.ended; if (anonymous > gone) bad("a connection without a peer address"); }
	for (auto q : ports) { uint16_t x; int fd = raw_socket(&x); int r = raw_connect(fd, q, nullptr, 1000); close(fd); if (r != 0 && x != q) { bad(vh::sfmt("port %u still accepts connections after the server stopped", q)); break; } }
	for (auto& p : peers) if (p.fd >= 0) { if (p.connected && !p.ended) { int64_t t = now_us(); bool poked = false; while (!p.ended && now_us() - t < 3000000) { if (!drain(p)) usleep(50); if (!poked && now_us() - t > 300000) { poked = true; psend(p.fd, "?", 1); /* the kernel may drop a connection being established while its listener closes without a reset; whoever holds the other end keeps silent */ } } if (!p.ended) bad(vh::sfmt("a peer's connection did not end with the server (%d descriptors more)", (int)count_fds() - (int)fds0)); } close(p.fd); }
	server.reset();
	unsigned fds1 = count_fds(), thr1 = count_threads(); for (int64_t t = now_us(); thr1 > thr0 && now_us() - t < 2000000;) { usleep(100); thr1 = count_threads(); }
	if (err.empty() && fds1 != fds0) bad(vh::sfmt("%u descriptors before, %u after", fds0, fds1)); if (err.empty() && thr1 > thr0) bad(vh::sfmt("%u threads before, %u after", thr0, thr1));
	unsigned msgs = 0; for (auto& r : recs) msgs += r->messages;
	c.note("peers=%u threads=%u ports=%u external=%u connected=%u messages=%u actions=%u", N, K, P, X, connected.load(), msgs, done_actions);
	if (anonymous) c.label("reset before accept"); if (refused_stops) c.label("stop in a work thread"); if (stop_twice) c.label("stop called twice"); unsigned shut = 0; for (auto& r : recs) shut += r->shut; if (shut) c.label("local shutdown"); if (connected < tried) c.label("connection never accepted");
#ifdef SCHED
	if (sw > 10 && connected) c.nontrivial();
#else
	if (connected > 1 && done_actions > 3) c.nontrivial();
#endif
	if (!err.empty()) c.fail("%s", err.c_str());
}
#if defined(SCHED) && defined(STOP)
VH_PROP(stop_schedules, 16000, 200000, 60000, true, 0) { run_case(c); }
#elif defined(SCHED)
VH_PROP(life_schedules, 14000, 200000, 60000, true, 0) { run_case(c); }
#elif defined(STOP)
VH_PROP(stop_histories, 14000, 200000, 30000, false, 16) { run_case(c); }
#else
VH_PROP(life_histories, 14000, 200000, 40000, false, 16) { run_case(c); }
#endif
int main(int argc, char** argv)
{
	vh::child_init = mute;
#ifdef STOP
	vh::property_id = "C16"; vh::nontrivial_rule = "0..8 peers (send, read, half-close, close, reset), scripted callbacks, external threads; the server is stopped at a generated moment; non-trivial = a connection existed and (free-running) more than three peer actions or (scheduler) more than ten switches";
#else
	vh::property_id = "C14"; vh::nontrivial_rule = "0..8 peers (send, read, half-close, close, reset), scripted callbacks (send, shutdown, shutdown_connection, rename), external threads; non-trivial = at least two connections and more than three peer actions (scheduler: one connection and more than ten switches)";
#endif
	vh::assumptions = { "loopback TCP of this kernel; under the scheduler, interleavings are explored under sequential consistency" };
	return vh::main(argc, argv);
}
