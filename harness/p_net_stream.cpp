// C12: every established connection is two exact byte streams.
#define NET_FAULTS
#include "net.h"

struct Plan {
	unsigned no; Stream up, down; size_t U, D; bool external; std::vector<size_t> blocks; size_t bi = 0, sent = 0; unsigned burst; int consume; size_t consume_n; int sndbuf;
	int fd = -1; uint16_t port = 0, sport = 0; size_t chunk, rchunk; unsigned wstall, rstall; size_t wsent = 0, rgot = 0; bool eof = false;
	TcpConnectionPtr conn; size_t consumed = 0, verified = 0; std::atomic<size_t> seen{ 0 }; std::atomic<bool> up_ok{ false }, closed{ false }, stop_read{ false }; std::atomic<unsigned> complete{ 0 }; std::string err; unsigned messages = 0; bool all_at_once = false;
};
VH_PROP(streams, 1600, 40000, 60000, false, 24)
{
	unsigned N = (unsigned)c.range(1, 6), K = (unsigned)c.range(1, 4), P = (unsigned)c.range(1, 3); bool faults = c.chance(1, 2), big = c.chance(1, 12), reuse = c.chance(1, 2);
	std::vector<std::unique_ptr<Plan>> plans; std::map<uint16_t, Plan*> by_port; std::mutex mx;
	auto dim = [&]() -> size_t { return c.size(0, big ? 3000000 : 60000, { 1023, 1024, 2048, 65536 }); };
	for (unsigned i = 0; i < N; i++) {
		plans.emplace_back(new Plan); Plan& p = *plans.back(); p.no = i; p.up.seed = c.raw(); p.down.seed = c.raw(); p.U = dim(); p.D = dim(); p.external = c.chance(1, 3);
		size_t left = p.D; while (left) { size_t n = std::min(left, p.blocks.size() > 200 ? left : c.size(1, left, { 1023, 1024, 1025, 4096, 65536 })); p.blocks.push_back(n); left -= n; }
		p.burst = (unsigned)c.pick({ 1, 1, 2, 5, 1000 }); p.consume = (int)c.below(4); p.consume_n = c.size(1, 5000); p.sndbuf = (int)c.pick({ 0, 0, 2048, 20000 });
		p.chunk = c.size(1, 200000, { 1, 1460, 65536 }); p.rchunk = c.size(1, 200000, { 1, 100 }); if (p.U / p.chunk > 1500) p.chunk = p.U / 1500; if (p.D / p.rchunk > 1500) p.rchunk = p.D / 1500; p.wstall = (unsigned)c.pick({ 0, 0, 2, 8 }); p.rstall = (unsigned)c.pick({ 0, 0, 2, 8 });
		int rb = (int)c.pick({ 0, 0, 2048, 8192 }), sb = (int)c.pick({ 0, 0, 2048, 8192 });
		p.fd = raw_socket(&p.port, nullptr, rb, sb); if (p.fd < 0) c.soft_fail("no socket"); by_port[p.port] = &p;
	}
	set_faults(c, faults);
	auto find = [&](uint16_t port) { std::lock_guard<std::mutex> g(mx); auto it = by_port.find(port); return it == by_port.end() ? nullptr : it->second; };
	std::string err; auto bad = [&](std::string s) { std::lock_guard<std::mutex> g(mx); if (err.empty()) err = s; };
	auto send_block = [&](Plan* p, TcpConnectionPtr conn) { size_t n = p->blocks[p->bi++]; auto b = piece(p->down, p->sent, n); p->sent += n; conn->send((const char*)b.data(), n); memset(b.data(), 0xEE, n); };
	auto pump = [&](Plan* p, TcpConnectionPtr conn) { if (!p->external) for (unsigned k = 0; k < p->burst && p->bi < p->blocks.size(); k++) send_block(p, conn); };
	TcpServer server; std::vector<uint16_t> ports;
	server.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr conn) {
		Plan* p = find(conn->get_peer_addr().get_port()); if (!p) { std::string d; for (auto& q : by_port) d += vh::sfmt(" %u", q.first); for (auto q : ports) d += vh::sfmt(" server:%u", q); d += vh::sfmt(" local %s:%u", conn->get_local_addr().get_ip(), conn->get_local_addr().get_port()); bad(vh::sfmt("a connection from nowhere: peer %s:%u, expected%s", conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port(), d.c_str())); return; }
		if (p->sndbuf) setsockopt(conn->get_socket(), SOL_SOCKET, SO_SNDBUF, &p->sndbuf, sizeof p->sndbuf);
		conn->set_param(p); if (!p->external) conn->set_on_send_complete([&, p](TcpConnectionPtr cn) { p->complete++; pump(p, cn); });
		pump(p, conn); { std::lock_guard<std::mutex> g(mx); p->conn = conn; }
	};
	auto take = [&](Plan* p, RingBuf& b) {	// compares what is new, consumes some
		size_t have = b.size(), fresh = p->consumed + have - p->verified; std::vector<uint8_t> v(fresh);
		if (p->consumed + have < p->verified) { bad("input vanished"); return; }
		if (fresh) { size_t n = b.peek(p->verified - p->consumed, v.data(), fresh); if (n != fresh) { bad("peek is short"); return; } long w = p->up.check(v.data(), p->verified, fresh); if (w >= 0) { bad(vh::sfmt("connection %u: byte %llu received by the server is not the one sent", p->no, (unsigned long long)(p->verified + (size_t)w))); return; } p->verified += fresh; }
		size_t d = 0; switch (p->consume) { case 0: d = have; break; case 1: d = std::min(have, p->consume_n); break; case 2: d = have >= p->consume_n ? have / p->consume_n * p->consume_n : 0; break; default: d = have > p->consume_n ? have - p->consume_n : 0; }
		if (d) { b.discard(d); p->consumed += d; } p->seen = p->verified;
	};
	server.m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr conn) { Plan* p = (Plan*)conn->get_param(); if (!p) return; p->messages++; if (p->consume == 1 && (p->messages & 1)) { pump(p, conn); take(p, conn->get_input_buf()); } else { take(p, conn->get_input_buf()); pump(p, conn); } };
	server.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr conn) { Plan* p = (Plan*)conn->get_param(); if (!p) return; if (p->seen != p->U) bad(vh::sfmt("connection %u was closed after %zu of %zu bytes", p->no, p->seen.load(), p->U)); take(p, conn->get_input_buf()); if (p->consumed + conn->get_input_buf().size() != p->U) bad("unread input is lost when the connection closes"); p->closed = true; };
	std::atomic<bool> up(false); server.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { up = true; };
	bool bound = bind_ports(server, P, reuse, ports);
	VH_CHECK(c, server.start((int32_t)K), "start");
	while (!up) sys_api::thread_yield();	// listening: a refused connect would change the port of the peer
	if (!bound) { server.stop(); server.join(); for (auto& p : plans) close(p->fd); c.note("port clash"); return; }
	std::atomic<bool> quit(false);
	thread_t ext = sys_api::thread_create([&](void*) {
		for (bool more = true; more && !quit;) { more = false; bool any = false; for (auto& q : plans) { Plan* p = q.get(); if (!p->external || p->bi >= p->blocks.size()) continue; more = true; TcpConnectionPtr cn; { std::lock_guard<std::mutex> g(mx); cn = p->conn; } if (cn) { send_block(p, cn); any = true; } } if (!any) usleep(100); else sys_api::thread_yield(); }
	}, nullptr, "sender");
	unsigned connected = 0; for (auto& p : plans) { p->sport = ports[p->no % P]; int r = -1; for (int64_t t0 = now_us(); now_us() - t0 < 5000000;) { r = raw_connect(p->fd, p->sport); if (r == 1) break; usleep(300); } if (r != 1) { quit = true; c.soft_fail("cannot connect"); } connected++; }
	std::vector<uint8_t> buf(1 << 18); int64_t last = now_us(); vh::Rng rng(c.raw()); bool done = false;
	while (!done) {
		{ std::lock_guard<std::mutex> g(mx); if (!err.empty()) break; }
		done = true; bool progress = false, stalled = false; std::vector<pollfd> pf;
		for (auto& q : plans) {
			Plan& p = *q; short want = 0;
			if (p.wsent < p.U) { if (p.wstall && rng.below(p.wstall)) stalled = true; else { size_t n = std::min(std::min(p.chunk, p.U - p.wsent), buf.size()); p.up.fill(buf.data(), p.wsent, n); ssize_t k = psend(p.fd, buf.data(), n); if (k > 0) { p.wsent += (size_t)k; progress = true; } else if (k < 0 && errno != EAGAIN) bad(vh::sfmt("connection %u broke while the peer was sending (%s)", p.no, strerror(errno))); else want |= POLLOUT; } }
			if (p.rstall && rng.below(p.rstall)) stalled = true; else { ssize_t k = precv(p.fd, buf.data(), std::min(p.rchunk, buf.size())); if (k > 0) { progress = true; if (p.rgot + (size_t)k > p.D) bad(vh::sfmt("connection %u: more bytes than were sent", p.no)); else { long w = p.down.check(buf.data(), p.rgot, (size_t)k); if (w >= 0) bad(vh::sfmt("connection %u: byte %llu received by the peer is not the one sent", p.no, (unsigned long long)(p.rgot + (size_t)w))); } p.rgot += (size_t)k; } else if (k == 0 || errno != EAGAIN) bad(vh::sfmt("connection %u ended after %zu of %zu bytes (%s)", p.no, p.rgot, p.D, k == 0 ? "eof" : strerror(errno))); else want |= POLLIN; }
			if (p.wsent < p.U || p.rgot < p.D || p.seen.load() < p.U) done = false; pf.push_back({ p.fd, want, 0 });
		}
		if (progress) last = now_us(); else { if (now_us() - last > 8000000) { std::string d; for (auto& p : plans) d += vh::sfmt(" [up %zu/%zu seen %zu, down %zu/%zu sent %zu]", p->wsent, p->U, p->seen.load(), p->rgot, p->D, p->sent); quit = true; c.soft_fail("transfer stopped:%s", d.c_str()); } if (!done) { if (stalled) usleep(20); else poll(pf.data(), pf.size(), 1); } }
	}
	no_faults();
	if (err.empty()) { int64_t t0 = now_us(); for (auto& p : plans) if (!p->external && p->D) while (!p->complete) { if (now_us() - t0 > 8000000) c.soft_fail("connection %u: no send-complete callback", p->no); usleep(50); } }
	for (auto& p : plans) close(p->fd);
	quit = true; sys_api::thread_join(ext);
	if (err.empty()) { int64_t t0 = now_us(); for (auto& p : plans) while (!p->closed) { if (now_us() - t0 > 8000000) c.soft_fail("connection %u: no close callback after the peer closed", p->no); usleep(50); } }
	for (auto& p : plans) p->conn.reset();
	server.stop(); server.join();
	if (!err.empty()) c.fail("%s", err.c_str());
	size_t u = 0, d = 0; unsigned msgs = 0; for (auto& p : plans) { u += p->U; d += p->D; msgs += p->messages; }
	c.note("connections=%u threads=%u ports=%u up=%zu down=%zu blocks[0]=%zu messages=%u faults=%llu", N, K, P, u, d, plans[0]->blocks.size(), msgs, (unsigned long long)g_faults.injected.load());
	if (u > 3000 && d > 3000) c.nontrivial(); if (g_faults.injected) c.label("short transfers injected"); if (u + d > 500000) c.label("over 500 kB"); for (auto& p : plans) if (p->external) c.label("sent from another thread");
}
int main(int argc, char** argv)
{
	vh::property_id = "C12"; vh::child_init = mute;
	vh::nontrivial_rule = "1..6 connections with generated sizes, blocks, pacing, socket buffers and injected short transfers; non-trivial = over 3000 bytes in both directions";
	vh::assumptions = { "loopback TCP of this kernel" };
	return vh::main(argc, argv);
}
