// C35: the statistics of a connection count every byte it moved, once, and nothing else.
#define NET_FAULTS
#include "net.h"

struct Plan {
	unsigned no; Stream up, down; size_t U, D, cut; bool resets, linger; int rmode, wmode; unsigned rwhen; int32_t period; bool tick; unsigned burst; int sndbuf; size_t consume;
	std::vector<size_t> blocks; size_t bi = 0; std::atomic<size_t> sent{ 0 };
	int fd = -1; uint16_t port = 0; size_t chunk, wsent = 0; std::atomic<size_t> rgot{ 0 }; bool gone = false; unsigned wstall, rstall;
	size_t total = 0, left = 0, maxin = 1024, rbase = 0; unsigned messages = 0, mbase = 0, completes = 0; bool rstarted = false, wstarted = false; std::atomic<bool> closed{ false }, known{ false };
	std::pair<size_t, int32_t> w{ 0, 0 };
};
VH_PROP(statistics, 10000, 200000, 60000, false, 24)
{
	unsigned N = (unsigned)c.range(1, 5), K = (unsigned)c.range(1, 3); bool faults = c.chance(1, 2);
	std::vector<std::unique_ptr<Plan>> plans; std::map<uint16_t, Plan*> by_port; std::mutex mx; std::string err; auto bad = [&](std::string s) { std::lock_guard<std::mutex> g(mx); if (err.empty()) err = s; };
	for (unsigned i = 0; i < N; i++) {
		plans.emplace_back(new Plan); Plan& p = *plans.back(); p.no = i; p.up.seed = c.raw(); p.down.seed = c.raw(); p.U = c.size(0, 40000, { 1023, 1024, 1025 }); p.D = c.size(0, c.chance(1, 5) ? 2000000 : 40000, { 1023, 1024, 65536 });
		p.resets = c.chance(1, 3); p.linger = c.chance(1, 2); p.cut = p.resets ? c.size(0, p.D) : p.D; p.rmode = (int)c.below(4); p.wmode = (int)c.below(3); p.rwhen = (unsigned)c.size(1, 10); p.period = c.pick({ 1000000, 100000000, 2000000000 }); p.burst = (unsigned)c.pick({ 1, 2, 5, 1000 }); p.sndbuf = (int)c.pick({ 0, 0, 2048, 20000 }); p.consume = c.size(0, 3000);
		size_t left = p.D; while (left) { size_t n = std::min(left, p.blocks.size() > 100 ? left : c.size(1, left, { 1024, 4096 })); p.blocks.push_back(n); left -= n; }
		p.chunk = c.size(1, 65536, { 1, 1024 }); if (std::max(p.U, p.D) / p.chunk > 1000) p.chunk = std::max(p.U, p.D) / 1000; p.wstall = (unsigned)c.pick({ 0, 0, 3 }); p.rstall = (unsigned)c.pick({ 0, 0, 3 });
		p.fd = raw_socket(&p.port, nullptr, (int)c.pick({ 0, 0, 2048, 8192 }), 0); if (p.fd < 0) c.soft_fail("no socket"); by_port[p.port] = &p;
	}
	set_faults(c, faults);
	auto pump = [&](Plan* p, TcpConnectionPtr cn) { for (unsigned k = 0; k < p->burst && p->bi < p->blocks.size() && cn->get_state() == TcpConnection::kConnected; k++) { size_t n = p->blocks[p->bi++]; auto b = piece(p->down, p->sent, n); p->sent += n; cn->send((const char*)b.data(), n); } };
	auto rstart = [&](Plan* p, TcpConnectionPtr cn) { cn->start_read_statistics(p->period); p->rstarted = true; p->rbase = p->total; p->mbase = p->messages; };
	auto look = [&](Plan* p, TcpConnectionPtr cn, const char* when, bool exact) {
		auto r = cn->get_read_statistics(), w = cn->get_write_statistics(); p->w = w; size_t er = p->rstarted ? p->total - p->rbase : 0; unsigned ec = p->rstarted ? p->messages - p->mbase : 0;
		if (r.first != er || r.second != (int32_t)ec) bad(vh::sfmt("connection %u, %s: read statistics are %zu bytes in %d packets, %zu bytes were received in %u", p->no, when, r.first, r.second, er, ec));
		if (!p->wstarted) { if (w.first || w.second) bad(vh::sfmt("connection %u, %s: write statistics that were not started are %zu bytes in %d packets", p->no, when, w.first, w.second)); }
		else if (w.first > p->sent || (exact && w.first != p->sent) || w.second < 0 || (w.first && w.second < 1) || (size_t)w.second > w.first) bad(vh::sfmt("connection %u, %s: write statistics are %zu bytes in %d packets, %zu bytes were %s", p->no, when, w.first, w.second, p->sent.load(), exact ? "written" : "sent"));
		if (cn->get_readebuf_max_size() != p->maxin) bad(vh::sfmt("connection %u, %s: the largest input buffer is %zu, reported %zu", p->no, when, p->maxin, cn->get_readebuf_max_size()));
		if (cn->get_writebuf_max_size() < 1024 || cn->get_writebuf_max_size() > std::max<size_t>(1024, p->sent)) bad(vh::sfmt("connection %u, %s: the largest output buffer is %zu with %zu bytes sent", p->no, when, cn->get_writebuf_max_size(), p->sent.load()));
	};
	TcpServer server; std::vector<uint16_t> ports;
	server.m_listener.on_connected = [&](TcpServer*, int32_t, TcpConnectionPtr cn) {
		auto it = by_port.find(cn->get_peer_addr().get_port()); if (it == by_port.end()) { std::string d; for (auto& q : by_port) d += vh::sfmt(" %u", q.first); bad(vh::sfmt("a connection from nowhere: peer %s:%u, expected%s", cn->get_peer_addr().get_ip(), cn->get_peer_addr().get_port(), d.c_str())); return; } Plan* p = it->second; cn->set_param(p); p->known = true;	// a connection that is reset before this has no peer address
		if (p->sndbuf) setsockopt(cn->get_socket(), SOL_SOCKET, SO_SNDBUF, &p->sndbuf, sizeof p->sndbuf);
		look(p, cn, "connected", true);
		if (p->rmode == 1 || p->rmode == 3) rstart(p, cn); if (p->wmode) { cn->start_write_statistics(p->period); p->wstarted = true; } if (p->rmode == 3) cn->start_read_statistics(1);	// a second start changes nothing
		if (p->wmode == 2) cn->start_write_statistics(1);
		cn->set_on_send_complete([&, p](TcpConnectionPtr cn) { p->completes++; look(p, cn, "send complete", true); pump(p, cn); }); pump(p, cn);
	};
	server.m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr cn) {
		Plan* p = (Plan*)cn->get_param(); if (!p) return; p->messages++; RingBuf& b = cn->get_input_buf(); p->total += b.size() - p->left; p->maxin = std::max(p->maxin, b.size()); look(p, cn, "message", false);
		if (p->rmode == 2 && !p->rstarted && p->messages >= p->rwhen) rstart(p, cn);
		if (p->consume == 0) b.discard(b.size()); else if (b.size() > p->consume) b.discard(b.size() - p->consume); p->left = b.size(); pump(p, cn);
	};
	server.m_listener.on_close = [&](TcpServer*, int32_t, TcpConnectionPtr cn) { Plan* p = (Plan*)cn->get_param(); if (!p) return; size_t g = p->rgot; look(p, cn, "closed", false); if (p->wstarted && p->w.first < g) bad(vh::sfmt("connection %u: write statistics are %zu bytes, the peer received %zu", p->no, p->w.first, g)); p->closed = true; };
	std::atomic<bool> up(false); server.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { up = true; };
	bool bound = bind_ports(server, 1, true, ports); VH_CHECK(c, server.start((int32_t)K), "start"); while (!up) sys_api::thread_yield();
	if (!bound) { server.stop(); server.join(); for (auto& p : plans) close(p->fd); c.note("port clash"); return; }
	for (auto& p : plans) { int r = -1; for (int64_t t0 = now_us(); now_us() - t0 < 5000000;) { r = raw_connect(p->fd, ports[0]); if (r == 1) break; usleep(300); } if (r != 1) c.soft_fail("cannot connect"); }
	std::vector<uint8_t> buf(1 << 17); int64_t last = now_us(); vh::Rng rng(c.raw()); bool done = false; unsigned resets = 0;
	while (!done) {
		{ std::lock_guard<std::mutex> g(mx); if (!err.empty()) break; }
		done = true; bool progress = false;
		for (auto& q : plans) {
			Plan& p = *q; if (p.gone) { if (!p.closed) done = false; continue; } done = false; bool broken = false;
			if (p.wsent < p.U && !(p.wstall && rng.below(p.wstall))) { size_t n = std::min(p.chunk, p.U - p.wsent); p.up.fill(buf.data(), p.wsent, n); ssize_t k = psend(p.fd, buf.data(), n); if (k > 0) { p.wsent += (size_t)k; progress = true; } else if (k < 0 && errno != EAGAIN) broken = true; }
			size_t lim = std::min(p.chunk, p.cut - p.rgot); if (lim && !(p.rstall && rng.below(p.rstall))) { ssize_t k = precv(p.fd, buf.data(), std::min(lim, buf.size())); if (k > 0) { if (p.down.check(buf.data(), p.rgot, (size_t)k) >= 0) bad("other bytes arrived"); p.rgot += (size_t)k; progress = true; } else if (k == 0 || errno != EAGAIN) broken = true; }
			if (broken) { bad(vh::sfmt("connection %u ended after %zu of %zu bytes", p.no, p.rgot.load(), p.D)); p.gone = true; close(p.fd); p.fd = -1; }
			else if (p.known && p.rgot >= p.cut && (p.resets ? rng.below(3) == 0 : p.wsent == p.U)) { p.gone = true; progress = true; if (p.resets && p.linger) { raw_reset(p.fd); resets++; } else close(p.fd); p.fd = -1; }
		}
		if (progress) last = now_us(); else { if (now_us() - last > 8000000) { std::string d; for (auto& p : plans) d += vh::sfmt(" [up %zu/%zu down %zu/%zu gone %d closed %d]", p->wsent, p->U, p->rgot.load(), p->D, p->gone, (int)p->closed); c.soft_fail("no progress:%s", d.c_str()); } if (!done) usleep(50); }
	}
	no_faults(); for (auto& p : plans) if (p->fd >= 0) close(p->fd);
	server.stop(); server.join(); if (!err.empty()) c.fail("%s", err.c_str());
	size_t u = 0, d = 0; unsigned started = 0; for (auto& p : plans) {
		if (!p->resets) VH_CHECK(c, p->total == p->U && p->sent == p->D, "connection %u: %zu of %zu bytes received, %zu of %zu sent", p->no, p->total, p->U, p->sent.load(), p->D);
		if (!p->resets && p->wstarted) VH_CHECK(c, p->w.first == p->D, "connection %u: %zu bytes were written and received, the statistics have %zu", p->no, p->D, p->w.first);
		u += p->total; d += p->w.first; if (p->rstarted) started++; if (p->wstarted) started++; if (p->resets) c.label("peer left early"); if (p->rmode == 2 && p->rstarted) c.label("started later");
	}
	if (g_faults.injected) c.label("short transfers injected"); c.note("connections=%u threads=%u received=%zu counted as written=%zu started=%u", N, K, u, d, started); if (started && u + d > 2000) c.nontrivial();
}
int main(int argc, char** argv)
{
	vh::property_id = "C35"; vh::child_init = mute; signal(SIGPIPE, SIG_IGN);
	vh::nontrivial_rule = "1..5 connections, statistics started at once, later, twice or never, peers that read everything or leave early, injected short transfers; non-trivial = some statistics started and over 2000 bytes counted";
	return vh::main(argc, argv);
}
