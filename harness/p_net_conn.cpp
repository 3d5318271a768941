// One TcpConnection, its looper thread, several sending threads and a raw peer.
// C13: blocks of concurrent senders arrive whole, in the order of their sender, none missing.
// C15 (-DSHUTDOWN): the connection is shut down or closed by its peer meanwhile.
#define NET_FAULTS
#include "net.h"
#ifdef SCHED
#include "vsched.h"
static void pause_(unsigned n) { while (n--) vsched::yield(); }
static uint64_t tick() { return vsched::tick(); }
#else
static void pause_(unsigned n) { if (n > 20) usleep(n); else while (n--) sys_api::thread_yield(); }
static std::atomic<uint64_t> g_tick(1); static uint64_t tick() { return g_tick++; }
#endif
enum { HEAD = 4 };
struct Block { size_t len; uint64_t before = 0, after = 0; };	// clock before/after the call of send
struct Sender { std::vector<Block> b; unsigned delay; size_t got = 0; };
static std::vector<uint8_t> encode(unsigned s, unsigned i, size_t len) { std::vector<uint8_t> v(len); Stream st; st.seed = s * 4096 + i; st.fill(v.data(), 0, len); v[0] = (uint8_t)s; v[1] = (uint8_t)i; v[2] = (uint8_t)(len >> 8); v[3] = (uint8_t)len; return v; }
static bool tcp_pair(int fd[2])
{
	int l = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a = lo_addr(my_ip(), 0); socklen_t n = sizeof a; if (bind(l, (sockaddr*)&a, sizeof a) || getsockname(l, (sockaddr*)&a, &n) || listen(l, 1)) return false;
	fd[0] = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (connect(fd[0], (sockaddr*)&a, sizeof a)) return false; fd[1] = accept(l, nullptr, nullptr); close(l); fcntl(fd[0], F_SETFL, O_NONBLOCK); return fd[1] >= 0;
}
struct Owner : TcpConnection::Owner { OWNER_TYPE get_connection_owner_type(void) const override { return kServer; } };
#if defined(SCHED) && defined(SHUTDOWN)
VH_PROP(shutdown_schedules, 20000, 200000, 60000, true, 0)
#elif defined(SCHED)
VH_PROP(send_schedules, 9000, 200000, 60000, true, 0)
#elif defined(SHUTDOWN)
VH_PROP(shutdown_free_running, 8000, 200000, 30000, false, 8)
#else
VH_PROP(send_free_running, 4000, 100000, 30000, false, 8)
#endif
{
	unsigned S = (unsigned)c.range(1, 4); bool faults = c.chance(3, 4); int sb = (int)c.pick({ 0, 0, 2048 }), rb = (int)c.pick({ 0, 0, 2048 }); size_t big = (size_t)c.pick({ 40, 40, 3000, 20000 });
	std::vector<Sender> snd(S + 2);	// [0..S-1] threads, S: message callback, S+1: send-complete callback
	for (unsigned s = 0; s < S; s++) { unsigned n = (unsigned)c.range(s == 0, 5); snd[s].delay = (unsigned)c.size(0, 60); for (unsigned i = 0; i < n; i++) snd[s].b.push_back({ c.size(HEAD, big, { 1023, 1024, 1025 }) }); }
	unsigned pings = (unsigned)c.range(0, 4); for (unsigned i = 0; i < pings; i++) snd[S].b.push_back({ c.size(HEAD, big) });
	unsigned tail = (unsigned)c.range(0, 2); for (unsigned i = 0; i < tail; i++) snd[S + 1].b.push_back({ c.size(HEAD, big) });
	unsigned ping_gap = (unsigned)c.size(0, 40), rchunk = (unsigned)c.size(1, 70000, { 65536 }), rdelay = (unsigned)c.pick({ 0, 0, 1, 10 });
#ifdef SHUTDOWN
	enum { IN_MESSAGE, IN_COMPLETE, IN_TIMER, PEER_CLOSE, PEER_RESET, IN_CONNECT_CODE }; int how = (int)c.below(6); unsigned when = (unsigned)c.below(4); size_t peer_after = c.size(0, 4000); bool again = c.chance(1, 3), send_in_close = c.chance(1, 3); unsigned late = (unsigned)c.below(3);
	if (how == IN_MESSAGE && pings == 0) { pings = 1; snd[S].b.push_back({ 8 }); } if (how == IN_MESSAGE) when %= pings; if (how == IN_COMPLETE && !snd[0].b.size()) how = IN_TIMER;
	if (how == IN_COMPLETE) when = 0; if (how == PEER_RESET || how == PEER_CLOSE) peer_after %= 4000;
#endif
#ifdef SCHED
	vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 5, 20, 60, 200, 1000 }); sp.freeze_den = (unsigned)c.pick({ 0, 2, 4, 8 });
#endif
	set_faults(c, faults); g_faults.read_short = g_faults.read_again = 0;
	int fd[2]; if (!tcp_pair(fd)) c.soft_fail("no sockets"); int p = fd[0]; if (sb) setsockopt(fd[1], SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb); if (rb) setsockopt(p, SOL_SOCKET, SO_RCVBUF, &rb, sizeof rb);
	std::mutex mx; std::string err; auto bad = [&](std::string s) { if (err.empty()) err = s; };
	Owner owner; std::atomic<Looper*> L(nullptr); std::atomic<TcpConnection*> raw(nullptr); TcpConnectionPtr conn; std::atomic<unsigned> closes(0), completes(0), done(0); std::atomic<uint64_t> shut(0);
	std::atomic<bool> down(false), loop_end(false); unsigned ticks = 0; (void)ticks;
	auto do_send = [&](unsigned s, TcpConnection* cn) { Sender& x = snd[s]; size_t i = x.got; if (i >= x.b.size()) return; x.got++; auto v = encode(s, (unsigned)i, x.b[i].len); x.b[i].before = tick(); cn->send((const char*)v.data(), v.size()); x.b[i].after = tick(); memset(v.data(), 0xEE, v.size()); };
	auto do_shut = [&](TcpConnection* cn) { uint64_t t = tick(); uint64_t z = 0; shut.compare_exchange_strong(z, t); cn->shutdown(); };
#ifdef SCHED
	vsched::begin(sp);
#endif
	std::atomic<bool> go(false);
	thread_t lt = sys_api::thread_create([&](void*) {
		Looper* l = Looper::create_looper(); conn = std::make_shared<TcpConnection>(7, fd[1], l, &owner); unsigned msg = 0, cmp = 0;
		conn->set_on_message([&](TcpConnectionPtr cn) {
			if (cn.get() != conn.get()) bad("wrong connection in a callback"); size_t n = cn->get_input_buf().size(); if (!n) bad("message callback without input"); cn->get_input_buf().discard(n);
			for (size_t i = 0; i < n; i++) { do_send(S, cn.get());
#ifdef SHUTDOWN
				if (how == IN_MESSAGE && msg == when) { do_shut(cn.get()); if (cn->get_state() != TcpConnection::kDisconnected && again) cn->shutdown(); if (cn->get_state() == TcpConnection::kDisconnected) return; }
#endif
				msg++; }
		});
		conn->set_on_send_complete([&](TcpConnectionPtr cn) {
			completes++; do_send(S + 1, cn.get());
#ifdef SHUTDOWN
			if (how == IN_COMPLETE && cmp++ == when && cn->get_state() == TcpConnection::kConnected) do_shut(cn.get());
#endif
			(void)cmp;
		});
		conn->set_on_close([&](TcpConnectionPtr cn) {
			if (++closes > 1) bad("two close callbacks"); if (cn->get_state() != TcpConnection::kDisconnected) bad("not disconnected in the close callback");
#ifdef SHUTDOWN
			if (send_in_close) cn->send("dropped", 7);
#endif
			down = true; if (done.load() < S) return; l->push_stop_request();
		});
		L = l; raw = conn.get();
#ifdef SHUTDOWN
		if (how == IN_TIMER) l->register_timer_event(1, nullptr, [&, l](Looper::event_id_t id, void*) { if (ticks++ < when) return; l->delete_event(id); if (conn->get_state() != TcpConnection::kDisconnected) do_shut(conn.get()); });
		if (how == IN_CONNECT_CODE) { for (unsigned i = 0; i < when; i++) do_send(S, conn.get()); do_shut(conn.get()); }
#endif
		// a loop that ends when the senders are done and the connection is closed
		Looper::event_id_t t = l->register_timer_event(2, nullptr, [&, l](Looper::event_id_t, void*) { if (down && done.load() >= S) l->push_stop_request(); }); (void)t;
		l->loop();
		loop_end = true; while (done.load() < S) sys_api::thread_yield();
		conn->send("late", 4); conn.reset(); Looper::destroy_looper(l);
	}, nullptr, "looper");
	std::vector<thread_t> th;
	for (unsigned s = 0; s < S; s++) th.push_back(sys_api::thread_create([&, s](void*) { while (!raw.load()) sys_api::thread_yield(); TcpConnectionPtr cn = raw.load()->shared_from_this(); for (size_t i = 0; i < snd[s].b.size(); i++) { pause_(snd[s].delay); do_send(s, cn.get()); }
#ifdef SHUTDOWN
		for (unsigned i = 0; i < late; i++) { pause_(7); if (down) cn->send("late", 4); }
#endif
		cn.reset(); done++; }, nullptr, "sender"));
	// ---- the peer ----
	size_t total = 0; for (auto& s : snd) for (auto& b : s.b) total += b.len; size_t tail_len = 0; for (auto& b : snd[S + 1].b) tail_len += b.len;
	std::vector<uint8_t> in, buf(70000); unsigned sent_pings = 0; bool eof = false, reset = false, torn = false; int64_t last = now_us(); unsigned idle = 0, quiet = 0; (void)quiet;
	for (;;) {
		if (sent_pings < pings && idle >= ping_gap) { if (psend(p, "p", 1) == 1) sent_pings++; else if (errno != EAGAIN) torn = true; /* this took the reset, the next read sees an end */ idle = 0; }
		idle++; const bool all_sent = done.load() == S; ssize_t n = precv(p, buf.data(), rchunk);
		if (n > 0) { in.insert(in.end(), buf.begin(), buf.begin() + n); last = now_us(); if (rdelay) pause_(rdelay); }
		else if (n == 0) { (torn ? reset : eof) = true; break; } else if (errno != EAGAIN) { reset = true; break; }
#ifdef SHUTDOWN
		if ((how == PEER_CLOSE || how == PEER_RESET) && (in.size() >= peer_after || (n < 0 && done.load() == S && sent_pings == pings && ++quiet > 60))) break;
#else
		if (in.size() >= total && sent_pings == pings && all_sent) break;
#endif
		if (n < 0 && sent_pings == pings) {
#ifdef SCHED
#ifdef SHUTDOWN
			if (how == PEER_CLOSE || how == PEER_RESET) { pause_(2); continue; }
#endif
			if (!all_sent) { pause_(3); continue; }
			pollfd f{ p, POLLIN, 0 }; poll(&f, 1, -1);
#else
			pollfd f{ p, POLLIN, 0 }; poll(&f, 1, 1);
			if (now_us() - last > 8000000) { g_faults.write_short = g_faults.write_again = 0; c.soft_fail("the peer got %zu of %zu bytes and no more", in.size(), total); }
#endif
		}
	}
#ifndef SHUTDOWN
	for (auto t : th) sys_api::thread_join(t); th.clear();
	if (eof || reset) bad("the connection ended");
#endif
#ifdef SHUTDOWN
	if (how == PEER_RESET && !eof && !reset) raw_reset(p); else
#endif
	close(p);
	for (auto t : th) sys_api::thread_join(t);
	sys_api::thread_join(lt);
#ifdef SCHED
	uint64_t sw = vsched::switches(); vsched::end();
#endif
	no_faults();
	// ---- the stream ----
	std::vector<size_t> next(S + 2, 0); size_t pos = 0; bool full = false;
	while (pos < in.size()) {
		size_t left = in.size() - pos; if (left < HEAD) break; unsigned s = in[pos], i = in[pos + 1]; size_t len = (size_t)in[pos + 2] << 8 | in[pos + 3];
		if (s >= S + 2 || i >= snd[s].b.size() || snd[s].b[i].len != len) { bad(vh::sfmt("at byte %zu: not the begin of a block (%s)", pos, vh::hex(&in[pos], std::min<size_t>(left, 16)).c_str())); break; }
		auto v = encode(s, i, len); size_t k = std::min(left, len); if (memcmp(&in[pos], v.data(), k)) { size_t d = 0; while (in[pos + d] == v[d]) d++; bad(vh::sfmt("block %u of sender %u is broken at byte %zu of %zu", i, s, d, len)); break; }
		if (i != next[s]) { bad(vh::sfmt("block %u of sender %u arrives, block %zu was expected", i, s, next[s])); break; }
		if (k < len) { pos = in.size(); break; }
		next[s]++; pos += len;
	}
	(void)full;
#ifdef SHUTDOWN
	if (err.empty()) {
		if (closes != 1) bad(vh::sfmt("%u close callbacks", closes.load()));
		bool local = how != PEER_CLOSE && how != PEER_RESET;
		if (local && !shut) bad("harness: no shutdown happened");
		if (local && reset) { if (sent_pings == 0) bad("the peer got a reset instead of an end of stream"); }
		if (local && eof && err.empty()) {
			for (unsigned s = 0; s < S + 2; s++) for (size_t i = next[s]; i < snd[s].b.size(); i++) if (snd[s].b[i].after && snd[s].b[i].after < shut) { bad(vh::sfmt("block %zu of sender %u was sent before the shutdown and did not arrive", i, s)); break; }
			if (pos != in.size()) bad("trailing bytes"); if (err.empty()) { size_t t = 0; for (unsigned s = 0; s < S + 2; s++) for (size_t i = 0; i < next[s]; i++) t += snd[s].b[i].len; if (t != in.size()) bad("a block sent before the end of stream is cut"); }
		}
	}
#else
	if (err.empty()) for (unsigned s = 0; s < S + 2; s++) if (next[s] != snd[s].b.size() && s != S + 1) bad(vh::sfmt("sender %u: %zu of %zu blocks", s, next[s], snd[s].b.size()));
	if (err.empty() && closes != 1) bad(vh::sfmt("%u close callbacks", closes.load()));
#endif
	unsigned active = 0; for (auto& s : snd) if (s.b.size()) active++;
#ifdef SCHED
	c.note("senders=%u bytes=%zu blocks=%zu,%zu,.. faults=%llu completes=%u switches=%llu", active, in.size(), snd[0].b.size(), S > 1 ? snd[1].b.size() : 0, (unsigned long long)g_faults.injected.load(), completes.load(), (unsigned long long)sw);
	if (sw > 8 && active > 1) c.nontrivial();
#else
	c.note("senders=%u bytes=%zu blocks=%zu,%zu,.. faults=%llu completes=%u", active, in.size(), snd[0].b.size(), S > 1 ? snd[1].b.size() : 0, (unsigned long long)g_faults.injected.load(), completes.load());
	if (active > 1) c.nontrivial();
#endif
#ifdef SHUTDOWN
	c.label(how == IN_MESSAGE ? "shutdown in a message callback" : how == IN_COMPLETE ? "shutdown in a send-complete callback" : how == IN_TIMER ? "shutdown from a timer" : how == PEER_CLOSE ? "peer closes" : how == PEER_RESET ? "peer resets" : "shutdown right away");
	if (reset) c.label("reset seen by the peer");
#endif
	if (g_faults.injected) c.label("short writes injected");
	if (!err.empty()) c.fail("%s", err.c_str());
}
int main(int argc, char** argv)
{
#ifdef SHUTDOWN
	vh::property_id = "C15";
	vh::nontrivial_rule = "a connection with 1..4 sending threads besides its callbacks, shut down locally (from message, send-complete or timer callbacks, right away) or by its peer; non-trivial = at least two senders active (>8 context switches under the scheduler)";
#else
	vh::property_id = "C13";
	vh::nontrivial_rule = "1..4 sending threads plus message and send-complete callbacks, injected short writes and EAGAIN; non-trivial = at least two senders active (>8 context switches under the scheduler)";
#endif
	vh::child_init = mute;
	vh::assumptions = { "loopback TCP of this kernel; under the scheduler, interleavings are explored under sequential consistency" };
	return vh::main(argc, argv);
}
