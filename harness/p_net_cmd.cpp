// C19: custom messages to the threads of a server, beside connection traffic.
#include "net.h"
#ifdef SCHED
#include "vsched.h"
static void pause_(unsigned n) { while (n--) vsched::yield(); }
static void breathe() { vsched::yield(); }
static uint64_t self() { return (uint64_t)pthread_self(); }
#else
static void pause_(unsigned n) { if (n > 20) usleep(n); else while (n--) sys_api::thread_yield(); }
static void breathe() { usleep(50); }
static uint64_t self() { return (uint64_t)pthread_self(); }
#endif
enum How { PARTS, PACKET, ARRAY };
struct Msg { int target; uint16_t id; size_t size; int how; unsigned batch; unsigned wait; bool forward; };	// target -1: master; forward: the receiver sends it on once
struct Sender { std::vector<Msg> m; };
static std::vector<char> body(unsigned s, unsigned i, size_t n) { std::vector<char> v(n); Stream st; st.seed = s * 100000 + i; st.fill((uint8_t*)v.data(), 0, n); if (n >= 4) { v[0] = (char)s; v[1] = (char)(i >> 8); v[2] = (char)i; v[3] = 0; } return v; }
static void run_case(vh::Ctx& c)
{
#ifdef SCHED
	unsigned S = (unsigned)c.range(1, 3), K = (unsigned)c.range(1, 2), N = (unsigned)c.range(0, 1), maxm = 6; size_t big = 64;
#else
	unsigned S = (unsigned)c.range(1, 4), K = (unsigned)c.range(1, 4), N = (unsigned)c.range(0, 3), maxm = 60; size_t big = 65000;
#endif
	// sender s < S: a thread of its own; sender S: the on_connected / on_message callbacks of connections are not used (per-thread order would be per callback thread)
	std::vector<Sender> snd(S); unsigned total = 0; bool forwards = c.chance(1, 2);
	for (auto& s : snd) { unsigned k = (unsigned)c.size(1, maxm); for (unsigned i = 0; i < k; i++) { Msg m; m.target = (int)c.below(K + 1) - 1; m.id = (uint16_t)c.pick<unsigned>({ 10, 11, 12, 100, 65535 }); m.size = c.size(4, big, { 1024, 65000 }); m.how = (int)c.below(m.target < 0 ? 2 : 3); m.batch = m.how == ARRAY ? (unsigned)c.range(1, 4) : 1; m.wait = (unsigned)c.size(0, 60); m.forward = forwards && c.chance(1, 4); if (m.how == PARTS && m.target >= 0) m.how = PACKET; s.m.push_back(m); total += m.batch; if (m.batch > 1) { for (unsigned b = 1; b < m.batch; b++) { Msg x = m; x.batch = 0; x.size = c.size(4, big); s.m.push_back(x); i++; } } } }
	total = 0; for (auto& s : snd) total += (unsigned)s.m.size();
	unsigned traffic = (unsigned)c.size(0, 40);
#ifdef SCHED
	vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 5, 20, 60, 200, 1000 }); sp.freeze_den = (unsigned)c.pick({ 0, 2, 4, 8 });
#endif
	std::mutex mx; std::string err; auto bad = [&](std::string s) { std::lock_guard<std::mutex> g(mx); if (err.empty()) err = s; }; auto failed = [&]() { std::lock_guard<std::mutex> g(mx); return !err.empty(); };
	TcpServer server; std::vector<uint64_t> th(K, 0); std::atomic<uint64_t> master(0); std::vector<std::vector<int>> next(S, std::vector<int>(K + 1, -1)); std::vector<std::vector<std::pair<unsigned, unsigned>>> fwd(K + 1);
	std::vector<std::vector<unsigned>> seen(S); for (unsigned s = 0; s < S; s++) seen[s].assign(snd[s].m.size(), 0); std::atomic<unsigned> got(0), fgot(0), fsent(0), echoed(0);
	auto received = [&](int target, Packet* p) {
		uint64_t want = target < 0 ? master.load() : th[(size_t)target]; if (want != self()) bad(vh::sfmt("a message for thread %d is handled on another thread", target));
		size_t n = p->get_packet_size(); uint16_t id = p->get_packet_id(); const char* d = p->get_packet_content(); if (n < 4) return bad("a message without its content");
		unsigned s = (uint8_t)d[0], i = (unsigned)(uint8_t)d[1] << 8 | (uint8_t)d[2]; bool f = d[3] == 1; if (s >= S || i >= snd[s].m.size()) return bad("a message nobody sent"); Msg& m = snd[s].m[i];
		auto v = body(s, i, m.size); if (f) v[3] = 1; if (n != m.size || memcmp(d, v.data(), n)) return bad(vh::sfmt("message %u of sender %u arrived changed (%zu bytes, %zu sent)", i, s, n, m.size)); if (id != m.id) return bad(vh::sfmt("message %u of sender %u arrived with id %u, sent with %u", i, s, id, m.id));
		if (f) { if (target != (m.target + 2) % (int)(K + 1) - 1) bad("a forwarded message reached the wrong thread"); fgot++; return; }
		if (target != m.target) return bad(vh::sfmt("message %u of sender %u for thread %d reached thread %d", i, s, m.target, target));
		if (seen[s][i]++) return bad(vh::sfmt("message %u of sender %u arrived twice", i, s));
		int& nx = next[s][(size_t)(target + 1)]; if ((int)i <= nx) return bad(vh::sfmt("message %u of sender %u arrived after message %d", i, s, nx)); for (int k = nx + 1; k < (int)i; k++) if (snd[s].m[(size_t)k].target == target) return bad(vh::sfmt("message %u of sender %u arrived before message %d", i, s, k)); nx = (int)i;
		if (m.forward) { int t2 = (m.target + 2) % (int)(K + 1) - 1; v[3] = 1; fsent++; if (t2 < 0) server.send_master_message(id, (uint16_t)v.size(), v.data()); else { Packet* q = Packet::alloc_packet(); q->build_from_memory(4, id, (uint16_t)v.size(), v.data()); server.send_work_message(t2, q); Packet::free_packet(q); } }
		got++;
	};
	server.m_listener.on_master_thread_start = [&](TcpServer*, Looper*) { master = self(); };
	server.m_listener.on_work_thread_start = [&](TcpServer*, int32_t i, Looper*) { th[(size_t)i] = self(); };
	server.m_listener.on_master_thread_command = [&](TcpServer* s, Packet* p) { if (s != &server) bad("wrong server"); received(-1, p); };
	server.m_listener.on_work_thread_command = [&](TcpServer* s, int32_t i, Packet* p) { if (s != &server || i < 0 || i >= (int32_t)K) return bad("wrong thread index"); received(i, p); };
	server.m_listener.on_message = [&](TcpServer*, int32_t, TcpConnectionPtr cn) { RingBuf& b = cn->get_input_buf(); std::vector<char> v(b.size()); b.memcpy_out(v.data(), v.size()); cn->send(v.data(), v.size()); };
	std::vector<uint16_t> ports; bool bound = bind_ports(server, 1, true, ports); std::vector<int> fds; for (unsigned i = 0; i < N && bound; i++) fds.push_back(raw_socket(nullptr));
#ifdef SCHED
	vsched::begin(sp);
#endif
	if (!server.start((int32_t)K)) bad("start"); while (!master) breathe();
	if (server.get_work_thread_counts() != (int32_t)K) bad("work thread count");
	std::vector<thread_t> tt; std::atomic<unsigned> done(0);
	for (unsigned s = 0; s < S; s++) tt.push_back(sys_api::thread_create([&, s](void*) {
		auto& v = snd[s].m; for (unsigned i = 0; i < v.size(); i++) {
			Msg& m = v[i]; pause_(m.wait); auto b = body(s, i, m.size);
			if (m.how == PARTS) { server.send_master_message(m.id, (uint16_t)b.size(), b.data()); memset(b.data(), 0xEE, b.size()); continue; }
			std::vector<Packet*> ps; unsigned k = m.how == ARRAY ? m.batch : 1; for (unsigned q = 0; q < k; q++) { auto bb = body(s, i + q, v[i + q].size); Packet* p = Packet::alloc_packet(); p->build_from_memory(q & 1 ? 8 : 4, v[i + q].id, (uint16_t)bb.size(), bb.data()); ps.push_back(p); }
			if (m.target < 0) server.send_master_message(ps[0]); else if (m.how == PACKET) server.send_work_message(m.target, ps[0]); else server.send_work_message(m.target, (const Packet**)ps.data(), (int32_t)k);
			for (auto p : ps) { memset(p->get_packet_content(), 0xEE, p->get_packet_size()); Packet::free_packet(p); } i += k - 1;
		} done++; }, nullptr, "sender"));
	// ---- echo peers ----
	std::vector<size_t> sent(fds.size(), 0), back(fds.size(), 0); std::vector<bool> on(fds.size(), false); Stream st; std::vector<uint8_t> buf(5000);
	auto step = [&]() { for (size_t i = 0; i < fds.size(); i++) { if (!on[i]) { int r = raw_connect(fds[i], ports[0]); if (r != 1) { bad("cannot connect"); return; } on[i] = true; } if (traffic) { traffic--; size_t n = 1 + traffic * 37 % 900; st.seed = i; st.fill(buf.data(), sent[i], n); ssize_t k = psend(fds[i], buf.data(), n); if (k > 0) sent[i] += (size_t)k; } ssize_t k = precv(fds[i], buf.data(), buf.size()); if (k > 0) { st.seed = i; if (st.check(buf.data(), back[i], (size_t)k) >= 0) bad("the echo is wrong"); back[i] += (size_t)k; } else if (k == 0 || errno != EAGAIN) bad("an echo connection ended"); } };
	auto finished = [&]() { if (done < S || got < total || fgot < fsent) return false; if (traffic && !fds.empty()) return false; for (size_t i = 0; i < fds.size(); i++) if (back[i] < sent[i]) return false; return true; };
	int64_t last = now_us(); unsigned lg = 0; while (!finished() && !failed()) { step(); unsigned g = got + fgot; size_t b = 0; for (auto x : back) b += x; g += (unsigned)b; if (g != lg) { lg = g; last = now_us(); } if (now_us() - last > 8000000) c.soft_fail("only %u of %u messages arrived (%u of %u forwarded)", got.load(), total, fgot.load(), fsent.load()); breathe(); }
	for (auto t : tt) sys_api::thread_join(t); for (int f : fds) close(f);
	server.stop(); server.join();
#ifdef SCHED
	uint64_t sw = vsched::switches(); vsched::end();
#endif
	if (got > total) bad("too many messages");
	c.note("senders=%u threads=%u connections=%u messages=%u forwarded=%u", S, K, N, total, fsent.load()); if (fsent) c.label("sent from a callback"); if (N) c.label("beside connections");
#ifdef SCHED
	if (sw > 10 && total > 1) c.nontrivial();
#else
	if (total > 5 && S > 1) c.nontrivial();
#endif
	if (!err.empty()) c.fail("%s", err.c_str());
}
#ifdef SCHED
VH_PROP(message_schedules, 8000, 200000, 60000, true, 0) { run_case(c); }
#else
VH_PROP(message_histories, 3000, 80000, 40000, false, 16) { run_case(c); }
#endif
int main(int argc, char** argv)
{
	vh::property_id = "C19"; vh::child_init = mute;
	vh::nontrivial_rule = "1..4 sending threads, messages of 4..65000 bytes to the master and work threads by all overloads, forwarded from callbacks, beside echoing connections; non-trivial = over 5 messages from several senders (scheduler: several messages and >10 switches)";
	vh::assumptions = { "loopback TCP of this kernel; under the scheduler, interleavings are explored under sequential consistency" };
	return vh::main(argc, argv);
}
