// C32: chat_server and echo_server as child processes, scripted clients in this process.
#include "spawn.h"
#include <sys/ioctl.h>
#include <linux/sockios.h>

static bool start_server(vh::Ctx& c, Child& p, PortLock& port, Scratch& scratch, vh::Rng& pr, const char* dir, const char* target)
{
	if (scratch.dir.empty()) c.soft_fail("no scratch directory"); pr.s ^= (uint64_t)getpid() * 77777; if (!port.take(pr, true)) c.soft_fail("no port");
	if (!p.start(sample_exe(dir, target), { "-p", std::to_string(port.port) }, scratch.dir)) c.soft_fail("fork"); int up = p.wait_listen(port.port, 15000); if (up == 0) c.fail("%s before it listened", p.why().c_str()); if (up < 0) c.soft_fail("%s does not listen after 15 s", target); return true;
}
// ---------------- echo ----------------
struct EClient { unsigned id; Stream st; size_t total = 0, block = 1; bool binary = false, exits = false; int leave = 0; unsigned gap = 0, stall = 0; int rcvbuf = 0; int fd = -1; size_t sent = 0, got = 0; bool eof = false, done = false; int64_t next_at = 0, t0 = 0, read_at = 0; size_t leave_at = 0; int phase = 0;
	uint8_t at(size_t p) const { uint8_t b; st.fill(&b, p, 1); if (binary) return b == 'x' || b == 'X' ? 0 : b; static const char A[] = "abcdefgijklmnopqrstuvwyz ABCDEFGIJKLMNOPQRSTUVWYZ0123456789\r\n.,-"; return (uint8_t)A[b % (sizeof A - 1)]; } };
VH_PROP(echo, 4000, 80000, 90000, false, 16)
{
	unsigned N = (unsigned)c.range(1, 6); std::vector<EClient> cl(N); vh::Rng pr(c.raw()); bool stop = c.chance(1, 3), stop_busy = stop && c.chance(1, 2);
	for (unsigned i = 0; i < N; i++) { EClient& e = cl[i]; e.id = i; e.st.seed = c.raw(); e.total = c.chance(1, 10) ? c.size(60000, c.thorough() ? 2000000 : 400000) : c.size(1, 6000, { 254, 255, 256, 510, 511 }); e.block = c.size(1, 6000, { 254, 255, 256, 4, 8 }); if (e.block < 16) e.total = std::min<size_t>(e.total, 600); e.binary = c.chance(1, 3); e.exits = c.chance(1, 3); e.leave = (int)c.weighted({ 5, 1, 1, 1 }); e.leave_at = (size_t)c.below(e.total + 1); e.gap = (unsigned)c.pick({ 0, 0, 100, 2000 }); if (e.total / e.block > 100) e.gap = 0; e.stall = (unsigned)c.pick({ 0, 0, 5000 }); e.rcvbuf = (int)c.pick({ 0, 0, 4096 }); }
	Scratch scratch; PortLock port; Child p; start_server(c, p, port, scratch, pr, "echo", "echo-server"); int64_t begin = now_us(); std::vector<uint8_t> buf(65536); bool busy = false;
	for (;;) {
		bool all = true; int64_t now = now_us();
		for (auto& e : cl) {
			if (e.done) continue; all = false;
			if (e.phase == 0) { e.fd = raw_socket(nullptr, nullptr, e.rcvbuf); if (e.fd < 0 || raw_connect(e.fd, port.port) != 1) { if (!p.alive()) c.fail("%s", p.why().c_str()); c.fail("a client cannot connect"); } e.phase = 1; e.t0 = now; e.read_at = now + e.stall; }
			if (e.phase == 1 && e.sent < e.total && now >= e.next_at) { size_t n = std::min(e.block, e.total - e.sent); for (size_t k = 0; k < n; k++) buf[k] = e.at(e.sent + k); ssize_t k = psend(e.fd, buf.data(), n); if (k > 0) { e.sent += (size_t)k; e.t0 = now; e.next_at = now + e.gap; } else if (k < 0 && errno != EAGAIN && !busy) c.fail("client %u: send: %s", e.id, strerror(errno)); }
			if (now >= e.read_at && !e.eof) { ssize_t k = precv(e.fd, buf.data(), 5000); if (k > 0) { e.t0 = now; for (ssize_t i = 0; i < k; i++) { if (e.got + (size_t)i >= e.sent) c.fail("client %u got %zu bytes for %zu sent", e.id, e.got + (size_t)k, e.sent); uint8_t want = (uint8_t)toupper(e.at(e.got + (size_t)i)); if (buf[(size_t)i] != want) c.fail("client %u: byte %zu of the echo is 0x%02x, expected 0x%02x", e.id, e.got + (size_t)i, buf[(size_t)i], want); } e.got += (size_t)k; } else if (raw_eof(k)) { e.eof = true; if (!busy && !(e.phase == 2)) c.fail("client %u was closed after %zu of %zu bytes", e.id, e.got, e.total); } }
			if (e.phase == 1 && e.leave && e.sent >= e.leave_at && (e.leave != 3 || e.got >= e.leave_at)) { if (e.leave == 1) raw_reset(e.fd); else close(e.fd); e.fd = -1; e.done = true; continue; }
			if (e.phase == 1 && e.got == e.total) { if (e.exits) { psend(e.fd, "exit", 4); e.phase = 2; e.t0 = now; } else { close(e.fd); e.fd = -1; e.done = true; continue; } }
			if (e.eof && (e.phase == 2 || busy)) { close(e.fd); e.fd = -1; e.done = true; continue; }
			if (now - e.t0 > 8000000) { if (!p.alive()) c.fail("%s", p.why().c_str()); if (e.phase == 2) c.soft_fail("client %u said exit and is still connected", e.id); c.soft_fail("client %u got %zu of %zu bytes back and no more", e.id, e.got, e.sent); }
		}
		if (!busy && !p.alive()) c.fail("the server ended: %s", p.why().c_str());
		if (stop_busy && !busy && now - begin > 2000 && !all) { int f = raw_socket(nullptr); if (raw_connect(f, port.port) == 1) { psend(f, "shutdown", 8); busy = true; } usleep(100); close(f); }
		if (all) break; usleep(20);
	}
	if (!busy && !p.alive()) c.fail("the server ended: %s", p.why().c_str());
	if (stop && !busy) { int f = raw_socket(nullptr); if (raw_connect(f, port.port) != 1) c.fail("cannot connect at the end"); psend(f, "shutdown", 8); char b; int64_t t = now_us(); for (;;) { ssize_t k = precv(f, &b, 1); if (k > 0) c.fail("shutdown was echoed"); if (raw_eof(k)) break; if (now_us() - t > 8000000) c.soft_fail("the server does not stop on request"); usleep(50); } close(f); busy = true; }
	if (busy) { int64_t t = now_us(); while (p.alive()) { if (now_us() - t > 10000000) c.soft_fail("the server process does not end after shutdown"); usleep(200); } if (!WIFEXITED(p.status) || WEXITSTATUS(p.status)) c.fail("after shutdown: %s", p.why().c_str()); c.label("shutdown on request"); }
	size_t echoed = 0; unsigned bin = 0; for (auto& e : cl) { echoed += e.got; bin += e.binary; if (e.leave) c.label("a client leaves early"); if (e.exits && !e.leave) c.label("exit command"); if (e.block > 255) c.label("pieces above 255 bytes"); if (e.binary) c.label("binary content"); }
	c.note("clients=%u echoed=%zu binary=%u stop=%d", N, echoed, bin, stop ? (stop_busy ? 2 : 1) : 0); if (N >= 2 && echoed > 300) c.nontrivial();
}
// ---------------- chat ----------------
struct Msg { uint8_t magic[8]; uint32_t from, seq, len, sum; };
static std::vector<uint8_t> frame(const std::vector<uint8_t>& body, unsigned id) { std::vector<uint8_t> v = { (uint8_t)(body.size() >> 8), (uint8_t)body.size(), (uint8_t)(id >> 8), (uint8_t)id }; v.insert(v.end(), body.begin(), body.end()); return v; }
struct CClient { unsigned id = 0; int fd = -1; uint8_t magic[8]; std::vector<uint8_t> out, in; size_t off = 0; uint32_t seq = 0, planned = 0; size_t maxlen = 0; std::map<uint32_t, uint32_t> next; bool late = false, ready = false, leaves = false, gone = false, eof = false; uint32_t leave_after = 0; int64_t t0 = 0, read_at = 0, send_at = 0; unsigned gap = 0, stall = 0; int rcvbuf = 0; Stream st; size_t cut = 1; unsigned msgs = 0; };
VH_PROP(chat, 4000, 80000, 90000, false, 16)
{
	unsigned N = (unsigned)c.range(1, 5), L = (unsigned)c.below(3), B = c.chance(1, 2) ? (unsigned)c.range(1, 3) : 0; vh::Rng rng(c.raw()), pr(rng.next()); std::vector<CClient> cl(N + L); uint8_t magic[8]; for (auto& x : magic) x = (uint8_t)rng.next();
	for (unsigned i = 0; i < N + L; i++) { CClient& e = cl[i]; e.id = i; e.st.seed = c.raw(); e.late = i >= N; e.planned = (uint32_t)c.size(0, 40); e.maxlen = c.size(0, 65535 - sizeof(Msg), { 0, 231, 65535 - sizeof(Msg) }); if (e.maxlen > 4000) e.planned = std::min<uint32_t>(e.planned, 8); e.cut = c.size(1, 100000, { 3, 4, 5 }); if (e.cut < 100) { e.maxlen = std::min<size_t>(e.maxlen, 300); } e.leaves = i != 0 && c.chance(1, 4); e.leave_after = (uint32_t)c.below(e.planned + 1); e.gap = (unsigned)c.pick({ 0, 0, 100, 1000 }); e.stall = (unsigned)c.pick({ 0, 0, 0, 20000 }); e.rcvbuf = (int)c.pick({ 0, 0, 4096 }); if (e.cut < 16) e.gap = 0; }
	std::vector<std::vector<uint8_t>> junk; for (unsigned i = 0; i < B; i++) { auto b = c.blob(c.size(1, 20000)); if (c.chance(1, 2)) { for (size_t k = 0; k < b.size(); k += 64) { b[k] = 0; } } junk.push_back(b); }
	Scratch scratch; PortLock port; Child p; start_server(c, p, port, scratch, pr, "chat", "chat-server"); std::vector<uint8_t> buf(65536); int64_t begin = now_us(); std::vector<int> bad; size_t nextbad = 0; size_t delivered = 0, noise = 0; bool senders_go = false;
	auto compose = [&](CClient& e) { uint32_t len = e.seq ? (uint32_t)(e.maxlen ? rng.below(e.maxlen + 1) : 0) : 0; std::vector<uint8_t> b(sizeof(Msg) + len); Msg m; memcpy(m.magic, magic, 8); m.from = e.id; m.seq = e.seq; m.len = len; m.sum = (uint32_t)Stream::mix(e.st.seed + e.seq); memcpy(b.data(), &m, sizeof m); Stream s; s.seed = e.st.seed ^ (e.seq * 1000003ull); s.fill(b.data() + sizeof m, 0, len); auto f = frame(b, 77 + e.id); e.out.insert(e.out.end(), f.begin(), f.end()); e.seq++; };
	auto handle = [&](CClient& e) {
		size_t at = 0; while (e.in.size() - at >= 4) {
			size_t n = (size_t)e.in[at] << 8 | e.in[at + 1]; if (e.in.size() - at - 4 < n) break; const uint8_t* b = &e.in[at + 4]; unsigned id = (unsigned)e.in[at + 2] << 8 | e.in[at + 3]; Msg m;
			if (n >= sizeof m && (memcpy(&m, b, sizeof m), !memcmp(m.magic, magic, 8))) {
				if (m.from >= cl.size() || id != 77 + m.from || m.len + sizeof m != n || m.sum != (uint32_t)Stream::mix(cl[m.from].st.seed + m.seq)) c.fail("client %u received a damaged message", e.id); Stream s; s.seed = cl[m.from].st.seed ^ (m.seq * 1000003ull); if (s.check(b + sizeof m, 0, m.len) >= 0) c.fail("client %u received a message of client %u with changed content", e.id, m.from);
				auto it = e.next.find(m.from); bool sure = m.from == e.id || (!e.late && cl[m.from].late); uint32_t want = it != e.next.end() ? it->second : sure ? 0 : !e.late ? std::min<uint32_t>(m.seq, 1) : m.seq; if (m.seq != want) c.fail("client %u received message %u of client %u after message %u", e.id, m.seq, m.from, want ? want - 1 : 0); if (m.seq >= cl[m.from].seq) c.fail("a message nobody sent"); e.next[m.from] = m.seq + 1; delivered++; e.msgs++;
				if (m.from == e.id && m.seq == 0) { e.ready = true; }
			} else { noise++; if (!B) c.fail("client %u received a packet nobody sent (%zu bytes, id %u)", e.id, n, id); }
			at += 4 + n; }
		e.in.erase(e.in.begin(), e.in.begin() + (long)at);
	};
	for (;;) {
		int64_t now = now_us(); bool all = true; unsigned ready = 0, early = 0; for (auto& e : cl) if (!e.late) { early++; if (e.ready || e.gone) ready++; } if (ready == early && !senders_go) { senders_go = true; begin = now; }
		for (auto& e : cl) {
			if (e.gone) continue;
			if (e.fd < 0) { if (e.late && (!senders_go || now - begin < 300 * (int64_t)(e.id + 1))) { all = false; continue; } e.fd = raw_socket(nullptr, nullptr, e.rcvbuf); if (e.fd < 0 || raw_connect(e.fd, port.port) != 1) { if (!p.alive()) c.fail("%s", p.why().c_str()); c.fail("a client cannot connect"); } compose(e); e.t0 = now; e.read_at = now; }
			if (e.off == e.out.size() && e.seq <= e.planned && senders_go && e.ready && now >= e.send_at) { e.out.clear(); e.off = 0; if (e.seq == 1 && e.stall) e.read_at = now + e.stall; compose(e); e.send_at = now + e.gap; }
			if (e.off < e.out.size()) { size_t n = std::min(e.out.size() - e.off, e.cut < 100 ? 1 + rng.below(e.cut) : e.cut); ssize_t k = psend(e.fd, &e.out[e.off], n); if (k > 0) { e.off += (size_t)k; e.t0 = now; } else if (k < 0 && errno != EAGAIN) { if (!p.alive()) c.fail("the server ended: %s", p.why().c_str()); c.fail("client %u: send: %s", e.id, strerror(errno)); } }
			if (now >= e.read_at) { ssize_t k = precv(e.fd, buf.data(), 30000); if (k > 0) { e.t0 = now; e.in.insert(e.in.end(), buf.data(), buf.data() + k); handle(e); } else if (raw_eof(k)) { if (!p.alive()) c.fail("the server ended: %s", p.why().c_str()); c.fail("client %u was closed by the server", e.id); } }
			if (e.leaves && e.seq > e.leave_after && e.ready) { if (rng.below(2)) raw_reset(e.fd); else close(e.fd); e.fd = -1; e.gone = true; continue; }
			bool fin = e.seq > e.planned && e.off == e.out.size() && e.ready; for (auto& o : cl) if (!o.gone && !o.leaves && o.fd >= 0) { if (!(o.seq > o.planned && o.off == o.out.size())) fin = false; auto it = e.next.find(o.id); bool sure = o.id == e.id || (!e.late && (o.late || o.seq > 1)); /* a first message may precede the connection of the others */ if (it == e.next.end() ? sure : it->second != o.seq) fin = false; }
			if (!fin) { all = false; if (now - e.t0 > 8000000) { if (!p.alive()) c.fail("%s", p.why().c_str()); std::string s; for (auto& o : cl) s += vh::sfmt(" %u:%d/%u%s", o.id, e.next.count(o.id) ? (int)e.next[o.id] : -1, o.seq, o.gone ? "(left)" : ""); for (auto& o : cl) if (o.fd >= 0) { int q = 0, w = 0; ioctl(o.fd, FIONREAD, &q); ioctl(o.fd, SIOCOUTQ, &w); s += vh::sfmt("; %u%s: unsent %zu, unacked %d, unread %d, partial %zu", o.id, o.ready ? "" : " not ready", o.out.size() - o.off, w, q, o.in.size()); } c.soft_fail("client %u%s waits for messages (received/sent by each client:%s)", e.id, e.late ? " (late)" : "", s.c_str()); } }
		}
		if (nextbad < junk.size() && now - begin > 200 * (int64_t)nextbad && senders_go) { int f = raw_socket(nullptr); if (raw_connect(f, port.port) == 1) { psend(f, junk[nextbad].data(), junk[nextbad].size()); if (rng.below(3) == 0) raw_reset(f); else bad.push_back(f); } nextbad++; }
		if (nextbad < junk.size()) all = false; for (size_t i = 0; i < bad.size();) { if (rng.below(400) == 0) { if (rng.below(2)) raw_reset(bad[i]); else close(bad[i]); bad.erase(bad.begin() + (long)i); } else i++; }
		if (!p.alive()) c.fail("the server ended: %s", p.why().c_str()); if (all) break; usleep(20);
	}
	for (auto& e : cl) if (e.fd >= 0) close(e.fd); for (int f : bad) close(f); usleep(1000); if (!p.alive()) c.fail("the server ended: %s", p.why().c_str());
	if (B) c.label("malformed input"); if (L) c.label("late clients"); for (auto& e : cl) { if (e.leaves) c.label("a client leaves"); if (e.rcvbuf && e.stall) c.label("a slow reader"); if (e.cut < 100) c.label("packets in pieces"); }
	c.note("clients=%u late=%u malformed=%u delivered=%zu other packets=%zu", N, L, B, delivered, noise); if (N + L >= 2 && delivered > 10) c.nontrivial();
}
int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN); vh::property_id = "C32"; vh::child_init = mute;
	vh::nontrivial_rule = "echo: 1-6 clients with generated text or binary content, piece sizes, exits and departures; chat: 1-5 clients plus late ones, leavers and malformed input; non-trivial = at least two clients and more than 300 echoed bytes / 10 delivered messages";
	vh::assumptions = { "loopback TCP of this kernel", "echo commands (exit, shutdown) are sent on their own; other text contains no x" };
	return vh::main(argc, argv);
}
