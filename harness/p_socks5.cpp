// C29: the SOCKS5 sample as a child process; scripted clients and targets in this process.
#include "spawn.h"
enum Kind { NORMAL, REFUSED, IMMEDIATE, MALFORMED, TRUNCATED, STUCK, KINDS };
enum End { HALF_CLIENT, CLOSE_CLIENT, HALF_TARGET, CLOSE_TARGET, RESET_CLIENT, RESET_TARGET, ANYTIME_CLIENT, ANYTIME_TARGET, ENDS };
struct Sess
{
	unsigned id = 0; int kind = NORMAL, end = 0; bool weak = false, lenient = false, domain = false; std::vector<uint8_t> hs, rq; std::vector<size_t> hcut, rcut; unsigned gap = 0; size_t up_n = 0, down_n = 0, block = 1; unsigned stall_c = 0, stall_t = 0; size_t any_at = 0; int rcvbuf = 0; unsigned delay = 0; bool rst = false;
	int c = -1, t = -1, l = -1; uint16_t tport = 0; Stream up, down; int phase = 0; size_t pos = 0, chunk = 0; int64_t next_at = 0; std::vector<uint8_t> in; size_t up_sent = 0, up_got = 0, down_sent = 0, down_got = 0; bool c_eof = false, t_eof = false, ended = false, accepted = false; int64_t t0 = 0, c_read_at = 0, t_read_at = 0; const char* err = nullptr; std::string errs;
	void fail(const std::string& s) { if (errs.empty()) errs = vh::sfmt("session %u: ", id) + s; phase = 99; }
};
static std::vector<size_t> cuts(vh::Ctx& c, size_t n) { std::vector<size_t> v; int how = (int)c.weighted({ 4, 3, 2 }); if (how == 0 || n < 2) { v.push_back(n); return v; } if (how == 2) { for (size_t i = 1; i <= n; i++) v.push_back(i); return v; } unsigned k = (unsigned)c.range(1, 4); std::set<size_t> s; for (unsigned i = 0; i < k; i++) s.insert((size_t)c.range(1, (int64_t)n - 1)); s.insert(n); for (size_t x : s) v.push_back(x); return v; }
VH_PROP(socks5, 6000, 200000, 90000, false, 16)
{
	unsigned T = (unsigned)c.range(1, 3), N = (unsigned)c.range(1, 6); vh::Rng rng(c.raw()); std::vector<Sess> ss(N + 1); std::vector<int> fillers;
	for (unsigned i = 0; i <= N; i++) {
		Sess& s = ss[i]; s.id = i; s.up.seed = c.raw(); s.down.seed = c.raw(); s.kind = i == 0 ? (int)NORMAL : (int)c.weighted({ 10, 2, 1, 4, 2, 1 }); s.end = (int)c.below(ENDS); s.gap = (unsigned)c.pick({ 0, 0, 200, 1500 }); s.delay = i == 0 ? 0 : (unsigned)c.pick({ 0, 0, 500, 3000 });
		size_t big = c.thorough() ? 8000000 : 2000000; s.up_n = c.chance(1, 8) ? c.size(100000, big) : c.size(0, 60000, { 1, 4096, 65536 }); s.down_n = c.chance(1, 8) ? c.size(100000, big) : c.size(0, 60000, { 1, 4096, 65536 }); s.block = c.size(1, 100000, { 1024, 4096, 65536 }); if (s.block < 100) { s.up_n = std::min<size_t>(s.up_n, 3000); s.down_n = std::min<size_t>(s.down_n, 3000); }
		s.stall_c = (unsigned)c.pick({ 0, 0, 0, 3000, 20000 }); s.stall_t = (unsigned)c.pick({ 0, 0, 0, 3000, 20000 }); s.rcvbuf = (int)c.pick({ 0, 0, 4096 }); s.any_at = (size_t)c.below(s.up_n + s.down_n + 1); s.rst = c.chance(1, 2);
		if (i == 0) { s.end = HALF_CLIENT; s.up_n = s.down_n = 3000; s.stall_c = s.stall_t = 0; s.block = 700; }
		s.domain = c.chance(1, 3); bool local = s.domain && s.kind != IMMEDIATE && c.chance(1, 2); std::string ip = local ? "127.0.0.1" : my_ip();
		if (s.kind == STUCK) { s.l = raw_listen(&s.tport, ip.c_str(), 0); for (int k = 0; k < 3 && s.l >= 0; k++) { int f = raw_socket(nullptr); raw_connect(f, s.tport, ip.c_str(), 1); fillers.push_back(f); } }	// fills the backlog
		else if (s.kind == REFUSED) { int f = raw_socket(&s.tport, ip.c_str()); s.l = f; /* bound, not listening: refused */ }
		else { s.l = raw_listen(&s.tport, ip.c_str(), 8, s.rcvbuf); }
		if (s.l < 0) c.soft_fail("no listener");
		// handshake: version, methods (no-auth somewhere)
		unsigned nm = (unsigned)c.pick({ 1, 1, 2, 3, 255 }); s.hs = { 5, (uint8_t)nm }; unsigned at = (unsigned)c.below(nm); for (unsigned k = 0; k < nm; k++) s.hs.push_back(k == at ? 0 : (uint8_t)(1 + c.below(2) * 0x7f + k % 100));
		// request
		s.rq = { 5, 1, 0, (uint8_t)(s.domain ? 3 : 1) }; if (s.kind == IMMEDIATE) ip = "224.0.0.5";
		if (s.domain) { std::string d = local ? (c.chance(1, 2) ? "localhost" : c.chance(1, 2) ? "127.0.0.1" : std::string(c.size(0, 245, { 117, 118, 245 }), '0') + "177.0.0.1") : ip; if (d[0] == '0' || d == "177.0.0.1") { if (d[0] != '0') d = "0" + d; c.label("long name"); } s.rq.push_back((uint8_t)d.size()); s.rq.insert(s.rq.end(), d.begin(), d.end()); }
		else { sockaddr_in a = lo_addr(ip.c_str(), 0); uint8_t* b = (uint8_t*)&a.sin_addr; s.rq.insert(s.rq.end(), b, b + 4); }
		s.rq.push_back((uint8_t)(s.tport >> 8)); s.rq.push_back((uint8_t)s.tport);
		if (s.kind == MALFORMED) {	// every variant must end this connection; nothing may reach the target
			switch (c.below(9)) {
			case 0: s.hs[0] = (uint8_t)c.pick({ 4, 0, 6, 0x47, 255 }); break;
			case 1: for (size_t k = 2; k < s.hs.size(); k++) if (!s.hs[k]) s.hs[k] = 2; break;
			case 2: s.rq[0] = (uint8_t)c.pick({ 4, 0, 6, 255 }); break;
			case 3: s.rq[1] = (uint8_t)c.pick({ 2, 3, 0, 9, 255 }); break;
			case 4: s.rq[3] = (uint8_t)c.pick({ 4, 0, 2, 5, 255, 0x83 }); while (s.rq.size() < 22) s.rq.push_back(0); break;
			case 5: { unsigned n = (unsigned)c.size(64, 255, { 127, 128, 255 }); s.rq = { 5, 1, 0, 3, (uint8_t)n }; for (unsigned k = 0; k < n; k++) s.rq.push_back('a'); s.rq.push_back(0); s.rq.push_back(80); break; }	// a label over 63 bytes is no name
			case 6: s.hs = { 5, 0, 0, 0, 0 }; break;
			case 7: { size_t n = c.size(5, 4000); s.hs = c.blob(n); if (s.hs[0] == 5) s.hs[0] = 7; break; }
			case 8: { s.rq = c.blob(c.size(6, 3000)); if (s.rq[0] == 5) s.rq[1] = 2; break; }
			}
		}
		if (s.kind == TRUNCATED) { s.rst = c.chance(1, 2); if (c.chance(1, 2)) { s.hs.resize((size_t)c.below(s.hs.size())); s.rq.clear(); } else s.rq.resize((size_t)c.below(s.rq.size())); }
		s.hcut = cuts(c, s.hs.size()); s.rcut = cuts(c, s.rq.size()); if (s.hs.size() > 40 && s.hcut.size() > 40) { s.hcut.clear(); s.hcut.push_back(s.hs.size()); } if (s.rcut.size() > 40) { s.rcut.clear(); s.rcut.push_back(s.rq.size()); }
		s.weak = s.end >= RESET_CLIENT;
	}
	vh::Rng pr(rng.next()); Scratch scratch; if (scratch.dir.empty()) c.soft_fail("no scratch directory"); PortLock port; pr.s ^= (uint64_t)getpid() * 77777; if (!port.take(pr)) c.soft_fail("no port");
	Child p; if (!p.start(sample_exe("socks5", "socks5"), { "-p", std::to_string(port.port), "-t", std::to_string(T) }, scratch.dir)) c.soft_fail("fork");
	int up = p.wait_listen(port.port, 15000); if (up == 0) c.fail("%s before it listened", p.why().c_str()); if (up < 0) c.soft_fail("the proxy does not listen after 15 s");
	{ int f = raw_socket(nullptr); raw_connect(f, port.port); raw_reset(f); usleep(2000); }
	unsigned fds0 = 0; { int64_t t = now_us(); while (now_us() - t < 3000) { fds0 = p.fds(); usleep(500); } }
	std::vector<uint8_t> buf(131072); int64_t begin = now_us(); unsigned strong = 0;
	auto chunks = [&](Sess& s, const std::vector<uint8_t>& m, const std::vector<size_t>& cut) -> bool {	// true once all is sent
		if (s.chunk >= cut.size() || m.empty()) return true; if (now_us() < s.next_at) return false;
		size_t to = cut[s.chunk]; ssize_t k = psend(s.c, m.data() + s.pos, to - s.pos); if (k < 0 && errno != EAGAIN) { s.pos = m.size(); s.chunk = cut.size(); return true; } if (k > 0) s.pos += (size_t)k; if (s.pos == to) { s.chunk++; s.next_at = now_us() + s.gap; } return s.chunk >= cut.size();
	};
	auto slurp = [&](Sess& s) { while (!s.c_eof) { ssize_t k = precv(s.c, buf.data(), 512); if (k > 0) s.in.insert(s.in.end(), buf.data(), buf.data() + k); else { if (raw_eof(k)) s.c_eof = true; break; } } };
	auto end_client = [&](Sess& s, bool rst) { if (s.c < 0) return; if (rst) raw_reset(s.c); else close(s.c); s.c = -1; };
	auto tick = [&](Sess& s, bool finish) {
		int64_t now = now_us();
		switch (s.phase) {
		case 0:
			if (now - begin < s.delay) return;
			s.c = raw_socket(nullptr, nullptr, s.rcvbuf); if (s.c < 0 || raw_connect(s.c, port.port) != 1) { s.fail("a client cannot connect to the proxy"); return; } s.phase = 1; s.t0 = now; return;
		case 1: if (!chunks(s, s.hs, s.hcut)) { slurp(s); if (s.kind != MALFORMED && !s.in.empty()) s.fail(vh::sfmt("%zu bytes came back before the handshake was complete", s.in.size())); else if (s.kind != MALFORMED && s.c_eof) s.fail("closed in the middle of a valid handshake"); return; }
			if (s.kind == TRUNCATED && s.rq.empty() && s.hs.size() < 2 + (s.hs.size() > 1 ? (size_t)s.hs[1] : 0)) { usleep(200); end_client(s, s.rst); s.phase = 50; return; }
			s.chunk = s.pos = 0; s.phase = 2; s.t0 = now; return;
		case 2: slurp(s);
			if (s.kind == TRUNCATED && s.rq.empty() && s.hs.size() < 3) { end_client(s, s.rst); s.phase = 50; return; }
			if (s.in.size() >= 2 || s.c_eof) {
				if (s.kind == MALFORMED && s.c_eof) { if (!s.in.empty() && !(s.in.size() == 2 && s.in[0] == 5)) s.fail("a malformed handshake was answered with " + vh::hex(s.in.data(), s.in.size())); s.phase = s.phase == 99 ? 99 : 50; return; }
				if (s.c_eof) { s.fail("closed after a valid handshake"); return; } if (s.in[0] != 5 || (s.in[1] != 0 && s.kind != MALFORMED) || s.in.size() > 2) { s.fail("handshake answered with " + vh::hex(s.in.data(), s.in.size())); return; }
				if (s.in[1] == 0) { s.in.clear(); s.phase = 3; s.t0 = now; }
			} break;
		case 3: if (!chunks(s, s.rq, s.rcut)) { slurp(s); if (s.kind != MALFORMED && !s.in.empty()) s.fail("bytes came back before the request was complete"); else if (s.kind != MALFORMED && s.c_eof) s.fail("closed in the middle of a valid request"); return; }
			if (s.kind == TRUNCATED) { end_client(s, s.rst); s.phase = 50; return; }
			if (s.kind == STUCK) { s.phase = 10; s.t0 = now; return; }
			s.phase = 4; s.t0 = now; return;
		case 10: if (now - s.t0 > (int64_t)s.any_at % 5000) { end_client(s, s.rst); s.phase = 50; } return;	// gives up while the proxy is connecting
		case 4: {
			slurp(s);
			if (s.kind == NORMAL && s.t < 0) { s.t = raw_accept(s.l); if (s.t >= 0) s.accepted = true; }
			if (s.kind == MALFORMED) { if (s.c_eof) { if (s.in.size() >= 2 && s.in[1] == 0) s.fail("a malformed request got a success reply"); else s.phase = 50; } break; }
			if (s.kind == REFUSED || s.kind == IMMEDIATE) { if (s.c_eof) { if (s.in.size() != 10 || s.in[0] != 5 || s.in[1] == 0 || s.in[2] != 0 || s.in[3] != 1) s.fail("an unreachable target was answered with '" + vh::hex(s.in.data(), s.in.size()) + "'"); else s.phase = 50; } break; }
			if (s.in.size() > 10) { s.fail("more than the reply came back"); return; }
			if (s.in.size() == 10) { if (s.in[0] != 5 || s.in[1] != 0 || s.in[2] != 0 || s.in[3] != 1) { s.fail("success reply is " + vh::hex(s.in.data(), 10)); return; } if (s.c_eof) { s.fail("closed after a success reply"); return; } if (s.t >= 0) { s.phase = 5; s.t0 = now; s.c_read_at = now + s.stall_c; s.t_read_at = now + s.stall_t; } }
			else if (s.c_eof) { s.fail(vh::sfmt("closed with %zu reply bytes for a target that listens", s.in.size())); return; }
			break; }
		case 5: case 6: {
			auto pump_out = [&](int fd, const Stream& st, size_t& sent, size_t total) { if (fd < 0 || sent >= total) return; size_t n = std::min({ s.block, total - sent, buf.size() }); st.fill(buf.data(), sent, n); ssize_t k = psend(fd, buf.data(), n); if (k > 0) { sent += (size_t)k; s.t0 = now; } };
			auto pump_in = [&](int fd, const Stream& st, size_t& got, size_t sent, bool& eof, const char* who) { if (fd < 0 || eof) return; ssize_t k = precv(fd, buf.data(), std::min(buf.size(), s.block * 2)); if (k > 0) { s.t0 = now; if (got + (size_t)k > sent) { s.fail(vh::sfmt("%s received %zu bytes, only %zu were sent", who, got + (size_t)k, sent)); return; } long w = st.check(buf.data(), got, (size_t)k); if (w >= 0) { s.fail(vh::sfmt("%s received a wrong byte at %zu", who, got + (size_t)w)); return; } got += (size_t)k; } else if (raw_eof(k)) { eof = true; s.t0 = now; } };
			if (s.phase == 5) { pump_out(s.c, s.up, s.up_sent, s.up_n); pump_out(s.t, s.down, s.down_sent, s.down_n); }
			if (now >= s.c_read_at) pump_in(s.c, s.down, s.down_got, s.down_sent, s.c_eof, "the client"); if (s.phase == 99) return; if (now >= s.t_read_at) pump_in(s.t, s.up, s.up_got, s.up_sent, s.t_eof, "the target"); if (s.phase == 99) return;
			if (s.phase == 5) {
				if (s.c_eof || s.t_eof) { s.fail(vh::sfmt("the %s was closed though nobody closed (%zu of %zu up, %zu of %zu down)", s.c_eof ? "client" : "target", s.up_got, s.up_n, s.down_got, s.down_n)); return; }
				bool all_up = s.up_sent == s.up_n, all_down = s.down_sent == s.down_n, got_up = all_up && s.up_got == s.up_n, got_down = all_down && s.down_got == s.down_n, any = s.up_got + s.down_got >= s.any_at; bool go = false;
				switch (s.end) { case HALF_CLIENT: case CLOSE_CLIENT: go = all_up && got_down; break; case HALF_TARGET: case CLOSE_TARGET: go = all_down && got_up; break; default: go = any; break; }
				if (s.id == 0 && !finish) go = false;
				if (go) {
					s.phase = 6; s.t0 = now;
					switch (s.end) {
					case HALF_CLIENT: shutdown(s.c, SHUT_WR); break; case CLOSE_CLIENT: end_client(s, false); break; case HALF_TARGET: shutdown(s.t, SHUT_WR); break; case CLOSE_TARGET: close(s.t); s.t = -1; break;
					case RESET_CLIENT: end_client(s, true); break; case RESET_TARGET: raw_reset(s.t); s.t = -1; break; case ANYTIME_CLIENT: if (s.rst) end_client(s, false); else shutdown(s.c, SHUT_WR); break; case ANYTIME_TARGET: if (s.rst) { close(s.t); s.t = -1; } else shutdown(s.t, SHUT_WR); break;
					}
				} else if (s.id == 0 && got_up && got_down) s.t0 = now;
			} else if ((s.c < 0 || s.c_eof) && (s.t < 0 || s.t_eof)) {
				if (!s.weak) { strong++; bool fromclient = s.end == HALF_CLIENT || s.end == CLOSE_CLIENT; size_t got = fromclient ? s.up_got : s.down_got, want = fromclient ? s.up_n : s.down_n; if (got != want) { s.fail(vh::sfmt("the %s received %zu of the %zu bytes sent before the other side closed", fromclient ? "target" : "client", got, want)); return; } }
				s.phase = 50;
			}
			break; }
		}
		if (s.phase < 50 && now - s.t0 > 10000000) { static const char* const N[] = { "connect", "handshake", "handshake answer", "request", "reply", "traffic", "the other side to be closed" }; s.errs = "!" + vh::sfmt("session %u (kind %d end %d): waited 10 s for %s (%zu/%zu up, %zu/%zu down, client %s target %s)", s.id, s.kind, s.end, N[std::min(s.phase, 6)], s.up_got, s.up_n, s.down_got, s.down_n, s.c_eof ? "ended" : "open", s.t_eof ? "ended" : "open"); s.phase = 99; }
	};
	for (;;) {
		bool all = true, others = true; for (unsigned i = 1; i <= N; i++) if (ss[i].phase != 50) others = false;
		for (auto& s : ss) { if (s.phase != 50) { all = false; tick(s, others); if (s.phase == 50 && s.t < 0 && s.kind != STUCK && !s.accepted) { int x = raw_accept(s.l); if (x >= 0 && s.kind != NORMAL && s.kind != REFUSED && s.kind != TRUNCATED) s.fail("the target was contacted for an invalid request"); if (x >= 0) close(x); } } if (s.phase == 99) { if (!p.alive()) break; if (s.errs[0] == '!') c.soft_fail("%s", s.errs.c_str() + 1); c.fail("%s", s.errs.c_str()); } }
		if (!p.alive()) c.fail("the proxy ended: %s", p.why().c_str()); if (all) break; usleep(20);
	}
	for (int f : fillers) close(f);
	for (auto& s : ss) { if (s.c >= 0) close(s.c); if (s.t >= 0) close(s.t); if (s.l >= 0) close(s.l); }
	// nothing is left behind
	{ int64_t t = now_us(); unsigned n; while ((n = p.fds()) > fds0 + 1) { if (!p.alive()) break; if (now_us() - t > 10000000) c.soft_fail("the proxy holds %u descriptors after all sessions ended, %u before", n, fds0); usleep(500); } }
	if (!p.alive()) c.fail("the proxy ended: %s", p.why().c_str());
	unsigned normal = 0; size_t bytes = 0; for (auto& s : ss) { if (s.kind == NORMAL) { normal++; bytes += s.up_got + s.down_got; } static const char* const L[] = { "", "refused target", "immediate connect failure", "malformed", "truncated", "client leaves while connecting" }; if (s.kind) c.label(L[s.kind]); else if (s.id) { static const char* const E[] = { "client half-closes", "client closes", "target half-closes", "target closes", "client resets", "target resets", "client leaves any time", "target leaves any time" }; c.label(E[s.end]); } if (s.hcut.size() + s.rcut.size() > 2) c.label("request in pieces"); if (s.domain) c.label("domain name"); }
	c.note("threads=%u sessions=%u relayed=%u bytes=%zu complete=%u", T, N + 1, normal, bytes, strong); if (N >= 2 && bytes > 6000) c.nontrivial();
}
int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN); vh::property_id = "C29"; vh::child_init = mute;
	vh::nontrivial_rule = "1-6 generated sessions (valid, refused, malformed, truncated, abandoned while connecting) plus one witness session through a socks5 process of its own; non-trivial = at least three sessions and more than the witness's bytes relayed";
	vh::assumptions = { "loopback TCP of this kernel", "clients wait for each reply before sending on (RFC 1928)", "names resolve without a name server (localhost, literals)" };
	return vh::main(argc, argv);
}
