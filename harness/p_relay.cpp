// C30: relay_local and relay_server as child processes, optionally with a tunnel cutter between them;
// scripted clients and up-server sockets in this process.
#include "spawn.h"
enum End { HALF_CLIENT, CLOSE_CLIENT, HALF_TARGET, CLOSE_TARGET, RESET_CLIENT, RESET_TARGET, ANYTIME_CLIENT, ANYTIME_TARGET, BURST_CLOSE, STAY, ENDS };
static const char* const END_NAME[] = { "client half-closes", "client closes", "target half-closes", "target closes", "client resets", "target resets", "client leaves any time", "target leaves any time", "client sends and closes at once", "stays to the end" };
static const size_t HEAD = 16;
struct Sess
{
	unsigned id = 0; int end = 0; bool weak = false, rst = false; size_t up_n = 0, down_n = 0, block = 1, any_at = 0; unsigned stall_c = 0, stall_t = 0, delay = 0; int rcvbuf = 0;
	int c = -1, t = -1; uint8_t head[HEAD]; Stream up, down; int phase = 0; size_t up_sent = 0, up_got = 0, down_sent = 0, down_got = 0; bool c_eof = false, t_eof = false; int64_t t0 = 0, c_read_at = 0, t_read_at = 0; std::string errs;
	void fail(const std::string& s) { if (errs.empty()) errs = vh::sfmt("session %u: ", id) + s; phase = 99; }
	void bytes(uint8_t* p, size_t pos, size_t n) const { for (size_t i = 0; i < n; i++) if (pos + i < HEAD) p[i] = head[pos + i]; if (pos + n > HEAD) { size_t f = pos < HEAD ? HEAD - pos : 0; up.fill(p + f, pos + f - HEAD, n - f); } }
	long wrong(const uint8_t* p, size_t pos, size_t n) const { std::vector<uint8_t> e(n); bytes(e.data(), pos, n); for (size_t i = 0; i < n; i++) if (e[i] != p[i]) return (long)i; return -1; }
};
struct Cutter	// carries the tunnel connections, cut and paced
{
	int l = -1; uint16_t port = 0, to = 0; struct Flow { int a, b; std::vector<uint8_t> q[2]; size_t off[2]; bool eof[2]; int64_t at[2]; }; std::vector<Flow> fl; vh::Rng r; size_t unit = 1; unsigned gap = 0; std::string wire; int64_t moved = 0;
	void tick(std::vector<uint8_t>& buf)
	{
		if (l < 0) return; for (;;) { int a = raw_accept(l); if (a < 0) break; int b = raw_socket(nullptr); if (raw_connect(b, to) != 1) { close(a); close(b); continue; } Flow f; f.a = a; f.b = b; for (int d = 0; d < 2; d++) { f.off[d] = 0; f.eof[d] = false; f.at[d] = 0; } fl.push_back(f); }
		int64_t now = now_us();
		for (auto& f : fl) for (int d = 0; d < 2; d++) {
			int from = d ? f.b : f.a, dst = d ? f.a : f.b; auto& q = f.q[d];
			if (!f.eof[d] && q.size() - f.off[d] < 200000) { ssize_t k = precv(from, buf.data(), buf.size()); if (k > 0) { q.insert(q.end(), buf.data(), buf.data() + k); if (wire.size() < 1000000) wire.append((char*)buf.data(), (size_t)k); } else if (raw_eof(k)) f.eof[d] = true; }
			if (f.off[d] < q.size() && now >= f.at[d]) { size_t n = std::min<size_t>(q.size() - f.off[d], 1 + r.below(unit)); ssize_t k = psend(dst, q.data() + f.off[d], n); if (k > 0) { f.off[d] += (size_t)k; moved = now; f.at[d] = now + (gap ? (int64_t)r.below(gap) : 0); if (f.off[d] == q.size()) { q.clear(); f.off[d] = 0; } } else if (k < 0 && errno != EAGAIN) { q.clear(); f.off[d] = 0; f.eof[d] = true; } }
			if (f.eof[d] && q.empty() && dst >= 0) { shutdown(dst, SHUT_WR); }
		}
		for (size_t i = 0; i < fl.size();) { Flow& f = fl[i]; if (f.eof[0] && f.eof[1] && f.q[0].empty() && f.q[1].empty()) { close(f.a); close(f.b); fl.erase(fl.begin() + (long)i); } else i++; }
	}
	~Cutter() { for (auto& f : fl) { close(f.a); close(f.b); } if (l >= 0) close(l); }
};
static void put16(std::vector<uint8_t>& v, unsigned x) { v.push_back((uint8_t)(x >> 8)); v.push_back((uint8_t)x); }
static void put32(std::vector<uint8_t>& v, uint32_t x) { for (int i = 0; i < 4; i++) v.push_back((uint8_t)(x >> (8 * i))); }
static std::vector<uint8_t> pkt(unsigned id, const std::vector<uint8_t>& body, int lie = 0) { std::vector<uint8_t> v; put16(v, (unsigned)((int)body.size() + lie)); put16(v, id); v.insert(v.end(), body.begin(), body.end()); return v; }
// what a hostile peer of the relay server sends
static std::vector<uint8_t> hostile(vh::Ctx& c, bool enc, bool alone)
{
	std::vector<uint8_t> v; auto add = [&](const std::vector<uint8_t>& x) { v.insert(v.end(), x.begin(), x.end()); };
	if (c.chance(1, 4)) return c.blob(c.size(1, 3000));
	std::vector<uint8_t> key(16, 0); if (enc != c.chance(1, 12)) { key = c.blob(16); for (auto& x : key) if (!x) x = 1; } if (c.chance(1, 20)) key.resize((size_t)c.below(40)); add(pkt(c.chance(1, 20) ? 101 : 100, key));
	unsigned n = (unsigned)c.range(1, 6); std::vector<uint32_t> ids = { 1, 2, 7, 0, 0x80000000u, 0xffffffffu };
	for (unsigned i = 0; i < n; i++) {
		std::vector<uint8_t> b; uint32_t id = ids[c.below(3)]; if (c.chance(1, 6)) id = ids[c.below(ids.size())];
		switch (c.weighted({ 4, 2, 4, 2, 1, 1 })) {
		case 0: put32(b, id); add(pkt(101, b)); break;
		case 1: put32(b, id); add(pkt(102, b)); break;
		case 2: { size_t k = c.size(0, 300); size_t m = enc ? (k + 15) / 16 * 16 : k; put32(b, id); put32(b, c.chance(1, 3) ? (uint32_t)c.pick<int64_t>({ -1, 0x7fffffff, (int64_t)k + 1, (int64_t)m + 1, 60000, (int64_t)0x80000000u, 0 }) : (uint32_t)k); if (enc && c.chance(1, 3)) m = k; auto body = c.blob(m); b.insert(b.end(), body.begin(), body.end()); add(pkt(103, b)); break; }
		case 3: { b = c.blob(c.below(8)); add(pkt((unsigned)c.pick({ 101, 102, 103 }), b)); break; }
		case 4: { b = c.blob(c.size(0, 50)); add(pkt((unsigned)c.pick({ 0, 99, 104, 100, 65535 }), b)); break; }
		case 5: add(c.blob(c.size(1, 30))); break;
		}
	}
	(void)alone; return v;
}
VH_PROP(relay, 1500, 100000, 120000, false, 16)
{
	bool enc = c.chance(2, 3); unsigned TL = (unsigned)c.pick({ 1, 1, 2, 3 }), TS = (unsigned)c.range(1, 2), N = (unsigned)c.range(1, 7), refused_n = c.chance(1, 4) ? (unsigned)c.range(1, 3) : 0, hostiles = c.chance(1, 3) ? (unsigned)c.range(1, 4) : 0; int finale = (int)c.weighted({ 4, 1, 1 }); bool cut = c.chance(1, 2), stats = c.chance(1, 8);
	vh::Rng rng(c.raw()); std::vector<Sess> ss(N + 1); std::vector<std::vector<uint8_t>> bad; for (unsigned i = 0; i < hostiles; i++) bad.push_back(hostile(c, enc, false));
	uint8_t magic[8]; for (auto& x : magic) x = (uint8_t)rng.next();
	for (unsigned i = 0; i <= N; i++) {
		Sess& s = ss[i]; s.id = i; s.up.seed = c.raw(); s.down.seed = c.raw(); s.end = (int)c.weighted({ 3, 2, 3, 2, 1, 1, 1, 1, 2, 1 }); s.delay = i == 0 ? 0 : (unsigned)c.pick({ 0, 0, 1000, 8000 }); size_t big = c.thorough() ? 6000000 : 1500000;
		s.up_n = c.chance(1, 8) ? c.size(100000, big) : c.size(0, 60000, { 1, 15, 16, 17, 0xFEFF, 0xFF00 }); s.down_n = c.chance(1, 8) ? c.size(100000, big) : c.size(0, 70000, { 1, 15, 16, 17, 0xFF00, 0xFF01 }); s.block = c.size(1, 140000, { 15, 16, 17, 1024, 65280, 65281 }); if (s.block < 100) { s.up_n = std::min<size_t>(s.up_n, 3000); s.down_n = std::min<size_t>(s.down_n, 3000); }
		s.stall_c = (unsigned)c.pick({ 0, 0, 0, 3000, 20000 }); s.stall_t = (unsigned)c.pick({ 0, 0, 0, 3000, 20000 }); s.rcvbuf = (int)c.pick({ 0, 0, 4096 }); s.rst = c.chance(1, 2);
		if (i == 0) { s.end = STAY; s.up_n = s.down_n = 3000; s.block = 700; s.stall_c = s.stall_t = 0; } if (s.end == BURST_CLOSE) { s.down_n = 0; s.up_n = std::min<size_t>(s.up_n, 60000); }
		s.any_at = (size_t)c.below(s.up_n + s.down_n + 1); s.up_n += HEAD; memcpy(s.head, magic, 8); for (int k = 0; k < 8; k++) s.head[8 + k] = (uint8_t)(k ? rng.next() : i); s.weak = s.end >= RESET_CLIENT && s.end <= ANYTIME_TARGET;
	}
	Cutter cu; cu.r = vh::Rng(rng.next()); cu.unit = (size_t)c.pick({ 5, 40, 3000, 100000 }); cu.gap = cu.unit < 50 ? 0 : (unsigned)c.pick({ 0, 0, 100 });
	if (cut && cu.unit < 50) for (auto& s : ss) { s.up_n = std::min<size_t>(s.up_n, 8000); s.down_n = std::min<size_t>(s.down_n, 8000); if (s.any_at + HEAD > s.up_n) s.any_at = 0; }
	vh::Rng pr(rng.next()); Scratch scratch; if (scratch.dir.empty()) c.soft_fail("no scratch directory"); pr.s ^= (uint64_t)getpid() * 77777; PortLock p1, p2; if (!p1.take(pr) || !p2.take(pr)) c.soft_fail("no port");
	uint16_t tport = 0; auto target_listen = [&]() { int fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a = lo_addr(my_ip(), tport); socklen_t l = sizeof a; if (bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, 64) || getsockname(fd, (sockaddr*)&a, &l)) { close(fd); return -1; } tport = ntohs(a.sin_port); return fd; };
	int tl = target_listen(); if (tl < 0) c.soft_fail("no target");
	if (cut) { cu.l = raw_listen(&cu.port); cu.to = p1.port; if (cu.l < 0) c.soft_fail("no cutter"); }
	Child sv, lo; auto args = [&](std::vector<std::string> v) { if (enc) v.push_back("-e"); if (stats) v.push_back("-s"); return v; };
	auto up = [&](Child& p, uint16_t port) { int u = p.wait_listen(port, 15000); if (u == 0) c.fail("%s before it listened", p.why().c_str()); if (u < 0) c.soft_fail("%s does not listen after 15 s", p.name.c_str()); };
	if (!sv.start(sample_exe("relay", "relay_server"), args({ "-p", std::to_string(p1.port), "-uh", my_ip(), "-up", std::to_string(tport), "-t", std::to_string(TS) }), scratch.dir)) c.soft_fail("fork"); up(sv, p1.port);
	if (!lo.start(sample_exe("relay", "relay_local"), args({ "-p", std::to_string(p2.port), "-uh", my_ip(), "-up", std::to_string(cut ? cu.port : p1.port), "-t", std::to_string(TL) }), scratch.dir)) c.soft_fail("fork"); up(lo, p2.port);
	std::vector<uint8_t> buf(262144); unsigned strong = 0;
	bool sv_gone = false, lo_gone = false; auto alive = [&]() { if (!sv_gone && !sv.alive()) c.fail("%s", sv.why().c_str()); if (!lo_gone && !lo.alive()) c.fail("%s", lo.why().c_str()); };
	// until every work thread has its tunnel: 3*TL probes in a row get through
	{ unsigned good = 0; int64_t t = now_us(); while (good < 3 * TL) {
		int f = raw_socket(nullptr); if (raw_connect(f, p2.port) != 1) c.soft_fail("relay_local refuses connections"); char b = 'p'; psend(f, &b, 1); int a = -1; bool gone = false; int64_t t1 = now_us(); while (a < 0 && !gone) { cu.tick(buf); a = raw_accept(tl); ssize_t k = precv(f, &b, 1); gone = raw_eof(k); alive(); if (now_us() - t > 10000000 || now_us() - t1 > 8000000) c.soft_fail("no client gets through the tunnel"); usleep(50); }
		if (a >= 0) { good++; bool e = false; close(f); t1 = now_us(); while (!e) { cu.tick(buf); e = raw_eof(precv(a, &b, 1)); alive(); if (now_us() - t1 > 8000000) c.soft_fail("a probe's end did not reach the target"); usleep(50); } close(a); } else { good = 0; close(f); usleep(500); }
	} }
	usleep(2000); unsigned fs0 = sv.fds(), fl0 = lo.fds(); { int64_t t = now_us(); while (now_us() - t < 5000) { cu.tick(buf); fs0 = std::min(fs0, sv.fds()); fl0 = std::min(fl0, lo.fds()); usleep(300); } }
	struct Anon { int fd; std::vector<uint8_t> in; }; std::vector<Anon> anon; int64_t begin = now_us(); bool last = false;
	auto accept_all = [&]() {
		for (;;) { int a = raw_accept(tl); if (a < 0) break; anon.push_back({ a, {} }); }
		for (size_t i = 0; i < anon.size();) {
			Anon& a = anon[i]; bool gone = false; while (a.in.size() < HEAD) { ssize_t k = precv(a.fd, buf.data(), HEAD - a.in.size()); if (k > 0) a.in.insert(a.in.end(), buf.data(), buf.data() + k); else { gone = raw_eof(k); break; } }
			if (a.in.size() == HEAD) { Sess* s = nullptr; if (!memcmp(a.in.data(), magic, 8) && a.in[8] <= N) s = &ss[a.in[8]]; if (s && !memcmp(a.in.data(), s->head, HEAD)) { if (s->t >= 0 || s->t_eof) s->fail("two connections reached the target for one client"); s->t = a.fd; s->up_got = HEAD; s->t_read_at = now_us() + s->stall_t; if (s->rcvbuf) setsockopt(a.fd, SOL_SOCKET, SO_RCVBUF, &s->rcvbuf, sizeof s->rcvbuf); } else { if (!hostiles) c.fail("the target received a stream no client sent: %s", vh::hex(a.in.data(), HEAD).c_str()); close(a.fd); } anon.erase(anon.begin() + (long)i); }
			else if (gone) { close(a.fd); anon.erase(anon.begin() + (long)i); } else i++;
		}
	};
	auto end_c = [&](Sess& s, bool rst) { if (s.c < 0) return; if (rst) raw_reset(s.c); else close(s.c); s.c = -1; }; auto end_t = [&](Sess& s, bool rst) { if (s.t < 0) return; if (rst) raw_reset(s.t); else close(s.t); s.t = -1; s.t_eof = true; };
	auto tick = [&](Sess& s) {
		int64_t now = now_us(); if (s.phase >= 50) return;
		if (s.phase == 0) { if (now - begin < s.delay) return; s.c = raw_socket(nullptr, nullptr, s.rcvbuf); if (s.c < 0 || raw_connect(s.c, p2.port) != 1) { s.fail("a client cannot connect"); return; } s.phase = 5; s.t0 = now; s.c_read_at = now + s.stall_c; if (s.end == BURST_CLOSE) { size_t at = 0; while (at < s.up_n) { size_t n = std::min({ s.block, s.up_n - at, buf.size() }); s.bytes(buf.data(), at, n); ssize_t k = psend(s.c, buf.data(), n); if (k <= 0) break; at += (size_t)k; } s.up_n = s.up_sent = at; end_c(s, false); s.c_eof = true; s.phase = 6; } return; }
		auto pump_in = [&](bool client) {
			int fd = client ? s.c : s.t; bool& eof = client ? s.c_eof : s.t_eof; size_t& got = client ? s.down_got : s.up_got; size_t sent = client ? s.down_sent : s.up_sent; if (fd < 0 || eof) return; ssize_t k = precv(fd, buf.data(), std::min(buf.size(), s.block * 2));
			if (k > 0) { s.t0 = now; if (got + (size_t)k > sent) { s.fail(vh::sfmt("%s received %zu bytes, only %zu were sent", client ? "the client" : "the target", got + (size_t)k, sent)); return; } long w = client ? s.down.check(buf.data(), got, (size_t)k) : s.wrong(buf.data(), got, (size_t)k); if (w >= 0) { s.fail(vh::sfmt("%s received a wrong byte at %zu", client ? "the client" : "the target", got + (size_t)w)); return; } got += (size_t)k; } else if (raw_eof(k)) { eof = true; s.t0 = now; }
		};
		if (s.phase == 5) {
			if (s.up_sent < s.up_n) { size_t n = std::min({ s.block, s.up_n - s.up_sent, buf.size() }); s.bytes(buf.data(), s.up_sent, n); ssize_t k = psend(s.c, buf.data(), n); if (k > 0) { s.up_sent += (size_t)k; s.t0 = now; } }
			if (s.t >= 0 && s.down_sent < s.down_n) { size_t n = std::min({ s.block, s.down_n - s.down_sent, buf.size() }); s.down.fill(buf.data(), s.down_sent, n); ssize_t k = psend(s.t, buf.data(), n); if (k > 0) { s.down_sent += (size_t)k; s.t0 = now; } }
		}
		if (now >= s.c_read_at) pump_in(true); if (s.phase == 99) return; if (now >= s.t_read_at) pump_in(false); if (s.phase == 99) return;
		if (s.phase == 5) {
			if (s.c_eof || s.t_eof) { s.fail(vh::sfmt("the %s was closed though nobody closed (%zu of %zu up, %zu of %zu down)", s.c_eof ? "client" : "target", s.up_got, s.up_n, s.down_got, s.down_n)); return; }
			bool all_up = s.up_sent == s.up_n, all_down = s.down_sent == s.down_n, got_up = all_up && s.up_got == s.up_n, got_down = all_down && s.down_got == s.down_n, any = s.t >= 0 && s.up_got + s.down_got >= s.any_at + HEAD, go = false;
			switch (s.end) { case HALF_CLIENT: case CLOSE_CLIENT: go = all_up && got_down; break; case HALF_TARGET: case CLOSE_TARGET: go = all_down && got_up; break; case STAY: if (got_up && got_down) { s.t0 = now; go = last; } break; default: go = any; break; }
			if (go) { s.phase = 6; s.t0 = now; switch (s.end) { case STAY: if (finale) break; /* fallthrough */ case HALF_CLIENT: shutdown(s.c, SHUT_WR); break; case CLOSE_CLIENT: end_c(s, false); break; case HALF_TARGET: shutdown(s.t, SHUT_WR); break; case CLOSE_TARGET: end_t(s, false); break; case RESET_CLIENT: end_c(s, true); break; case RESET_TARGET: end_t(s, true); break; case ANYTIME_CLIENT: if (s.rst) end_c(s, false); else shutdown(s.c, SHUT_WR); break; case ANYTIME_TARGET: if (s.rst) end_t(s, false); else shutdown(s.t, SHUT_WR); break; } }
		} else if ((s.c < 0 || s.c_eof) && s.t_eof) {
			if (!s.weak) { strong++; bool fromclient = s.end != HALF_TARGET && s.end != CLOSE_TARGET; size_t got = fromclient ? s.up_got : s.down_got, want = fromclient ? s.up_n : s.down_n; if (got != want) { s.fail(vh::sfmt("the %s received %zu of the %zu bytes sent before the other side closed (%s)", fromclient ? "target" : "client", got, want, END_NAME[s.end])); return; } }
			s.phase = 50; if (s.c >= 0) close(s.c); if (s.t >= 0) close(s.t); s.c = s.t = -1;
		}
		if (s.phase < 50 && now - std::max(s.t0, cu.moved) > 10000000) { s.errs = "!" + vh::sfmt("session %u (%s): waited 10 s for %s (%zu/%zu up, %zu/%zu down, client %s target %s)", s.id, END_NAME[s.end], s.phase == 5 ? "traffic" : "the other side to be closed", s.up_got, s.up_n, s.down_got, s.down_n, s.c < 0 || s.c_eof ? "ended" : "open", s.t_eof ? "ended" : s.t < 0 ? "absent" : "open"); s.phase = 99; }
	};
	auto verdict = [&](Sess& s) { if (s.phase == 99) { alive(); usleep(2000); alive(); if (s.errs[0] == '!') c.soft_fail("%s", s.errs.c_str() + 1); c.fail("%s", s.errs.c_str()); } };
	// the witness first, then clients while the up-server refuses
	std::vector<int> badfd; size_t badnext = 0; unsigned spin = 0; bool refused_done = refused_n == 0; int64_t stay_since = 0;
	for (;;) {
		cu.tick(buf); accept_all(); bool all = true; Sess& w = ss[0]; tick(w); verdict(w); bool others = w.up_got == w.up_n && w.down_got == w.down_n;
		if (!refused_done && w.t >= 0 && w.up_got == w.up_n) {
			accept_all(); close(tl); std::vector<int> fd(refused_n); for (auto& f : fd) { f = raw_socket(nullptr); if (raw_connect(f, p2.port) != 1) c.fail("a client cannot connect"); if (rng.below(2)) { char junk[100] = { 1 }; psend(f, junk, 1 + rng.below(99)); } }
			int64_t t = now_us(); for (bool open = true; open;) { cu.tick(buf); open = false; for (auto& f : fd) if (f >= 0) { char b; ssize_t k = precv(f, &b, 1); if (k > 0) c.fail("a client whose target refuses received data"); if (raw_eof(k)) { close(f); f = -1; } else open = true; } tick(w); verdict(w); alive(); if (now_us() - t > 10000000) c.soft_fail("a client whose target refuses is not closed"); usleep(50); }
			tl = target_listen(); if (tl < 0) c.soft_fail("listen again: %s", strerror(errno)); refused_done = true; begin = now_us(); c.label("target refuses");
		}
		if (refused_done) {
			for (unsigned i = 1; i <= N; i++) { Sess& s = ss[i]; tick(s); verdict(s); if (s.phase < 50) { all = false; if (!(s.end == STAY && s.phase == 5 && s.up_got == s.up_n && s.down_got == s.down_n)) others = false; } }
			if (badnext < bad.size() && spin % 37 == 0) { int f = raw_socket(nullptr); if (raw_connect(f, p1.port) == 1) { auto& b = bad[badnext]; size_t at = 0, k = rng.below(2) ? b.size() : 1 + rng.below(b.size()); psend(f, b.data(), k); if (k < b.size()) { usleep(100); at = k; psend(f, b.data() + at, b.size() - at); } badfd.push_back(f); } else c.fail("relay_server refuses connections"); badnext++; }
			if (badnext == bad.size() && others && !last) {
				if (!stay_since) stay_since = now_us(); bool wait_bad = !bad.empty() && now_us() - stay_since < 3000;	// let the last hostile bytes be handled
				if (!wait_bad) { last = true; if (finale) { for (auto& s : ss) if (s.end == STAY) { s.weak = true; s.phase = 6; s.t0 = now_us(); } if (finale == 1) { sv.stop(); sv_gone = true; } else { lo.stop(); lo_gone = true; } } }
			}
			if (all && last && w.phase == 50) break;
		}
		alive(); usleep(20); spin++;
	}
	for (int f : badfd) { if (rng.below(2)) raw_reset(f); else close(f); }
	for (auto& a : anon) close(a.fd); anon.clear();
	if (finale != 2 && !lo_gone) { int64_t t = now_us(); unsigned n, want = fl0; while ((n = lo.fds()) > want) { cu.tick(buf); alive(); if (now_us() - t > 8000000) c.soft_fail("relay_local holds %u descriptors after all sessions ended, %u before", n, want); usleep(500); } }
	if (!sv_gone) { int64_t t = now_us(); unsigned n; while ((n = sv.fds()) > fs0) { cu.tick(buf); accept_all(); for (auto& a : anon) close(a.fd); anon.clear(); alive(); if (now_us() - t > 8000000) c.soft_fail("relay_server holds %u descriptors after all sessions ended, %u before", n, fs0); usleep(500); } }
	if (!sv_gone && hostiles) {	// still takes tunnels
		int f = raw_socket(nullptr); if (raw_connect(f, p1.port) != 1) c.fail("relay_server refuses connections"); std::vector<uint8_t> key(16, (uint8_t)(enc ? 9 : 0)), h = pkt(100, key); psend(f, h.data(), h.size()); size_t got = 0; int64_t t = now_us(); while (got < 20) { ssize_t k = precv(f, buf.data(), 20 - got); if (k > 0) got += (size_t)k; else if (raw_eof(k)) c.fail("relay_server closes a valid handshake"); alive(); if (now_us() - t > 8000000) c.soft_fail("relay_server does not answer a handshake"); usleep(50); } close(f);
	}
	alive(); close(tl);
	if (enc && cut) for (auto& s : ss) { if (s.up_got >= HEAD && cu.wire.find(std::string((char*)s.head, HEAD)) != std::string::npos) c.fail("session %u's bytes show on the tunnel of an encrypted relay", s.id); uint8_t d[16]; if (s.down_got >= 16) { s.down.fill(d, 0, 16); if (cu.wire.find(std::string((char*)d, 16)) != std::string::npos) c.fail("the target's bytes of session %u show on the tunnel of an encrypted relay", s.id); } }
	size_t bytes = 0; for (auto& s : ss) { bytes += s.up_got + s.down_got; c.label(END_NAME[s.end]); } if (cut) c.label(cu.unit < 50 ? "tunnel in small pieces" : "tunnel cut"); if (hostiles) c.label("hostile tunnel peers"); if (finale == 1) c.label("relay_server dies"); if (finale == 2) c.label("relay_local dies"); if (enc) c.label("encrypted");
	c.note("encrypt=%d threads=%u/%u sessions=%u refused=%u hostile=%u cut=%zu bytes=%zu complete=%u", enc, TL, TS, N + 1, refused_n, hostiles, cut ? cu.unit : 0, bytes, strong); if (N >= 2 && bytes > 6000) c.nontrivial();
}
int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN); vh::property_id = "C30"; vh::child_init = mute;
	vh::nontrivial_rule = "1-7 generated sessions plus a witness through a relay_local/relay_server pair of their own (encrypted or not, tunnel cut into pieces, target refusing, hostile tunnel peers, one relay dying at the end); non-trivial = at least three sessions and more than the witness's bytes relayed";
	vh::assumptions = { "loopback TCP of this kernel", "clients start after the tunnels are up" };
	return vh::main(argc, argv);
}
