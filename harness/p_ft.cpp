// C31: ft-server and ft-client as child processes; scripted counterparts in this process.
#include "spawn.h"
#include "ft_common.h"
static uint32_t ref_adler(const uint8_t* p, size_t n) { uint32_t a = 1, b = 0; for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
static bool write_file(const std::string& path, const Stream& st, size_t n) { FILE* f = fopen(path.c_str(), "wb"); if (!f) return false; std::vector<uint8_t> b(65536); for (size_t at = 0; at < n;) { size_t k = std::min(b.size(), n - at); st.fill(b.data(), at, k); if (fwrite(b.data(), 1, k, f) != k) { fclose(f); return false; } at += k; } return fclose(f) == 0; }
// "" if the file has exactly the content
static std::string compare(const std::string& path, const Stream& st, size_t n)
{
	FILE* f = fopen(path.c_str(), "rb"); if (!f) return "is missing"; std::vector<uint8_t> b(65536); size_t at = 0, k; std::string r; while (r.empty() && (k = fread(b.data(), 1, b.size(), f)) > 0) { if (at + k > n) { r = vh::sfmt("is longer than %zu bytes", n); break; } long w = st.check(b.data(), at, k); if (w >= 0) r = vh::sfmt("has a wrong byte at %zu of %zu", at + (size_t)w, n); at += k; }
	fclose(f); if (r.empty() && at != n) r = vh::sfmt("has %zu of %zu bytes", at, n); return r;
}
static std::vector<std::string> entries(const std::string& d) { std::vector<std::string> v; DIR* x = opendir(d.c_str()); if (!x) return v; while (dirent* e = readdir(x)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name); closedir(x); std::sort(v.begin(), v.end()); return v; }
static size_t file_size(vh::Ctx& c, unsigned t, size_t big) { switch (c.weighted({ 4, 3, 3 })) { case 0: return c.size(0, 400000, { 15, 16, 65535, 65536, 65537, 131071, 131072, 131073, (size_t)65536 * t - 1, (size_t)65536 * t, (size_t)65536 * t + 1, (size_t)65536 * t + 17 }); case 1: return c.size(0, 70000, { 65520, 65535, 65536 }); default: return c.size(100000, big); } }
static std::string file_name(vh::Ctx& c) { static const char A[] = "abcXYZ019._- "; std::string s = "f"; unsigned n = c.chance(1, 4) ? (unsigned)c.size(0, 200) : (unsigned)c.below(10); for (unsigned i = 0; i < n; i++) s += A[c.below(sizeof A - 1)]; return s + "x"; }
template<class T> static T msg() { T m; memset((void*)&m, 0, sizeof m); m.id = T::ID; m.size = sizeof m; return m; }
template<class T> static void put(std::vector<uint8_t>& v, const T& m) { v.insert(v.end(), (const uint8_t*)&m, (const uint8_t*)&m + sizeof m); }
struct Srv
{
	Scratch scratch; PortLock port; Child p; std::string name; std::string file; Stream st; size_t size = 0; unsigned T = 1;
	void start(vh::Ctx& c, size_t big)
	{
		st.seed = c.raw(); T = (unsigned)c.range(1, 5); size = file_size(c, T, big); name = file_name(c); int form = (int)c.below(4); vh::Rng pr(c.raw()); pr.s ^= (uint64_t)getpid() * 77777; if (scratch.dir.empty() || !port.take(pr)) c.soft_fail("no scratch directory or port");
		std::string d = scratch.dir + "/srv"; mkdir(d.c_str(), 0700); mkdir((d + "/sub").c_str(), 0700); std::string path = form == 1 ? "./" + name : form == 2 ? "sub/" + name : form == 3 ? d + "/" + name : name; file = path[0] == '/' ? path : d + "/" + path; if (!write_file(file, st, size)) c.soft_fail("cannot write the file");
		if (!p.start(sample_exe("filetransfer", "ft-server"), { "-p", std::to_string(port.port), "-f", path, "-t", std::to_string(T) }, d)) c.soft_fail("fork"); int u = p.wait_listen(port.port, 15000); if (u == 0) c.fail("%s before it listened", p.why().c_str()); if (u < 0) c.soft_fail("ft-server does not listen after 15 s");
	}
};
// ---------------- scripted clients against ft-server ----------------
enum Kind { INFO, FRAGMENT, INFO_FRAGMENT, INVALID, JUNK, HEADER_ONLY, SILENT, KINDS };
struct Peer
{
	unsigned id = 0; int kind = 0; size_t off = 0, len = 0; std::vector<uint8_t> out; size_t cut = 100000; unsigned gap = 0, stall = 0, slow = 0; int rcvbuf = 0; size_t leave_at = (size_t)-1; bool reset = false, again = false, pipelined = false; int delay = 0;
	int fd = -1; size_t sent = 0; std::vector<uint8_t> in; size_t data = 0; int phase = 0; bool done = false, refused = false, complete = false, must_close = false, overlapped = false; int64_t t0 = 0, next_at = 0, read_at = 0; unsigned tries = 0; uint32_t a = 1, b = 0;
};
VH_PROP(server, 2500, 80000, 90000, false, 16)
{
	Srv s; s.start(c, c.thorough() ? 6000000 : 1500000); unsigned N = (unsigned)c.range(1, 6); std::vector<Peer> ps(N + 1); vh::Rng rng(c.raw());
	for (unsigned i = 0; i <= N; i++) {
		Peer& p = ps[i]; p.id = i; p.kind = i == N ? (int)INFO_FRAGMENT : (int)c.weighted({ 2, 6, 2, 3, 3, 1, 1 }); p.off = c.chance(1, 4) ? 0 : (size_t)c.below(s.size + 1); p.len = c.chance(1, 4) ? s.size - p.off : (size_t)c.below(s.size - p.off + 1); if (i == N) { p.off = 0; p.len = s.size; }
		auto info = msg<FT_RequireFileInfo>(); auto frag = msg<FT_RequireFileFragment>(); frag.fileOffset = p.off; frag.fragmentSize = (int32_t)p.len;
		switch (p.kind) {
		case INFO: put(p.out, info); break; case FRAGMENT: put(p.out, frag); break; case INFO_FRAGMENT: put(p.out, info); break;
		case INVALID: p.must_close = true; switch (c.below(9)) { case 0: frag.fileOffset = s.size - p.off + 1; frag.fragmentSize = (int32_t)p.off + (int32_t)c.below(100); break; case 1: frag.fileOffset = (size_t)-1 - c.below(1000); frag.fragmentSize = (int32_t)c.range(1000, 100000); break; case 2: frag.fragmentSize = -(int32_t)c.range(1, 100000); frag.fileOffset = (size_t)c.below(200000); break; case 3: frag.size = (int32_t)c.pick<int64_t>({ 0, -1, 8, 16, 23, (int64_t)INT32_MIN }); break; case 4: frag.id = (int32_t)c.pick<int64_t>({ 0, 2, 4, 5, 6, -1, 1000000 }); break; case 5: frag.fragmentSize = INT32_MIN; break; case 6: frag.fileOffset = s.size + 1; frag.fragmentSize = 0; break; case 7: frag.id = 1; frag.size = (int32_t)c.pick<int64_t>({ 0, -1, 7, (int64_t)INT32_MIN }); break; default: frag.fileOffset = (size_t)1 << 63; frag.fragmentSize = 16; }
			put(p.out, frag); break;
		case JUNK: p.out = c.blob(c.size(1, 3000)); if (c.chance(1, 2) && p.out.size() >= 8) { int32_t h[2] = { (int32_t)c.pick<int64_t>({ 24, 8, 100, 0, -5, 0x7fffffff }), (int32_t)c.range(0, 6) }; memcpy(p.out.data(), h, 8); } break;
		case HEADER_ONLY: put(p.out, frag); p.out.resize(1 + c.below(p.out.size() - 1)); break; case SILENT: break;
		}
		p.cut = c.chance(1, 3) ? c.size(1, 8) : 100000; p.gap = (unsigned)c.pick({ 0, 0, 200 }); p.stall = (unsigned)c.pick({ 0, 0, 0, 10000 }); p.rcvbuf = (int)c.pick({ 0, 0, 4096 }); p.slow = (unsigned)c.pick({ 0, 0, 1000, 70000 }); if (p.len > 300000 && p.slow == 1000) p.slow = 0; p.delay = (int)c.pick({ 0, 0, 500, 3000 });
		if (i < N && p.kind <= INFO_FRAGMENT && c.chance(1, 3)) { p.leave_at = (size_t)c.below(p.len + 40); p.reset = c.chance(1, 2); } p.again = c.chance(1, 8); if (i == N) p.stall = 0;
	}
	std::vector<uint8_t> buf(262144); int64_t begin = now_us(); size_t bytes = 0; unsigned complete = 0; auto alive = [&]() { if (!s.p.alive()) c.fail("%s", s.p.why().c_str()); };
	// every work thread answers once, then the descriptors are counted
	for (unsigned i = 0; i < s.T;) { int f = raw_socket(nullptr); if (raw_connect(f, s.port.port) != 1) { alive(); c.fail("cannot connect"); } std::vector<uint8_t> q; put(q, msg<FT_RequireFileInfo>()); psend(f, q.data(), q.size()); for (;;) { ssize_t k = precv(f, buf.data(), buf.size()); if (k > 0) { i++; break; } if (raw_eof(k)) break; alive(); if (now_us() - begin > 10000000) c.soft_fail("ft-server does not answer"); usleep(50); } close(f); }
	unsigned fd0 = s.p.fds(); { int64_t t = now_us(); while (now_us() - t < 5000) { fd0 = std::min(fd0, s.p.fds()); usleep(300); } } begin = now_us();
	auto end = [&](Peer& p) { if (p.fd >= 0) { if (p.reset) raw_reset(p.fd); else close(p.fd); } p.fd = -1; p.done = true; };
	auto eat = [&](Peer& p) {	// what has arrived against what must arrive
		if (p.kind == INFO || (p.kind == INFO_FRAGMENT && p.phase == 0)) {
			size_t want = sizeof(FT_ReplyFileInfo) + s.name.size() + 1; if (p.in.size() > want) c.fail("client %u: %zu bytes for a %zu byte file information", p.id, p.in.size(), want); if (p.in.size() < want) return; FT_ReplyFileInfo r; memcpy((void*)&r, p.in.data(), sizeof r);
			if (r.id != FT_ReplyFileInfo::ID || (size_t)r.size != want || r.fileSize != s.size || r.threadCounts != (int)s.T || (size_t)r.nameLength != s.name.size() + 1 || memcmp(&p.in[sizeof r], s.name.c_str(), s.name.size() + 1)) c.fail("client %u: wrong file information", p.id);
			p.in.clear(); if (p.kind == INFO) { p.complete = true; return; } p.phase = 1; auto frag = msg<FT_RequireFileFragment>(); frag.fileOffset = p.off; frag.fragmentSize = (int32_t)p.len; p.out.clear(); p.sent = 0; put(p.out, frag); return;
		}
		if (p.kind > INFO_FRAGMENT) { if (p.kind == INVALID && p.in.size()) c.fail("client %u: an invalid request is answered", p.id); p.in.clear(); return; }
		size_t at = 0; if (p.phase < 2) { if (p.in.size() < sizeof(FT_ReplyFileFragment_Begin)) return; FT_ReplyFileFragment_Begin r; memcpy((void*)&r, p.in.data(), sizeof r); if (r.id != r.ID || r.size != sizeof r || r.fileOffset != p.off || r.fragmentSize != (int32_t)p.len) c.fail("client %u: wrong begin of the fragment", p.id); p.phase = 2; at = sizeof r; }
		size_t k = std::min(p.len - p.data, p.in.size() - at); if (k) { long w = s.st.check(&p.in[at], p.off + p.data, k); if (w >= 0) c.fail("client %u: wrong byte at %zu of the fragment at %zu", p.id, p.data + (size_t)w, p.off); for (size_t i = 0; i < k; i++) { p.a += p.in[at + i]; p.b += p.a; if ((i & 1023) == 1023) { p.a %= 65521; p.b %= 65521; } } p.a %= 65521; p.b %= 65521; p.data += k; bytes += k; at += k; }
		p.in.erase(p.in.begin(), p.in.begin() + (long)at); if (p.data < p.len) return; if (p.in.size() > sizeof(FT_ReplyFileFragment_End)) c.fail("client %u: bytes after the end of the fragment", p.id); if (p.in.size() < sizeof(FT_ReplyFileFragment_End)) return;
		FT_ReplyFileFragment_End r; memcpy((void*)&r, p.in.data(), sizeof r); if (r.id != r.ID || r.size != sizeof r || r.fragmentCRC != (p.b << 16 | p.a)) c.fail("client %u: wrong end of the fragment (id %d, checksum %08x, expected %08x)", p.id, r.id, r.fragmentCRC, p.b << 16 | p.a); p.complete = true;
	};
	auto tick = [&](Peer& p, bool last) {
		if (p.done) return; int64_t now = now_us(); if (now - begin < p.delay) return;
		if (p.fd < 0) { p.fd = raw_socket(nullptr, nullptr, p.rcvbuf); if (p.fd < 0 || raw_connect(p.fd, s.port.port) != 1) { alive(); c.fail("client %u cannot connect", p.id); } if (!p.t0 || !last) p.t0 = now; p.read_at = now + p.stall; p.sent = p.data = 0; p.in.clear(); p.phase = 0; p.a = 1; p.b = 0; if (p.kind == INFO_FRAGMENT) { p.out.clear(); put(p.out, msg<FT_RequireFileInfo>()); } }
		if (p.sent < p.out.size() && now >= p.next_at) { size_t n = std::min(p.out.size() - p.sent, (size_t)(1 + rng.below(p.cut))); ssize_t k = psend(p.fd, &p.out[p.sent], n); if (k > 0) { p.sent += (size_t)k; p.t0 = last ? p.t0 : now; p.next_at = now + p.gap; } }
		if (now >= p.read_at) { ssize_t k = precv(p.fd, buf.data(), p.slow ? std::min<size_t>(p.slow, buf.size()) : buf.size()); if (k > 0) { p.t0 = now; p.in.insert(p.in.end(), buf.data(), buf.data() + k); eat(p); } else if (raw_eof(k)) {
			if (p.must_close || p.kind > INFO_FRAGMENT) { p.complete = p.must_close; end(p); return; }
			bool began = p.phase > 0 || p.data || p.in.size(); alive(); if (began) c.fail("client %u was closed in its transfer (%zu of %zu bytes)", p.id, p.data, p.len); if (last) { close(p.fd); p.fd = -1; p.tries++; usleep(500); if (now - p.t0 > 8000000) c.soft_fail("a client alone is refused for 8 s"); return; } p.refused = true; end(p); return; } }
		if (p.complete) { complete++; if (p.again && p.kind == FRAGMENT) psend(p.fd, p.out.data(), p.out.size()); end(p); return; }
		if (p.data + p.in.size() >= p.leave_at) { end(p); return; }
		if (!last && (p.kind == JUNK || p.kind == HEADER_ONLY || p.kind == SILENT) && now - p.t0 > 1500) { end(p); return; }
		if (now - p.t0 > 8000000) { alive(); c.soft_fail("client %u (%d): nothing for 8 s, %zu of %zu bytes", p.id, p.kind, p.data, p.len); }
	};
	for (;;) { bool all = true; for (unsigned i = 0; i < N; i++) { tick(ps[i], false); if (!ps[i].done) all = false; } alive(); if (all) break; usleep(20); }
	ps[N].delay = 0; while (!ps[N].done) { tick(ps[N], true); alive(); usleep(20); } if (!ps[N].complete) c.fail("the last client did not complete");
	{ int64_t t = now_us(); unsigned n; while ((n = s.p.fds()) > fd0) { alive(); if (now_us() - t > 8000000) c.soft_fail("ft-server holds %u descriptors after all clients left, %u before", n, fd0); usleep(300); } } alive();
	unsigned refused = 0; for (auto& p : ps) { refused += p.refused; if (p.kind == INVALID) c.label("invalid request"); if (p.kind == JUNK) c.label("junk"); if (p.leave_at != (size_t)-1) c.label("a client leaves"); if (p.rcvbuf && p.len > 20000) c.label("slow reader"); } if (refused) c.label("refused: thread busy"); if (s.size == 0) c.label("empty file");
	c.note("threads=%u file=%zu clients=%u complete=%u refused=%u bytes=%zu", s.T, s.size, N + 1, complete, refused, bytes); if (N >= 2 && bytes > 1000) c.nontrivial();
}
// ---------------- ft-client against a scripted server ----------------
enum Fault { NONE, BAD_CRC, BAD_BYTE, CUT_SHORT, BAD_BEGIN, CLOSE_FIRST, BAD_END, EXTRA, INFO_CLOSE, INFO_ID, INFO_SIZE, INFO_NAME, INFO_THREADS, OBSTACLE_PART, OBSTACLE_FILE, ESCAPE, RESET, NO_SPACE, FAULTS };
static const char* const FAULT_NAME[] = { "no fault", "wrong checksum", "changed byte", "ends early", "wrong begin", "closed at once", "wrong end", "extra bytes", "info: closed", "info: wrong id", "info: wrong size", "info: name not terminated", "info: no threads", "part file cannot be written", "file cannot be written", "name with directories", "reset", "a file too large to be written" };
struct Conn { int fd = -1; std::vector<uint8_t> in, out; size_t off = 0, pos = 0, len = 0; bool serving = false, ending = false, closing = false, faulty = false, rst = false; int64_t at = 0; size_t stop_at = (size_t)-1; size_t b = 0; };
static void check_exit(vh::Ctx& c, Child& p) { if (!WIFEXITED(p.status) || WEXITSTATUS(p.status) > 1 || p.why().find(" | ") != std::string::npos) c.fail("%s", p.why().c_str()); }
VH_PROP(client, 900, 20000, 90000, false, 40)
{
	Stream st; st.seed = c.raw(); unsigned T = (unsigned)c.range(1, 6); size_t size = file_size(c, T, c.thorough() ? 6000000 : 2000000); std::string name = file_name(c); int fault = c.chance(1, 2) ? (int)NONE : (int)c.range(1, FAULTS - 1); size_t unit = (size_t)c.pick({ 100000, 100000, 3000, 50, 1 }); unsigned gap = (unsigned)c.pick({ 0, 0, 100, 1000 }); if (unit < 100) { gap = 0; size = std::min<size_t>(size, unit == 1 ? 20000 : 140000); } if (gap == 1000) size = std::min<size_t>(size, 1000000); bool glue = c.chance(1, 2); uint64_t fpos = c.raw(), variant = c.raw(); vh::Rng rng(c.raw());
	if ((fault == BAD_BYTE || fault == CUT_SHORT) && size == 0) size = 1; std::string sent_name = name; if (fault == ESCAPE) { static const char* const P[] = { "../", "../../", "sub/", "./", "../w2/", "sub/../../" }; sent_name = P[variant % 6] + name; }
	Scratch scratch; if (scratch.dir.empty()) c.soft_fail("no scratch directory"); std::string up = scratch.dir + "/a", cwd = up + "/w"; mkdir(up.c_str(), 0700); mkdir(cwd.c_str(), 0700); mkdir((up + "/w2").c_str(), 0700); mkdir((cwd + "/sub").c_str(), 0700); if (fault == OBSTACLE_PART) mkdir((cwd + "/" + name + ".part0").c_str(), 0700); if (fault == OBSTACLE_FILE) mkdir((cwd + "/" + name).c_str(), 0700);
	uint16_t port = 0; int l = raw_listen(&port); if (l < 0) c.soft_fail("no listener"); Child p; if (fault == NO_SPACE) p.file_limit = (long long)(variant & 1 ? fpos % (size + 1) : variant & 2 ? size : size ? size - 1 : 0); if (!p.start(sample_exe("filetransfer", "ft-client"), { "-h", my_ip(), "-p", std::to_string(port) }, cwd)) c.soft_fail("fork");
	std::vector<Conn> cs; std::vector<uint8_t> buf(65536); int64_t last = now_us(); unsigned info_asked = 0, frags = 0; bool injected = fault == OBSTACLE_PART || fault == OBSTACLE_FILE || (fault == NO_SPACE && p.file_limit < (long long)size); std::vector<std::pair<size_t, size_t>> asked;
	for (;;) {
		int64_t now = now_us(); for (;;) { int a = raw_accept(l); if (a < 0) break; Conn n; n.fd = a; cs.push_back(n); last = now; if (fault == CLOSE_FIRST && info_asked && !injected && (variant & 1 || size < 140000)) { injected = true; close(a); cs.pop_back(); } }
		for (size_t i = 0; i < cs.size();) {
			Conn& n = cs[i]; bool drop = false; ssize_t k = precv(n.fd, buf.data(), buf.size()); if (k > 0) { n.in.insert(n.in.end(), buf.data(), buf.data() + k); last = now; } else if (raw_eof(k)) drop = true;
			if (!n.serving && !n.closing && n.in.size() >= sizeof(FT_Head)) {
				FT_Head h; memcpy((void*)&h, n.in.data(), sizeof h);
				if (h.id == FT_RequireFileInfo::ID && n.in.size() >= sizeof(FT_RequireFileInfo)) {
					if (h.size != sizeof(FT_RequireFileInfo)) c.fail("the client's information request says %d bytes", h.size); n.in.clear(); info_asked++; auto r = msg<FT_ReplyFileInfo>(); r.fileSize = size; r.threadCounts = (int32_t)T; r.nameLength = (int32_t)sent_name.size() + 1; r.size = (int32_t)(sizeof r + sent_name.size() + 1); size_t cut = (size_t)-1;
					if (fault == INFO_CLOSE) { injected = true; n.closing = true; cut = (size_t)(variant % (sizeof r + sent_name.size() + 1)); } if (fault == INFO_ID) { injected = true; r.id = (int32_t)(variant % 7 == 2 ? 77 : variant % 7); } if (fault == INFO_THREADS) { injected = true; r.threadCounts = variant & 1 ? 0 : -(int32_t)(variant % 1000); }
					if (fault == INFO_SIZE) { injected = true; static const int32_t S[] = { 0, -1, 8, 23, 24, INT32_MIN }; r.size = S[variant % 6]; } std::string nm = sent_name; if (fault == INFO_NAME) { injected = true; if (variant & 1) { r.size--; nm += std::string(1, 'y'); } else { r.nameLength = (int32_t)(variant >> 8); nm += "z"; } }
					put(n.out, r); n.out.insert(n.out.end(), nm.begin(), nm.end()); if (fault != INFO_NAME) n.out.push_back(0); if (cut < n.out.size()) n.out.resize(cut);
				} else if (h.id == FT_RequireFileFragment::ID && n.in.size() >= sizeof(FT_RequireFileFragment)) {
					FT_RequireFileFragment q; memcpy((void*)&q, n.in.data(), sizeof q); n.in.clear(); if (h.size != sizeof q || q.fragmentSize < 0 || q.fileOffset + (size_t)q.fragmentSize > size) c.fail("the client asks for %d bytes at %zu of %zu", q.fragmentSize, q.fileOffset, size);
					asked.push_back({ q.fileOffset, (size_t)q.fragmentSize }); frags++; n.serving = true; n.off = q.fileOffset; n.len = (size_t)q.fragmentSize; auto b = msg<FT_ReplyFileFragment_Begin>(); b.fileOffset = q.fileOffset; b.fragmentSize = q.fragmentSize;
					bool mine = !injected && (variant & 2 || n.off + n.len == size); if ((fault == BAD_BYTE || fault == CUT_SHORT) && !n.len) mine = false;
					if (mine) switch (fault) { case BAD_CRC: case BAD_BYTE: case BAD_END: case EXTRA: n.faulty = injected = true; break; case CUT_SHORT: case RESET: n.stop_at = (size_t)(fpos % (n.len + sizeof b)); if (n.stop_at >= n.len) n.stop_at = n.len ? n.len - 1 : 0; injected = true; n.rst = fault == RESET; break; case BAD_BEGIN: injected = true; switch (variant / 8 % 4) { case 0: b.fileOffset++; break; case 1: b.fragmentSize += (variant & 4) ? 1 : -1; break; case 2: b.id = 5; break; default: b.fragmentSize = -1; } break; }
					put(n.out, b);
				} else if (h.id != FT_RequireFileInfo::ID && h.id != FT_RequireFileFragment::ID) c.fail("the client sends a message of type %d", h.id);
			}
			// content: n.b counts what has been put into out
			if (n.serving && !n.ending) {
				if (n.pos > 400000) { n.out.erase(n.out.begin(), n.out.begin() + (long)n.pos); n.pos = 0; }
				size_t lim = std::min(n.len, n.stop_at); while (n.b < lim && n.out.size() - n.pos < 200000) { size_t m = std::min<size_t>(65536, lim - n.b); size_t o = n.out.size(); n.out.resize(o + m); st.fill(&n.out[o], n.off + n.b, m); if (n.faulty && fault == BAD_BYTE) { size_t x = (size_t)(fpos % n.len); if (x >= n.b && x < n.b + m) n.out[o + x - n.b] ^= (uint8_t)(1 << (fpos >> 40 & 7)); } n.b += m; }
				if (n.b == lim) { n.ending = true; if (n.stop_at != (size_t)-1) n.closing = true; else { auto e = msg<FT_ReplyFileFragment_End>(); std::vector<uint8_t> d(n.len); st.fill(d.data(), n.off, n.len); e.fragmentCRC = ref_adler(d.data(), n.len); if (n.faulty && fault == BAD_CRC) e.fragmentCRC ^= 1u << (fpos & 31); if (n.faulty && fault == BAD_END) e.id = (int32_t)(fpos % 5); put(n.out, e); if (n.faulty && fault == EXTRA) { size_t x = 1 + (size_t)(fpos % 100); n.out.insert(n.out.end(), x, (uint8_t)fpos); } } }
			}
			if (!drop && n.pos < n.out.size() && now >= n.at && (glue || n.pos + 1 < n.out.size() || n.ending || !n.serving)) { size_t m = std::min<size_t>(n.out.size() - n.pos, unit == 100000 ? unit : 1 + (size_t)rng.below(unit)); ssize_t w = psend(n.fd, &n.out[n.pos], m); if (w > 0) { n.pos += (size_t)w; last = now; n.at = now + gap; } else if (w < 0 && errno != EAGAIN) drop = true; }
			if (n.closing && n.pos == n.out.size()) drop = true; if (drop) { if (n.rst) raw_reset(n.fd); else close(n.fd); cs.erase(cs.begin() + (long)i); last = now; } else i++;
		}
		if (!p.alive()) break;
		if (now - last > 12000000) { std::string w; for (auto& n : cs) w += vh::sfmt(" [%zu/%zu of %zu]", n.pos, n.b, n.len); c.soft_fail("%s: the client does not end (%u information requests, %u fragments, open:%s)", FAULT_NAME[fault], info_asked, frags, w.c_str()); } usleep(cs.empty() ? 500 : 20);
	}
	for (auto& n : cs) close(n.fd); close(l); check_exit(c, p); int code = WEXITSTATUS(p.status);
	// what it left behind
	for (auto& f : entries(scratch.dir)) if (f != "a") c.fail("%s: the client wrote %s outside its directory", FAULT_NAME[fault], f.c_str()); for (auto& f : entries(up)) if (f != "w" && f != "w2") c.fail("%s: the client wrote ../%s", FAULT_NAME[fault], f.c_str()); if (!entries(up + "/w2").empty()) c.fail("the client wrote into ../w2");
	std::string got = compare(cwd + "/" + name, st, size); if (got.size() && fault == ESCAPE && code == 0) got = compare(cwd + "/" + sent_name, st, size);
	bool strict = !injected && fault != ESCAPE; if (code == 0 && got.size() && fault != INFO_NAME) c.fail("%s: the client reports success, its file %s", FAULT_NAME[fault], got.c_str()); if (strict && code != 0) c.fail("the client failed with no fault in its way (%u fragments)", frags);
	if (code == 0 && injected && !(fault == EXTRA || fault == INFO_NAME)) c.fail("%s: the client reports success", FAULT_NAME[fault]); if (code != 0 && fault != OBSTACLE_FILE && got != "is missing" && got.size()) c.fail("%s: the client failed and left a file that %s", FAULT_NAME[fault], got.c_str());
	if (code == 0) { auto e = entries(cwd); for (auto& f : e) if (f.find(".part") != std::string::npos) c.fail("part file %s is left", f.c_str()); std::sort(asked.begin(), asked.end()); size_t at = 0; for (auto& a : asked) { if (a.first > at) c.fail("bytes %zu..%zu were never asked for", at, a.first); at = std::max(at, a.first + a.second); } }
	c.label(FAULT_NAME[fault]); if (injected) c.label("fault injected"); c.note("threads=%u file=%zu fault=%s%s unit=%zu fragments=%u exit=%d", T, size, FAULT_NAME[fault], injected || fault == ESCAPE ? "" : " (not reached)", unit, frags, code); if (frags >= 2 || fault) c.nontrivial();
}
// ---------------- ft-client against ft-server ----------------
VH_PROP(transfer, 600, 20000, 90000, false, 40)
{
	Srv s; s.start(c, c.thorough() ? 30000000 : 4000000); unsigned N = c.chance(1, 3) ? (unsigned)c.range(2, 3) : 1; bool serial = c.chance(1, 2); bool cut = s.size && c.chance(1, 8); size_t cut_to = (size_t)c.below(s.size + !s.size); unsigned cut_at = c.chance(1, 2) ? 0 : (unsigned)c.size(0, 30000); unsigned hostile = c.chance(1, 4) ? (unsigned)c.range(1, 4) : 0; vh::Rng rng(c.raw()); std::vector<std::unique_ptr<Child>> p(N); std::vector<int> hf; unsigned good = 0; std::vector<unsigned> wait(N); for (auto& w : wait) w = (unsigned)c.size(0, 30000);
	auto dir = [&](unsigned i) { return s.scratch.dir + "/c" + std::to_string(i); }; auto launch = [&](unsigned i) { p[i].reset(new Child); if (!p[i]->start(sample_exe("filetransfer", "ft-client"), { "-h", my_ip(), "-p", std::to_string(s.port.port) }, dir(i))) c.soft_fail("fork"); };
	auto finish = [&](unsigned i, bool alone) { int64_t t = now_us(); while (p[i]->alive()) { if (!s.p.alive()) c.fail("%s", s.p.why().c_str()); while (hf.size() < hostile) { int f = raw_socket(nullptr); if (raw_connect(f, s.port.port) == 1) { std::vector<uint8_t> b(1 + rng.below(60)); for (auto& x : b) x = (uint8_t)(rng.below(3) ? rng.below(6) : rng.next()); psend(f, b.data(), b.size()); } hf.push_back(f); } for (auto& f : hf) if (f >= 0 && rng.below(20) == 0) { if (rng.below(2)) raw_reset(f); else close(f); f = -1; } if (now_us() - t > 25000000) c.soft_fail("client %u does not end", i); usleep(300); }
		for (auto& f : hf) if (f >= 0) { close(f); f = -1; } check_exit(c, *p[i]); int code = WEXITSTATUS(p[i]->status); std::string d = compare(dir(i) + "/" + s.name, s.st, s.size); if (alone && code) c.fail("a client alone failed (file of %zu bytes, %u threads)", s.size, s.T); if (code == 0 && d.size()) c.fail("client %u reports success, its file %s", i, d.c_str()); if (code && d != "is missing") c.fail("client %u failed and left the file", i); if (code == 0) { good++; for (auto& f : entries(dir(i))) if (f.find(".part") != std::string::npos) c.fail("part file %s is left", f.c_str()); } };
	if (cut) { for (auto& w : wait) w = 0; if (cut_at) { serial = false; N = 1; launch(0); usleep(cut_at); } if (truncate(s.file.c_str(), (off_t)cut_to)) c.soft_fail("truncate"); if (cut_at) finish(0, false); c.label("the served file is cut"); }
	if (cut && cut_at) ; else if (serial) for (unsigned i = 0; i < N; i++) { launch(i); finish(i, hostile == 0 && !cut); usleep(5000); } else { for (unsigned i = 0; i < N; i++) { launch(i); usleep(wait[i]); } for (unsigned i = 0; i < N; i++) finish(i, hostile == 0 && N == 1 && !cut); }
	if (!s.p.alive()) c.fail("%s", s.p.why().c_str()); if (N > 1) c.label(serial ? "one after another" : "at the same time"); if (hostile) c.label("hostile peers"); c.label(s.size < 65536 ? "under 64 KB" : "several fragments"); c.note("threads=%u file=%zu clients=%u%s hostile=%u good=%u", s.T, s.size, N, serial ? "" : " together", hostile, good); if (s.size > 65536 || N > 1) c.nontrivial();
}
int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN); vh::property_id = "C31"; vh::child_init = mute;
	vh::nontrivial_rule = "server: at least two scripted clients besides the last and 1000 bytes served; client: two fragments or a fault; transfer: a file above 64 KB or several clients";
	vh::assumptions = { "loopback TCP of this kernel", "one transfer at a time per server thread: a connection to a busy thread is refused and its client fails", "files below 2 GB" };
	return vh::main(argc, argv);
}
