// C36: chat-client and echo-client as child processes; this process is their server and types their input.
#include "spawn.h"
#include <dirent.h>
struct Cli
{
	vh::Ctx& c; Scratch scratch; PortLock port; Child p; int lfd = -1, fd = -1; bool chat; std::string shown; std::vector<std::string> rec; bool closed_note = false; std::string log_path; size_t log_off = 0; std::string tail; unsigned failed_connects = 0;
	Cli(vh::Ctx& x, bool ch) : c(x), chat(ch) {}
	~Cli() { if (lfd >= 0) close(lfd); if (fd >= 0) close(fd); }
	bool listen_now() { lfd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); int one = 1; setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a = lo_addr("127.0.0.1", port.port); return bind(lfd, (sockaddr*)&a, sizeof a) == 0 && listen(lfd, 4) == 0; }
	// what the program has shown so far: records of its client thread in the log file
	void read_log()
	{
		if (log_path.empty()) { std::string d = scratch.dir + "/logs"; if (DIR* x = opendir(d.c_str())) { while (dirent* e = readdir(x)) if (e->d_name[0] != '.') log_path = d + "/" + e->d_name; closedir(x); } if (log_path.empty()) return; }
		int f = open(log_path.c_str(), O_RDONLY | O_CLOEXEC); if (f < 0) return; char b[65536]; ssize_t n; while ((n = pread(f, b, sizeof b, (off_t)log_off)) > 0) { tail.append(b, (size_t)n); log_off += (size_t)n; } close(f);
		size_t at = 0, e; while ((e = tail.find('\n', at)) != std::string::npos) { line(tail.substr(at, e - at)); at = e + 1; } tail.erase(0, at);
	}
	void line(const std::string& l)
	{
		size_t k = l.find("[I] [client] "); if (k != 20) return; std::string t = l.substr(k + 13);
		if (t == "socket close") { closed_note = true; return; } if (t.find("connect failed!") == 0) { failed_connects++; return; } if (failed_connects && t.empty() && !chat) return; rec.push_back(t); shown += t;
	}
	void dead(const char* when) { c.fail("%s: %s", when, p.why().c_str()); }
};
static std::string text(vh::Rng& r, size_t n) { static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789%%%sdn\\\"'.,:;-_+*#[](){}\t\r\x7f\xc3\xa9"; std::string s(n, 'a'); for (auto& ch : s) ch = A[r.below(sizeof A - 1)]; return s; }
static std::string packet(const std::string& body, unsigned id) { std::string s; s += (char)(body.size() >> 8); s += (char)body.size(); s += (char)(id >> 8); s += (char)id; return s + body; }
enum End { E_EOF, E_CLOSE, E_RESET, E_EOF_BUSY, E_PARTIAL };
static void run(vh::Ctx& c, bool chat)
{
	vh::Rng r(c.raw()), pr(c.raw()); Cli k(c, chat); if (k.scratch.dir.empty()) c.soft_fail("no scratch directory"); pr.s ^= (uint64_t)getpid() * 77777; if (!k.port.take(pr)) c.soft_fail("no port");
	// what is typed, what the server says
	std::string typed, want_server; unsigned lines = (unsigned)c.size(0, 30), empty = 0; for (unsigned i = 0; i < lines; i++) { std::string s; if (c.chance(1, 10)) empty++; else { s = text(r, c.size(1, 255, { 1, 254, 255 })); } typed += s + "\n"; if (!s.empty()) want_server += chat ? packet(s, 0) : s; }
	std::string said, want_shown; std::vector<std::string> want_rec; unsigned msgs = (unsigned)c.size(0, 30), big = 0, binary = 0; bool bin = chat && c.chance(1, 6);
	for (unsigned i = 0; i < msgs; i++) { std::string s = text(r, i && c.chance(1, 8) ? c.size(900, 65535, { 1020, 1023, 1024, 2047, 2048, 65535 }) : c.size(0, 300, { 0, 1, 255 })); if (chat && bin && c.chance(1, 3)) { for (auto& ch : s) ch = (char)r.below(256); binary++; } if (s.size() > 1000) big++; said += chat ? packet(s, (unsigned)c.below(65536)) : s; want_rec.push_back(s); want_shown += s; }
	size_t cut = c.size(1, 100000, { 1, 2, 3, 4, 5 }); unsigned pause = (unsigned)c.pick({ 0, 0, 200, 3000 }); if (said.size() / cut > 60) pause = 0; if (said.size() / cut > 3000) cut = said.size() / 3000 + 1; size_t tcut = c.size(1, 4000); if (typed.size() / tcut > 300) tcut = typed.size() / 300 + 1; int end = (int)c.weighted({ 3, 3, 1, 2, 2 }); bool refused = c.thorough() ? c.chance(1, 20) : c.chance(1, 200); if (!chat && end == E_PARTIAL) end = E_CLOSE;
	bool open_end = end == E_EOF_BUSY && typed.size() > 1 && typed[typed.size() - 2] != '\n' && c.chance(1, 2); if (open_end) { typed.pop_back(); c.label("last line not ended"); }
	if (!refused && !k.listen_now()) c.soft_fail("no server socket"); k.p.keep_stdin = true;
	if (!k.p.start(sample_exe(chat ? "chat" : "echo", chat ? "chat-client" : "echo-client"), { "-h", "127.0.0.1", "-p", std::to_string(k.port.port) }, k.scratch.dir)) c.soft_fail("fork");
	int64_t t = now_us(); if (refused) { while (!k.failed_connects) { if (!k.p.alive()) k.dead("while its server refuses"); if (now_us() - t > 20000000) c.soft_fail("no connection attempt"); k.read_log(); usleep(2000); } if (!k.listen_now()) c.soft_fail("no server socket"); }
	t = now_us(); while (k.fd < 0) { k.fd = raw_accept(k.lfd); if (!k.p.alive()) k.dead("before it connected"); if (now_us() - t > 20000000) c.soft_fail("the client does not connect"); usleep(200); }
	size_t toff = 0, soff = 0; std::string got; int64_t next = 0; t = now_us(); bool busy = end == E_EOF_BUSY; size_t stop_at = busy ? r.below(said.size() + 1) : said.size();
	auto pull = [&]() { char b[16384]; ssize_t n = precv(k.fd, b, sizeof b); if (n > 0) { got.append(b, (size_t)n); t = now_us(); if (got.size() > want_server.size() || want_server.compare(0, got.size(), got)) c.fail("the server received something that was not typed, or in another form, within its first %zu bytes", got.size()); } return n; };
	auto compare = [&](bool final) {
		if (!chat) { if (k.shown.size() > soff || want_shown.compare(0, k.shown.size(), k.shown)) { size_t i = 0; while (i < k.shown.size() && k.shown[i] == want_shown[i]) i++; c.fail("byte %zu shown is not what arrived", i); } }
		else if (!binary) for (size_t i = 0; i < k.rec.size(); i++) { if (i >= want_rec.size()) c.fail("more messages are shown than arrived"); if (k.rec[i] != want_rec[i]) c.fail("message %zu (%zu bytes) is shown as \"%.60s\" (%zu bytes)", i, want_rec[i].size(), k.rec[i].c_str(), k.rec[i].size()); }
		if (final) { if (!chat && k.shown.size() != want_shown.size()) c.fail("%zu of %zu bytes are shown", k.shown.size(), want_shown.size()); if (chat && !binary && k.rec.size() != want_rec.size()) c.fail("%zu of %zu messages are shown", k.rec.size(), want_rec.size()); } };
	for (;;) {
		int64_t now = now_us(); if (!k.p.alive()) k.dead("while it is in use");
		if (soff < stop_at && now >= next) { size_t n = std::min({ cut, stop_at - soff, (size_t)60000 }); ssize_t w = psend(k.fd, said.data() + soff, n); if (w > 0) { soff += (size_t)w; t = now; next = now + pause; } else if (w < 0 && errno != EAGAIN) { if (!k.p.alive()) k.dead("while it is in use"); c.fail("the client closed the connection"); } }
		if (toff < typed.size()) { ssize_t w = write(k.p.stdin_fd, typed.data() + toff, std::min(tcut, typed.size() - toff)); if (w > 0) { toff += (size_t)w; t = now; } }
		ssize_t n = pull(); if (raw_eof(n)) { if (!k.p.alive()) k.dead("while it is in use"); usleep(50000); if (!k.p.alive()) k.dead("while it is in use"); c.fail("the client closed the connection"); }
		size_t before = k.shown.size() + k.rec.size(); k.read_log(); compare(false); if (before != k.shown.size() + k.rec.size()) t = now;
		if (toff == typed.size() && soff == stop_at && (busy || (got.size() == want_server.size() && (chat ? binary ? true : k.rec.size() == want_rec.size() : k.shown.size() == want_shown.size())))) break;
		if (now - t > 8000000) c.fail("it stays like this: %zu of %zu typed bytes reached the server; %zu of %zu messages, %zu of %zu bytes are shown, all of them have arrived", got.size(), want_server.size(), k.rec.size(), want_rec.size(), k.shown.size(), want_shown.size());
		usleep(chat || k.shown.size() == soff ? 60 : 20);
	}
	if (chat && binary && !busy) { std::string s = "the-end"; said = packet(s, 1); psend(k.fd, said.data(), said.size()); t = now_us(); do { k.read_log(); if (!k.p.alive()) k.dead("after binary messages"); if (now_us() - t > 8000000) c.fail("a message after %u binary ones is not shown", binary); usleep(100); } while (k.rec.empty() || k.rec.back() != s); }
	if (end == E_PARTIAL) { std::string s = packet(text(r, 1 + r.below(3000)), 3); psend(k.fd, s.data(), 1 + r.below(s.size() - 1)); usleep((useconds_t)r.below(2000)); }
	switch (end) { case E_EOF: case E_EOF_BUSY: k.p.end_stdin(); break; case E_CLOSE: case E_PARTIAL: shutdown(k.fd, SHUT_WR); break; default: raw_reset(k.fd); k.fd = -1; break; }
	t = now_us(); bool eof = k.fd < 0; while (k.p.alive()) { if (end == E_RESET) { int f = raw_accept(k.lfd); if (f >= 0) raw_reset(f); }	/* reset before it noticed that it was connected: it tries again */ if (!eof) { ssize_t n = pull(); if (raw_eof(n)) eof = true; } if (busy && soff < said.size() && !eof) { ssize_t w = psend(k.fd, said.data() + soff, std::min(cut, said.size() - soff)); if (w > 0) soff += (size_t)w; } if (now_us() - t > 10000000) c.soft_fail("the client does not end %s", end == E_EOF || end == E_EOF_BUSY ? "at the end of its input" : "though its server closed the connection"); usleep(100); }
	if (!WIFEXITED(k.p.status) || WEXITSTATUS(k.p.status)) c.fail("%s: %s", end == E_EOF || end == E_EOF_BUSY ? "at the end of its input" : "when its server closed the connection", k.p.why().c_str());
	if (busy && !eof) for (;;) { ssize_t n = pull(); if (n > 0) continue; if (raw_eof(n)) break; if (now_us() - t > 10000000) break; usleep(100); }
	if (busy && got.size() != want_server.size() && soff == stop_at) c.fail("%zu of %zu typed bytes reached the server before the end of the input ended the client", got.size(), want_server.size());
	k.read_log(); if (!busy && !binary) compare(true); if ((end == E_CLOSE || end == E_PARTIAL) && !k.closed_note) c.fail("the end of the connection is not shown");
	c.note("typed=%u lines (%u empty) said=%u messages, %zu bytes, in pieces of %zu, big=%u binary=%u end=%d%s", lines, empty, msgs, want_shown.size(), cut, big, binary, end, refused ? " refused first" : "");
	if (big) c.label("message above 1000 bytes"); if (binary) c.label("binary message"); if (cut < 5) c.label("small pieces"); if (refused) c.label("refused first"); static const char* en[] = { "end of input", "server closes", "server resets", "end of input while busy", "cut off in a packet" }; c.label(en[end]); if (lines > 1 && msgs > 1) c.nontrivial();
}
VH_PROP(chat_client, 3000, 60000, 90000, false, 16) { run(c, true); }
VH_PROP(echo_client, 2000, 40000, 90000, false, 16) { run(c, false); }
int main(int argc, char** argv)
{
	signal(SIGPIPE, SIG_IGN); vh::property_id = "C36"; vh::child_init = mute;
	vh::nontrivial_rule = "a program run against a scripted server: generated typed lines, messages of 0..65535 bytes cut into generated pieces, binary content, refused first attempts, five ways to end; non-trivial = more than one line typed and more than one message";
	vh::assumptions = { "loopback TCP of this kernel", "what the client shows is read from its log file", "lines of at most 255 characters" };
	return vh::main(argc, argv);
}
