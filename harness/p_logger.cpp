// C28: the log files and the mirrored standard streams are re-parsed record by record.
#include <cy_core.h>
#include "vh.h"
#ifdef SCHED
#include "vsched.h"
#endif
#include <deque>
#include <map>
#include <set>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include <ftw.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <string.h>
#include <sys/stat.h>
using namespace cyclone;

struct Msg { LOG_LEVEL level; std::string text; int kind; };	// what disk_log is asked to write
static const char* LV[] = { "[T]", "[D]", "[I]", "[W]", "[E]", "[F]" };

static std::string slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

// capture of the standard streams
struct Capture {
	int o1, o2; std::string p1, p2; bool on = true;
	Capture(const std::string& d) : p1(d + "/stdout"), p2(d + "/stderr") {
		fflush(stdout); fflush(stderr); o1 = dup(1); o2 = dup(2);
		int a = open(p1.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0600), b = open(p2.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0600);
		dup2(a, 1); dup2(b, 2); close(a); close(b);
	}
	void end() { if (!on) return; on = false; fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); }
	~Capture() { end(); }
};

static void emit(const Msg& m)
{
	switch (m.kind) {
	case 0: disk_log(m.level, "%s", m.text.c_str()); break;
	case 1: { size_t h = m.text.size() / 2; disk_log(m.level, "%.*s%s", (int)h, m.text.c_str(), m.text.c_str() + h); break; }
	default: disk_log(m.level, m.text.c_str()); break;	// as the format itself (no % inside)
	}
}
static Msg gen(vh::Ctx& c, unsigned who, unsigned i)
{
	Msg m; m.level = (LOG_LEVEL)c.below(L_MAXIMUM_LEVEL); m.kind = (int)c.below(3);
	size_t n = c.size(0, 9000, { 1, 80, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096 });
	m.text = vh::sfmt("<%u.%u>", who, i);
	unsigned style = (unsigned)c.below(4); vh::Rng r = c.rng();
	if (n < m.text.size()) { if (n == 0) m.text.clear(); }
	else while (m.text.size() < n) {
		if (style == 0) m.text += (char)('a' + m.text.size() % 26);
		else if (style == 1) m.text += (char)(1 + r.below(255));
		else if (style == 2) m.text += "%s%n%d\\"[r.below(7)];
		else m.text += "\n2020_01_01-00:00:00 [F] [x] "[r.below(29)];
	}
	if (m.kind == 2) for (auto& ch : m.text) if (ch == '%') ch = '#';
	return m;
}
// consume one record; returns thread name and level, leaves pos at the message
static bool head(const std::string& s, size_t& pos, time_t t0, time_t t1, int& lv, std::string& name, std::string& err)
{
	static const char pat[] = "dddd_dd_dd-dd:dd:dd [";
	if (pos + sizeof(pat) - 1 > s.size()) { err = "truncated record head"; return false; }
	for (size_t i = 0; i < sizeof(pat) - 1; i++) if (pat[i] == 'd' ? !isdigit((unsigned char)s[pos + i]) : pat[i] != s[pos + i]) { err = "not a record head: \"" + s.substr(pos, 60) + "\""; return false; }
	struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_isdst = -1;
	sscanf(s.c_str() + pos, "%d_%d_%d-%d:%d:%d", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec);
	tm.tm_year -= 1900; tm.tm_mon -= 1; time_t t = mktime(&tm);
	if (t < t0 - 1 || t > t1 + 1) { err = "record time is not the time of the call: " + s.substr(pos, 19); return false; }
	pos += 20;
	lv = -1; for (int i = 0; i < 6; i++) if (s.compare(pos, 3, LV[i]) == 0) lv = i;
	if (lv < 0 || s.compare(pos + 3, 2, " [") != 0) { err = "no level in \"" + s.substr(pos - 20, 60) + "\""; return false; }
	pos += 5; size_t e = s.find("] ", pos);
	if (e == std::string::npos) { err = "no thread name"; return false; }
	name = s.substr(pos, e - pos); pos = e + 2; return true;
}
static std::string parse(const char* what, const std::string& s, std::map<std::string, std::deque<Msg>>& want, time_t t0, time_t t1, bool all)
{
	size_t pos = 0;
	while (pos < s.size()) {
		int lv; std::string name, err;
		if (!head(s, pos, t0, t1, lv, name, err)) return vh::sfmt("%s: %s", what, err.c_str());
		auto it = want.find(name);
		if (it == want.end() || it->second.empty()) return vh::sfmt("%s: a record of thread [%s] nobody wrote", what, name.c_str());
		Msg& m = it->second.front();
		if (s.compare(pos, m.text.size(), m.text) != 0 || pos + m.text.size() >= s.size() || s[pos + m.text.size()] != '\n')
			return vh::sfmt("%s: thread [%s]: expected message of %zu bytes \"%.40s\", found \"%s\"", what, name.c_str(), m.text.size(), m.text.c_str(), s.substr(pos, 60).c_str());
		if (lv != m.level) return vh::sfmt("%s: level %s of a message written at level %s", what, LV[lv], LV[m.level]);
		pos += m.text.size() + 1; it->second.pop_front();
	}
	if (all) for (auto& w : want) if (!w.second.empty()) return vh::sfmt("%s: %zu messages of thread [%s] are missing, first \"%.40s\"", what, w.second.size(), w.first.c_str(), w.second.front().text.c_str());
	return "";
}
static std::string newdir()
{
	static unsigned n; const char* t = getenv("VH_TMP");
	std::string d = vh::sfmt("%s/log.%d.%u", t ? t : "/tmp", (int)getpid(), n++); mkdir(d.c_str(), 0700); return d;
}
static void rmdir_all(const std::string& d, const std::set<std::string>& files) { for (auto& f : files) unlink(f.c_str()); unlink((d + "/stdout").c_str()); unlink((d + "/stderr").c_str()); rmdir((d + "/sub").c_str()); rmdir(d.c_str()); }

#ifndef SCHED
// one thread: thresholds and file names change between messages
VH_PROP(sequential, 60000, 900000, 20000, false, 0)
{
	std::string d = newdir(), err; std::set<std::string> files; unsigned long_msgs = 0, dropped = 0, written = 0, switches = 0, bad_file = 0, lost = 0;
	{
		std::map<std::string, std::deque<Msg>> expect; std::deque<Msg> eo, ee;
		Capture cap(d); time_t t0 = time(nullptr);
		std::string cur; LOG_LEVEL th = L_DEBUG; set_log_threshold(th);
		auto sw = [&](unsigned k) {
			const char* names[] = { "a.log", "b.log", "c", "a.log.1" }; bool sub = k >= 4; std::string dir = sub ? d + "/sub" : d; 
			cur = dir + "/" + names[k % 4]; if (!set_log_filename((k & 1) ? (dir + "/").c_str() : dir.c_str(), names[k % 4])) err = "set_log_filename refuses " + cur; files.insert(cur); switches++;
			if (cur != get_log_filename()) err = vh::sfmt("get_log_filename is %s, set to %s", get_log_filename(), cur.c_str());
		};
		sw((unsigned)c.below(8));
		unsigned i = 0;
		while (c.more(12) && err.empty()) {
			switch (c.weighted({ 16, 2, 2, 1 })) {
			case 0: {
				Msg m = gen(c, 0, i++); emit(m);
				if (m.level >= th) { expect[cur].push_back(m); (m.level >= L_ERROR ? ee : eo).push_back(m); written++; if (m.text.size() >= 2048) long_msgs++; } else dropped++;
				if (c.chance(1, 3)) { std::map<std::string, std::deque<Msg>> w; w["<UNNAME>"] = expect[cur]; err = parse(cur.c_str(), slurp(cur), w, t0, time(nullptr), true); }
				break; }
			case 1: th = (LOG_LEVEL)c.below(L_MAXIMUM_LEVEL + 1); set_log_threshold(th); break;
			case 2: sw((unsigned)c.below(8)); if (c.chance(1, 5)) { if (set_log_filename("", "x") || set_log_filename(nullptr, "x") || set_log_filename(d.c_str(), "") || set_log_filename(d.c_str(), nullptr)) err = "an empty file name is accepted"; } break;
			case 3: {	// for a while the log file cannot be written; its messages may be lost, nothing else
				std::string keep = cur; size_t o0, e0; fflush(stdout); fflush(stderr); struct stat st; o0 = stat(cap.p1.c_str(), &st) ? 0 : (size_t)st.st_size; e0 = stat(cap.p2.c_str(), &st) ? 0 : (size_t)st.st_size; bad_file++;
				switch (c.below(3)) { case 0: set_log_filename("/", d.c_str() + 1); break; case 1: set_log_filename(cap.p1.c_str(), "x.log"); break; default: set_log_filename((d + "/none/deep").c_str(), "x.log"); break; }
				unsigned n = 1 + (unsigned)c.below(2); while (n--) { Msg m = gen(c, 1, bad_file); if (m.level >= th) lost++; emit(m); }
				fflush(stdout); fflush(stderr); if (truncate(cap.p1.c_str(), (off_t)o0) || truncate(cap.p2.c_str(), (off_t)e0)) err = "harness: truncate";
				if (!set_log_filename(keep.substr(0, keep.rfind('/')).c_str(), keep.c_str() + keep.rfind('/') + 1)) err = "set_log_filename refuses " + keep; break; }
			}
		}
		cap.end(); time_t t1 = time(nullptr);
		for (auto& f : files) if (err.empty()) { std::map<std::string, std::deque<Msg>> w; w["<UNNAME>"] = expect[f]; err = parse(f.c_str(), slurp(f), w, t0, t1, true); }
		if (err.empty()) { std::map<std::string, std::deque<Msg>> w; w["<UNNAME>"] = eo; err = parse("stdout", slurp(cap.p1), w, t0, t1, true); }
		if (err.empty()) { std::map<std::string, std::deque<Msg>> w; w["<UNNAME>"] = ee; err = parse("stderr", slurp(cap.p2), w, t0, t1, true); }
	}
	rmdir_all(d, files);
	c.note("written=%u dropped=%u long=%u file-switches=%u", written, dropped, long_msgs, switches);
	if (long_msgs) c.label("message over the static buffer"); if (switches > 1) c.label("file switched"); if (lost) c.label("logged while the file cannot be written");
	if (written > 2 && dropped) c.nontrivial();
	if (!err.empty()) c.fail("%s", err.c_str());
}
#endif

#ifndef SCHED
// the default file: named after the program, the time, the host and the process, in ./logs/, whatever these names are
extern "C" int gethostname(char* b, size_t n) noexcept { const char* h = getenv("VH_HOST"); if (!h) h = "host"; size_t l = strlen(h) + 1; memcpy(b, h, l < n ? l : n); if (l > n) { errno = ENAMETOOLONG; return -1; } return 0; }
static int rm_one(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
VH_PROP(default_file, 1500, 20000, 20000, false, 0)
{
	std::string d = newdir(); struct RM { std::string d; ~RM() { nftw(d.c_str(), rm_one, 16, FTW_DEPTH | FTW_PHYS); } } rmd{ d };
	std::string host, name; size_t hl = c.size(1, 64, { 30, 31, 32, 33, 64 }), nl = c.size(1, 120, { 30, 31, 32, 33 }); for (size_t i = 0; i < hl; i++) host += "abcdefgh.-9"[i ? c.below(11) : c.below(8)]; for (size_t i = 0; i < nl; i++) name += "ABCDEFGH_-9"[i ? c.below(11) : c.below(8)];
	static std::string copy; static pid_t owner; const char* t = getenv("VH_TMP"); if (owner != getpid() || access(copy.c_str(), X_OK)) { owner = getpid(); copy = vh::sfmt("%s/self-%d", t ? t : "/tmp", owner); std::string b = slurp("/proc/self/exe"); int o = open(copy.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0700); VH_CHECK(c, o >= 0 && write(o, b.data(), b.size()) == (ssize_t)b.size(), "harness: copy"); close(o); }
	std::string exe = d + "/" + name, msg = vh::sfmt("message %u", (unsigned)c.below(1000000)); VH_CHECK(c, link(copy.c_str(), exe.c_str()) == 0, "harness: link");
	char* av[] = { (char*)exe.c_str(), (char*)"--default-log", (char*)msg.c_str(), nullptr }; time_t t0 = time(nullptr); pid_t pid = fork();
	if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); if (!getenv("VH_SHOW")) dup2(n, 2); if (chdir(d.c_str())) _exit(126); setenv("VH_HOST", host.c_str(), 1); execv(exe.c_str(), av); _exit(126); }
	int st = 0; waitpid(pid, &st, 0); VH_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) != 126, "harness: exec"); VH_CHECK(c, WEXITSTATUS(st) == 0, "logging to the default file fails for a program name of %zu and a host name of %zu bytes", nl, hl);
	std::string f = slurp(d + "/name"); std::vector<std::string> have; if (DIR* x = opendir((d + "/logs").c_str())) { while (dirent* e = readdir(x)) if (e->d_name[0] != '.') have.push_back(e->d_name); closedir(x); }
	VH_CHECK(c, have.size() == 1 && f == "./logs/" + have[0], "get_log_filename is \"%s\", the directory has %zu files (%s)", f.c_str(), have.size(), have.empty() ? "" : have[0].c_str());
	std::string h = have[0], tail = vh::sfmt(".%d.log", pid); size_t k = 0; while (k < h.size() && k < name.size() && h[k] == name[k]) k++;
	VH_CHECK(c, k == name.size() || k >= 31, "the file \"%s\" does not name the program %s", h.c_str(), name.c_str());
	if (k < h.size() && h[k] != '.') k = std::min<size_t>(k, 31); VH_CHECK(c, h.size() > k + 17 + tail.size() && h[k] == '.' && h[k + 16] == '.' && h.compare(h.size() - tail.size(), tail.size(), tail) == 0, "the file name \"%s\" is not <%s>.<time>.<%s>%s", h.c_str(), name.c_str(), host.c_str(), tail.c_str());
	struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_isdst = -1; VH_CHECK(c, sscanf(h.c_str() + k + 1, "%4d%2d%2d-%2d%2d%2d", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec) == 6, "no time in \"%s\"", h.c_str()); tm.tm_year -= 1900; tm.tm_mon -= 1; time_t at = mktime(&tm); VH_CHECK(c, at >= t0 - 1 && at <= time(nullptr) + 1, "the time in \"%s\" is not that of the start", h.c_str());
	std::string hh = h.substr(k + 17, h.size() - k - 17 - tail.size()); VH_CHECK(c, !hh.empty() && host.compare(0, hh.size(), hh) == 0 && (hh == host || hh.size() >= 30), "the file \"%s\" names the host \"%s\", it is \"%s\"", h.c_str(), hh.c_str(), host.c_str());
	std::map<std::string, std::deque<Msg>> w; w["<UNNAME>"].push_back(Msg{ L_INFO, msg, 0 }); std::string err = parse(h.c_str(), slurp(d + "/logs/" + h), w, t0, time(nullptr), true); if (!err.empty()) c.fail("%s", err.c_str());
	c.note("name %zu host %zu", nl, hl); if (hl > 31) c.label("long host name"); if (nl > 31) c.label("long program name"); c.nontrivial();
}
static int child_log(const char* msg) { disk_log(L_INFO, "%s", msg); FILE* f = fopen("name", "w"); if (!f) return 3; fputs(get_log_filename(), f); return fclose(f) ? 4 : 0; }
#endif

struct Th { std::string name; std::vector<Msg> msgs; thread_t t; };
#ifdef SCHED
VH_PROP(concurrent_sched, 8000, 120000, 60000, true, 0)
#else
VH_PROP(concurrent, 10000, 150000, 30000, false, 4)
#endif
{
	std::string d = newdir(), err; std::set<std::string> files; unsigned total = 0, long_msgs = 0;
	unsigned T = (unsigned)c.range(2, 5); std::vector<Th> ts(T); LOG_LEVEL th = (LOG_LEVEL)c.below(3);
	for (unsigned k = 0; k < T; k++) { ts[k].name = vh::sfmt("thread-%u", k); unsigned n = (unsigned)c.range(1, 12); for (unsigned i = 0; i < n; i++) { ts[k].msgs.push_back(gen(c, k, i)); if (ts[k].msgs.back().level >= th) { total++; if (ts[k].msgs.back().text.size() >= 2048) long_msgs++; } } }
	bool switcher = c.chance(1, 3); unsigned nsw = (unsigned)c.range(1, 6);
#ifdef SCHED
	vsched::Params sp; sp.seed = c.raw(); sp.mean = (unsigned)c.pick({ 3, 10, 30, 100 }); sp.freeze_den = (unsigned)c.pick({ 0, 3, 8 });
#endif
	{
		Capture cap(d); time_t t0 = time(nullptr);
		set_log_threshold(th); set_log_filename(d.c_str(), "0.log"); files.insert(d + "/0.log");
#ifdef SCHED
		vsched::begin(sp);
#endif
		for (auto& t : ts) t.t = sys_api::thread_create([&t](void*) { for (auto& m : t.msgs) emit(m); }, nullptr, t.name.c_str());
		if (switcher) for (unsigned i = 1; i <= nsw; i++) { std::string n = vh::sfmt("%u.log", i); files.insert(d + "/" + n); set_log_filename(d.c_str(), n.c_str()); set_log_threshold(th); sys_api::thread_yield(); }
		for (auto& t : ts) sys_api::thread_join(t.t);
#ifdef SCHED
		vsched::end();
#endif
		cap.end(); time_t t1 = time(nullptr);
		std::map<std::string, std::deque<Msg>> wf, wo, we;
		for (auto& t : ts) for (auto& m : t.msgs) if (m.level >= th) { wf[t.name].push_back(m); (m.level >= L_ERROR ? we : wo)[t.name].push_back(m); }
		for (unsigned i = 0; i <= (switcher ? nsw : 0) && err.empty(); i++) { std::string f = vh::sfmt("%s/%u.log", d.c_str(), i); err = parse(vh::sfmt("%u.log", i).c_str(), slurp(f), wf, t0, t1, i == (switcher ? nsw : 0)); }
		if (err.empty()) err = parse("stdout", slurp(cap.p1), wo, t0, t1, true);
		if (err.empty()) err = parse("stderr", slurp(cap.p2), we, t0, t1, true);
	}
	rmdir_all(d, files);
	c.note("threads=%u messages=%u long=%u switcher=%d", T, total, long_msgs, (int)switcher);
	if (switcher) c.label("file switched meanwhile"); if (long_msgs) c.label("message over the static buffer");
	if (total > 4) c.nontrivial();
	if (!err.empty()) c.fail("%s", err.c_str());
}
int main(int argc, char** argv)
{
#ifndef SCHED
	if (argc == 3 && !strcmp(argv[1], "--default-log")) return child_log(argv[2]);
#endif
	vh::property_id = "C28";
	vh::nontrivial_rule = "messages (length 0..9000, any bytes, fake record heads) with random thresholds/files; non-trivial = sequential: some written and some dropped; concurrent: >4 records from 2..5 threads; default_file: every case";
	return vh::main(argc, argv);
}
