// C34: clocks, sleeping, names and sizes. The clocks of the process are replaced by generated ones.
#include <cy_core.h>
#include <utility/cyu_string_util.h>
#include "vh.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <math.h>
#include <signal.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using namespace cyclone;

typedef __int128 ns_t;
static const int64_t G = 1000000000;
// ---- generated clocks: every read returns the current value and then moves on ----
struct Clock { ns_t now; ns_t first, last; unsigned reads; };
static bool g_fake; static Clock g_mono, g_real; static std::vector<int64_t> g_step; static size_t g_at;
static ns_t tick(Clock& k) { ns_t v = k.now; if (!k.reads) k.first = v; k.last = v; k.reads++; if (!g_step.empty()) { k.now += g_step[g_at % g_step.size()]; g_at++; } return v; }
static ns_t sys_clock(int id) { struct timespec t; syscall(SYS_clock_gettime, id, &t); return (ns_t)t.tv_sec * G + t.tv_nsec; }
static bool is_real(clockid_t id) { return id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE; }
static bool is_mono(clockid_t id) { return id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME; }
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) { if (!g_fake || !(is_real(id) || is_mono(id))) return (int)syscall(SYS_clock_gettime, id, t); ns_t v = tick(is_real(id) ? g_real : g_mono); t->tv_sec = (time_t)(v / G); t->tv_nsec = (long)(v % G); return 0; }
int gettimeofday(struct timeval* t, void*) noexcept { ns_t v = g_fake ? tick(g_real) : sys_clock(CLOCK_REALTIME); if (t) { t->tv_sec = (time_t)(v / G); t->tv_usec = (suseconds_t)(v % G / 1000); } return 0; }
time_t time(time_t* p) noexcept { ns_t v = g_fake ? tick(g_real) : sys_clock(CLOCK_REALTIME); time_t t = (time_t)(v / G); if (p) *p = t; return t; }
}
struct Fake { Fake() { g_mono.reads = g_real.reads = 0; g_fake = true; } ~Fake() { g_fake = false; } };
static ns_t gen_ns(vh::Ctx& c, int64_t max_s)
{
	int64_t s = (int64_t)c.size(0, (size_t)max_s, { 0, 1, 60, 3600, 86400 }); int64_t n = c.pick<int64_t>({ (int64_t)c.below((uint64_t)G), 0, 1, 999, 1000, 1001, 500000000, 999999000, 999999999 });
	return (ns_t)s * G + n;
}

// elapsed microseconds since the first call; microseconds since the epoch
VH_PROP(clocks, 20000, 400000, 10000, true, 0)
{
	g_mono.now = gen_ns(c, 2000000000) + 1; g_real.now = gen_ns(c, 4000000000ll); g_step.clear(); for (int i = 0; i < 4; i++) g_step.push_back((int64_t)c.pick<uint64_t>({ 0, 1, c.below(2000), c.below(3000000) })); g_at = 0;
	ns_t b0 = 0, b1 = 0; bool first = true; int64_t prev = 0; unsigned n = 0; bool borrow = false;
	do {
		if (!first) { ns_t d = c.chance(1, 2) ? (ns_t)c.below((uint64_t)3 * G) : gen_ns(c, 1000000000); g_mono.now += d; }
		if (c.chance(1, 3)) g_real.now = gen_ns(c, 4000000000ll); else g_real.now += (ns_t)c.below((uint64_t)2 * G);
		int64_t p; { Fake f; p = sys_api::performance_time_now(); } Clock k = g_mono;
		VH_CHECK(c, k.reads > 0 || g_real.reads == 0, "performance_time_now follows a clock that can be set");
		VH_CHECK(c, k.reads > 0, "performance_time_now reads no clock");
		if (first) { b0 = k.first; b1 = k.last; first = false; }
		ns_t lo = k.first - b1, hi = k.last - b0;
		VH_CHECK(c, (ns_t)p * 1000 > lo - 1000 && (ns_t)p * 1000 < hi + 1000, "performance_time_now is %lld us with %lld..%lld ns passed since the first call (clock started at %lld.%09lld, is %lld.%09lld)", (long long)p, (long long)lo, (long long)hi, (long long)(b0 / G), (long long)(b0 % G), (long long)(k.first / G), (long long)(k.first % G));
		VH_CHECK(c, p >= prev, "performance_time_now went back from %lld to %lld", (long long)prev, (long long)p); prev = p; if (k.first % G < b1 % G) borrow = true;
		int64_t u; { Fake f; u = sys_api::utc_time_now(); } k = g_real; if (!k.reads) { k.last = sys_clock(CLOCK_REALTIME); k.first = k.last - G; }
		VH_CHECK(c, (ns_t)u * 1000 > k.first - 1000 && (ns_t)u * 1000 < k.last + 1000, "utc_time_now is %lld us at %lld.%09lld s", (long long)u, (long long)(k.first / G), (long long)(k.first % G)); n++;
	} while (c.more(6));
	c.note("%u readings, last %lld us", n, (long long)prev); if (borrow) c.label("borrow"); if (n > 1) c.nontrivial();
}

// local time is strftime of the local broken-down time, within the buffer
VH_PROP(local_time, 20000, 200000, 10000, true, 0)
{
	static const char* zones[] = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0530>-5:30", "<-12>12", "<+14>-14", "CET-1CEST,M3.5.0,M10.5.0/3" }; const char* z = zones[c.below(6)]; setenv("TZ", z, 1); tzset();
	std::string f; static const char* parts[] = { "%Y", "%m", "%d", "%H", "%M", "%S", "-", "_", ":", "%%", "%j", "%y", "%F %T", "%z", "log ", "%a" }; do f += parts[c.below(16)]; while (c.more(5) && f.size() < 80);
	g_real.now = gen_ns(c, 4000000000ll); g_step.assign(1, (int64_t)c.pick<uint64_t>({ 0, 1000, c.below(1000000) })); g_at = 0;
	char w[1024]; struct tm tm; time_t t = (time_t)(g_real.now / G); localtime_r(&t, &tm); size_t wn = strftime(w, sizeof w, f.c_str(), &tm);
	size_t n = c.size(1, 200, { wn, wn + 1, wn + 2, 20 }); char* d = (char*)malloc(n); memset(d, 0x55, n); { Fake k; sys_api::local_time_now(d, n, f.c_str()); }
	std::vector<std::string> ok; for (time_t s = (time_t)(g_real.first / G); g_real.reads && s <= (time_t)(g_real.last / G) && ok.size() < 3; s++) { localtime_r(&s, &tm); strftime(w, sizeof w, f.c_str(), &tm); ok.push_back(w); }
	std::string got(d, strnlen(d, n)); bool term = got.size() < n; free(d);
	if (wn < n && g_real.reads) { bool m = false; for (auto& s : ok) if (s == got) m = true; VH_CHECK(c, term && m, "local_time_now(\"%s\") in %s at %lld is \"%s\", expected \"%s\"", f.c_str(), z, (long long)t, got.c_str(), ok.empty() ? "" : ok[0].c_str()); }
	else c.label("too-small");
	c.note("%s %s %zu -> %s", z, f.c_str(), n, wn < n ? got.c_str() : "-"); if (wn < n) c.nontrivial();
}

// a sleep lasts at least as long as asked, whatever signals arrive
static volatile sig_atomic_t g_ticks; static void on_tick(int) { g_ticks = g_ticks + 1; }
VH_PROP(sleeping, 6000, 20000, 20000, false, 0)
{
	int ms = (int)c.pick<size_t>({ c.size(0, 30), 0, 1, 5, 20 }); bool sig = c.chance(2, 3); struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = c.chance(1, 2) ? SA_RESTART : 0; g_ticks = 0;
	sigaction(SIGALRM, &sa, &old); if (sig) { suseconds_t us = (suseconds_t)(500 + c.below(8000)); itimerval it = { { 0, us }, { 0, us } }; setitimer(ITIMER_REAL, &it, nullptr); }
	ns_t t = sys_clock(CLOCK_MONOTONIC); sys_api::thread_sleep(ms); ns_t e = sys_clock(CLOCK_MONOTONIC) - t; itimerval zero = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_REAL, &zero, nullptr); sigaction(SIGALRM, &old, nullptr);
	VH_CHECK(c, e >= (ns_t)ms * 1000000 - 50000, "thread_sleep(%d) lasted %lld us (%d signals)", ms, (long long)(e / 1000), (int)g_ticks);
	if (e > (ns_t)ms * 1000000 + (ns_t)5 * G) c.soft_fail("thread_sleep(%d) lasted %lld us", ms, (long long)(e / 1000));
	c.note("%d ms, %d signals -> %lld us", ms, (int)g_ticks, (long long)(e / 1000)); if (sig && g_ticks) c.label("signals"); if (ms) c.nontrivial();
}

// a size as text: two decimals, of the largest unit that fits
VH_PROP(sizes, 3000000, 8000000, 10000, false, 0)
{
	bool fl = c.chance(1, 2); double v; std::string s; unsigned k = (unsigned)c.below(64); uint64_t n = c.pick<uint64_t>({ c.below(5000), c.raw() >> k, 1ull << k, (1ull << k) - 1, (1ull << k) + (1ull << k >> 3), 1024, 1048576, 1073741824 });
	if (fl) { float f = (float)n; if (n < (1ull << 30)) f += (float)c.below(1000) / 1000.0f; v = f; s = string_util::size_to_string(f); } else { v = (double)n; s = string_util::size_to_string((size_t)n); }
	char* e = nullptr; double m = strtod(s.c_str(), &e); std::string u = e ? e : ""; double x = u == " " ? 1 : u == " KB" ? 1024 : u == " MB" ? 1048576 : u == " GB" ? 1073741824.0 : 0;
	VH_CHECK(c, x > 0, "size_to_string(%.3f) is \"%s\"", v, s.c_str()); size_t dot = s.find('.'); VH_CHECK(c, dot != std::string::npos && dot > 0 && s.find(' ') == dot + 3, "size_to_string(%.3f) is \"%s\": not two decimals", v, s.c_str());
	VH_CHECK(c, fabs(m * x - v) <= 0.00501 * x + v * 1e-6, "size_to_string(%.3f) is \"%s\"", v, s.c_str());
	double lo = x == 1 ? 0 : x, hi = x == 1073741824.0 ? 1e30 : x * 1024; VH_CHECK(c, v >= lo * (1 - 1e-6) && v <= hi * (1 + 1e-6), "size_to_string(%.3f) is \"%s\": not the largest unit", v, s.c_str());
	c.note("%.3f -> %s", v, s.c_str()); if (v >= 1024) c.nontrivial();
}

// the name of the program, in a buffer of any size, under any path
static int rm_one(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
VH_PROP(module_name, 4000, 20000, 20000, false, 0)
{
	const char* t = getenv("VH_TMP"); std::string d = std::string(t ? t : "/tmp") + "/name-XXXXXX"; std::vector<char> b(d.begin(), d.end()); b.push_back(0); VH_CHECK(c, mkdtemp(b.data()), "harness: mkdtemp"); d = b.data(); struct RM { std::string d; ~RM() { nftw(d.c_str(), rm_one, 16, FTW_DEPTH | FTW_PHYS); } } rmd{ d };
	size_t want = c.size(0, 3000, { 0, 230, 250, 256, 260, 1000 }); std::string p = d; while (p.size() < want) { size_t k = 1 + c.below(120); std::string e; for (size_t i = 0; i < k; i++) e += "abcdefgh./ x"[i ? c.below(9) : c.below(8)]; for (auto& ch : e) if (ch == '/') ch = '_'; p += "/" + e; VH_CHECK(c, mkdir(p.c_str(), 0700) == 0 || errno == EEXIST, "harness: mkdir"); }
	size_t nl = c.size(1, 200, { 30, 31, 32, 33, 64 }); std::string name; for (size_t i = 0; i < nl; i++) name += "abcdefgh.- _%x"[i ? c.below(14) : c.below(8)]; p += "/" + name; size_t n = c.size(1, 256, { 32, nl, nl + 1, nl - 1 ? nl - 1 : 1 });
	char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); VH_CHECK(c, sl > 0, "harness: readlink"); self[sl] = 0;
	// a copy beside the cases of this process, linked into place
	static std::string copy; static pid_t owner; if (owner != getpid() || access(copy.c_str(), X_OK)) { owner = getpid(); copy = std::string(t ? t : "/tmp") + vh::sfmt("/self-%d", owner); int i = open(self, O_RDONLY | O_CLOEXEC), o = open(copy.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0700); VH_CHECK(c, i >= 0 && o >= 0, "harness: copy"); static char buf[1 << 16]; ssize_t k; while ((k = read(i, buf, sizeof buf)) > 0) if (::write(o, buf, (size_t)k) != k) c.fail("harness: copy"); close(i); close(o); }
	VH_CHECK(c, link(copy.c_str(), p.c_str()) == 0, "harness: link %d", errno);
	int pf[2]; VH_CHECK(c, pipe2(pf, O_CLOEXEC) == 0, "harness: pipe"); std::string ns = vh::sfmt("%zu", n); char* av[] = { (char*)p.c_str(), (char*)"--module-name", (char*)ns.c_str(), nullptr };
	pid_t pid = fork(); if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(pf[1], 1); int nul = open("/dev/null", O_RDWR); dup2(nul, 0); if (!getenv("VH_SHOW")) dup2(nul, 2); execv(p.c_str(), av); _exit(126); }
	close(pf[1]); std::string got; char rb[4096]; ssize_t k; while ((k = read(pf[0], rb, sizeof rb)) > 0) got.append(rb, (size_t)k); close(pf[0]); int st = 0; waitpid(pid, &st, 0);
	VH_CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) != 126, "harness: exec"); VH_CHECK(c, WEXITSTATUS(st) == 0 && got.size() >= 1, "process_get_module_name into %zu bytes fails for a name of %zu in a path of %zu bytes", n, nl, p.size());
	bool term = got[0] == 'T'; got.erase(0, 1); std::string exp = name.substr(0, n - 1);
	VH_CHECK(c, term, "process_get_module_name into %zu bytes is not terminated for a name of %zu bytes", n, nl); VH_CHECK(c, got == exp, "process_get_module_name into %zu bytes is \"%s\", expected \"%s\" (path of %zu bytes)", n, got.c_str(), exp.c_str(), p.size());
	c.note("path %zu name %zu into %zu", p.size(), nl, n); if (nl >= n) c.label("truncated"); if (p.size() >= 256) c.label("long-path"); c.nontrivial();
}
static int child_name(size_t n)
{
	char* d = (char*)malloc(n); memset(d, 0x55, n); sys_api::process_get_module_name(d, n); std::string o(1, memchr(d, 0, n) ? 'T' : 'U'); o.append(d, strnlen(d, n)); free(d); return ::write(1, o.data(), o.size()) == (ssize_t)o.size() ? 0 : 3;
}

int main(int argc, char** argv)
{
	if (argc == 3 && !strcmp(argv[1], "--module-name")) return child_name((size_t)atoi(argv[2]));
	vh::property_id = "C34";
	vh::nontrivial_rule = "clocks: at least two readings; local_time: the text fits; sleeping: more than 0 ms; sizes: at least one KB; module_name: every case";
	return vh::main(argc, argv);
}
