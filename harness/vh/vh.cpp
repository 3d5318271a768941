#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <algorithm>
#include <map>
#include <set>

namespace vh {

const char* property_id = "C00";
const char* nontrivial_rule = "";
std::vector<std::string> assumptions;
void(*child_init)() = nullptr;

static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
Register::Register(const Prop& p) { props().push_back(p); }

std::string sfmt(const char* fmt, ...)
{
	char buf[4096];
	va_list ap; va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	return buf;
}
std::string hex(const void* p, size_t n, size_t maxn)
{
	std::string s;
	for (size_t i = 0; i < n && i < maxn; i++) s += sfmt("%02x", ((const uint8_t*)p)[i]);
	if (n > maxn) s += "...";
	return s;
}

static double now_s()
{
	struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
	return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

// ------------------------------------------------------------------ shared area
static const size_t MAX_CHOICES = 1u << 20;
static const size_t MAX_NOTE = 1u << 15;
static const size_t MAX_LABELS = 160;
static const size_t MAX_HASHES = 1u << 21;
static const size_t MAX_SAMPLES = 3;
struct Shared {
	// current case
	volatile int status;	// 0 running/idle, 1 ok, 2 failed, 3 soft failed
	volatile int nontrivial;
	volatile uint64_t case_hash;
	volatile uint64_t nchoices;
	uint64_t choices[MAX_CHOICES];
	char msg[8192];
	volatile uint32_t note_len;
	char note[MAX_NOTE];
	// case label set (indices into labels)
	volatile uint32_t ncase_labels;
	uint16_t case_labels[64];
	// accumulated over cases (per worker)
	volatile uint64_t cur_case;
	volatile double cur_start;
	volatile uint64_t evaluations, nontrivials;
	volatile uint32_t nlabels;
	struct { char name[56]; uint64_t count; } labels[MAX_LABELS];
	volatile uint64_t nhashes;
	uint64_t hashes[MAX_HASHES];
	volatile uint32_t nsamples;
	char samples[MAX_SAMPLES][2048];
	volatile int stop;
};
static Shared* new_shared()
{
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return (Shared*)p;
}

// ------------------------------------------------------------------ Ctx
Ctx::Ctx(Shared* sh, uint64_t seed, const std::vector<uint64_t>* replay, bool th)
	: m_sh(sh), m_rng(seed), m_replay(replay), m_thorough(th)
{
	sh->status = 0; sh->nchoices = 0; sh->note_len = 0; sh->note[0] = 0; sh->msg[0] = 0; sh->ncase_labels = 0; sh->nontrivial = 0;
}
uint64_t Ctx::choice(uint64_t bound)
{
	uint64_t v;
	if (m_replay) v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
	else v = m_rng.next();
	m_pos++;
	if (bound) v %= bound;
	uint64_t n = m_sh->nchoices;
	if (n < MAX_CHOICES) { m_sh->choices[n] = v; m_sh->nchoices = n + 1; }
	m_hash = (m_hash ^ v) * 1099511628211ull; m_hash ^= m_hash >> 29;
	return v;
}
uint64_t Ctx::below(uint64_t n) { return n <= 1 ? 0 : choice(n); }
uint64_t Ctx::raw() { return choice(0); }
int64_t Ctx::range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
bool Ctx::chance(unsigned num, unsigned den) { return choice(den) >= den - num; }
bool Ctx::more(unsigned mean) { return choice(mean + 1) != 0; }
size_t Ctx::weighted(std::initializer_list<unsigned> w)
{
	uint64_t tot = 0; for (unsigned x : w) tot += x;
	uint64_t v = below(tot); size_t i = 0;
	for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
	return 0;
}
size_t Ctx::size(size_t lo, size_t hi, std::initializer_list<size_t> edges)
{
	if (hi <= lo) return lo;
	uint64_t mode = choice(8);
	if (mode < 2 || (mode < 5 && edges.size() == 0)) {
		size_t span = hi - lo; if (span > 16) span = 16;
		return lo + below(span + 1);
	}
	if (mode < 5) {
		size_t e = *(edges.begin() + below(edges.size()));
		int64_t v = (int64_t)e + range(0, 4) - 2;
		if (v < (int64_t)lo) v = (int64_t)lo;
		if (v > (int64_t)hi) v = (int64_t)hi;
		return (size_t)v;
	}
	if (mode == 7) return lo + below(hi - lo + 1);
	unsigned bits = 0; while (bits < 63 && ((uint64_t)1 << bits) <= (uint64_t)(hi - lo)) bits++;
	unsigned b = (unsigned)below(bits + 1);
	size_t v = below((uint64_t)1 << b);
	return std::min(hi, lo + v);
}
void Ctx::fill(uint8_t* p, size_t n)
{
	uint64_t s = raw();
	Rng r(s);
	switch (s % 8) {
	case 0: memset(p, 0, n); break;								// constant
	case 1: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i + (s >> 8)); break;	// counter
	case 2: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)('a' + r.below(2)); break;	// tiny alphabet
	case 3: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(0x20 + r.below(95)); break;	// printable
	default: for (size_t i = 0; i < n; i++) p[i] = (uint8_t)r.next(); break;
	}
}
void Ctx::label(const char* name)
{
	Shared* s = m_sh;
	uint32_t i; for (i = 0; i < s->nlabels; i++) if (!strncmp(s->labels[i].name, name, sizeof(s->labels[i].name) - 1)) break;
	if (i == s->nlabels) {
		if (i >= MAX_LABELS) return;
		strncpy(s->labels[i].name, name, sizeof(s->labels[i].name) - 1);
		s->labels[i].count = 0;
		s->nlabels = i + 1;
	}
	for (uint32_t k = 0; k < s->ncase_labels; k++) if (s->case_labels[k] == i) return;
	if (s->ncase_labels < 64) { s->case_labels[s->ncase_labels] = (uint16_t)i; s->ncase_labels = s->ncase_labels + 1; }
	__sync_fetch_and_add(&s->labels[i].count, 1);
}
void Ctx::note(const char* fmt, ...)
{
	uint32_t n = m_sh->note_len;
	if (n + 2 >= MAX_NOTE) return;
	va_list ap; va_start(ap, fmt);
	int k = vsnprintf(m_sh->note + n, MAX_NOTE - n - 1, fmt, ap);
	va_end(ap);
	if (k > 0) { uint32_t e = n + (uint32_t)k; if (e > MAX_NOTE - 2) e = MAX_NOTE - 2; m_sh->note[e] = 0; m_sh->note_len = e; }
}
// unwinding would destroy what other threads of the case still use: then the process ends here
static bool alone() { unsigned n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return false; while (struct dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n <= 1; }
void Ctx::fail(const char* fmt, ...)
{
	Failure f; f.soft = false; char b[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
	f.msg = b; if (!alone()) die(f.soft, b); throw f;
}
void Ctx::soft_fail(const char* fmt, ...)
{
	Failure f; f.soft = true; char b[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
	f.msg = b; if (!alone()) die(f.soft, b); throw f;
}

// ------------------------------------------------------------------ running one case
static bool g_thorough = false;
static Shared* g_current = nullptr;
void die(bool soft, const char* msg)
{
	if (g_current) {
		strncpy(g_current->msg, msg, sizeof(g_current->msg) - 1);
		g_current->status = soft ? 3 : 2;
	}
	_exit(50 + (soft ? 2 : 1));
}
static int run_in_process(const Prop& p, Shared* sh, uint64_t seed, const std::vector<uint64_t>* replay)
{
	Ctx c(sh, seed, replay, g_thorough);
	g_current = sh;
	int st = 1;
	try { p.fn(c); }
	catch (Failure& f) {
		strncpy(sh->msg, f.msg.c_str(), sizeof(sh->msg) - 1);
		st = f.soft ? 3 : 2;
	}
	sh->case_hash = c.hash();
	sh->nontrivial = c.is_nontrivial();
	sh->status = st;
	return st;
}

enum OutKind { OK, FAIL, SOFT, CRASH, HANG };
struct Outcome {
	OutKind kind = OK;
	std::string msg;
	std::string note;
	std::string io;
	std::vector<uint64_t> choices;
};
static const char* kind_name(OutKind k) { static const char* n[] = { "ok","fail","soft-fail","crash","hang" }; return n[k]; }

static std::string tmpdir()
{
	static std::string d;
	if (d.empty()) {
		const char* t = getenv("VH_TMP"); std::string base = t ? t : "/tmp";
		d = base + sfmt("/vh.%d", (int)getpid());
		mkdir(d.c_str(), 0777);
	}
	return d;
}
static std::string slurp(const std::string& path, size_t maxn)
{
	std::string s; FILE* f = fopen(path.c_str(), "rb"); if (!f) return s;
	char b[4096]; size_t n; while ((n = fread(b, 1, sizeof(b), f)) > 0 && s.size() < maxn) s.append(b, n);
	fclose(f); if (s.size() > maxn) s.resize(maxn);
	return s;
}
static void redirect_io(const std::string& path)
{
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0666);
	if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); if (fd > 2) close(fd); }
}
static void kill_group(pid_t pid) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }

// Fork, run the case in the child, watch it.
static Outcome exec_case(const Prop& p, Shared* sh, uint64_t seed, const std::vector<uint64_t>* replay, double timeout_mul, const std::string& iofile)
{
	Outcome o;
	sh->status = 0; sh->nchoices = 0; sh->note_len = 0; sh->note[0] = 0; sh->msg[0] = 0;
	fflush(stdout); fflush(stderr);
	pid_t parent = getpid();
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(3); }
	if (pid == 0) {
		setpgid(0, 0);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != parent) _exit(9);
		redirect_io(iofile);
		if (child_init) child_init();
		int st = run_in_process(p, sh, seed, replay);
		fflush(stdout); fflush(stderr);
		_exit(st == 1 ? 0 : 60 + st);
	}
	setpgid(pid, pid);
	double start = now_s(), limit = (double)p.timeout_ms / 1000.0 * timeout_mul, last = start;
	int ws = 0; bool hang = false; unsigned nap = 50;
	for (;;) {
		pid_t r = waitpid(pid, &ws, WNOHANG);
		if (r == pid) break;
		if (r < 0 && errno != EINTR) break;
		double t = now_s();
		// we were starved ourselves: do not charge that to the case
		if (t - last > 0.25) limit += (t - last);
		last = t;
		if (t - start > limit) { hang = true; kill_group(pid); waitpid(pid, &ws, 0); break; }
		usleep(nap); if (nap < 5000) nap += nap / 4 + 1;
	}
	kill(-pid, SIGKILL);
	o.choices.assign(sh->choices, sh->choices + sh->nchoices);
	o.note = std::string(sh->note, sh->note_len);
	int st = sh->status;
	if (hang) { o.kind = HANG; o.msg = sfmt("case did not finish within %.1f s", limit); }
	else if (st == 1 && WIFEXITED(ws) && WEXITSTATUS(ws) == 0) { o.kind = OK; }
	else if (st == 2) { o.kind = FAIL; o.msg = sh->msg; }
	else if (st == 3) { o.kind = SOFT; o.msg = sh->msg; }
	else {
		o.kind = CRASH;
		if (WIFSIGNALED(ws)) o.msg = sfmt("process killed by signal %d (%s)", WTERMSIG(ws), strsignal(WTERMSIG(ws)));
		else o.msg = sfmt("process exited with status %d before the case finished", WEXITSTATUS(ws));
		std::string io = slurp(iofile, 200000);
		size_t q = io.find("ERROR: AddressSanitizer"); if (q == std::string::npos) q = io.find("runtime error:");
		if (q == std::string::npos) q = io.find("Assertion");
		if (q == std::string::npos) q = io.find("terminate called");
		if (q != std::string::npos) {
			size_t b = io.rfind('\n', q); b = b == std::string::npos ? 0 : b + 1;
			o.msg += "\n" + io.substr(b, 1800);
		}
	}
	if (o.kind != OK) o.io = slurp(iofile, 6000);
	return o;
}

// ------------------------------------------------------------------ campaign
static uint64_t case_seed(uint64_t seed, const char* name, uint64_t i)
{
	uint64_t h = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
	for (const char* p = name; *p; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull;
	Rng r(h ^ (i * 0xD1B54A32D192ED03ull)); r.next();
	return r.next();
}
static void accumulate(Shared* sh)
{
	sh->evaluations = sh->evaluations + 1;
	if (sh->nontrivial) {
		sh->nontrivials = sh->nontrivials + 1;
		if (sh->nhashes < MAX_HASHES) { sh->hashes[sh->nhashes] = sh->case_hash; sh->nhashes = sh->nhashes + 1; }
		if (sh->nsamples < MAX_SAMPLES && sh->note_len > 0 && (sh->nsamples == 0 || sh->nontrivials % 7 == 0)) {
			strncpy(sh->samples[sh->nsamples], sh->note, sizeof(sh->samples[0]) - 1);
			sh->nsamples = sh->nsamples + 1;
		}
	}
}

struct PropResult {
	uint64_t evaluations = 0, nontrivials = 0, distinct = 0, planned = 0;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	double wall = 0; bool capped = false;
	unsigned unreproduced = 0;
	bool violated = false; std::string replay, msg;
};

static std::string g_replay_dir = "/tmp";
static std::set<uint64_t> g_skip_cases;

static void json_str(std::string& o, const std::string& s)
{
	o += '"';
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else if (ch == '\r') o += "\\r";
		else if (ch < 0x20 || ch >= 0x7f) o += sfmt("\\u%04x", ch);
		else o += (char)ch;
	}
	o += '"';
}
static std::string write_replay(const Prop& p, const Outcome& o, const std::string& tag)
{
	mkdir(g_replay_dir.c_str(), 0777);
	std::string path = g_replay_dir + sfmt("/%s-%s%s.replay", property_id, p.name, tag.c_str());
	FILE* f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); return path; }
	fprintf(f, "vh-replay 1\nproperty %s\nprop %s\ntier %s\nkind %s\nchoices %zu\n", property_id, p.name, g_thorough ? "thorough" : "quick", kind_name(o.kind), o.choices.size());
	for (size_t i = 0; i < o.choices.size(); i++) fprintf(f, "%llu%c", (unsigned long long)o.choices[i], i % 16 == 15 ? '\n' : ' ');
	fprintf(f, "\n--- what failed ---\n%s\n--- the case ---\n%s\n--- output ---\n%s\n", o.msg.c_str(), o.note.c_str(), o.io.c_str());
	fclose(f);
	return path;
}

static Outcome shrink(const Prop& p, Shared* sh, Outcome best, double budget_s, const std::string& io, unsigned tries_per)
{
	double t0 = now_s();
	unsigned execs = 0;
	auto try_one = [&](const std::vector<uint64_t>& cand) -> bool {
		if (now_s() - t0 > budget_s) return false;
		for (unsigned k = 0; k < tries_per; k++) {
			execs++;
			Outcome o = exec_case(p, sh, 0, &cand, 1.0, io);
			bool same = (o.kind == best.kind) || (o.kind != OK && best.kind != HANG && o.kind != HANG);
			if (o.kind != OK && same) {
				if (o.choices.size() > cand.size()) o.choices.resize(cand.size());
				if (o.choices.size() < best.choices.size() || (o.choices.size() == best.choices.size() && o.choices < best.choices)) { best = o; return true; }
				return false;
			}
		}
		return false;
	};
	bool progress = true;
	while (progress && now_s() - t0 < budget_s) {
		progress = false;
		// truncate + delete chunks
		for (size_t chunk = std::max<size_t>(best.choices.size() / 2, 1); ; chunk = chunk / 2) {
			for (size_t i = best.choices.size(); i-- > 0 && now_s() - t0 < budget_s; ) {
				if (i + chunk > best.choices.size()) continue;
				std::vector<uint64_t> c = best.choices;
				c.erase(c.begin() + (long)i, c.begin() + (long)(i + chunk));
				if (try_one(c)) progress = true;
				if (chunk > 1) { if (i < chunk / 2) break; i -= chunk / 2; }
			}
			if (chunk <= 1) break;
		}
		for (size_t i = 0; i < best.choices.size() && now_s() - t0 < budget_s; i++) {
			uint64_t v = best.choices[i];
			if (v == 0) continue;
			std::vector<uint64_t> c = best.choices; c[i] = 0;
			if (try_one(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = v;
			for (int it = 0; it < 12 && hi - lo > 1 && now_s() - t0 < budget_s; it++) {
				uint64_t mid = lo + (hi - lo) / 2;
				if (i >= best.choices.size()) break;
				c = best.choices; c[i] = mid;
				if (try_one(c)) { progress = true; hi = mid; } else lo = mid;
			}
		}
	}
	return best;
}

static int run_prop(const Prop& p, uint64_t seed, double budget, double scale, PropResult& R)
{
	double t0 = now_s();
	unsigned ncpu = (unsigned)sysconf(_SC_NPROCESSORS_ONLN); if (ncpu > 8) ncpu = 8; if (ncpu < 1) ncpu = 1;
	unsigned W = p.jobs ? p.jobs : ncpu;
	uint64_t total = (uint64_t)((double)(g_thorough ? p.thorough_cases : p.quick_cases) * scale);
	if (total < 1) total = 1;
	R.planned = total;
	if (W > total) W = (unsigned)total;
	std::vector<Shared*> sh(W);
	std::vector<pid_t> pid(W, -1);
	std::vector<uint64_t> nexti(W);
	std::vector<std::string> io(W);
	std::vector<double> wlast(W, 0);
	for (unsigned w = 0; w < W; w++) { sh[w] = new_shared(); nexti[w] = w; io[w] = tmpdir() + sfmt("/w%u.io", w); }
	Shared* rs = new_shared();
	std::string rio = tmpdir() + "/r.io";

	auto spawn = [&](unsigned w) {
		fflush(stdout); fflush(stderr);
		pid_t parent = getpid();
		pid_t c = fork();
		if (c < 0) { perror("fork"); exit(3); }
		if (c == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			if (getppid() != parent) _exit(9);
			if (!p.isolate) {
				setpgid(0, 0);
				redirect_io(io[w]);
				if (child_init) child_init();
			}
			for (uint64_t i = nexti[w]; i < total; i += W) {
				if (sh[w]->stop) _exit(0);
				sh[w]->cur_case = i; sh[w]->cur_start = now_s();
				uint64_t cs = case_seed(seed, p.name, i);
				if (p.isolate) {
					Outcome o = exec_case(p, sh[w], cs, nullptr, 1.0, io[w]);
					if (o.kind != OK) {
						// leave a marker for the parent
						strncpy(sh[w]->msg, o.msg.c_str(), sizeof(sh[w]->msg) - 1);
						_exit(50 + (int)o.kind);
					}
				} else {
					int st = run_in_process(p, sh[w], cs, nullptr);
					if (st != 1) _exit(50 + (st == 2 ? FAIL : SOFT));
				}
				accumulate(sh[w]);
			}
			_exit(0);
		}
		if (!p.isolate) setpgid(c, c);
		pid[w] = c;
	};
	for (unsigned w = 0; w < W; w++) { sh[w]->cur_start = now_s(); spawn(w); }

	int rc = 0;
	unsigned alive = W;
	double last = now_s();
	while (alive > 0) {
		bool any = false;
		for (unsigned w = 0; w < W; w++) {
			if (pid[w] < 0) continue;
			int ws = 0;
			pid_t r = waitpid(pid[w], &ws, WNOHANG);
			bool hang = false;
			if (r == 0 && !p.isolate) {
				double t = now_s();
				if (t - last > 0.25) for (unsigned k = 0; k < W; k++) wlast[k] += t - last;
				last = t;
				if (t - sh[w]->cur_start - wlast[w] > (double)p.timeout_ms / 1000.0) {
					hang = true; kill_group(pid[w]); waitpid(pid[w], &ws, 0);
				}
			}
			if (r == 0 && !hang) continue;
			any = true;
			if (!p.isolate) kill(-pid[w], SIGKILL);
			pid[w] = -1;
			if (!hang && WIFEXITED(ws) && WEXITSTATUS(ws) == 0) { alive--; continue; }
			if (!hang && p.isolate && !(WIFEXITED(ws) && WEXITSTATUS(ws) >= 50 && WEXITSTATUS(ws) <= 50 + (int)HANG)) {
				// the harness' own worker died: that is an error of the machinery, e.g. out of memory
				fprintf(stderr, "harness worker died (status 0x%x)\n", ws);
				for (unsigned k = 0; k < W; k++) if (pid[k] > 0) { kill_group(pid[k]); waitpid(pid[k], &ws, 0); }
				return 3;
			}
			// ---- a failing case
			uint64_t ci = sh[w]->cur_case;
			OutKind k0 = hang ? HANG : (WIFEXITED(ws) && WEXITSTATUS(ws) >= 50 && WEXITSTATUS(ws) <= 50 + (int)HANG) ? (OutKind)(WEXITSTATUS(ws) - 50) : CRASH;
			std::string msg0 = (k0 == FAIL || k0 == SOFT || p.isolate) ? std::string(sh[w]->msg) : std::string();
			std::vector<uint64_t> ch0(sh[w]->choices, sh[w]->choices + sh[w]->nchoices);
			std::string note0(sh[w]->note, sh[w]->note_len);
			std::string io0 = slurp(io[w], 6000);
			if (k0 == CRASH && msg0.empty()) msg0 = "worker process died\n" + io0.substr(0, 3000);
			fprintf(stderr, "[vh] %s case %llu: %s: %s\n", p.name, (unsigned long long)ci, kind_name(k0), msg0.substr(0, 600).c_str());
			// ---- confirm: replay it
			bool soft = (k0 == SOFT || k0 == HANG);
			if (soft) for (unsigned k = 0; k < W; k++) if (pid[k] > 0 && k != w) { kill(pid[k], SIGSTOP); }
			unsigned tries = soft ? 6 : (p.isolate ? 40 : 5), bad = 0;
			double ct0 = now_s();
			Outcome conf; conf.kind = k0; conf.msg = msg0; conf.note = note0; conf.choices = ch0; conf.io = io0;
			bool have = false;
			uint64_t cs = case_seed(seed, p.name, ci);
			unsigned done = 0;
			for (unsigned k = 0; k < tries; k++) {
				if (now_s() - ct0 > 150 && k >= 3) break;
				Outcome o = exec_case(p, rs, cs, nullptr, soft ? 1.5 : 1.0, rio);
				done++;
				if (o.kind != OK) { bad++; if (!have) { conf = o; have = true; } if (bad >= 3 || (bad >= 2 && k >= 2) || (soft && o.kind == HANG && bad >= 2)) break; }
			}
			for (unsigned k = 0; k < W; k++) if (pid[k] > 0 && k != w) kill(pid[k], SIGCONT);
			for (unsigned k = 0; k < W; k++) wlast[k] += now_s() - ct0;
			last = now_s();
			bool confirmed = soft ? (bad >= 2) : (bad >= 1);
			if (!confirmed) {
				R.unreproduced++;
				fprintf(stderr, "[vh] %s case %llu: not reproduced (%u of %u replays failed)\n", p.name, (unsigned long long)ci, bad, done);
				if (!soft) {
					// keep it for inspection
					write_replay(p, conf, sfmt("-unreproduced%u", R.unreproduced));
					// two independent, unreproducible hard failures: a race we cannot pin down but real
					if (R.unreproduced >= 3) { confirmed = true; }
				}
			}
			if (confirmed) {
				for (unsigned k = 0; k < W; k++) { sh[k]->stop = 1; if (pid[k] > 0) { kill_group(pid[k]); int x; waitpid(pid[k], &x, 0); pid[k] = -1; } }
				Outcome best = conf;
				if (have) {
					double sb = (conf.kind == HANG) ? 60 : 40;
					if (g_thorough) sb *= 2;
					best = shrink(p, rs, conf, sb, rio, (bad >= done) ? 1 : 3);
				}
				R.replay = write_replay(p, best, "");
				R.msg = best.msg; R.violated = true;
				rc = 1; alive = 0;
				break;
			}
			// carry on after the unreproduced case
			nexti[w] = ci + W;
			sh[w]->evaluations = sh[w]->evaluations + 1;
			sh[w]->cur_start = now_s(); wlast[w] = 0;
			spawn(w);
		}
		if (rc) break;
		if (now_s() - t0 > budget) {
			R.capped = true;
			for (unsigned k = 0; k < W; k++) sh[k]->stop = 1;
		}
		if (!any) usleep(2000);
		{ double t = now_s(); (void)t; }
	}
	std::set<uint64_t> hs;
	for (unsigned w = 0; w < W; w++) {
		R.evaluations += sh[w]->evaluations; R.nontrivials += sh[w]->nontrivials;
		hs.insert(sh[w]->hashes, sh[w]->hashes + sh[w]->nhashes);
		for (uint32_t i = 0; i < sh[w]->nlabels; i++) R.labels[sh[w]->labels[i].name] += sh[w]->labels[i].count;
		for (uint32_t i = 0; i < sh[w]->nsamples && R.samples.size() < MAX_SAMPLES; i++) R.samples.push_back(sh[w]->samples[i]);
		munmap(sh[w], sizeof(Shared));
	}
	munmap(rs, sizeof(Shared));
	R.distinct = hs.size();
	R.wall = now_s() - t0;
	return rc;
}

static int do_replay(const char* path)
{
	FILE* f = fopen(path, "r"); if (!f) { perror(path); return 2; }
	char line[256], pn[128] = "", tier[32] = "quick"; size_t n = 0;
	std::vector<uint64_t> ch;
	while (fgets(line, sizeof(line), f)) {
		if (sscanf(line, "prop %127s", pn) == 1) continue;
		if (sscanf(line, "tier %31s", tier) == 1) continue;
		if (sscanf(line, "choices %zu", &n) == 1) break;
	}
	for (size_t i = 0; i < n; i++) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; ch.push_back(v); }
	fclose(f);
	g_thorough = !strcmp(tier, "thorough");
	const Prop* p = nullptr; for (auto& q : props()) if (!strcmp(q.name, pn)) p = &q;
	if (!p) { fprintf(stderr, "no such prop: %s\n", pn); return 2; }
	Shared* sh = new_shared();
	int bad = 0; Outcome last;
	for (int i = 0; i < 3; i++) { Outcome o = exec_case(*p, sh, 0, &ch, 1.5, tmpdir() + "/replay.io"); if (o.kind != OK) { bad++; last = o; } else if (!bad) last = o; }
	printf("replay %s: failed %d of 3\n%s: %s\n--- the case ---\n%s\n--- output ---\n%s\n", p->name, bad, kind_name(last.kind), last.msg.c_str(), last.note.c_str(), last.io.c_str());
	if (bad) { printf("VIOLATION property=%s replay=%s\n", property_id, path); return 1; }
	return 0;
}

static void rm_tmp()
{
	std::string d = tmpdir();
	DIR* dp = opendir(d.c_str()); if (!dp) return;
	while (struct dirent* e = readdir(dp)) { if (e->d_name[0] == '.') continue; unlink((d + "/" + e->d_name).c_str()); }
	closedir(dp); rmdir(d.c_str());
}

int main(int argc, char** argv)
{
	uint64_t seed = 1; std::string out, only, replay; double budget = 0, scale = 1; bool list = false;
	uint64_t onecase = (uint64_t)-1; bool verbose = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed") seed = strtoull(val(), 0, 10);
		else if (a == "--tier") g_thorough = !strcmp(val(), "thorough");
		else if (a == "--out") out = val();
		else if (a == "--replays") g_replay_dir = val();
		else if (a == "--budget") budget = atof(val());
		else if (a == "--scale") scale = atof(val());
		else if (a == "--only") only = val();
		else if (a == "--replay") replay = val();
		else if (a == "--case") onecase = strtoull(val(), 0, 10);
		else if (a == "--list") list = true;
		else if (a == "-v") verbose = true;
	}
	struct rlimit rl; if (!getrlimit(RLIMIT_NOFILE, &rl)) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 65536); setrlimit(RLIMIT_NOFILE, &rl); }
	rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (list) { for (auto& p : props()) printf("%s quick=%u thorough=%u\n", p.name, p.quick_cases, p.thorough_cases); return 0; }
	if (!replay.empty()) { int r = do_replay(replay.c_str()); rm_tmp(); return r; }
	if (onecase != (uint64_t)-1) {	// debug: run one case of --only in process
		for (auto& p : props()) if (only == p.name) {
			Shared* sh = new_shared();
			if (child_init) child_init();
			int st = run_in_process(p, sh, case_seed(seed, p.name, onecase), nullptr);
			printf("status %d msg %s\n%s\n", st, sh->msg, sh->note);
			return st == 1 ? 0 : 1;
		}
		return 2;
	}
	if (budget <= 0) budget = g_thorough ? 1500 : 150;
	double t0 = now_s();
	std::string js; int rc = 0; bool first = true;
	size_t nprops = 0; for (auto& p : props()) if (only.empty() || only == p.name) nprops++;
	size_t idx = 0;
	for (auto& p : props()) {
		if (!only.empty() && only != p.name) continue;
		PropResult R;
		double left = budget - (now_s() - t0);
		double share = left / (double)(nprops - idx); idx++;
		if (share < 5) share = 5;
		int r = run_prop(p, seed, share, scale, R);
		printf("%-28s evaluations=%llu nontrivial=%llu distinct_nontrivial=%llu unreproduced=%u wall=%.1fs%s\n", p.name,
			(unsigned long long)R.evaluations, (unsigned long long)R.nontrivials, (unsigned long long)R.distinct, R.unreproduced, R.wall, R.capped ? " (time cap)" : "");
		if (verbose) for (auto& l : R.labels) printf("      %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);
		if (!first) js += ",\n"; first = false;
		js += "{\"name\":"; json_str(js, p.name);
		js += sfmt(",\"planned\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"unreproduced\":%u,\"time_capped\":%s,\"wall_s\":%.2f,\"labels\":{",
			(unsigned long long)R.planned, (unsigned long long)R.evaluations, (unsigned long long)R.nontrivials, (unsigned long long)R.distinct, R.unreproduced, R.capped ? "true" : "false", R.wall);
		bool f2 = true; for (auto& l : R.labels) { if (!f2) js += ","; f2 = false; json_str(js, l.first); js += sfmt(":%llu", (unsigned long long)l.second); }
		js += "},\"samples\":["; f2 = true;
		for (auto& s : R.samples) { if (!f2) js += ","; f2 = false; json_str(js, s); }
		js += sfmt("],\"violated\":%s}", R.violated ? "true" : "false");
		if (r == 1) {
			printf("FAILED %s: %s\n", p.name, R.msg.c_str());
			printf("VIOLATION property=%s replay=%s\n", property_id, R.replay.c_str());
			fflush(stdout);
			rc = 1; break;
		}
		if (r > 1) { rc = r; break; }
	}
	if (!out.empty()) {
		FILE* f = fopen(out.c_str(), "w");
		if (f) {
			std::string o = "{\"rule\":"; json_str(o, nontrivial_rule);
			o += ",\"assumptions\":["; bool f2 = true; for (auto& a : assumptions) { if (!f2) o += ","; f2 = false; json_str(o, a); }
			o += "],\"props\":[" + js + "]}\n";
			fputs(o.c_str(), f); fclose(f);
		}
	}
	rm_tmp();
	return rc;
}
}
