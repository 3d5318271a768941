// vh: a small property-based-testing kernel.
//
// A test case is a *sequence of choices* (unsigned 64-bit numbers).  Every random
// decision of a property goes through Ctx, which records the choices; a failing
// case is therefore completely described by its choice list, can be replayed from
// a file, and is shrunk generically (delete chunks, zero, halve) without the
// property having to know about it.  0 is always the "simplest" choice.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace vh {

struct Failure {
	std::string msg;
	bool soft;	// soft: verdict depends on real time (liveness), must reproduce
};

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

struct Shared;	// per-process result area (shared memory)

class Ctx {
public:
	// ---- choices ----
	uint64_t below(uint64_t n);						// uniform [0,n), shrinks to 0
	uint64_t raw();									// uniform 64 bit
	int64_t range(int64_t lo, int64_t hi);			// uniform [lo,hi], shrinks to lo
	bool chance(unsigned num, unsigned den);		// true with num/den, shrinks to false
	bool more(unsigned mean);						// loop guard: continue with mean iterations
	// size in [lo,hi]: mixture of tiny values, values near `edges` and log-uniform
	size_t size(size_t lo, size_t hi, std::initializer_list<size_t> edges = {});
	size_t weighted(std::initializer_list<unsigned> w);	// index by weight, shrinks to 0
	template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	// content bytes: one choice (seed+style), expanded deterministically
	void fill(uint8_t* p, size_t n);
	std::vector<uint8_t> blob(size_t n) { std::vector<uint8_t> v(n); fill(v.data(), n); return v; }
	Rng rng() { return Rng(raw()); }

	// ---- verdicts / evidence ----
	void label(const char* name);					// once per case per name
	void nontrivial() { m_nontrivial = true; }
	bool is_nontrivial() const { return m_nontrivial; }
	void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void soft_fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	bool thorough() const { return m_thorough; }

	// ---- plumbing ----
	Ctx(Shared* sh, uint64_t seed, const std::vector<uint64_t>* replay, bool thorough);
	uint64_t hash() const { return m_hash; }
private:
	uint64_t choice(uint64_t bound);
	Shared* m_sh;
	Rng m_rng;
	const std::vector<uint64_t>* m_replay;
	size_t m_pos = 0;
	bool m_nontrivial = false, m_thorough;
	uint64_t m_hash = 1469598103934665603ull;
	friend struct Runner;
};

struct Prop {
	const char* name;
	void(*fn)(Ctx&);
	unsigned quick_cases;
	unsigned thorough_cases;
	unsigned timeout_ms;	// per case watchdog
	bool isolate;			// fork a fresh process per case
	unsigned jobs;			// parallel workers (0 = all cores)
};
struct Register { Register(const Prop& p); };

// set by the harness
extern const char* property_id;
extern const char* nontrivial_rule;
extern std::vector<std::string> assumptions;
// optional: called in the child right before the first case
extern void(*child_init)();

int main(int argc, char** argv);
std::string sfmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void* p, size_t n, size_t maxn = 48);
}

#define VH_CAT2(a,b) a##b
#define VH_CAT(a,b) VH_CAT2(a,b)
#define VH_PROP(fn, quick, thorough, timeout_ms, isolate, jobs) \
	static void fn(vh::Ctx&); \
	static vh::Register VH_CAT(_reg_, fn)(vh::Prop{ #fn, fn, quick, thorough, timeout_ms, isolate, jobs }); \
	static void fn(vh::Ctx& c)

#define VH_CHECK(c, cond, ...) do { if (!(cond)) { (c).fail("[" #cond "] " __VA_ARGS__); } } while (0)
namespace vh {
// abort the current case from any thread
[[noreturn]] void die(bool soft, const char* msg);
}
