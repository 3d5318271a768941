// A controlled scheduler for code compiled with clang -fsanitize=thread and linked
// against *our* runtime instead of TSan's: every memory access, atomic operation and
// (intercepted) blocking call of the instrumented code is a possible preemption point,
// only one thread runs at a time, and who runs next is a pure function of a seed.
// Blocking calls are re-polled, so "every thread is blocked and nothing becomes ready"
// (lost wakeup, deadlock) is detected.  A bump allocator that never reuses memory makes
// every instrumented access to freed memory a reported failure.
#pragma once
#include <stdint.h>
#include <functional>
#include <string>
namespace vsched {
struct Params {
	uint64_t seed = 1;
	unsigned mean = 50;			// mean number of steps between preemptions
	unsigned freeze_den = 8;	// 1/freeze_den of the preemptions freeze the victim for long
	unsigned spurious = 12;		// 1/spurious of the condition waits return without a signal (0: never)
	double idle_limit = 3.0;	// seconds of "everybody blocked" that count as stuck
};
void begin(const Params& p);	// the calling thread becomes thread 0
void end();						// back to free running
bool active();
// block until pred() holds; a stuck system fails the case ("stuck: <what>")
void wait_until(const std::function<bool()>& pred, const char* what);
// same, but give up after `seconds`; returns whether pred held
bool wait_for(const std::function<bool()>& pred, const char* what, double seconds);
void yield();
void point();		// an explicit preemption point
uint64_t steps();
uint64_t tick();		// strictly increasing event clock (not a preemption point)
uint64_t switches();
unsigned threads();
void set_stuck_is_hard(bool);
}
