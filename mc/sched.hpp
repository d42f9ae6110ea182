// Controlled scheduler: runs real threads one at a time and enumerates their interleavings with mc::choose().
//
// The code under test is compiled with -fsanitize=thread but linked with our own implementation of the
// instrumentation callbacks (sched.cpp) instead of the sanitizer's runtime. Every atomic operation (and, in fine mode,
// every function entry and every access to static memory) is a point where the scheduler may switch threads.
// Happens-before relation is tracked by vector clocks according to memory orders passed to atomic operations, so that
// a missing synchronisation is reported as a data race even if the hardware would hide it.
#pragma once

#include <cstdint>
#include <functional>
#include <vector>

namespace mc::sched {

struct options {
	// how many times the scheduler may take the processor away from a thread which could go on, < 0 for no limit
	int preemptions = -1;
	// switch also at function entries and accesses to static memory
	bool fine = false;
	// in fine mode: function entries count
	bool entries = true;
	// after how many fruitless repetitions of the same atomic operation a thread is considered to be waiting
	int spin_limit = 2;
	// how far the clock goes on each time a thread looks at it
	int clock_jump_ms = 0;
	// how many loads in an execution may return an older value permitted by the memory model
	int stale_loads = 0;
	// a deadlock ends the execution without being reported
	bool deadlock_ok = false;
	// report data races
	bool races = true;
	uint64_t step_limit = 20000;
};

// Executes the threads in a forked copy of the process. before and after are executed by the main thread.
// Failed MC_CHECKs in any of them are reported as usual.
void run(
	const options& o,
	const std::vector<std::function<void()>>& threads,
	const std::function<void()>& before = nullptr,
	const std::function<void()>& after = nullptr
);

// explicit scheduling point
void point();

// index of the calling thread: 0 - main, 1... - threads
int self();

// describe what the thread is doing
void label(const char* text);

// number of synchronisation operations executed so far by the calling thread
uint64_t ops();

// not monitored storage for harness' own bookkeeping
struct untracked {
	untracked();
	~untracked();
	untracked(const untracked&) = delete;
};

} // namespace mc::sched
