// Scripts of threads working under spin locks, shared by the checks of mutual exclusion and of progress.
#pragma once

#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>

#include "mc.hpp"
#include "sched.hpp"

#include <utki/spin_lock.hpp>

namespace spin {

constexpr int num_locks = 2;

struct world {
	utki::spin_lock lock[num_locks];
	// plain data protected by the locks
	int owner[num_locks] = {};
	int count[num_locks] = {};
	uint64_t sum[num_locks] = {};
};

// what a thread does in one round
enum action {
	on_a, // critical section under lock A
	on_b,
	nested, // A, then B inside of it
	guarded, // std::lock_guard on A, left by exception
	unique, // std::unique_lock on A, unlocked and locked again
	num_actions
};

inline const char* name(int a)
{
	static const char* const n[] = {"A", "B", "A+B", "A(guard)", "A(relock)"};
	return n[a];
}

// bookkeeping which is not monitored
struct book {
	int inside[num_locks];
	int entered[num_locks];
};

extern book* bk;
// false: only progress is of interest
extern const bool strict;

inline void enter(world& w, int l)
{
	{
		mc::sched::untracked u;
		MC_CHECK(!strict || bk->inside[l] == 0, "thread %d is in the critical section of lock %c together with thread %d", mc::sched::self(), 'A' + l, bk->inside[l]);
		bk->inside[l] = mc::sched::self();
	}
	int n;
	{
		mc::sched::untracked u;
		n = bk->entered[l]++;
	}
	// everything done by previous holders is visible
	int c = w.count[l];
	uint64_t s = w.sum[l];
	int o = w.owner[l];
	MC_CHECK(!strict || o == 0, "lock %c: data is being modified by thread %d", 'A' + l, o);
	MC_CHECK(!strict || c == n, "lock %c: %d previous critical sections, but the data says %d", 'A' + l, n, c);
	MC_CHECK(!strict || s == uint64_t(n) * 7, "lock %c: data of previous critical sections is lost", 'A' + l);
	w.owner[l] = mc::sched::self();
}

inline void leave(world& w, int l)
{
	w.sum[l] += 7;
	w.count[l] += 1;
	w.owner[l] = 0;
	mc::sched::untracked u;
	bk->inside[l] = 0;
}

inline void section(world& w, int l)
{
	enter(w, l);
	mc::sched::point(); // may be interrupted in the middle
	leave(w, l);
}

inline void perform(world& w, int a)
{
	mc::sched::label(name(a));
	switch (a) {
		case on_a:
		case on_b: {
			int l = a == on_b ? 1 : 0;
			w.lock[l].lock();
			section(w, l);
			w.lock[l].unlock();
			break;
		}
		case nested:
			w.lock[0].lock();
			enter(w, 0);
			w.lock[1].lock();
			section(w, 1);
			w.lock[1].unlock();
			leave(w, 0);
			w.lock[0].unlock();
			break;
		case guarded:
			try {
				std::lock_guard<utki::spin_lock> g(w.lock[0]);
				section(w, 0);
				throw 1;
			} catch (int) {
			}
			break;
		default: {
			std::unique_lock<utki::spin_lock> g(w.lock[0]);
			section(w, 0);
			g.unlock();
			g.lock();
			section(w, 0);
			break;
		}
	}
}

inline int uses(int a, int l)
{
	if (l == 0) {
		return a == on_b ? 0 : (a == unique ? 2 : 1);
	}
	return a == on_b || a == nested ? 1 : 0;
}

using script = std::vector<int>;

inline void explore(const mc::sched::options& o, const std::vector<script>& scripts)
{
	if (mc::verbose) {
		for (size_t t = 0; t != scripts.size(); ++t) {
			std::string s;
			for (int a : scripts[t]) {
				s += std::string(name(a)) + " ";
			}
			mc::note("thread %zu: %s", t + 1, s.c_str());
		}
	}
	book b = {};
	bk = &b;
	// the lock is constructed over garbage
	alignas(world) static unsigned char mem[sizeof(world)];
	memset(mem, 0xff, sizeof(mem));
	world* w = nullptr;
	std::vector<std::function<void()>> th;
	for (auto& s : scripts) {
		th.push_back([&w, s]() {
			for (int a : s) {
				perform(*w, a);
			}
		});
	}
	mc::sched::run(
		o,
		th,
		[&]() {
			w = new (mem) world();
		},
		[&]() {
			for (int l = 0; l != num_locks; ++l) {
				int exp = 0;
				for (auto& s : scripts) {
					for (int a : s) {
						exp += uses(a, l);
					}
				}
				MC_CHECK(!strict || w->count[l] == exp, "lock %c: %d critical sections, but the data says %d", 'A' + l, exp, w->count[l]);
				MC_CHECK(!strict || w->sum[l] == uint64_t(exp) * 7, "lock %c: lost update", 'A' + l);
				// the lock is free now
				w->lock[l].lock();
				w->lock[l].unlock();
			}
		}
	);
}

} // namespace spin
