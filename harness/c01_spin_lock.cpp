// C01: critical sections under one spin lock never overlap, and each sees everything done in the previous ones.
#include "spin.hpp"

#include <sched.h>

spin::book* spin::bk = nullptr;
const bool spin::strict = true;

using namespace mc;
using namespace spin;

namespace {
sched::options opts()
{
	sched::options o;
	// lack of progress is the subject of another property
	o.deadlock_ok = true;
	return o;
}

std::vector<script> scripts_of(int threads, int max_rounds, int num_act)
{
	std::vector<script> r;
	for (int t = 0; t != threads; ++t) {
		script s;
		for (int i = 0; i != max_rounds; ++i) {
			int a = int(choose(uint32_t(num_act + (i > 0 ? 1 : 0))));
			if (a == num_act) {
				break;
			}
			s.push_back(a);
		}
		r.push_back(s);
	}
	return r;
}
} // namespace

// all interleavings of two threads, up to two rounds of any kind each
MC_SUITE(two_threads)
{
	where("spin lock");
	auto s = scripts_of(2, 2, num_actions);
	auto o = opts();
	o.preemptions = by_tier(3, -1);	
	explore(o, s);
}

// all interleavings, no bound on the number of preemptions
MC_SUITE(two_threads_unbounded)
{
	where("spin lock");
	auto s = scripts_of(2, by_tier(3, 5), 1);
	auto o = opts();
	explore(o, s);
}

MC_SUITE(three_threads)
{
	where("spin lock");
	auto s = scripts_of(3, by_tier(1, 2), by_tier(int(num_actions), 3));
	auto o = opts();
	o.preemptions = by_tier(2, 4);
	explore(o, s);
}

MC_SUITE(three_threads_unbounded)
{
	where("spin lock");
	auto s = scripts_of(3, by_tier(1, 2), 1);
	auto o = opts();
	explore(o, s);
}

MC_SUITE(four_threads)
{
	where("spin lock");
	auto s = scripts_of(4, 1, 1);
	auto o = opts();
	o.preemptions = by_tier(3, 6);
	explore(o, s);
}

// loads may return values which are not the latest, as far as the memory model lets them
MC_SUITE(weak_memory)
{
	where("spin lock, weak memory");
	auto s = scripts_of(2, 2, 2);
	auto o = opts();
	o.preemptions = by_tier(4, -1);
	o.stale_loads = by_tier(2, 3);
	explore(o, s);
}

// The holder does not release the lock for ages: those who wait for it do not lose their patience, neither after any
// number of attempts nor after any time nor after any number of times they have let others run.
MC_SUITE(long_wait)
{
	where("spin lock, held for a long time");
	bool very_long = choose(2) != 0;
	int holder = very_long ? int(on_a) : pick({int(on_a), int(guarded)});
	int waiters = very_long ? 1 : 1 + int(choose(2));
	int waiter = very_long ? int(on_a) : pick({int(on_a), int(guarded), int(unique)});
	auto o = opts();
	o.preemptions = 0;
	o.spin_limit = very_long ? by_tier(1 << 22, 1 << 27) : (1 << 15);
	o.step_limit = uint64_t(1) << 40;
	o.clock_jump_ms = 50;
	book b = {};
	bk = &b;
	static world* w;
	std::vector<std::function<void()>> th;
	th.push_back([holder]() {
		sched::label("holder");
		std::unique_lock<utki::spin_lock> g(w->lock[0]);
		enter(*w, 0);
		for (int i = 0; i != 5000; ++i) {
			sched_yield();
		}
		leave(*w, 0);
		if (holder == on_a) {
			g.unlock();
		}
	});
	for (int i = 0; i != waiters; ++i) {
		th.push_back([waiter]() {
			perform(*w, waiter);
		});
	}
	sched::run(o, th, []() {
		w = new world();
	});
}
