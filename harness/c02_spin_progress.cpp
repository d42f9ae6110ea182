// C02: a free spin lock can always be taken, whoever waits for a lock gets it once it is released, and no operation on
// one lock depends on another lock.
#include "spin.hpp"

#include <sched.h>

spin::book* spin::bk = nullptr;
const bool spin::strict = false;

using namespace mc;
using namespace spin;

namespace {
std::vector<script> scripts_of(int threads, int max_rounds, int num_act)
{
	std::vector<script> r;
	for (int t = 0; t != threads; ++t) {
		script s;
		for (int i = 0; i != max_rounds; ++i) {
			int a = int(choose(uint32_t(num_act + 1)));
			if (a == num_act) {
				break;
			}
			s.push_back(a);
		}
		r.push_back(s);
	}
	return r;
}
} // namespace

// every schedule of every script comes to an end
MC_SUITE(all_finish)
{
	where("spin lock");
	auto s = scripts_of(2, 2, num_actions);
	sched::options o;
	o.races = false; // the subject of another property
	o.preemptions = by_tier(3, 6);
	explore(o, s);
}

MC_SUITE(all_finish_three)
{
	where("spin lock");
	auto s = scripts_of(3, by_tier(1, 2), by_tier(3, 2));
	sched::options o;
	o.races = false; // the subject of another property
	o.preemptions = by_tier(2, 3);
	explore(o, s);
}

MC_SUITE(all_finish_four)
{
	where("spin lock");
	auto s = scripts_of(4, 1, 1);
	sched::options o;
	o.races = false; // the subject of another property
	o.preemptions = by_tier(2, 6);
	explore(o, s);
}

// a thread may stop for ever while holding another lock or no lock at all: this must not prevent anybody from locking
MC_SUITE(independent)
{
	where("spin lock, stopped holder");
	int stop_in = int(choose(3)); // 0: holding B, 1: never having locked anything, 2: after having released A
	int rounds = 1 + int(choose(2));
	int threads = 1 + int(choose(2));
	sched::options o;
	o.races = false; // the subject of another property
	o.preemptions = by_tier(3, 5);
	// the stopped thread is the end of its function: it is never scheduled again
	static world* w;
	book b = {};
	bk = &b;
	std::vector<std::function<void()>> th;
	th.push_back([&]() {
		sched::label("stopping thread");
		if (stop_in == 0) {
			w->lock[1].lock();
			enter(*w, 1);
		} else if (stop_in == 2) {
			w->lock[0].lock();
			section(*w, 0);
			w->lock[0].unlock();
		}
	});
	for (int t = 0; t != threads; ++t) {
		th.push_back([&]() {
			for (int i = 0; i != rounds; ++i) {
				perform(*w, on_a);
			}
		});
	}
	sched::run(
		o,
		th,
		[&]() {
			w = new world();
		},
		[&]() {
			MC_CHECK(bk->entered[0] == rounds * threads + (stop_in == 2 ? 1 : 0), "not all critical sections were done");
		}
	);
	state(hasher().add(stop_in).add(rounds).add(threads).h);
}

// an uncontended lock is taken by a bounded number of steps, in any place of memory and any number of times
MC_SUITE(uncontended)
{
	where("spin lock, uncontended");
	int fill = int(choose(256));
	int kind = int(choose(3));
	sched::options o;
	o.races = false; // the subject of another property
	o.step_limit = 100000;
	sched::run(
		o,
		{[&]() {
			// over any previous content of the memory
			alignas(utki::spin_lock) unsigned char mem[sizeof(utki::spin_lock)];
			memset(mem, fill, sizeof(mem));
			static utki::spin_lock static_lock;
			utki::spin_lock* l = kind == 0 ? new (mem) utki::spin_lock() : (kind == 1 ? &static_lock : new utki::spin_lock);
			for (int i = 0; i != 300; ++i) {
				uint64_t n0 = sched::ops();
				l->lock();
				l->unlock();
				MC_CHECK(sched::ops() - n0 <= 64, "uncontended lock() and unlock() took %llu operations", (unsigned long long)(sched::ops() - n0));
			}
			if (kind == 2) {
				delete l;
			}
		}}
	);
}

// there is no limit on how many times a lock can be taken
MC_SUITE(any_number_of_times)
{
	where("spin lock, taken many times");
	int threads = 1 + int(choose(2));
	int per_thread = by_tier(70000, 1 << 21) / threads;
	sched::options o;
	o.races = false; // the subject of another property
	o.preemptions = 0;
	o.spin_limit = 200;
	o.step_limit = uint64_t(1) << 40;
	static utki::spin_lock* l;
	std::vector<std::function<void()>> th;
	for (int t = 0; t != threads; ++t) {
		th.push_back([=]() {
			for (int i = 0; i != per_thread; ++i) {
				l->lock();
				if (i % 10000 == 0) {
					sched_yield();
				}
				l->unlock();
			}
		});
	}
	sched::run(o, th, []() {
		l = new utki::spin_lock();
	});
}
