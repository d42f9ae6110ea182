// See sched.hpp. This file is compiled without instrumentation.
#include "sched.hpp"

#include "mc.hpp"

#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <clocale>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __data_start;
extern "C" char _end;
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_memalign(size_t, size_t);

namespace mc {
uint32_t worker();
}

namespace mc::sched {
namespace {

constexpr int max_threads = 6; // including main
constexpr uint32_t max_choices = 1 << 15;

struct vclock {
	uint32_t c[max_threads] = {};

	void join(const vclock& o)
	{
		for (int i = 0; i != max_threads; ++i) {
			if (o.c[i] > this->c[i]) {
				this->c[i] = o.c[i];
			}
		}
	}

	bool covers(int tid, uint32_t clk) const
	{
		return this->c[tid] >= clk;
	}
};

struct shared_area {
	uint32_t num_choices;
	uint32_t n[max_choices];
	uint32_t abandoned;
	uint32_t finished;
	uint32_t deadlock;
	uint32_t pruned;
	char notes[16384];
};

shared_area* sh = nullptr;

enum class why { none, spin, mutex, guard, futex, yield };

struct spin_key {
	const void* a;
	int kind;
	uint64_t old_v;
	uint64_t new_v;
	int count;
};

struct thread_state {
	sem_t go;
	vclock vc;
	vclock rel_fence;
	vclock acq_pending;
	vclock dep; // order of all dependent operations, regardless of what the memory model says about visibility
	bool finished = false;
	why blocked = why::none;
	const void* block_addr = nullptr;
	uint64_t block_mods = 0;
	bool woken = false;
	std::vector<spin_key> keys;
	uint64_t keys_mods = 0;
	uint64_t hist = 0;
	uint64_t ops = 0;
	const char* label = "";
	pthread_t pt;
	int untracked = 0;
};

bool active = false; // threads are being controlled
thread_local int tid = -1; // index of the controlled thread or -1
thread_local int in_rt = 0; // inside of the runtime: do not monitor

options opt;
thread_state* th = nullptr;
int num_th = 0; // including main
int current = 0;
int preemptions_left = 0;
int stale_left = 0;
uint64_t total_steps = 0;
uint64_t accesses = 0;
uint64_t mods = 0; // value changing operations by whoever
uint64_t mods_by[max_threads];
uint64_t grace_mods = ~uint64_t(0);
const std::vector<std::function<void()>>* bodies = nullptr;

struct guard_rt {
	guard_rt()
	{
		++in_rt;
	}

	~guard_rt()
	{
		--in_rt;
	}
};

void deadlock();
uint64_t main_ops = 0;

// the main thread runs alone before and after the others
void main_op()
{
	if (++main_ops > 100000) {
		++in_rt;
		deadlock();
	}
}

[[noreturn]] void violation(const char* what)
{
	++in_rt;
	mc::fail("sched", 0, "schedule", "%s", what);
}

void note_step(const char* what, const void*, uint64_t a = 0, uint64_t b = 0)
{
	if (mc::verbose && sh) {
		size_t n = strlen(sh->notes);
		if (n + 100 < sizeof(sh->notes)) {
			snprintf(
				sh->notes + n,
				sizeof(sh->notes) - n,
				"T%d:%s%s%s(%llu,%llu) ",
				tid,
				th[tid].label,
				*th[tid].label ? ":" : "",
				what,
				(unsigned long long)(a),
				(unsigned long long)(b)
			);
		}
	}
}

uint32_t draw(uint32_t n)
{
	if (n <= 1) {
		return 0;
	}
	if (sh->num_choices >= max_choices) {
		fprintf(stderr, "sched: too many choices\n");
		_exit(98);
	}
	sh->n[sh->num_choices++] = n;
	try {
		return mc::choose(n);
	} catch (...) {
		// belongs to other worker
		sh->abandoned = 1;
		_exit(0);
	}
}

uint64_t mods_by_others(int t)
{
	return mods - mods_by[t];
}

bool enabled(int t)
{
	auto& s = th[t];
	if (s.finished) {
		return false;
	}
	switch (s.blocked) {
		case why::none:
			return true;
		case why::spin:
			return mods_by_others(t) != s.block_mods;
		case why::yield:
			return true;
		default:
			return s.woken;
	}
}

uint64_t run_salt = 0;

// Everything which determines the future: the graph of dependent operations executed so far (by per-thread histories of
// operations with their dependency clocks), who may run and how many preemptions are left.
uint64_t full_state(int me)
{
	hasher h;
	h.add(run_salt).add(uint64_t(me)).add(uint64_t(preemptions_left + 1)).add(uint64_t(stale_left)).add(grace_mods == mods);
	for (int i = 1; i < num_th; ++i) {
		auto& s = th[i];
		h.add(s.hist).add(uint64_t(s.finished)).add(uint64_t(s.blocked)).add(uint64_t(enabled(i)));
		h.add(uint64_t(s.keys_mods == mods_by_others(i)));
		for (auto& k : s.keys) {
			h.add(uint64_t(k.count)).add(uint64_t(k.kind));
		}
	}
	return h.h;
}

uint64_t global_hash()
{
	hasher h;
	for (int i = 1; i < num_th; ++i) {
		h.add(th[i].hist).add(uint64_t(th[i].finished));
	}
	return h.h;
}

void switch_to(int next)
{
	int me = current;
	if (next == me) {
		return;
	}
	current = next;
	sem_post(&th[next].go);
	while (sem_wait(&th[me].go) != 0) {
	}
}

void deadlock()
{
	sh->deadlock = 1;
	if (opt.deadlock_ok) {
		sh->finished = 1;
		_exit(0);
	}
	char b[1000];
	int n = snprintf(b, sizeof(b), "no thread can make progress any more:");
	for (int i = 1; i < num_th && n < 900; ++i) {
		n += snprintf(
			b + n,
			sizeof(b) - size_t(n),
			" T%d %s%s%s;",
			i,
			th[i].finished ? "has finished" : (th[i].blocked == why::spin ? "spins in vain" : "waits"),
			*th[i].label ? " in " : "",
			th[i].label
		);
	}
	violation(b);
}

// the calling thread gives the others a chance to run; can_go_on tells if it may continue itself
void reschedule()
{
	int me = tid;
	for (;;) {
		int cand[max_threads];
		int n = 0;
		bool me_ok = enabled(me);
		bool me_free = me_ok && th[me].blocked != why::yield;
		if (me_free) {
			cand[n++] = me;
		}
		if (!me_free || preemptions_left != 0) {
			for (int i = 1; i < num_th; ++i) {
				if (i != me && enabled(i)) {
					cand[n++] = i;
				}
			}
		}
		if (n == 0 && me_ok) {
			cand[n++] = me; // yielded but there is nobody else
		}
		if (n == 0) {
			bool all_finished = true;
			bool spinners = false;
			for (int i = 1; i < num_th; ++i) {
				all_finished = all_finished && th[i].finished;
				spinners = spinners || (!th[i].finished && th[i].blocked == why::spin);
			}
			if (all_finished) {
				// back to main
				current = 0;
				sem_post(&th[0].go);
				return;
			}
			if (!spinners || grace_mods == mods) {
				deadlock();
			}
			// what looked like waiting may have been something else: let everybody try once more
			grace_mods = mods;
			for (int i = 1; i < num_th; ++i) {
				if (!th[i].finished && th[i].blocked == why::spin) {
					th[i].blocked = why::none;
					th[i].keys.clear();
				}
			}
			continue;
		}
		if (n > 1 && !opt.fine && !mc::first_visit(full_state(me))) {
			sh->pruned = 1;
			sh->finished = 1;
			_exit(0);
		}
		int next = cand[draw(uint32_t(n))];
		if (me_free && next != me && preemptions_left > 0) {
			--preemptions_left;
		}
		auto& s = th[next];
		if (s.blocked == why::spin) {
			s.keys.clear();
			s.blocked = why::none;
		} else if (s.blocked == why::yield) {
			s.blocked = why::none;
		}
		if (n == 1 && next == me && opt.spin_limit > 100) {
			return; // long wait, not interesting
		}
		mc::state(hasher().add(global_hash()).add(uint64_t(next)).h);
		switch_to(next);
		return;
	}
}

void step_point(bool cheap = false)
{
	if (++total_steps > opt.step_limit) {
		if (opt.deadlock_ok) {
			sh->finished = 1;
			sh->deadlock = 1;
			_exit(0);
		}
		violation("threads run without making progress (step limit)");
	}
	mc::steps();
	reschedule();
}

// thread waits until someone wakes it up
void block(why w, const void* addr)
{
	auto& s = th[tid];
	s.blocked = w;
	s.block_addr = addr;
	s.woken = false;
	reschedule();
	s.blocked = why::none;
}

void wake(why w, const void* addr, int count)
{
	for (int i = 1; i < num_th && count > 0; ++i) {
		if (!th[i].finished && th[i].blocked == w && th[i].block_addr == addr && !th[i].woken) {
			th[i].woken = true;
			--count;
		}
	}
}

// ---- happens-before

struct access {
	uint32_t clk;
	int8_t t;
	uint8_t mask;
	bool write;
	bool atomic;
	const char* label;
};

using cell = std::vector<access>;

std::unordered_map<uintptr_t, cell>* shadow = nullptr;
std::unordered_map<uintptr_t, vclock>* sync_vc = nullptr; // per byte: what an acquire operation gets

struct store_rec {
	uint64_t v;
	vclock msg;
	int t;
	uint32_t clk;
};

struct location {
	unsigned size = 0;
	std::vector<store_rec> stores;
	size_t seen[max_threads] = {};
};

std::unordered_map<uintptr_t, location>* locs = nullptr;

bool monitored()
{
	return active && tid >= 0 && in_rt == 0 && th[tid].untracked == 0;
}

void race(uintptr_t a, const access& x, bool w, bool atomic)
{
	char b[500];
	snprintf(
		b,
		sizeof(b),
		"data race: %s%s by T%d%s%s%s is not ordered with %s%s by T%d%s%s%s (%s memory)",
		w ? "write" : "read",
		atomic ? " (atomic)" : "",
		tid,
		*th[tid].label ? " in '" : "",
		th[tid].label,
		*th[tid].label ? "'" : "",
		x.write ? "write" : "read",
		x.atomic ? " (atomic)" : "",
		int(x.t),
		*x.label ? " in '" : "",
		x.label,
		*x.label ? "'" : "",
		a >= uintptr_t(&__data_start) && a < uintptr_t(&_end) ? "static" : "dynamic"
	);
	violation(b);
}

void touch(uintptr_t a, size_t n, bool w, bool atomic)
{
	auto& me = th[tid];
	while (n > 0) {
		uintptr_t base = a & ~uintptr_t(7);
		size_t off = a - base;
		size_t k = 8 - off < n ? 8 - off : n;
		uint8_t mask = uint8_t(((1u << k) - 1) << off);
		cell& c = (*shadow)[base];
		bool stored = false;
		for (auto& x : c) {
			if ((x.mask & mask) == 0) {
				continue;
			}
			if (x.t == tid) {
				if (x.write == w && x.atomic == atomic && x.mask == mask) {
					x.clk = me.vc.c[tid];
					x.label = me.label;
					stored = true;
				}
				continue;
			}
			if ((x.write || w) && !(x.atomic && atomic) && !me.vc.covers(x.t, x.clk) && opt.races) {
				race(a, x, w, atomic);
			}
		}
		if (!stored) {
			c.push_back(access{me.vc.c[tid], int8_t(tid), mask, w, atomic, me.label});
		}
		a += k;
		n -= k;
	}
}

void forget(uintptr_t a, size_t n)
{
	if (n > (1u << 20)) {
		return;
	}
	for (uintptr_t b = a & ~uintptr_t(7); b < a + n; b += 8) {
		shadow->erase(b);
	}
	if (!sync_vc->empty() || !locs->empty()) {
		for (uintptr_t b = a; b < a + n; ++b) {
			sync_vc->erase(b);
			locs->erase(b);
		}
	}
}

bool on_own_stack(const void* p)
{
	char here;
	uintptr_t d = uintptr_t(p) > uintptr_t(&here) ? uintptr_t(p) - uintptr_t(&here) : uintptr_t(&here) - uintptr_t(p);
	return d < 65536;
}

void plain(const void* p, size_t n, bool w)
{
	if (!monitored()) {
		return;
	}
	guard_rt g;
	if (++accesses > 20000000) {
		violation("threads run without making progress (access limit)");
	}
	auto a = uintptr_t(p);
	if (opt.fine && tid > 0 && a >= uintptr_t(&__data_start) && a < uintptr_t(&_end)) {
		th[tid].hist = hasher{th[tid].hist}.add(uint64_t(w)).h;
		step_point();
	}
	touch(a, n, w, false);
}

bool is_acq(int mo)
{
	return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

bool is_rel(int mo)
{
	return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}

vclock msg_of(uintptr_t a, size_t n)
{
	vclock v;
	for (size_t i = 0; i != n; ++i) {
		auto it = sync_vc->find(a + i);
		if (it != sync_vc->end()) {
			v.join(it->second);
		}
	}
	return v;
}

void acquire_from(const vclock& m, int mo)
{
	if (is_acq(mo)) {
		th[tid].vc.join(m);
	} else {
		th[tid].acq_pending.join(m);
	}
}

void advance()
{
	++th[tid].vc.c[tid];
}

// begins an atomic operation: scheduling point
void atomic_begin()
{
	step_point();
}

void publish(uintptr_t a, size_t n, int mo, bool rmw)
{
	auto& me = th[tid];
	vclock m = me.rel_fence;
	if (is_rel(mo)) {
		m.join(me.vc);
	}
	for (size_t i = 0; i != n; ++i) {
		if (rmw) {
			(*sync_vc)[a + i].join(m); // release sequence goes on
		} else {
			(*sync_vc)[a + i] = m;
		}
	}
}

void record_store(uintptr_t a, size_t n, uint64_t old_v, uint64_t v)
{
	if (opt.stale_loads == 0) {
		return;
	}
	auto& l = (*locs)[a];
	if (l.size == 0) {
		l.size = unsigned(n);
		store_rec init{old_v, vclock(), 0, 0};
		l.stores.push_back(init);
	}
	l.stores.push_back(store_rec{v, msg_of(a, n), tid, th[tid].vc.c[tid]});
	l.seen[tid] = l.stores.size() - 1;
}

// tells if the operation looks like waiting
void spin_check(const void* a, int kind, uint64_t old_v, uint64_t new_v)
{
	auto& me = th[tid];
	if (tid == 0) {
		return;
	}
	if (me.keys_mods != mods_by_others(tid)) {
		me.keys.clear();
		me.keys_mods = mods_by_others(tid);
	}
	for (auto& k : me.keys) {
		if (k.a == a && k.kind == kind && k.old_v == old_v && k.new_v == new_v) {
			++k.count;
			int limit = old_v == new_v ? opt.spin_limit : opt.spin_limit * 8;
			if (k.count >= limit) {
				me.blocked = why::spin;
				me.block_mods = mods_by_others(tid);
			}
			return;
		}
	}
	if (me.keys.size() >= 256) {
		me.keys.erase(me.keys.begin(), me.keys.begin() + 128); // long gone
	}
	me.keys.push_back(spin_key{a, kind, old_v, new_v, 1});
	if (opt.spin_limit <= 1 && old_v == new_v && kind != 0) {
		me.blocked = why::spin;
		me.block_mods = mods_by_others(tid);
	}
}

void changed(uint64_t old_v, uint64_t new_v)
{
	if (old_v != new_v) {
		++mods;
		++mods_by[tid];
	}
}

struct dep_clocks {
	vclock w;
	vclock r;
};

std::map<uintptr_t, dep_clocks>* deps = nullptr;

void depends(const void* p, size_t n, bool write)
{
	auto& me = th[tid];
	auto a = uintptr_t(p);
	for (size_t i = 0; i != n; ++i) {
		auto& d = (*deps)[a + i];
		me.dep.join(d.w);
		if (write) {
			me.dep.join(d.r);
		}
	}
	++me.dep.c[tid];
	for (size_t i = 0; i != n; ++i) {
		auto& d = (*deps)[a + i];
		if (write) {
			d.w = me.dep;
			d.r = vclock();
		} else {
			d.r.join(me.dep);
		}
	}
}

void remember(const void* p, int kind, size_t size, uint64_t old_v, uint64_t new_v)
{
	auto& me = th[tid];
	++me.ops;
	if (!opt.fine) {
		depends(p, size, kind != 1 && kind != 4);
	}
	hasher h{me.hist};
	h.add(uint64_t(kind)).add(uint64_t(size));
	for (auto c : me.dep.c) {
		h.add(uint64_t(c));
	}
	if (size <= 4) {
		h.add(old_v).add(new_v);
	}
	me.hist = h.h;
}

template <class T>
T a_load(const volatile T* p, int mo)
{
	if (!monitored() || tid == 0) {
		if (monitored()) {
			main_op();
			guard_rt g;
			auto m = msg_of(uintptr_t(p), sizeof(T));
			acquire_from(m, mo);
		}
		return __atomic_load_n(p, __ATOMIC_SEQ_CST);
	}
	guard_rt g;
	atomic_begin();
	auto a = uintptr_t(p);
	T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
	vclock m = msg_of(a, sizeof(T));
	if (stale_left > 0 && mo != __ATOMIC_SEQ_CST) {
		auto it = locs->find(a);
		if (it != locs->end() && it->second.size == sizeof(T)) {
			auto& l = it->second;
			size_t last = l.stores.size() - 1;
			size_t lo = l.seen[tid];
			for (size_t i = last; i > lo; --i) {
				if (th[tid].vc.covers(l.stores[i].t, l.stores[i].clk)) {
					lo = i;
					break;
				}
			}
			size_t k = last - lo + 1;
			if (k > 3) {
				k = 3;
			}
			uint32_t c = draw(uint32_t(k));
			if (c != 0) {
				--stale_left;
				v = T(l.stores[last - c].v);
				m = l.stores[last - c].msg;
			}
			l.seen[tid] = last - c;
		}
	}
	touch(a, sizeof(T), false, true);
	acquire_from(m, mo);
	remember((const void*)(p), 1, sizeof(T), uint64_t(v), uint64_t(v));
	note_step("load", (const void*)(p), uint64_t(v));
	spin_check((const void*)(p), 1, uint64_t(v), uint64_t(v));
	return v;
}

template <class T>
void a_store(volatile T* p, T v, int mo)
{
	if (!monitored() || tid == 0) {
		__atomic_store_n(p, v, __ATOMIC_SEQ_CST);
		if (monitored()) {
			main_op();
			guard_rt g;
			publish(uintptr_t(p), sizeof(T), mo, false);
			advance();
		}
		return;
	}
	guard_rt g;
	atomic_begin();
	auto a = uintptr_t(p);
	T old_v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
	touch(a, sizeof(T), true, true);
	__atomic_store_n(p, v, __ATOMIC_SEQ_CST);
	publish(a, sizeof(T), mo, false);
	record_store(a, sizeof(T), uint64_t(old_v), uint64_t(v));
	advance();
	changed(uint64_t(old_v), uint64_t(v));
	remember((const void*)(p), 2, sizeof(T), uint64_t(old_v), uint64_t(v));
	note_step("store", (const void*)(p), uint64_t(old_v), uint64_t(v));
	spin_check((const void*)(p), 2, uint64_t(old_v), uint64_t(v));
}

template <class T, class F>
T a_rmw(volatile T* p, int mo, int kind, F f)
{
	if (!monitored() || tid == 0) {
		T old_v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
		__atomic_store_n(p, f(old_v), __ATOMIC_SEQ_CST);
		if (monitored()) {
			main_op();
			guard_rt g;
			acquire_from(msg_of(uintptr_t(p), sizeof(T)), mo);
			publish(uintptr_t(p), sizeof(T), mo, true);
			advance();
		}
		return old_v;
	}
	guard_rt g;
	atomic_begin();
	auto a = uintptr_t(p);
	T old_v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
	T new_v = f(old_v);
	touch(a, sizeof(T), true, true);
	acquire_from(msg_of(a, sizeof(T)), mo);
	__atomic_store_n(p, new_v, __ATOMIC_SEQ_CST);
	publish(a, sizeof(T), mo, true);
	record_store(a, sizeof(T), uint64_t(old_v), uint64_t(new_v));
	advance();
	changed(uint64_t(old_v), uint64_t(new_v));
	remember((const void*)(p), kind, sizeof(T), uint64_t(old_v), uint64_t(new_v));
	note_step("rmw", (const void*)(p), uint64_t(old_v), uint64_t(new_v));
	spin_check((const void*)(p), kind, uint64_t(old_v), uint64_t(new_v));
	return old_v;
}

template <class T>
bool a_cas(volatile T* p, T* expected, T desired, int mo, int fmo, bool weak)
{
	if (!monitored() || tid == 0) {
		T old_v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
		bool ok = old_v == *expected;
		if (ok) {
			__atomic_store_n(p, desired, __ATOMIC_SEQ_CST);
		} else {
			*expected = old_v;
		}
		if (monitored()) {
			main_op();
			guard_rt g;
			acquire_from(msg_of(uintptr_t(p), sizeof(T)), ok ? mo : fmo);
			if (ok) {
				publish(uintptr_t(p), sizeof(T), mo, true);
				advance();
			}
		}
		return ok;
	}
	guard_rt g;
	atomic_begin();
	auto a = uintptr_t(p);
	T old_v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
	bool ok = old_v == *expected;
	if (ok && weak && stale_left > 0) {
		// weak operation may fail for no reason
		if (draw(2) == 1) {
			--stale_left;
			ok = false;
		}
	}
	touch(a, sizeof(T), ok, true);
	acquire_from(msg_of(a, sizeof(T)), ok ? mo : fmo);
	if (ok) {
		__atomic_store_n(p, desired, __ATOMIC_SEQ_CST);
		publish(a, sizeof(T), mo, true);
		record_store(a, sizeof(T), uint64_t(old_v), uint64_t(desired));
		advance();
		changed(uint64_t(old_v), uint64_t(desired));
	} else {
		*expected = old_v;
	}
	remember((const void*)(p), ok ? 3 : 4, sizeof(T), uint64_t(old_v), uint64_t(desired));
	note_step(ok ? "cas" : "cas-fails", (const void*)(p), uint64_t(old_v), uint64_t(desired));
	spin_check((const void*)(p), ok ? 3 : 4, uint64_t(old_v), ok ? uint64_t(desired) : uint64_t(old_v));
	return ok;
}

void a_fence(int mo)
{
	if (!monitored()) {
		return;
	}
	guard_rt g;
	if (tid > 0) {
		atomic_begin();
	}
	auto& me = th[tid];
	if (is_acq(mo)) {
		me.vc.join(me.acq_pending);
	}
	if (is_rel(mo)) {
		me.rel_fence.join(me.vc);
		advance();
	}
	remember(nullptr, 5, 0, 0, 0);
}

void* thread_main(void* arg)
{
	int t = int(intptr_t(arg));
	tid = t;
	in_rt = 1;
	while (sem_wait(&th[t].go) != 0) {
	}
	in_rt = 0;
	try {
		(*bodies)[size_t(t - 1)]();
	} catch (std::exception& e) {
		in_rt = 1;
		mc::fail("sched", 0, "no unexpected exception in a thread", "%s", e.what());
	} catch (...) {
		in_rt = 1;
		violation("unexpected exception in a thread");
	}
	in_rt = 1;
	th[t].finished = true;
	++mods; // end of the thread is something others may wait for
	reschedule();
	// only the last one or the abandoned get here
	for (;;) {
		pause();
	}
}

void on_alarm(int)
{
	static const char m[] = "sched: an uncontrolled blocking operation\n";
	if (write(2, m, sizeof(m) - 1)) {
	}
	_exit(98);
}

[[noreturn]] void child(const std::vector<std::function<void()>>& threads, const std::function<void()>& before, const std::function<void()>& after)
{
	cpu_set_t all, one;
	if (sched_getaffinity(0, sizeof(all), &all) == 0) {
		int n = CPU_COUNT(&all);
		int k = n > 0 ? int(mc::worker() % uint32_t(n)) : 0;
		for (int i = 0; i < CPU_SETSIZE; ++i) {
			if (CPU_ISSET(i, &all) && k-- == 0) {
				CPU_ZERO(&one);
				CPU_SET(i, &one);
				sched_setaffinity(0, sizeof(one), &one);
				break;
			}
		}
	}
	signal(SIGALRM, &on_alarm);
	alarm(40);
	in_rt = 1;
	bodies = &threads;
	num_th = int(threads.size()) + 1;
	th = new thread_state[size_t(num_th)];
	shadow = new std::unordered_map<uintptr_t, cell>();
	sync_vc = new std::unordered_map<uintptr_t, vclock>();
	locs = new std::unordered_map<uintptr_t, location>();
	deps = new std::map<uintptr_t, dep_clocks>();
	run_salt = mc::path();
	for (int i = 0; i != num_th; ++i) {
		sem_init(&th[i].go, 0, 0);
	}
	preemptions_left = opt.preemptions;
	stale_left = opt.stale_loads;
	current = 0;
	tid = 0;
	th[0].vc.c[0] = 1;

	active = true;
	in_rt = 0;
	if (before) {
		before();
	}
	in_rt = 1;
	for (int i = 1; i != num_th; ++i) {
		th[i].vc = th[0].vc;
		th[i].vc.c[i] = 1;
	}
	th[0].vc.c[0] = 2;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstacksize(&at, 512 * 1024);
	for (int i = 1; i != num_th; ++i) {
		if (pthread_create(&th[i].pt, &at, &thread_main, (void*)(intptr_t(i))) != 0) {
			fprintf(stderr, "sched: pthread_create failed\n");
			_exit(98);
		}
	}
	if (num_th > 1) {
		int first = 1 + int(draw(uint32_t(num_th - 1)));
		current = first;
		sem_post(&th[first].go);
		while (sem_wait(&th[0].go) != 0) {
		}
	}
	for (int i = 1; i != num_th; ++i) {
		th[0].vc.join(th[i].vc);
	}
	mc::state(global_hash());
	in_rt = 0;
	if (after) {
		after();
	}
	in_rt = 1;
	active = false;
	sh->finished = 1;
	_exit(0);
}

} // namespace

void run(
	const options& o,
	const std::vector<std::function<void()>>& threads,
	const std::function<void()>& before,
	const std::function<void()>& after
)
{
	if (threads.size() + 1 > size_t(max_threads)) {
		fprintf(stderr, "sched: too many threads\n");
		_exit(98);
	}
	if (!sh) {
		sh = static_cast<shared_area*>(
			mmap(nullptr, sizeof(shared_area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)
		);
	}
	sh->num_choices = 0;
	sh->abandoned = 0;
	sh->finished = 0;
	sh->deadlock = 0;
	sh->pruned = 0;
	sh->notes[0] = 0;
	opt = o;
	pid_t p = fork();
	if (p < 0) {
		perror("fork");
		_exit(98);
	}
	if (p == 0) {
		child(threads, before, after);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
	}
	if (mc::verbose) {
		mc::note("%.1900s%s", sh->notes, sh->deadlock ? " (deadlock)" : "");
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 99) {
		_exit(99); // a failed check, reported through the engine's shared memory
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !(sh->finished || sh->abandoned)) {
		if (WIFSIGNALED(st)) {
			fprintf(stderr, "process under test was killed by signal %d\n", WTERMSIG(st));
			_exit(86);
		}
		fprintf(stderr, "process under test ended with status %x\n", unsigned(st));
		_exit(WIFEXITED(st) && WEXITSTATUS(st) == 98 ? 98 : 86);
	}
	// follow the choices made there
	for (uint32_t i = 0; i != sh->num_choices; ++i) {
		mc::choose(sh->n[i]);
	}
	mc::tick();
}

void point()
{
	if (!monitored() || tid == 0) {
		return;
	}
	guard_rt g;
	remember(nullptr, 6, 0, 0, 0);
	step_point();
}

int self()
{
	return tid;
}

void label(const char* text)
{
	if (active && tid >= 0) {
		th[tid].label = text;
	}
}

uint64_t ops()
{
	return active && tid >= 0 ? th[tid].ops : 0;
}

untracked::untracked()
{
	if (active && tid >= 0) {
		++th[tid].untracked;
	}
}

untracked::~untracked()
{
	if (active && tid >= 0) {
		--th[tid].untracked;
	}
}

} // namespace mc::sched

using namespace mc::sched;

// ---- instrumentation callbacks

extern "C" {
void __tsan_init() {}

void __tsan_func_entry(void*)
{
	if (!opt.fine || !opt.entries || !monitored() || tid == 0) {
		return;
	}
	guard_rt g;
	th[tid].hist = mc::hasher{th[tid].hist}.add(uint64_t(7)).h;
	step_point();
}

void __tsan_func_exit() {}

void __tsan_vptr_update(void**, void*) {}

void __tsan_vptr_read(void**) {}

#define RW(n) \
	void __tsan_read##n(void* p) \
	{ \
		plain(p, n, false); \
	} \
	void __tsan_write##n(void* p) \
	{ \
		plain(p, n, true); \
	} \
	void __tsan_read_write##n(void* p) \
	{ \
		plain(p, n, true); \
	} \
	void __tsan_unaligned_read##n(void* p) \
	{ \
		plain(p, n, false); \
	} \
	void __tsan_unaligned_write##n(void* p) \
	{ \
		plain(p, n, true); \
	} \
	void __tsan_unaligned_read_write##n(void* p) \
	{ \
		plain(p, n, true); \
	} \
	void __tsan_volatile_read##n(void* p) \
	{ \
		plain(p, n, false); \
	} \
	void __tsan_volatile_write##n(void* p) \
	{ \
		plain(p, n, true); \
	}
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)

void __tsan_read_range(void* p, size_t n)
{
	plain(p, n, false);
}

void __tsan_write_range(void* p, size_t n)
{
	plain(p, n, true);
}

#define ATOMICS(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* p, int mo) \
	{ \
		return a_load<T>(p, mo); \
	} \
	void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) \
	{ \
		a_store<T>(p, v, mo); \
	} \
	T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) \
	{ \
		return a_rmw<T>(p, mo, 10, [&](T) { \
			return v; \
		}); \
	} \
	T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) \
	{ \
		return a_rmw<T>(p, mo, 11, [&](T o) { \
			return T(o + v); \
		}); \
	} \
	T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) \
	{ \
		return a_rmw<T>(p, mo, 12, [&](T o) { \
			return T(o - v); \
		}); \
	} \
	T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) \
	{ \
		return a_rmw<T>(p, mo, 13, [&](T o) { \
			return T(o & v); \
		}); \
	} \
	T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) \
	{ \
		return a_rmw<T>(p, mo, 14, [&](T o) { \
			return T(o | v); \
		}); \
	} \
	T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) \
	{ \
		return a_rmw<T>(p, mo, 15, [&](T o) { \
			return T(o ^ v); \
		}); \
	} \
	T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) \
	{ \
		return a_rmw<T>(p, mo, 16, [&](T o) { \
			return T(~(o & v)); \
		}); \
	} \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) \
	{ \
		return a_cas<T>(p, e, d, mo, fmo, false); \
	} \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) \
	{ \
		return a_cas<T>(p, e, d, mo, fmo, true); \
	} \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) \
	{ \
		a_cas<T>(p, &e, d, mo, fmo, false); \
		return e; \
	}
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo)
{
	a_fence(mo);
}

void __tsan_atomic_signal_fence(int) {}

// ---- memory functions, also called by not instrumented code

static void raw_copy(void* d, const void* s, size_t n)
{
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

static void raw_copy_back(void* d, const void* s, size_t n)
{
	d = static_cast<char*>(d) + n - 1;
	s = static_cast<const char*>(s) + n - 1;
	__asm__ volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

static void raw_set(void* d, int c, size_t n)
{
	__asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}

void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	plain(s, n, false);
	plain(d, n, true);
	raw_copy(d, s, n);
	return d;
}

void* __tsan_memmove(void* d, const void* s, size_t n)
{
	plain(s, n, false);
	plain(d, n, true);
	if (n != 0) {
		if (d < s || static_cast<const char*>(s) + n <= d) {
			raw_copy(d, s, n);
		} else {
			raw_copy_back(d, s, n);
		}
	}
	return d;
}

void* __tsan_memset(void* d, int c, size_t n)
{
	plain(d, n, true);
	raw_set(d, c, n);
	return d;
}

// Calls of these C library functions are redirected here by the linker (--wrap): they access memory on behalf of the caller.
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
	return __tsan_memcpy(d, s, n);
}

void* __wrap_memmove(void* d, const void* s, size_t n)
{
	return __tsan_memmove(d, s, n);
}

void* __wrap_memset(void* d, int c, size_t n)
{
	return __tsan_memset(d, c, n);
}

int __real_memcmp(const void* a, const void* b, size_t n);

int __wrap_memcmp(const void* a, const void* b, size_t n)
{
	plain(a, n, false);
	plain(b, n, false);
	return __real_memcmp(a, b, n);
}

size_t __real_strlen(const char* s);

size_t __wrap_strlen(const char* s)
{
	size_t n = __real_strlen(s);
	plain(s, n + 1, false);
	return n;
}

int __real_vsnprintf(char* b, size_t n, const char* f, va_list a);

int __wrap_vsnprintf(char* b, size_t n, const char* f, va_list a)
{
	int r = __real_vsnprintf(b, n, f, a);
	if (n != 0 && r >= 0) {
		plain(b, size_t(r) < n ? size_t(r) + 1 : n, true);
	}
	return r;
}

int __wrap_snprintf(char* b, size_t n, const char* f, ...)
{
	va_list a;
	va_start(a, f);
	int r = __wrap_vsnprintf(b, n, f, a);
	va_end(a);
	return r;
}

// the C library functions which work on hidden static data
static int hidden_static[8];
#define HIDDEN(index, type, name, params, args) \
	type __real_##name params; \
	type __wrap_##name params \
	{ \
		plain(&hidden_static[index], sizeof(int), true); \
		return __real_##name args; \
	}
HIDDEN(0, char*, strtok, (char* s, const char* d), (s, d))
HIDDEN(1, struct tm*, localtime, (const time_t* t), (t))
HIDDEN(1, struct tm*, gmtime, (const time_t* t), (t))
HIDDEN(1, char*, asctime, (const struct tm* t), (t))
HIDDEN(1, char*, ctime, (const time_t* t), (t))
HIDDEN(2, char*, setlocale, (int c, const char* l), (c, l))
HIDDEN(3, struct lconv*, localeconv, (), ())
HIDDEN(4, int, setenv, (const char* n, const char* v, int o), (n, v, o))
#undef HIDDEN

void* malloc(size_t n)
{
	void* p = __libc_malloc(n);
	if (p && monitored()) {
		guard_rt g;
		forget(uintptr_t(p), n);
	}
	return p;
}

void* calloc(size_t a, size_t b)
{
	void* p = __libc_calloc(a, b);
	if (p && monitored()) {
		guard_rt g;
		forget(uintptr_t(p), a * b);
	}
	return p;
}

size_t malloc_usable_size(void*) noexcept;

static void released(void* p)
{
	guard_rt g;
	size_t n = malloc_usable_size(p);
	// only the accesses which are known: whoever has touched the memory must have been ordered before its release
	auto a = uintptr_t(p);
	auto& me = th[tid];
	if (n <= (1u << 20)) {
		for (uintptr_t b = a & ~uintptr_t(7); b < a + n; b += 8) {
			auto it = shadow->find(b);
			if (it == shadow->end()) {
				continue;
			}
			for (auto& x : it->second) {
				if (x.t != tid && !me.vc.covers(x.t, x.clk) && opt.races) {
					char m[400];
					snprintf(
						m,
						sizeof(m),
						"memory is released by T%d in '%s' while %s by T%d in '%s' is not ordered before that",
						tid,
						me.label,
						x.write ? "write" : "read",
						int(x.t),
						x.label
					);
					violation(m);
				}
			}
		}
	}
	forget(a, n);
}

void free(void* p)
{
	if (p && monitored()) {
		released(p);
	}
	__libc_free(p);
}

void* realloc(void* p, size_t n)
{
	if (p && monitored()) {
		released(p);
	}
	void* r = __libc_realloc(p, n);
	if (r && monitored()) {
		guard_rt g;
		forget(uintptr_t(r), n);
	}
	return r;
}

// ---- static initialisation

int __cxa_guard_acquire(uint64_t* gv)
{
	auto* b = reinterpret_cast<uint8_t*>(gv);
	if (!monitored() || tid == 0) {
		if (b[0]) {
			return 0;
		}
		b[1] = 1;
		return 1;
	}
	guard_rt g;
	step_point();
	for (;;) {
		if (b[0]) {
			th[tid].vc.join(msg_of(uintptr_t(gv), 1));
			remember(gv, 20, 1, 0, 0);
			return 0;
		}
		if (!b[1]) {
			b[1] = 1;
			remember(gv, 21, 1, 0, 0);
			return 1;
		}
		block(why::guard, gv);
	}
}

static void guard_done(uint64_t* gv, uint8_t v)
{
	auto* b = reinterpret_cast<uint8_t*>(gv);
	if (!monitored() || tid == 0) {
		b[0] = v;
		b[1] = 0;
		return;
	}
	guard_rt g;
	if (v) {
		publish(uintptr_t(gv), 1, __ATOMIC_RELEASE, false);
		advance();
	}
	b[0] = v;
	b[1] = 0;
	++mods;
	++mods_by[tid];
	remember(gv, 22, 1, 0, 0);
	wake(why::guard, gv, max_threads);
}

void __cxa_guard_release(uint64_t* gv)
{
	guard_done(gv, 1);
}

void __cxa_guard_abort(uint64_t* gv)
{
	guard_done(gv, 0);
}

// ---- blocking primitives

using mutex_fn = int (*)(pthread_mutex_t*);

static mutex_fn real_mutex(const char* name)
{
	return reinterpret_cast<mutex_fn>(dlsym(RTLD_NEXT, name));
}

int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	static mutex_fn real = real_mutex("pthread_mutex_lock");
	static mutex_fn real_try = real_mutex("pthread_mutex_trylock");
	if (!monitored() || tid == 0) {
		return real(m);
	}
	guard_rt g;
	step_point();
	for (;;) {
		int r = real_try(m);
		if (r != EBUSY) {
			th[tid].vc.join(msg_of(uintptr_t(m), 1));
			remember(m, 23, 1, 0, 0);
			return r;
		}
		block(why::mutex, m);
	}
}

int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	static mutex_fn real_try = real_mutex("pthread_mutex_trylock");
	if (!monitored() || tid == 0) {
		return real_try(m);
	}
	guard_rt g;
	step_point();
	int r = real_try(m);
	if (r == 0) {
		th[tid].vc.join(msg_of(uintptr_t(m), 1));
	}
	remember(m, 24, 1, uint64_t(r), 0);
	return r;
}

int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	static mutex_fn real = real_mutex("pthread_mutex_unlock");
	if (!monitored() || tid == 0) {
		return real(m);
	}
	guard_rt g;
	step_point();
	publish(uintptr_t(m), 1, __ATOMIC_RELEASE, true);
	advance();
	int r = real(m);
	++mods;
	++mods_by[tid];
	remember(m, 25, 1, 0, 0);
	wake(why::mutex, m, max_threads);
	return r;
}

static void yield_point()
{
	guard_rt g;
	if (th[tid].blocked != why::spin) {
		// polling something which nobody has changed is waiting, yielding or not
		th[tid].blocked = why::yield;
	}
	step_point();
}

// time flies while threads are waiting for each other
int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
	static auto real = (int (*)(clockid_t, struct timespec*))(dlsym(RTLD_NEXT, "clock_gettime"));
	int r = real(id, t);
	static int64_t passed = 0;
	if (monitored() && tid != 0 && opt.clock_jump_ms != 0) {
		passed += opt.clock_jump_ms;
		t->tv_sec += time_t(passed / 1000);
		t->tv_nsec += long(passed % 1000) * 1000000;
		if (t->tv_nsec >= 1000000000) {
			t->tv_nsec -= 1000000000;
			++t->tv_sec;
		}
	}
	return r;
}

int sched_yield() noexcept
{
	if (!monitored() || tid == 0) {
		return 0;
	}
	yield_point();
	return 0;
}

int nanosleep(const struct timespec* t, struct timespec* r)
{
	if (!monitored() || tid == 0) {
		return clock_nanosleep(CLOCK_REALTIME, 0, t, r);
	}
	yield_point();
	return 0;
}

int usleep(useconds_t u)
{
	if (!monitored() || tid == 0) {
		struct timespec t = {time_t(u / 1000000), long(u % 1000000) * 1000};
		return clock_nanosleep(CLOCK_REALTIME, 0, &t, nullptr);
	}
	yield_point();
	return 0;
}

// waiting on atomics comes here
long syscall(long n, ...) noexcept
{
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (auto& x : a) {
		x = va_arg(ap, long);
	}
	va_end(ap);
	if (n == SYS_futex && monitored() && tid > 0) {
		int op = int(a[1]) & FUTEX_CMD_MASK;
		if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
			guard_rt g;
			step_point();
			if (__atomic_load_n(reinterpret_cast<int*>(a[0]), __ATOMIC_SEQ_CST) != int(a[2])) {
				remember(reinterpret_cast<void*>(a[0]), 27, 1, 0, 0);
				errno = EAGAIN;
				return -1;
			}
			remember(reinterpret_cast<void*>(a[0]), 26, 1, 0, 0);
			block(why::futex, reinterpret_cast<void*>(a[0]));
			return 0;
		}
		if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
			guard_rt g;
			step_point();
			remember(reinterpret_cast<void*>(a[0]), 28, 1, 0, 0);
			wake(why::futex, reinterpret_cast<void*>(a[0]), int(a[2]));
			return 0;
		}
	}
	register long r10 __asm__("r10") = a[3];
	register long r8 __asm__("r8") = a[4];
	register long r9 __asm__("r9") = a[5];
	long ret;
	__asm__ volatile("syscall"
					 : "=a"(ret)
					 : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9)
					 : "rcx", "r11", "memory");
	if (ret < 0 && ret > -4096) {
		errno = int(-ret);
		return -1;
	}
	return ret;
}
} // extern "C"
